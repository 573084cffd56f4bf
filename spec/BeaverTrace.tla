---------------------------- MODULE BeaverTrace ----------------------------
(* Correlated randomness of n parties.  State: the pieces handed out under a  *)
(* replay descriptor (descs), and every eight-byte group of fresh randomness   *)
(* each party has received so far (seen).  A request returns pieces that        *)
(*   - satisfy the defining relation of its kind,                               *)
(*   - repeat the recorded pieces where a descriptor is replayed (transposed    *)
(*     if asked for), and                                                       *)
(*   - are otherwise new: they share no group with earlier pieces.              *)
(* Products computed from them, with or without cached operands, are exact.    *)
EXTENDS RingSem, Json, IOUtils, TLC, FiniteSets
VARIABLES l, n, descs, seen
vars == <<l, n, descs, seen>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

Exp(es) == IF es = 4 THEN 31 ELSE IF es = 8 THEN 61 ELSE 127
\* e.out[i][p] is the i-th piece of party p, a list of words
Add(e, s) == IF e.gf THEN FoldLeft(LAMBDA a, b : GfAdd(a, b, Exp(e.es)), WZero(e.es), s) ELSE WSumAll(e.es, s)
Mul(e, a, b) == IF e.gf THEN GfMul(a, b, Exp(e.es)) ELSE WMul(a, b)
Col(e, i, j) == [p \in 1..n |-> e.out[i][p][j]]
S(e, i, j) == Add(e, Col(e, i, j))
X(e, i, j) == WXorAll(Len(e.out[i][1][j]), Col(e, i, j))
Size(e, i) == Len(e.out[i][1])
All(e, P(_)) == \A j \in 1..Size(e, 1) : P(j)
Even(e, i, len) == \A p \in 1..n : Len(e.out[i][p]) = len
Perm(f, len) == Len(f) = len /\ {f[i] : i \in DOMAIN f} = 0..(len - 1)
Related(e) ==
  CASE e.kind = "mul" -> /\ \A i \in 1..3 : Even(e, i, e.size)
                         /\ All(e, LAMBDA j : Mul(e, S(e, 1, j), S(e, 2, j)) = S(e, 3, j))
    [] e.kind = "mulpriv" -> \* the factors are the first pieces of the two parties themselves
                         /\ \A i \in 1..2 : Even(e, i, e.size)
                         /\ All(e, LAMBDA j : FoldLeft(LAMBDA a, b : Mul(e, a, b), WOne(e.es), Col(e, 1, j)) = S(e, 2, j))
    [] e.kind = "square" -> /\ \A i \in 1..2 : Even(e, i, e.size)
                            /\ All(e, LAMBDA j : WMul(S(e, 1, j), S(e, 1, j)) = S(e, 2, j))
    [] e.kind = "and" -> /\ \A i \in 1..3 : Even(e, i, e.size)
                         /\ All(e, LAMBDA j : WAnd(X(e, 1, j), X(e, 2, j)) = X(e, 3, j))
    [] e.kind = "dot" -> /\ Even(e, 1, e.m * e.k) /\ Even(e, 2, e.k * e.n) /\ Even(e, 3, e.m * e.n)
                         /\ LET A == [j \in 1..(e.m * e.k) |-> S(e, 1, j)]
                                B == [j \in 1..(e.k * e.n) |-> S(e, 2, j)]
                            IN MatMul(e.es, e.m, e.n, e.k, LAMBDA i, t : A[(i - 1) * e.k + t], LAMBDA t, j : B[(t - 1) * e.n + j])
                               = [j \in 1..(e.m * e.n) |-> S(e, 3, j)]
    [] e.kind = "trunc" -> /\ \A i \in 1..2 : Even(e, i, e.size)
                           /\ All(e, LAMBDA j : WSar(S(e, 1, j), e.bits) = S(e, 2, j))
    [] e.kind = "truncpr" -> /\ \A i \in 1..3 : Even(e, i, e.size)
                             /\ All(e, LAMBDA j : LET r == S(e, 1, j) IN
                                     /\ S(e, 2, j) = WShr(WShl(r, 1), e.bits + 1)
                                     /\ S(e, 3, j) = WNat(e.es, WMsb(r)))
    [] e.kind = "randbit" -> /\ Even(e, 1, e.size)
                             /\ All(e, LAMBDA j : S(e, 1, j) \in {WZero(e.es), WOne(e.es)})
    [] e.kind = "eqz" -> /\ \A i \in 1..2 : Even(e, i, e.size)
                         /\ All(e, LAMBDA j : S(e, 1, j) = X(e, 2, j))
    [] e.kind = "perm" -> /\ \A i \in 1..2 : Even(e, i, e.size)
                          /\ \A p \in 1..n : IF p = e.rank THEN Perm(e.pi[p], e.size) ELSE e.pi[p] = <<>>
                          /\ All(e, LAMBDA j : S(e, 1, j) = S(e, 2, e.pi[e.rank][j] + 1))
    [] e.kind = "permsample" -> All(e, LAMBDA j : S(e, 1, j) = S(e, 2, j))
    [] OTHER -> FALSE

\* operand i (1 or 2): mode 0 no descriptor, 1 first use, 2 replay, 3 replay transposed; as an r x c matrix
Transposed(w, r, c) == [j \in 1..(r * c) |-> w[((j - 1) % c) * r + ((j - 1) \div c) + 1]]
Opd(e, i) == e.opds[i]
Replayed(e) ==
  \A i \in DOMAIN e.opds :
    LET o == Opd(e, i) IN
    o.mode >= 2 => \A p \in 1..n : e.out[i][p] = IF o.mode = 2 THEN descs[o.id][p] ELSE Transposed(descs[o.id][p], o.r, o.c)
Recorded(e) == FoldLeft(LAMBDA d, i : IF Opd(e, i).mode = 1 THEN (Opd(e, i).id :> e.out[i]) @@ d ELSE d, descs, [i \in DOMAIN e.opds |-> i])

\* eight-byte groups of the fresh pieces of one party
IsFresh(e, i) == ~(i \in DOMAIN e.opds) \/ Opd(e, i).mode < 2
Flat(ws) == FoldLeft(LAMBDA a, w : a \o w, <<>>, ws)
Groups(ws) == LET b == Flat(ws) IN [g \in 1..(Len(b) \div 8) |-> SubSeq(b, 8 * g - 7, 8 * g)]
FreshOf(e, p) == FoldLeft(LAMBDA a, i : IF IsFresh(e, i) THEN a \o Groups(e.out[i][p]) ELSE a, <<>>, [i \in DOMAIN e.out |-> i])
Fresh(e) == [p \in 1..n |-> FreshOf(e, p)]
\* pieces read through a few sampled positions carry no groups
IsNew(e, f) == e.sampled \/ \A p \in 1..n : LET s == {f[p][g] : g \in DOMAIN f[p]} IN Cardinality(s) = Len(f[p]) /\ s \cap seen[p] = {}
Seen(e, f) == IF e.sampled THEN seen ELSE [p \in 1..n |-> seen[p] \cup {f[p][g] : g \in DOMAIN f[p]}]

\* arithmetic on secrets whose operands may be cached
Arith(e) ==
  LET r == CASE e.kind = "mul" -> [j \in 1..Len(e.x) |-> WMul(e.x[j], e.y[j])]
             [] e.kind = "square" -> [j \in 1..Len(e.x) |-> WMul(e.x[j], e.x[j])]
             [] e.kind = "mmul" -> MatMul(e.es, e.m, e.n, e.k, LAMBDA i, t : e.x[(i - 1) * e.k + t], LAMBDA t, j : e.y[(t - 1) * e.n + j])
  IN \A p \in 1..n : e.z[p] = r
Step(e) ==
  CASE e.op = "start" -> <<TRUE, "", e.n, <<>>, [p \in 1..e.n |-> {}]>>
    [] e.op = "req" -> LET f == Fresh(e)
                           why == IF ~e.ok THEN "threw" ELSE IF ~Related(e) THEN "relation" ELSE IF ~Replayed(e) THEN "replay" ELSE IF ~IsNew(e, f) THEN "reused" ELSE ""
                       IN <<why = "", why, n, IF e.ok THEN Recorded(e) ELSE descs, IF e.ok THEN Seen(e, f) ELSE seen>>
    [] e.op = "arith" -> LET good == e.ok /\ Arith(e) IN <<good, IF e.ok THEN "product" ELSE "threw", n, descs, seen>>
    [] OTHER -> <<FALSE, "event", n, descs, seen>>

Init == l = 1 /\ n = 1 /\ descs = <<>> /\ seen = <<{}>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  s == Step(e)
           IN /\ (IF s[1] THEN TRUE ELSE PrintT(<<"REJECT", l, e.op, e.kind, s[2]>>))
              /\ n' = s[3] /\ descs' = s[4] /\ seen' = s[5]
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
