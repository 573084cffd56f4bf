---------------------------- MODULE RingMachine ----------------------------
(* The secure ring machine.  A state is a file of registers, each holding a   *)
(* tensor of k-bit words; a step applies one operation to registers and puts  *)
(* its result into a fresh one.  What the parties hold of a register is a      *)
(* sharing: an abstraction function (Recombine) maps the pieces of all parties *)
(* to the word they share, and WellFormed says when they are a sharing at all. *)
(* CHECK = "open": every opening yields the register (C01).                    *)
(* CHECK = "share": the pieces are a well-formed sharing of the register (C02).*)
EXTENDS Circuits, RingSem, TLC, Json, IOUtils
CONSTANT CHECK
VARIABLES l, reg, world
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* ---- what each operation does to one element: the set of allowed results ------------------
TruncSet(e, x) == LET t == WSar(x, e.bit) IN {t, WAdd(t, WOne(Len(x))), WSub(t, WOne(Len(x)))}
IsOne(p) == WBit(p, 0) = 1
Elem(e, a, i, kind) ==        \* a = operand words of element i
  LET x == a[1] w == Len(x) IN
  CASE e.op = "id" -> {x}
    [] e.op \in {"add", "sub", "mul", "and", "xor", "or", "equal", "less"} -> {Bin(e.op, a[1], a[2])}
    [] e.op \in {"neg", "not", "msb", "lshift", "rshift", "arshift", "bitrev"} -> {Un(e.op, x, e, i)}
    [] e.op = "square" -> {WMul(x, x)}
    [] e.op = "trunc" -> TruncSet(e, x)
    [] e.op = "mux" -> {IF IsOne(x) THEN a[2] ELSE a[3]}
    [] e.op = "sign" -> {IF WMsb(x) = 1 THEN WOnes(w) ELSE WOne(w)}

Plain == {"id", "add", "sub", "mul", "and", "xor", "or", "equal", "less", "neg", "not", "msb", "lshift", "rshift", "arshift",
          "bitrev", "square", "trunc", "mux", "sign"}
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
\* is the tensor y (of shape sh) an allowed result of step e?
Result(e, y, sh) ==
  LET kb == world.k \div 8 IN
  CASE e.op \in Plain ->
         LET X == [j \in DOMAIN e.x |-> reg[e.x[j]]] IN
         /\ sh = X[1].sh /\ Len(y) = Len(X[1].v)
         /\ \A i \in DOMAIN y : y[i] \in Elem(e, [j \in DOMAIN X |-> X[j].v[i]], i, X[1].kind)
    [] e.op \in {"bitintl", "bitdeintl"} ->
         LET X == reg[e.x[1]] IN
         /\ sh = X.sh /\ Len(y) = Len(X.v)
         /\ \A i \in DOMAIN y : y[i] = (IF e.op = "bitintl" THEN WIntl(X.v[i], e.stride, Log2Ceil(X.nb)) ELSE WDeintl(X.v[i], e.stride, Log2Ceil(X.nb)))
    [] e.op = "mmul" ->
         LET A == reg[e.x[1]] B == reg[e.x[2]] M == A.sh[1] K == A.sh[2] N == B.sh[2] IN
         /\ sh = <<M, N>>
         /\ y = MatMul(kb, M, N, K, LAMBDA i, t : A.v[(i - 1) * K + t], LAMBDA t, j : B.v[(t - 1) * N + j])
    [] e.op = "in" -> y = e.v
    [] e.op = "make" -> y = [i \in 1..e.num |-> e.v]
    [] e.op = "rand" -> Len(y) = e.num /\ \A i \in DOMAIN y : y[i] = WLow(y[i], e.w)
    [] OTHER -> FALSE

\* ---- the sharings -----------------------------------------------------------------------
kB == world.k \div 8
Parties == 1..world.n
Piece(r, i, from, to) == SubSeq(r[i], from, to)
Nxt(p) == (p % world.n) + 1
SumW(w, s) == WSumAll(w, s)

\* spdz2k: words of 2k bits; an arithmetic element is value, mac; a boolean one is k pairs
SpVal(r, i, q) == SubSeq(r[i], q * 4 * kB + 1, q * 4 * kB + 2 * kB)
SpMac(r, i, q) == SubSeq(r[i], q * 4 * kB + 2 * kB + 1, (q + 1) * 4 * kB)
SpKey == SumW(2 * kB, world.keys)
SpSum(o, i, q) == SumW(2 * kB, [p \in Parties |-> SpVal(o.raw[p], i, q)])
SpOk(o, i, q) == SumW(2 * kB, [p \in Parties |-> SpMac(o.raw[p], i, q)]) = WMul(SpSum(o, i, q), SpKey)

Pt(o) == Len(o.raw[1][1]) \div 2       \* bytes of one piece of a replicated boolean element

Recombine(o, i) ==
  LET P == world.proto r == o.raw IN
  CASE o.kind \in {"P", "S"} -> r[1][i]
    [] o.kind = "V" -> r[o.own][i]
    [] o.kind = "A" /\ P \in {"SEMI2K", "SECURENN"} -> SumW(kB, [p \in Parties |-> r[p][i]])
    [] o.kind = "B" /\ P \in {"SEMI2K", "SECURENN"} -> WXorAll(kB, [p \in Parties |-> r[p][i]])
    [] o.kind = "A" /\ P = "ABY3" -> SumW(kB, [p \in Parties |-> SubSeq(r[p][i], 1, kB)])
    [] o.kind = "B" /\ P = "ABY3" -> WFit(kB, WXorAll(Pt(o), [p \in Parties |-> SubSeq(r[p][i], 1, Pt(o))]), FALSE)
    [] o.kind = "A" /\ P = "SWIFT" -> WSub(WSub(SubSeq(r[2][i], kB + 1, 2 * kB), SubSeq(r[1][i], 1, kB)), SubSeq(r[1][i], kB + 1, 2 * kB))
    [] o.kind = "B" /\ P = "SWIFT" -> WXor(WXor(SubSeq(r[2][i], kB + 1, 2 * kB), SubSeq(r[1][i], 1, kB)), SubSeq(r[1][i], kB + 1, 2 * kB))
    [] o.kind = "A" /\ P = "SPDZ2K" -> SubSeq(SpSum(o, i, 0), 1, kB)
    [] o.kind = "B" /\ P = "SPDZ2K" -> WFromBits(kB, LAMBDA q : IF q < o.nb THEN WBit(SpSum(o, i, q), 0) ELSE 0)

Third(r, i) == SubSeq(r[i], 2 * kB + 1, 3 * kB)
WellFormedAt(o, i) ==
  LET P == world.proto r == o.raw IN
  CASE o.kind \in {"P", "S"} -> \A p \in Parties : r[p][i] = r[1][i]
    [] o.kind = "V" -> \* only the owner holds the data (a word of 16 bits or more is no coincidence)
         LET v == r[o.own][i] IN \A p \in Parties \ {o.own} : r[p][i] # v \/ WLow(v, 16) = v \/ WLow(WNot(v), 16) = WNot(v)
    [] o.kind = "A" /\ P = "SEMI2K" -> TRUE
    [] o.kind = "A" /\ P = "SECURENN" -> r[3][i] = WZero(kB)          \* the third party only assists
    [] o.kind = "A" /\ P = "ABY3" -> \A p \in Parties : SubSeq(r[p][i], kB + 1, 2 * kB) = SubSeq(r[Nxt(p)][i], 1, kB)
    [] o.kind = "B" /\ P = "ABY3" -> \A p \in Parties : SubSeq(r[p][i], Pt(o) + 1, 2 * Pt(o)) = SubSeq(r[Nxt(p)][i], 1, Pt(o))
    [] o.kind \in {"A", "B"} /\ P = "SWIFT" ->
         /\ SubSeq(r[1][i], 1, kB) = SubSeq(r[2][i], 1, kB)                        \* alpha1
         /\ SubSeq(r[1][i], kB + 1, 2 * kB) = SubSeq(r[3][i], 1, kB)               \* alpha2
         /\ SubSeq(r[2][i], kB + 1, 2 * kB) = SubSeq(r[3][i], kB + 1, 2 * kB)      \* beta
         /\ Third(r[2], i) = Third(r[3], i)                                        \* gamma
         /\ Third(r[1], i) = (IF o.kind = "A" THEN WAdd(SubSeq(r[2][i], kB + 1, 2 * kB), Third(r[2], i))
                                              ELSE WXor(SubSeq(r[2][i], kB + 1, 2 * kB), Third(r[2], i)))
    [] o.kind = "A" /\ P = "SPDZ2K" -> ~o.mac \/ SpOk(o, i, 0)
    [] o.kind = "B" /\ P = "SPDZ2K" -> \A q \in 0..(o.nb - 1) : SpOk(o, i, q)
    [] OTHER -> TRUE
WellFormed(o) ==
  /\ o.same /\ \A p \in Parties : o.ty[p] = o.ty[1] /\ Len(o.raw[p]) = Prod(o.sh)
  /\ o.kind \in {"P", "V", "A", "B"} \cup (IF world.proto = "REF2K" THEN {"S"} ELSE {})
  /\ (o.kind = "V" => o.own \in Parties)
  /\ \A i \in DOMAIN o.raw[1] : WellFormedAt(o, i)
  /\ (o.kind = "B" => \A i \in DOMAIN o.raw[1] : LET x == Recombine(o, i) IN x = WLow(x, o.nb))

Shared(o) == [i \in DOMAIN o.raw[1] |-> Recombine(o, i)]
Opened(o) == o.open[1]

Step(e) ==
  /\ e.ok
  /\ IF CHECK = "open" THEN \A p \in Parties : e.open[p] = e.open[1] ELSE WellFormed(e)
  /\ Result(e, IF CHECK = "open" THEN Opened(e) ELSE Shared(e), e.sh)
Fin(e) == CHECK = "open" \/ (WellFormed(e) /\ Shared(e) = reg[e.d].v /\ e.kind = reg[e.d].kind /\ e.nb = reg[e.d].nb)

\* The known finding on SECURENN: its sign of x is bit k-2 of x, which is the sign only when |x| < 2^(k-2); equality is decided by two such signs.
Low(x) == WBit(x, world.k - 2) = 1
KnownElem(e, a) == LET w == Len(a[1]) IN
  CASE e.op = "msb" -> Bool(w, Low(a[1]))
    [] e.op = "less" -> Bool(w, Low(WSub(a[1], a[2])))
    [] e.op = "equal" -> Bool(w, WLow(WSub(a[1], a[2]), world.k - 1) = WZero(w))
    [] e.op = "sign" -> IF Low(a[1]) THEN WOnes(w) ELSE WOne(w)
Known(e) ==
  /\ world.proto = "SECURENN" /\ e.op \in {"msb", "less", "sign", "equal"} /\ e.ok
  /\ IF CHECK = "open" THEN \A p \in Parties : e.open[p] = e.open[1] ELSE WellFormed(e)
  /\ LET X == [j \in DOMAIN e.x |-> reg[e.x[j]]] y == (IF CHECK = "open" THEN Opened(e) ELSE Shared(e)) IN
     e.sh = X[1].sh /\ \A i \in DOMAIN y : y[i] = KnownElem(e, [j \in DOMAIN X |-> X[j].v[i]])

Ok(e) == CASE e.op = "new" -> TRUE [] e.op = "fin" -> Fin(e) [] OTHER -> Step(e)
\* Next register file.  A rejected step leaves its wrong result there, so that later steps are judged on their own operands.
NextReg(e) == IF e.op = "new" THEN <<>>
              ELSE IF e.op = "fin" \/ ~e.ok THEN reg
              ELSE reg @@ (e.d :> [v |-> IF CHECK = "open" THEN Opened(e) ELSE Shared(e), sh |-> e.sh, kind |-> e.kind, nb |-> e.nb])
Init == l = 1 /\ reg = <<>> /\ world = [proto |-> "", n |-> 0, k |-> 0, keys |-> <<>>]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ (IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", l, e.op, IF e.op \notin {"new", "fin"} /\ Known(e) THEN "key=securenn-msb" ELSE "">>))
           /\ world' = (IF e.op = "new" THEN [proto |-> e.proto, n |-> e.n, k |-> e.k, keys |-> e.keys] ELSE world)
           /\ reg' = NextReg(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, reg, world>>
=============================================================================
