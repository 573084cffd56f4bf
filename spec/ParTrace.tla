------------------------------- MODULE ParTrace -------------------------------
(* A parallel loop over [b, e) is any schedule that runs the body once per     *)
(* index: the multiset of visits, not their order, is the observable state.    *)
(* A tiled operation is a partition of the elements into slices, each handled  *)
(* by its own context, whose results are put back in the order of the elements.*)
EXTENDS RingSem, FiniteSets, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)

Visits(e, lo, hi) == \* the counter is 1 on [lo, hi) and 0 elsewhere, as runs
  \A i \in DOMAIN e.runs : LET r == e.runs[i] IN
    IF r[3] = 1 THEN lo <= r[1] /\ r[2] <= hi
    ELSE r[3] = 0 /\ (r[2] <= lo \/ r[1] >= hi \/ lo >= hi)
\* a body that throws: the exception is reported, no index runs twice, none outside
Once(e, lo, hi) == \A i \in DOMAIN e.runs : LET r == e.runs[i] IN r[3] \in {0, 1} /\ (r[3] = 1 => lo <= r[1] /\ r[2] <= hi)
Loop(e) == /\ e.outside = 0 /\ e.empty = 0
           /\ IF e.bomb = -1000000000 THEN e.caught = 0 /\ Visits(e, e.b, e.e)
              ELSE /\ e.caught = 1 /\ Once(e, e.b, e.e)
                   /\ \E i \in DOMAIN e.runs : e.runs[i][3] = 1 /\ e.runs[i][1] <= e.bomb /\ e.bomb < e.runs[i][2]

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Tile(e) == LET n == Prod(e.sh)
               seen == FlattenSeq([i \in DOMAIN e.parts |-> e.parts[i].x])
               seey == FlattenSeq([i \in DOMAIN e.parts |-> e.parts[i].y])
           IN /\ ~e.threw /\ e.osh = e.sh
              /\ Len(seen) = n /\ {seen[i] : i \in DOMAIN seen} = 0..(n - 1)
              /\ \A i \in DOMAIN seen : seey[i] = IF e.two THEN 1000000 + seen[i] ELSE 0
              /\ Cardinality({e.parts[i].id : i \in DOMAIN e.parts}) = Len(e.parts)
              /\ e.out = [i \in 1..n |-> 3 * (i - 1) + (IF e.two THEN 1000000 + (i - 1) ELSE 0) + e.extra]

\* the results at position q of the pattern: the allowed set
Allowed(e, q) == LET x == e.a[q] y == e.b[q] k == e.k IN
  CASE e.f = "mul" -> {WMul(x, y)}
    [] e.f = "square" -> {WMul(x, x)}
    [] e.f \in {"a2b", "b2a"} -> {x}
    [] e.f = "and" -> {WAnd(x, y)}
    [] e.f = "msb" -> {Bool(Len(x), WMsb(x) = 1)}
    [] e.f = "mul1" -> {IF WBit(y, 0) = 1 THEN x ELSE WZero(Len(x))}
    [] e.f = "trunc" -> LET t == WSar(x, e.bits) IN {t, WAdd(t, WOne(Len(x))), WSub(t, WOne(Len(x)))}
Big(e) == LET n == Prod(e.sh) IN
  /\ e.ok
  /\ \A r \in DOMAIN e.res :
     /\ e.osh[r] = e.sh
     /\ \A q \in 1..7 : /\ \A j \in DOMAIN e.res[r][q] : e.res[r][q][j][1] \in Allowed(e, q)
                        /\ FoldLeft(LAMBDA s, p : s + p[2], 0, e.res[r][q]) = (n + 7 - q) \div 7

Ok(e) ==
  CASE e.op = "loop" -> Loop(e)
    [] e.op = "nested" -> Visits(e, 0, e.n * e.m)
    [] e.op = "tile" -> Tile(e)
    [] e.op = "big" -> Big(e)
    [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].op>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
