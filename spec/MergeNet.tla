------------------------------ MODULE MergeNet ------------------------------
(***************************************************************************)
(* The odd-even merge network that hal::simple_sort1d runs on secret rows. *)
(* State: the rows, the stage (gap) and the layer (step).  Every layer is  *)
(* one transition: its compare-exchanges act on disjoint rows.  By the 0-1 *)
(* principle the network sorts every input when it sorts every 0/1 input.  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANT MaxN

VARIABLES n, row, gap, step

vars == <<n, row, gap, step>>

Pairs(N, g, s) ==
  {<<a, a + s>> : a \in {a \in 0 .. N - 1 :
      /\ a + s < N
      /\ a >= s % g
      /\ ((a - (s % g)) % (2 * s)) < s
      /\ a \div (2 * g) = (a + s) \div (2 * g)}}

Init == /\ n \in 1 .. MaxN
        /\ row \in [0 .. n - 1 -> {0, 1}]
        /\ gap = 1
        /\ step = 1

Exchange(r, P) ==
  [i \in DOMAIN r |->
     IF \E p \in P : p[1] = i
       THEN LET p == CHOOSE q \in P : q[1] = i IN IF r[p[1]] > r[p[2]] THEN r[p[2]] ELSE r[p[1]]
     ELSE IF \E p \in P : p[2] = i
       THEN LET p == CHOOSE q \in P : q[2] = i IN IF r[p[1]] > r[p[2]] THEN r[p[1]] ELSE r[p[2]]
     ELSE r[i]]

Layer == /\ gap < n
         /\ row' = Exchange(row, Pairs(n, gap, step))
         /\ IF step > 1 THEN gap' = gap /\ step' = step \div 2
                        ELSE gap' = 2 * gap /\ step' = 2 * gap
         /\ UNCHANGED n

Done == gap >= n /\ UNCHANGED vars

Next == Layer \/ Done

Spec == Init /\ [][Next]_vars

Ones(r, lo, hi) == Cardinality({i \in lo .. hi : i \in DOMAIN r /\ r[i] = 1})

\* The pairs of a layer touch every row at most once: they commute and can be run as one vector operation.
Disjoint == gap < n =>
  LET P == Pairs(n, gap, step) IN
  \A p \in P : \A q \in P : p # q => {p[1], p[2]} \cap {q[1], q[2]} = {}

\* Entering the stage of gap g, every block of g rows is sorted.
BlocksSorted == (gap < n /\ step = gap) =>
  \A i \in 0 .. n - 2 : (i \div gap = (i + 1) \div gap) => row[i] <= row[i + 1]

Sorted == gap >= n => \A i \in 0 .. n - 2 : row[i] <= row[i + 1]

\* A layer permutes the rows.
Permutes == [][Ones(row', 0, n - 1) = Ones(row, 0, n - 1)]_vars
=============================================================================
