------------------------------ MODULE SortTrace ------------------------------
(* Sorting, shuffling, permuting, order statistics and routing networks.      *)
(* A row is what stands at one place of all columns; elements are given by    *)
(* their rank among the possible values, so integers order them.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

Len1(cols) == IF cols = <<>> THEN 0 ELSE Len(cols[1])
Row(cols, i) == [c \in 1 .. Len(cols) |-> cols[c][i]]
Rows(cols) == [i \in 1 .. Len1(cols) |-> Row(cols, i)]
Count(s, x) == Cardinality({i \in 1 .. Len(s) : s[i] = x})
Rearranged(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Count(a, a[i]) = Count(b, a[i])   \* b is a along a bijection
Even(cols, n) == \A c \in 1 .. Len(cols) : Len(cols[c]) = n
RECURSIVE Before(_, _, _, _)
Before(x, y, j, keys) ==      \* x may not come after y: less in the first key in which they differ
  IF j > keys THEN FALSE ELSE IF x[j] = y[j] THEN Before(x, y, j + 1, keys) ELSE x[j] < y[j]
Strictly(x, y, keys, desc) == IF desc THEN Before(y, x, 1, keys) ELSE Before(x, y, 1, keys)
Tie(x, y, keys) == \A j \in 1 .. keys : x[j] = y[j]
IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1 .. n} = 0 .. n - 1

Whole(e) == e.ok /\ e.same /\ e.form /\ Len(e.in) = Len(e.out) /\ Even(e.in, Len1(e.in)) /\ Even(e.out, Len1(e.in))
Sort(e) ==
  /\ Whole(e)
  /\ LET a == Rows(e.in) b == Rows(e.out)
     IN  /\ Rearranged(a, b)
         /\ \A i \in 1 .. Len(b) - 1 : ~Strictly(b[i + 1], b[i], e.keys, e.desc)
         /\ e.stable => \A i \in 1 .. Len(b) - 1 : Tie(b[i], b[i + 1], e.keys) => b[i][e.id] < b[i + 1][e.id]
Shuffle(e) == Whole(e) /\ Rearranged(Rows(e.in), Rows(e.out))
Permuted(p, x) == [i \in 1 .. Len(x) |-> x[p[i] + 1]]
Placed(p, x, y) == Len(y) = Len(x) /\ \A i \in 1 .. Len(x) : y[p[i] + 1] = x[i]
Perm(e) == Whole(e) /\ \A c \in 1 .. Len(e.in) : e.out[c] = Permuted(e.perm, e.in[c])
InvPerm(e) == Whole(e) /\ \A c \in 1 .. Len(e.in) : Placed(e.perm, e.in[c], e.out[c])
Round(e) == Whole(e) /\ e.out = e.in
(* a permutation that takes element i to its place in sorted order, ties in order of appearance *)
GenPerm(e) ==
  LET n == Len1(e.in) a == Rows(e.in) k == Len(e.in)
  IN  /\ e.ok /\ e.same /\ IsPerm(e.out, n)
      /\ \A i, j \in 1 .. n : (Strictly(a[i], a[j], k, e.desc) \/ (Tie(a[i], a[j], k) /\ i < j)) => e.out[i] < e.out[j]
(* the `hi` largest (smallest) elements, of which the one at place `lo` is the lo-th in order *)
TopK(e) ==
  LET n == Len(e.in) Better(x, y) == IF e.largest THEN x > y ELSE x < y
      In(i) == Cardinality({j \in 1 .. n : Better(e.in[j], e.in[i])})           \* elements before it
      all == [r \in 1 .. n |-> CHOOSE v \in {e.in[i] : i \in 1 .. n} :         \* the r-th element in order
                Cardinality({j \in 1 .. n : Better(e.in[j], v)}) < r /\ Cardinality({j \in 1 .. n : ~Better(v, e.in[j])}) >= r]
  IN  /\ e.ok /\ e.same /\ e.count = (IF e.values THEN 1 ELSE 2) /\ Len(e.out) = e.hi
      /\ Rearranged(SubSeq(all, 1, e.hi), e.out)
      /\ e.out[e.lo] = all[e.lo]
      /\ \A i \in 1 .. e.hi : i < e.lo => ~Better(e.out[e.lo], e.out[i])
      /\ ~e.values => /\ Len(e.ids) = e.hi
                      /\ \A i \in 1 .. e.hi : e.ids[i] \in 0 .. n - 1 /\ e.in[e.ids[i] + 1] = e.out[i]
                      /\ Cardinality({e.ids[i] : i \in 1 .. e.hi}) = e.hi
(* local helpers *)
Local(e) ==
  LET n == Len(e.x)
  IN  /\ e.xa = e.x /\ e.pa = e.p          \* the arguments are left alone
      /\ CASE e.f \in {"apply", "apply_a"} -> e.out = Permuted(e.p, e.x)
           [] e.f \in {"inv", "inv_a"} -> Placed(e.p, e.x, e.out)
           [] e.f = "inverse" -> IsPerm(e.out, n) /\ \A i \in 1 .. n : e.out[e.p[i] + 1] = i - 1
           [] e.f = "bysort" -> /\ IsPerm(e.out, n)
                                /\ \A i \in 1 .. n - 1 : LET u == e.out[i] + 1 v == e.out[i + 1] + 1
                                                         IN  e.x[u] < e.x[v] \/ (e.x[u] = e.x[v] /\ u < v)
           [] e.f = "ring2pv" -> e.out = e.p
           [] OTHER -> FALSE
(* A routing network: column c sends packet i straight (first) or across (second); where the two differ, the
   setting of the switch at i, or at i - 1 if that is its upper port, decides, and exactly one of them exists. *)
Settings(r, i) == {j \in 1 .. Len(r) : r[j][1] \in {i, i - 1}}
Hop(e, c, i) ==
  LET t == e.t[c][i + 1] s == Settings(e.r[c], i)
  IN  IF t[1] = t[2] THEN t[1]
      ELSE IF Cardinality(s) # 1 THEN -1
      ELSE t[IF e.r[c][CHOOSE j \in s : TRUE][2] = 1 THEN 2 ELSE 1]
RECURSIVE Way(_, _, _)
Way(e, c, i) == IF c > Len(e.t) THEN i
                ELSE LET h == Hop(e, c, i) IN IF h < 0 \/ h >= Len(e.p) THEN -1 ELSE Way(e, c + 1, h)
Columns(e, n) == \A c \in 1 .. Len(e.t) : Len(e.t[c]) = n /\ IsPerm([i \in 1 .. n |-> Hop(e, c, i - 1)], n)
Waksman(e) == LET n == Len(e.p) IN Len(e.r) = Len(e.t) /\ Columns(e, n) /\ \A i \in 1 .. n : Way(e, 1, i - 1) = e.p[i]

VARIABLE l
Init == l = 1
Check(e) == CASE e.op = "sort"    -> Sort(e)
              [] e.op = "shuffle" -> Shuffle(e)
              [] e.op = "perm"    -> Perm(e)
              [] e.op = "invperm" -> InvPerm(e)
              [] e.op = "round"   -> Round(e)
              [] e.op = "genperm" -> GenPerm(e)
              [] e.op = "topk"    -> TopK(e)
              [] e.op = "local"   -> Local(e)
              [] e.op = "waksman" -> Waksman(e)
              [] OTHER -> FALSE
Next == /\ l <= Len(Trace)
        /\ IF Check(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].op>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
