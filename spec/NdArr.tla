------------------------------- MODULE NdArr -------------------------------
(* Arrays: [sh |-> shape, el |-> elements in row-major order].  The same      *)
(* operators describe values (elements are numbers) and views (elements are   *)
(* addresses of a buffer).  Indices and axes count from 0, as in the library. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
LOCAL Mul(a, b) == a * b
Prod(s) == FoldLeft(Mul, 1, s)
Arr(sh, el) == [sh |-> sh, el |-> el]
Numel(a) == Len(a.el)
\* steps of a compact array: elements skipped by one step along each axis
Steps(sh) == [d \in DOMAIN sh |-> Prod(SubSeq(sh, d + 1, Len(sh)))]
Flat(ix, sh) == LET st == Steps(sh) IN FoldLeft(LAMBDA acc, d : acc + ix[d] * st[d], 0, [d \in DOMAIN sh |-> d])
Unflat(i, sh) == LET st == Steps(sh) IN [d \in DOMAIN sh |-> (i \div st[d]) % sh[d]]
InBounds(ix, sh) == Len(ix) = Len(sh) /\ \A d \in DOMAIN sh : ix[d] >= 0 /\ ix[d] < sh[d]
Mk(sh, f(_)) == Arr(sh, [i \in 1..Prod(sh) |-> f(Unflat(i - 1, sh))])
At(a, ix) == a.el[Flat(ix, a.sh) + 1]
Map(a, f(_)) == Arr(a.sh, [i \in DOMAIN a.el |-> f(a.el[i])])
Full(sh, x) == Arr(sh, [i \in 1..Prod(sh) |-> x])
Scalar(x) == Arr(<<>>, <<x>>)
IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in DOMAIN p} = 0..(n - 1)
Inv(p) == [i \in DOMAIN p |-> (CHOOSE j \in DOMAIN p : p[j] = i - 1) - 1]

Transpose(a, p) == LET q == Inv(p) IN Mk([i \in DOMAIN a.sh |-> a.sh[p[i] + 1]], LAMBDA ix : At(a, [d \in DOMAIN a.sh |-> ix[q[d] + 1]]))
Flip(a, dims) == LET R == {dims[i] : i \in DOMAIN dims}
                    IN Mk(a.sh, LAMBDA ix : At(a, [d \in DOMAIN ix |-> IF d - 1 \in R THEN a.sh[d] - 1 - ix[d] ELSE ix[d]]))
CeilDiv(x, y) == (x + y - 1) \div y
Max0(x) == IF x < 0 THEN 0 ELSE x
Slice(a, st, en, step) == Mk([d \in DOMAIN a.sh |-> CeilDiv(Max0(en[d] - st[d]), step[d])],
                             LAMBDA ix : At(a, [d \in DOMAIN ix |-> st[d] + ix[d] * step[d]]))
\* axis d of the input becomes axis dims[d] of the output; an axis of extent 1 is repeated
Bcast(a, to, dims) == Mk(to, LAMBDA ix : At(a, [d \in DOMAIN a.sh |-> IF a.sh[d] = 1 THEN 0 ELSE ix[dims[d] + 1]]))
LastDims(n, m) == [i \in 1..n |-> m - n + i - 1]
Reshape(a, to) == Arr(to, a.el)
Concat(as, ax) ==
  LET sz(k) == FoldLeft(LAMBDA x, a : x + a.sh[ax + 1], 0, SubSeq(as, 1, k))
      sh == [as[1].sh EXCEPT ![ax + 1] = sz(Len(as))]
      pick(x) == CHOOSE k \in DOMAIN as : sz(k - 1) <= x /\ x < sz(k)
  IN Mk(sh, LAMBDA ix : LET k == pick(ix[ax + 1]) IN At(as[k], [ix EXCEPT ![ax + 1] = @ - sz(k - 1)]))
PadShape(sh, lo, hi, in) == [d \in DOMAIN sh |-> Max0(lo[d] + hi[d] + sh[d] + in[d] * Max0(sh[d] - 1))]
Pad(a, v, lo, hi, in) ==
  Mk(PadShape(a.sh, lo, hi, in),
     LAMBDA ix : LET off == [d \in DOMAIN ix |-> ix[d] - lo[d]]
                     hit == \A d \in DOMAIN ix : off[d] >= 0 /\ off[d] % (in[d] + 1) = 0 /\ off[d] \div (in[d] + 1) < a.sh[d]
                 IN IF hit THEN At(a, [d \in DOMAIN ix |-> off[d] \div (in[d] + 1)]) ELSE v)
Update(a, u, st) == Mk(a.sh, LAMBDA ix : LET r == [d \in DOMAIN ix |-> ix[d] - st[d]] IN IF InBounds(r, u.sh) THEN At(u, r) ELSE At(a, ix))
Gather1(a, idx) == Arr(<<Len(idx)>>, [i \in DOMAIN idx |-> a.el[idx[i] + 1]])
=============================================================================
