-------------------------------- MODULE Real --------------------------------
(* Real numbers to 64 fractional bits and 111 integer bits, as signed words  *)
(* of 22 bytes, and the elementary functions on them: plain series with      *)
(* argument halving, exact to about 2^-50, far below the error bounds they   *)
(* are compared with.                                                        *)
EXTENDS Words
RN == 22
RG == 8                              \* limbs of fraction
RPow2(n, s) == WShl(WNat(RN, n), LB * RG - s)        \* n * 2^-s, 0 <= n
RInt(v) == IF v < 0 THEN WNeg(RPow2(-v, 0)) ELSE RPow2(v, 0)
RZero == WZero(RN)
ROne == RPow2(1, 0)
RRaw(w, f) == WShl(WFit(RN, w, TRUE), LB * RG - f)   \* a ring element with f fractional bits
RLe(a, b) == ~WLtS(b, a)
\* (TLC evaluates a function every time it is applied: Tup makes it a tuple once)
Tup(a) == SubSeq(a, 1, Len(a))
Top(a) == FoldLeft(LAMBDA acc, i : IF a[i] # 0 THEN i ELSE acc, 1, Up(Len(a)))
\* product of two unsigned words from column lo on; the columns below are dropped
MulFrom(a, b, lo) ==
  LET la == Top(a)  lb == Top(b)
      col(c) == LET i0 == IF c > lb THEN c - lb + 1 ELSE 1  i1 == IF c < la THEN c ELSE la
                IN IF i1 < i0 THEN 0 ELSE Sum([t \in 1..(i1 - i0 + 1) |-> a[i0 + t - 1] * b[c - i0 - t + 2]])
  IN Norm([c \in 1..(RN + RG + 1 - lo) |-> IF c + lo - 1 > la + lb THEN 0 ELSE col(c + lo - 1)])
RMul(a, b) == LET q == SubSeq(MulFrom(WAbs(a), WAbs(b), RG - 2), 4, RN + 3) IN IF WMsb(a) # WMsb(b) THEN WNeg(q) ELSE q
\* by a small positive number
RDivN(a, n) ==
  LET m == WAbs(a)
      q == FoldLeft(LAMBDA acc, i : LET v == acc[2] * Base + m[RN + 1 - i] IN <<Append(acc[1], v \div n), v % n>>, <<<<>>, 0>>, Up(RN))[1]
      r == Reverse(q)
  IN IF WMsb(a) = 1 THEN WNeg(r) ELSE r
RMulN(a, n) == IF WMsb(a) = 1 THEN WNeg(Norm([i \in 1..RN |-> WNeg(a)[i] * n])) ELSE Norm([i \in 1..RN |-> a[i] * n])
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RSumAll(s) == WSumAll(RN, s)
RLN2 == WFit(RN, <<171, 121, 207, 209, 247, 23, 114, 177, 0, 0>>, FALSE)
RPI == WFit(RN, <<211, 8, 163, 133, 136, 106, 63, 36, 3, 0>>, FALSE)
RHALFPI == WFit(RN, <<105, 132, 209, 66, 68, 181, 31, 146, 1, 0>>, FALSE)
RERFC == WFit(RN, <<26, 209, 182, 41, 4, 117, 221, 32, 1, 0>>, FALSE)

\* e^x, |x| <= 500
RExp(x) ==
  LET t == Tup(WSar(x, 9))
      p == FoldLeft(LAMBDA acc, i : WAdd(ROne, RDivN(RMul(t, acc), 13 - i)), ROne, Up(12))
  IN FoldLeft(LAMBDA acc, i : RMul(acc, acc), p, Up(9))
\* <<sin x, cos x>>, |x| <= 512
RSinCos(x) ==
  LET t == Tup(WSar(x, 10))
      t2 == RMul(t, t)
      c == FoldLeft(LAMBDA acc, i : LET m == 2 * (9 - i) IN WSub(ROne, RDivN(RMul(t2, acc), m * (m - 1))), ROne, Up(8))
      s == RMul(t, FoldLeft(LAMBDA acc, i : LET m == 2 * (9 - i) IN WSub(ROne, RDivN(RMul(t2, acc), m * (m + 1))), ROne, Up(8)))
  IN FoldLeft(LAMBDA acc, i : LET d == WShl(RMul(acc[1], acc[1]), 1) IN <<WShl(RMul(acc[1], acc[2]), 1), WSub(ROne, d)>>, <<s, c>>, Up(10))
\* erf x, |x| <= 3.2
RErf(x) ==
  LET x2 == RMul(x, x)
      f == FoldLeft(LAMBDA acc, n : LET p == WNeg(RDivN(RMul(acc[1], x2), n)) IN <<p, WAdd(acc[2], RDivN(p, 2 * n + 1))>>, <<x, x>>, Up(46))
  IN RMul(RERFC, f[2])
=============================================================================
