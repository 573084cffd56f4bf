------------------------------- MODULE Encode -------------------------------
(* Plain values and the ring: a fixed-point number r stands for r * 2^-f.     *)
(* Floating-point numbers are given as IEEE doubles, which hold them exactly. *)
EXTENDS Words

EW == 24                                              \* bytes of the exact integers
Wide(a) == WFit(EW, a, FALSE)
Width(a) == LET S == {i \in DOMAIN a : a[i] # 0} IN
            IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : \A j \in S : j <= i
                                      b == CHOOSE b \in 1..8 : 2^(b - 1) <= a[i] /\ a[i] < 2^b
                                  IN 8 * (i - 1) + b
\* doubles: sign, significand (a wide word), exponent: value = (-1)^s * m * 2^e
DSgn(d) == d[8] \div 128
DExp(d) == (d[8] % 128) * 16 + d[7] \div 16
DFrac(d) == Wide([i \in 1..7 |-> IF i = 7 THEN d[7] % 16 ELSE d[i]])
DIsNan(d) == DExp(d) = 2047 /\ Width(DFrac(d)) > 0
DIsInf(d) == DExp(d) = 2047 /\ Width(DFrac(d)) = 0
DSig(d) == IF DExp(d) = 0 THEN DFrac(d) ELSE WAdd(DFrac(d), WShl(WOne(EW), 52))
DE(d) == (IF DExp(d) = 0 THEN 1 ELSE DExp(d)) - 1075
DLess(a, b) ==     \* a < b, neither a NaN
  LET mag(d) == [i \in 1..8 |-> IF i = 8 THEN d[8] % 128 ELSE d[i]]
      za == mag(a) = WZero(8)  zb == mag(b) = WZero(8)
  IN IF za THEN ~zb /\ DSgn(b) = 0 ELSE IF zb THEN DSgn(a) = 1
     ELSE IF DSgn(a) # DSgn(b) THEN DSgn(a) = 1
     ELSE IF DSgn(a) = 0 THEN WLtU(mag(a), mag(b)) ELSE WLtU(mag(b), mag(a))

Upper(k) == WSub(WShl(WOne(k \div 8), k - 2), WOne(k \div 8))
Lower(k) == WNeg(WShl(WOne(k \div 8), k - 2))
Signed(s, a, k) == LET w == WFit(k \div 8, a, FALSE) IN IF s = 1 THEN WNeg(w) ELSE w
\* w (k bits) stands for the double d with f fractional bits
Encodes(d, k, f, w) ==
  IF DIsNan(d) THEN w = WZero(k \div 8)
  ELSE LET m == DSig(d)  n == Width(m)  t == DE(d) + f
       IN IF n = 0 THEN w = WZero(k \div 8)
          ELSE IF DIsInf(d) \/ n + t > k - 2 THEN w = (IF DSgn(d) = 1 THEN Lower(k) ELSE Upper(k))
          ELSE IF t >= 0 THEN w = Signed(DSgn(d), WShl(m, t), k)
          ELSE LET q == IF -t > 60 THEN WZero(EW) ELSE WShr(m, -t)
                   exact == -t <= 60 /\ WLow(m, -t) = WZero(EW)
                   up == Signed(DSgn(d), WAdd(q, WOne(EW)), k)
               IN w = Signed(DSgn(d), q, k) \/ (~exact /\ (w = up \/ (n + t = k - 2 /\ w = Upper(k))))
\* an integer or truth value as it stands
EncodesInt(a, kind, k, w) == w = WFit(k \div 8, a, kind = "i")
Holds(kind, sz, k) == kind = "f" \/ sz * 8 <= k
Enc1(kind, x, k, f, w) == IF kind = "f" THEN Encodes(x, k, f, w) ELSE EncodesInt(x, kind, k, w)

\* the double d is what the ring element w stands for, up to the precision (11, 24 or 53 bits) of the type
Prec(sz) == IF sz = 2 THEN 11 ELSE IF sz = 4 THEN 24 ELSE 53
Abs1(a) == WAbs(WFit(EW, a, TRUE))
Decodes(w, f, sz, d) ==
  LET r == Abs1(w)  n == Width(r)  p == Prec(sz)
  IN IF n = 0 THEN Width(DSig(d)) = 0
     ELSE IF sz = 2 /\ n - f > 15 THEN n - f = 16 \/ DIsInf(d)
     ELSE /\ ~DIsNan(d) /\ ~DIsInf(d)
          /\ Width(DSig(d)) = 0 \/ DSgn(d) = WMsb(w)
          /\ LET t == DE(d) + f                                \* d * 2^f = sig * 2^t
                 sh == IF t < 0 THEN -t ELSE 0                  \* compare r * 2^sh with sig * 2^(t + sh)
                 a == WShl(r, sh)  b == WShl(DSig(d), t + sh)
                 diff == IF WLtU(a, b) THEN WSub(b, a) ELSE WSub(a, b)
                 sub == sz = 2 /\ f - 24 > n - 11               \* below the smallest normal half
                 tol == IF n <= p /\ ~sub THEN -1 ELSE (IF sub THEN f - 23 ELSE n - p + 1) + sh
             IN IF Width(DSig(d)) = 0 THEN sz = 2 /\ n - f <= -23
                ELSE IF tol < 0 THEN a = b
                ELSE ~WLtU(WShl(WOne(EW), tol), diff)
DecodesInt(w, sz, a) == a = WFit(sz, w, TRUE)
Dec1(kind, w, f, sz, x) == IF kind = "f" THEN Decodes(w, f, sz, x) ELSE IF kind = "b" THEN x = <<w[1] % 2>> ELSE DecodesInt(w, sz, x)

(* a plain value x that went into the ring with f fractional bits and came back as y *)
Near(kind, sz, k, f, x, y) ==
  IF kind # "f" THEN x = y
  ELSE IF DIsNan(x) THEN Width(DSig(y)) = 0
  ELSE LET m == DSig(x)  n == Width(m)  t == DE(x) + f
           lo == Signed(DSgn(x), IF t >= 0 THEN WShl(m, t) ELSE IF -t > 60 THEN WZero(EW) ELSE WShr(m, -t), k)
           hi == WAdd(lo, Signed(DSgn(x), WOne(EW), k))
       IN IF n = 0 THEN Width(DSig(y)) = 0
          ELSE IF DIsInf(x) \/ n + t > k - 2 THEN Decodes(IF DSgn(x) = 1 THEN Lower(k) ELSE Upper(k), f, sz, y)
          ELSE Decodes(lo, f, sz, y) \/ Decodes(hi, f, sz, y)
=============================================================================
