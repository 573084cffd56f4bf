------------------------------- MODULE Words -------------------------------
(* Machine words of any width: a word is a sequence of limbs of LB bits,     *)
(* least significant first.  With LB = 8 a word is the little-endian byte    *)
(* string found in the implementation's memory (TLC's integers have 32       *)
(* bits); with LB = 2..4 and one limb it is a tiny ring that can be          *)
(* enumerated.  Both are the same definitions.                               *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
CONSTANT LB

Base == 2^LB
Up(n) == [i \in 1..n |-> i]
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

\* carry propagation over possibly large non-negative columns, result mod Base^Len
Norm(c) == FoldLeft(LAMBDA acc, x : LET s == x + acc[2]
                                    IN <<Append(acc[1], s % Base), s \div Base>>,
                    <<<<>>, 0>>, c)[1]

WBits(a) == LB * Len(a)
WZero(n) == [i \in 1..n |-> 0]
WOnes(n) == [i \in 1..n |-> Base - 1]
WNat(n, v) == [i \in 1..n |-> IF LB * (i - 1) > 30 THEN 0 ELSE (v \div 2^(LB * (i - 1))) % Base]   \* 0 <= v
WOne(n) == WNat(n, 1)
WAdd(a, b) == Norm([i \in DOMAIN a |-> a[i] + b[i]])
WNot(a) == [i \in DOMAIN a |-> Base - 1 - a[i]]
WNeg(a) == Norm([i \in DOMAIN a |-> (Base - 1 - a[i]) + (IF i = 1 THEN 1 ELSE 0)])
WSub(a, b) == Norm([i \in DOMAIN a |-> a[i] + (Base - 1 - b[i]) + (IF i = 1 THEN 1 ELSE 0)])
WInt(n, v) == IF v < 0 THEN WNeg(WNat(n, -v)) ELSE WNat(n, v)
WMul(a, b) == Norm([k \in DOMAIN a |-> Sum([i \in 1..k |-> a[i] * b[k + 1 - i]])])
WAnd(a, b) == [i \in DOMAIN a |-> a[i] & b[i]]
WXor(a, b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]
WOr(a, b)  == [i \in DOMAIN a |-> a[i] | b[i]]

WSumAll(n, s) == IF s = <<>> THEN WZero(n) ELSE Norm([i \in 1..n |-> Sum([j \in DOMAIN s |-> s[j][i]])])
WXorAll(n, s) == FoldLeft(WXor, WZero(n), s)

WBit(a, i) == (a[(i \div LB) + 1] \div 2^(i % LB)) % 2                \* i from 0
WMsb(a) == a[Len(a)] \div 2^(LB - 1)
WFromBits(n, f(_)) == [j \in 1..n |-> Sum([t \in 1..LB |-> f((j - 1) * LB + t - 1) * 2^(t - 1)])]

\* shifts, for any k >= 0; filling with bit f from the top
WShl(a, k) ==
  LET q == k \div LB  r == k % LB
  IN Norm([i \in DOMAIN a |-> IF i - q >= 1 THEN (a[i - q] * 2^r) ELSE 0])
WShrFill(a, k, f) ==
  LET q == k \div LB  r == k % LB
      at(i) == IF i <= Len(a) THEN a[i] ELSE f * (Base - 1)
  IN [i \in DOMAIN a |-> (at(i + q) \div 2^r) + (((at(i + q + 1) % 2^r) * 2^(LB - r)) % Base)]
WShr(a, k) == WShrFill(a, k, 0)
WSar(a, k) == WShrFill(a, k, WMsb(a))

WMask(n, k) == [i \in 1..n |-> IF i * LB <= k THEN Base - 1 ELSE IF (i - 1) * LB >= k THEN 0 ELSE 2^(k - (i - 1) * LB) - 1]
WLow(a, k) == WAnd(a, WMask(Len(a), k))

\* comparison: index of the most significant difference decides
WLtU(a, b) ==
  FoldLeft(LAMBDA acc, i : IF a[i] # b[i] THEN (a[i] < b[i]) ELSE acc, FALSE, Up(Len(a)))
WLtS(a, b) == IF WMsb(a) # WMsb(b) THEN WMsb(a) = 1 ELSE WLtU(a, b)
WAbs(a) == IF WMsb(a) = 1 THEN WNeg(a) ELSE a
\* a as a word of n limbs, zero- or sign-extended, or cut
WFit(n, a, signed) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE IF signed /\ WMsb(a) = 1 THEN Base - 1 ELSE 0]
\* full product of two unsigned words
WMulFull(a, b) == WMul(WFit(Len(a) + Len(b), a, FALSE), WFit(Len(a) + Len(b), b, FALSE))
\* value as an Int; only for words known to be small (below 2^30) and non-negative
WVal(a) == Sum([i \in DOMAIN a |-> IF LB * (i - 1) > 30 THEN 0 ELSE a[i] * 2^(LB * (i - 1))])
\* reverse the bits s..e-1
WBitRev(a, s, e) == WFromBits(Len(a), LAMBDA i : IF i >= s /\ i < e THEN WBit(a, s + e - 1 - i) ELSE WBit(a, i))
B01(p) == IF p THEN 1 ELSE 0
WPop(a, k) == Sum([i \in 1..k |-> WBit(a, i - 1)])
=============================================================================
