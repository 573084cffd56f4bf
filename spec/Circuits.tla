------------------------------ MODULE Circuits ------------------------------
(* What the bit circuits denote (Adder, Carry, ...) and the parallel-prefix   *)
(* algorithms that compute them.  MCCircuits checks that the algorithms are   *)
(* the denotations on every tiny word; BitsTrace holds the code to them.      *)
EXTENDS Words
\* number of bits needed
RECURSIVE Log2Floor(_)
Log2Floor(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Floor(n \div 2)
Log2Ceil(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Floor(n - 1)
WBitWidth(a) == LET S == {i \in 0..(WBits(a) - 1) : WBit(a, i) = 1} IN IF S = {} THEN 0 ELSE 1 + CHOOSE i \in S : \A j \in S : j <= i

\* de-interleaving on blocks of 2^m bits: the index bit s of every bit position becomes the top one
DeintlIdx(j, s, m) ==
  LET n == 2^m  b == (j \div n) * n  r == j % n
  IN IF s + 1 >= m THEN j
     ELSE b + (r % 2^s) + ((r \div 2^(m - 1)) * 2^s) + (((r \div 2^s) % 2^(m - 1 - s)) * 2^(s + 1))
WDeintl(a, s, m) == WFromBits(Len(a), LAMBDA j : WBit(a, DeintlIdx(j, s, m)))
IntlIdx(i, s, m) == \* inverse of DeintlIdx
  LET n == 2^m  b == (i \div n) * n  r == i % n
  IN IF s + 1 >= m THEN i
     ELSE b + (r % 2^s) + ((r \div 2^(s + 1)) * 2^s) + (((r \div 2^s) % 2) * 2^(m - 1))
WIntl(a, s, m) == WFromBits(Len(a), LAMBDA j : WBit(a, IntlIdx(j, s, m)))

\* even bits of the lowest nb bits below, odd bits above (nb even)
WSplit(a, nb) == WFromBits(Len(a), LAMBDA j : IF j >= nb THEN 0 ELSE IF j < nb \div 2 THEN WBit(a, 2 * j) ELSE WBit(a, 2 * (j - nb \div 2) + 1))

\* carry out of the addition of the lowest nb bits
WCarry(a, b, nb) == LET w == Len(a) + 1
                        s == WAdd(WLow(WFit(w, a, FALSE), nb), WLow(WFit(w, b, FALSE), nb))
                    IN WBit(s, nb)
WParity(a, nb) == WPop(a, nb) % 2
WPrefixOr(a) == WMask(Len(a), WBitWidth(a))
WLeading1(a) == IF WBitWidth(a) = 0 THEN a ELSE WShl(WOne(Len(a)), WBitWidth(a) - 1)

\* ---- the algorithms
KoggeStone(x, y, nb) ==
  LET step(pg, idx) == LET P == pg[1] G == pg[2] o == 2^idx
                           G1 == WShl(G, o) P1 == WShl(P, o)
                       IN <<WAnd(P, P1), WXor(G, WAnd(P, G1))>>
      r == FoldLeft(LAMBDA pg, i : step(pg, i - 1), <<WXor(x, y), WAnd(x, y)>>, Up(Log2Ceil(nb)))
  IN WXor(WXor(x, y), WShl(r[2], 1))
KeepMask(n, i) == WFromBits(n, LAMBDA j : B01((j \div 2^i) % 2 = 0))
SelMask(n, i) == WFromBits(n, LAMBDA j : B01(j % 2^(i + 1) = 2^i - 1))
Sklansky(x, y, nb) ==
  LET n == Len(x)
      spread(v, idx) == FoldLeft(LAMBDA a, j : WXor(a, WShl(a, 2^(j - 1))), WShl(WAnd(v, SelMask(n, idx)), 1), Up(idx))
      step(pg, idx) == LET P == pg[1] G == pg[2]
                           G1 == spread(G, idx) P1 == WXor(spread(P, idx), KeepMask(n, idx))
                       IN <<WAnd(P, P1), WXor(G, WAnd(P, G1))>>
      r == FoldLeft(LAMBDA pg, i : step(pg, i - 1), <<WXor(x, y), WAnd(x, y)>>, Up(Log2Ceil(nb)))
  IN WXor(WXor(x, y), WShl(r[2], 1))
RECURSIVE CarryTree(_, _, _)
CarryTree(P, G, k) ==
  IF k = 1 THEN WBit(G, 0)
  ELSE LET q == IF k % 2 # 0 THEN 1 ELSE 0
           kk == k + q
           h == kk \div 2
           p == WSplit(WShl(P, q), kk)  g == WSplit(WShl(G, q), kk)
           P0 == WLow(p, h) P1 == WLow(WShr(p, h), h) G0 == WLow(g, h) G1 == WLow(WShr(g, h), h)
       IN CarryTree(WAnd(P1, P0), WXor(G1, WAnd(P1, G0)), h)
PrefixOrTree(x) == FoldLeft(LAMBDA b, i : WOr(b, WShr(b, 2^(i - 1))), x, Up(Log2Ceil(WBits(x))))
\* index-bit swapping network
SwapStep(x, l) == WFromBits(Len(x), LAMBDA j : LET b0 == (j \div 2^l) % 2 b1 == (j \div 2^(l + 1)) % 2
                                               IN WBit(x, j + (b1 - b0) * 2^l + (b0 - b1) * 2^(l + 1)))
DeintlNet(x, s, m) == FoldLeft(LAMBDA v, i : SwapStep(v, s + i - 1), x, Up(IF m - 1 - s > 0 THEN m - 1 - s ELSE 0))
=============================================================================
