------------------------------ MODULE RingSem ------------------------------
(* What the element-wise ring operations mean, on words (Words.tla).          *)
EXTENDS Words
Bool(n, p) == IF p THEN WOne(n) ELSE WZero(n)

\* Binary operations f(x, y) of the ring Z/2^k
Bin(f, x, y) ==
  CASE f = "add" -> WAdd(x, y)
    [] f = "sub" -> WSub(x, y)
    [] f = "mul" -> WMul(x, y)
    [] f = "and" -> WAnd(x, y)
    [] f = "xor" -> WXor(x, y)
    [] f = "or"  -> WOr(x, y)
    [] f = "equal" -> Bool(Len(x), x = y)
    [] f = "less" -> Bool(Len(x), WLtS(x, y))
    [] f = "copy" -> y
BinOps == {"add", "sub", "mul", "and", "xor", "or", "equal", "less", "copy"}

\* Unary operations with the attributes recorded in e, for element number i
At(seq, i) == IF Len(seq) = 1 THEN seq[1] ELSE seq[i]
Un(f, x, e, i) ==
  CASE f = "not" -> WNot(x)
    [] f = "neg" -> WNeg(x)
    [] f = "lshift" -> WShl(x, At(e.bits, i))
    [] f = "rshift" -> WShr(x, At(e.bits, i))
    [] f = "arshift" -> WSar(x, At(e.bits, i))
    [] f = "bitrev" -> WBitRev(x, e.s, e.t)
    [] f = "bitmask" -> WAnd(x, WXor(WMask(Len(x), e.t), WMask(Len(x), e.s)))
    [] f = "mulc" -> WMul(x, e.cst)
    [] f = "msb" -> Bool(Len(x), WMsb(x) = 1)

\* matrix product of the words A (m x k) and B (k x n), row-major; accumulated in columns of
\* limbs before carrying
MatMul(w, m, n, k, a(_, _), b(_, _)) ==
  LET Dot(i, j) ==
        Norm([q \in 1..w |-> Sum([t \in 1..k |->
             LET x == a(i, t) y == b(t, j) IN Sum([r \in 1..q |-> x[r] * y[q + 1 - r]])])])
  IN [ij \in 1..(m * n) |-> Dot(((ij - 1) \div n) + 1, ((ij - 1) % n) + 1)]

\* Mersenne field p = 2^e - 1
GfP(w, e) == WMask(w, e)
GfCanon(x, e) == LET p == GfP(Len(x), e)   \* x < 2p
                 IN IF WLtU(x, p) THEN x ELSE WSub(x, p)
GfMod(x, e) == GfCanon(GfCanon(WAdd(WLow(x, e), WShr(x, e)), e), e)
GfRed(x, e, w) == \* any word x of at most 2w limbs
  LET y == WAdd(WLow(x, e), WShr(x, e))
      z == WAdd(WLow(y, e), WShr(y, e))
      t == WAdd(WLow(z, e), WShr(z, e))
  IN GfCanon(WFit(w, t, FALSE), e)
GfAdd(x, y, e) == GfRed(WAdd(WFit(2 * Len(x), x, FALSE), WFit(2 * Len(x), y, FALSE)), e, Len(x))
GfMul(x, y, e) == GfRed(WMulFull(x, y), e, Len(x))
GfNeg(x, e) == GfCanon(WSub(GfP(Len(x), e), GfCanon(x, e)), e)
GfPow(x, y, e) ==
  LET n == WBits(y)
      step(acc, i) == LET sq == GfMul(acc, acc, e) IN IF WBit(y, n - i) = 1 THEN GfMul(sq, x, e) ELSE sq
  IN IF y = WZero(Len(y)) THEN WOne(Len(x)) ELSE FoldLeft(step, WOne(Len(x)), Up(n))
=============================================================================
