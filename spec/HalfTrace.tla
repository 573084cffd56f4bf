----------------------------- MODULE HalfTrace -----------------------------
(* IEEE 754 binary16.  A finite half h is the integer Mag(h) (times 2^-24).   *)
(* Every operation is its exact value rounded to nearest, ties to even; Round *)
(* does that for an exactly known magnitude, Nearest(c, Cmp) decides it for a  *)
(* value that is only known by comparison with the midpoints of halves.       *)
EXTENDS Words, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
NB == 16                      \* bytes of the exact integers
Max2(a, b) == IF a > b THEN a ELSE b
W(v) == WNat(NB, v)
Width(a) == LET S == {i \in DOMAIN a : a[i] # 0} IN
            IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : \A j \in S : j <= i
                                      b == CHOOSE b \in 1..8 : 2^(b - 1) <= a[i] /\ a[i] < 2^b
                                  IN 8 * (i - 1) + b
Sgn(h) == h \div 32768
Abs(h) == h % 32768
IsNan(h) == Abs(h) > 31744
IsInf(h) == Abs(h) = 31744
IsZero(h) == Abs(h) = 0
Finite(h) == Abs(h) < 31744
Neg(h) == IF Sgn(h) = 1 THEN h - 32768 ELSE h + 32768
SetSgn(s, a) == s * 32768 + a
QNan == 32256
MagC(c) == IF c < 1024 THEN W(c) ELSE WShl(W(1024 + (c % 1024)), (c \div 1024) - 1)
Mag(h) == MagC(Abs(h))
Mid(c) == WAdd(MagC(c), MagC(c + 1))                  \* times 2^-25
IsOdd(c) == c % 2 = 1

\* magnitude v (times 2^-(24+s)) to the code of the nearest half
Round(v, s) ==
  LET b == Width(v)  e == Max2(0, b - s - 11)  sh == s + e
      q == WVal(WShr(v, sh))
      rem == WLow(v, sh)  half == IF sh = 0 THEN W(0) ELSE WShl(W(1), sh - 1)
      up == sh > 0 /\ (WLtU(half, rem) \/ (rem = half /\ IsOdd(q)))
  IN IF b = 0 THEN 0
     ELSE IF b - s > 17 + 24 THEN 31744
     ELSE LET c == e * 1024 + q + (IF up THEN 1 ELSE 0) IN IF c > 31744 THEN 31744 ELSE c
\* is the finite or infinite code c the nearest half, where LtMid(m), EqMid(m) compare the exact value with m * 2^-25
Nearest(c, Below(_), EqMid(_)) ==
  /\ c <= 31744
  /\ c > 0 => LET m == Mid(c - 1) IN ~Below(m) /\ (EqMid(m) => ~IsOdd(c))
  /\ c < 31744 => LET m == Mid(c) IN Below(m) \/ (EqMid(m) /\ ~IsOdd(c))

\* signed exact sums: <<sign, magnitude>>
SAdd(s1, a, s2, b) == IF s1 = s2 THEN <<s1, WAdd(a, b)>>
                      ELSE IF WLtU(a, b) THEN <<s2, WSub(b, a)>> ELSE IF a = b THEN <<0, W(0)>> ELSE <<s1, WSub(a, b)>>
Same(r, h) == IF IsNan(h) THEN IsNan(r) ELSE r = h

Add(x, y) ==
  IF IsNan(x) \/ IsNan(y) THEN QNan
  ELSE IF IsInf(x) THEN (IF IsInf(y) /\ Sgn(x) # Sgn(y) THEN QNan ELSE x)
  ELSE IF IsInf(y) THEN y
  ELSE IF IsZero(x) /\ IsZero(y) THEN SetSgn(Sgn(x) * Sgn(y), 0)
  ELSE LET r == SAdd(Sgn(x), Mag(x), Sgn(y), Mag(y)) IN SetSgn(r[1], Round(r[2], 0))
Xor1(a, b) == (a + b) % 2
Mul(x, y) ==
  LET s == Xor1(Sgn(x), Sgn(y)) IN
  IF IsNan(x) \/ IsNan(y) \/ (IsInf(x) /\ IsZero(y)) \/ (IsZero(x) /\ IsInf(y)) THEN QNan
  ELSE IF IsInf(x) \/ IsInf(y) THEN SetSgn(s, 31744)
  ELSE SetSgn(s, Round(WMul(Mag(x), Mag(y)), 24))
DivOk(x, y, r) ==
  LET s == Xor1(Sgn(x), Sgn(y)) IN
  IF IsNan(x) \/ IsNan(y) \/ (IsInf(x) /\ IsInf(y)) \/ (IsZero(x) /\ IsZero(y)) THEN IsNan(r)
  ELSE IF IsInf(x) \/ IsZero(y) THEN r = SetSgn(s, 31744)
  ELSE IF IsZero(x) \/ IsInf(y) THEN r = SetSgn(s, 0)
  ELSE /\ Sgn(r) = s
       /\ LET X == WShl(Mag(x), 25) Y == Mag(y) IN
          Nearest(Abs(r), LAMBDA m : WLtU(X, WMul(m, Y)), LAMBDA m : X = WMul(m, Y))
Fma(x, y, z) ==
  LET s == Xor1(Sgn(x), Sgn(y)) IN
  IF IsNan(x) \/ IsNan(y) \/ IsNan(z) \/ (IsInf(x) /\ IsZero(y)) \/ (IsZero(x) /\ IsInf(y)) THEN QNan
  ELSE IF IsInf(x) \/ IsInf(y) THEN (IF IsInf(z) /\ Sgn(z) # s THEN QNan ELSE SetSgn(s, 31744))
  ELSE IF IsInf(z) THEN z
  ELSE LET p == WMul(Mag(x), Mag(y)) q == WShl(Mag(z), 24) r == SAdd(s, p, Sgn(z), q)
       IN IF p = W(0) /\ q = W(0) THEN SetSgn(s * Sgn(z), 0) ELSE SetSgn(r[1], Round(r[2], 24))
SqrtOk(x, r) ==
  IF IsNan(x) \/ (Sgn(x) = 1 /\ ~IsZero(x)) THEN IsNan(r)
  ELSE IF IsZero(x) \/ IsInf(x) THEN r = x
  ELSE LET X == WShl(Mag(x), 26) IN Sgn(r) = 0 /\ Nearest(Abs(r), LAMBDA m : WLtU(X, WMul(m, m)), LAMBDA m : X = WMul(m, m))
CbrtOk(x, r) ==
  IF IsNan(x) THEN IsNan(r) ELSE IF IsZero(x) \/ IsInf(x) THEN r = x
  ELSE LET X == WShl(Mag(x), 51) IN Sgn(r) = Sgn(x) /\ Nearest(Abs(r), LAMBDA m : WLtU(X, WMul(m, WMul(m, m))), LAMBDA m : X = WMul(m, WMul(m, m)))
RsqrtOk(x, r) ==
  IF IsNan(x) \/ (Sgn(x) = 1 /\ ~IsZero(x)) THEN IsNan(r)
  ELSE IF IsZero(x) THEN r = SetSgn(Sgn(x), 31744) ELSE IF IsInf(x) THEN r = 0
  ELSE LET O == WShl(W(1), 74) X == Mag(x) IN Sgn(r) = 0 /\ Nearest(Abs(r), LAMBDA m : WLtU(O, WMul(X, WMul(m, m))), LAMBDA m : O = WMul(X, WMul(m, m)))
HypotOk(x, y, r) ==
  IF IsInf(x) \/ IsInf(y) THEN r = 31744 ELSE IF IsNan(x) \/ IsNan(y) THEN IsNan(r)
  ELSE LET X == WShl(WAdd(WMul(Mag(x), Mag(x)), WMul(Mag(y), Mag(y))), 2)
       IN Sgn(r) = 0 /\ Nearest(Abs(r), LAMBDA m : WLtU(X, WMul(m, m)), LAMBDA m : X = WMul(m, m))

\* ---- order
Unord(x, y) == IsNan(x) \/ IsNan(y)
Key(h) == IF Sgn(h) = 1 THEN -Abs(h) ELSE Abs(h)
Eq(x, y) == ~Unord(x, y) /\ Key(x) = Key(y)
Lt(x, y) == ~Unord(x, y) /\ Key(x) < Key(y)
Cmps(x, y) == <<Eq(x, y), ~Eq(x, y), Lt(x, y), Lt(y, x), Lt(x, y) \/ Eq(x, y), Lt(y, x) \/ Eq(x, y),
                Lt(y, x), Lt(y, x) \/ Eq(x, y), Lt(x, y), Lt(x, y) \/ Eq(x, y), Lt(x, y) \/ Lt(y, x), Unord(x, y)>>
MaxOk(x, y, r) == IF IsNan(x) /\ IsNan(y) THEN IsNan(r) ELSE IF IsNan(x) THEN r = y ELSE IF IsNan(y) THEN r = x
                  ELSE (r = x \/ r = y) /\ Key(r) = Max2(Key(x), Key(y))
MinOk(x, y, r) == IF IsNan(x) /\ IsNan(y) THEN IsNan(r) ELSE IF IsNan(x) THEN r = y ELSE IF IsNan(y) THEN r = x
                  ELSE (r = x \/ r = y) /\ Key(r) = -Max2(-Key(x), -Key(y))
\* 0 nan, 1 infinite, 2 zero, 3 subnormal, 4 normal
Class(h) == IF IsNan(h) THEN 0 ELSE IF IsInf(h) THEN 1 ELSE IF IsZero(h) THEN 2 ELSE IF Abs(h) < 1024 THEN 3 ELSE 4
NextAfter(x, y) == IF Unord(x, y) THEN QNan ELSE IF Key(x) = Key(y) THEN y
                   ELSE LET k == IF Key(x) < Key(y) THEN Key(x) + 1 ELSE Key(x) - 1
                        IN IF IsZero(x) THEN SetSgn(Sgn(y), 1) ELSE SetSgn(Sgn(x), IF k < 0 THEN -k ELSE k)

\* ---- integers
IPart(h) == WVal(WShr(Mag(h), 24))
Frac(h) == WLow(Mag(h), 24)
HalfW == WShl(W(1), 23)
ToInt(h, mode) ==
  LET q == IPart(h) f == Frac(h) z == f = W(0) IN
  CASE mode = "trunc" -> q
    [] mode = "floor" -> IF Sgn(h) = 1 /\ ~z THEN q + 1 ELSE q
    [] mode = "ceil" -> IF Sgn(h) = 0 /\ ~z THEN q + 1 ELSE q
    [] mode = "away" -> IF ~WLtU(f, HalfW) THEN q + 1 ELSE q
    [] mode = "even" -> IF WLtU(HalfW, f) \/ (f = HalfW /\ IsOdd(q)) THEN q + 1 ELSE q
Integral(h, mode) == IF ~Finite(h) THEN h ELSE SetSgn(Sgn(h), Round(WShl(W(ToInt(h, mode)), 24), 0))
SInt(h, mode) == (1 - 2 * Sgn(h)) * ToInt(h, mode)
FromInt(n) == SetSgn(B01(n < 0), Round(WShl(W(IF n < 0 THEN -n ELSE n), 24), 0))
ModfOk(x, ip, fp) == IF IsNan(x) THEN IsNan(ip) /\ IsNan(fp) ELSE IF IsInf(x) THEN ip = x /\ fp = SetSgn(Sgn(x), 0)
                     ELSE ip = Integral(x, "trunc") /\ fp = SetSgn(Sgn(x), Round(Frac(x), 0))
FrexpOk(x, f, e) == IF IsNan(x) THEN IsNan(f) ELSE IF IsInf(x) \/ IsZero(x) THEN f = x /\ e = 0
                    ELSE Sgn(f) = Sgn(x) /\ Abs(f) >= 14336 /\ Abs(f) < 15360 /\ e >= -24 /\ e <= 17 /\ WShl(Mag(x), 24) = WShl(Mag(f), 24 + e)
Ldexp(x, n) == IF ~Finite(x) \/ IsZero(x) THEN x
               ELSE IF n > 42 THEN SetSgn(Sgn(x), 31744) ELSE IF n < -42 THEN SetSgn(Sgn(x), 0)
               ELSE SetSgn(Sgn(x), Round(WShl(Mag(x), n + 42), 42))
ILogB(x) == Width(Mag(x)) - 25
LogB(x) == IF IsNan(x) THEN QNan ELSE IF IsInf(x) THEN 31744 ELSE IF IsZero(x) THEN 32768 + 31744 ELSE FromInt(ILogB(x))

\* ---- other floating-point formats, as lists of 16-bit units, least significant first
FBits(u) == WNat(NB, u[1] % 256) \* unused
Word16(us) == [i \in 1..NB |-> IF i > 2 * Len(us) THEN 0 ELSE IF i % 2 = 1 THEN us[(i + 1) \div 2] % 256 ELSE us[i \div 2] \div 256]
\* float: <<lo, hi>>; value m * 2^(e - 150)
FromFloat(u) ==
  LET s == u[2] \div 32768  e == (u[2] \div 128) % 256  mw == WLow(Word16(u), 23)  m == IF e = 0 THEN mw ELSE WAdd(mw, WShl(W(1), 23))  ee == Max2(e, 1)
  IN IF e = 255 THEN (IF mw = W(0) THEN SetSgn(s, 31744) ELSE QNan)
     ELSE IF ee - 127 > 17 THEN SetSgn(s, 31744) ELSE IF ee - 127 < -27 THEN SetSgn(s, 0)
     ELSE SetSgn(s, Round(WShl(m, ee - 150 + 56), 32))
FromDouble(u) ==
  LET s == u[4] \div 32768  e == (u[4] \div 16) % 2048  mw == WLow(Word16(u), 52)  m == IF e = 0 THEN mw ELSE WAdd(mw, WShl(W(1), 52))
  IN IF e = 2047 THEN (IF mw = W(0) THEN SetSgn(s, 31744) ELSE QNan)
     ELSE IF e - 1023 > 17 THEN SetSgn(s, 31744) ELSE IF e - 1023 < -27 THEN SetSgn(s, 0)
     ELSE SetSgn(s, Round(WShl(m, e - 1075 + 80), 56))
\* half to float, exactly: normalised code c' with exponent
ToFloat(h) ==
  IF IsInf(h) THEN <<0, Sgn(h) * 32768 + 255 * 128>>
  ELSE IF IsZero(h) THEN <<0, Sgn(h) * 32768>>
  ELSE LET b == Width(Mag(h))                                   \* leading bit b-1: exponent b - 25
           m == WVal(WLow(IF b > 11 THEN WShr(Mag(h), b - 11) ELSE WShl(Mag(h), 11 - b), 10))  \* 10 fraction bits
       IN <<(m % 8) * 8192, Sgn(h) * 32768 + (b - 25 + 127) * 128 + m \div 8>>
ToFloatOk(h, u) == IF IsNan(h) THEN (u[2] \div 128) % 256 = 255 /\ (u[2] % 128 # 0 \/ u[1] # 0) ELSE u = ToFloat(h)
ToDouble(h) ==
  IF IsInf(h) THEN <<0, 0, 0, Sgn(h) * 32768 + 2047 * 16>>
  ELSE IF IsZero(h) THEN <<0, 0, 0, Sgn(h) * 32768>>
  ELSE LET b == Width(Mag(h))
           m == WVal(WLow(IF b > 11 THEN WShr(Mag(h), b - 11) ELSE WShl(Mag(h), 11 - b), 10))
       IN <<0, 0, (m % 64) * 1024, Sgn(h) * 32768 + (b - 25 + 1023) * 16 + m \div 64>>
ToDoubleOk(h, u) == IF IsNan(h) THEN (u[4] \div 16) % 2048 = 2047 /\ (u[4] % 16 # 0 \/ u[3] # 0 \/ u[2] # 0 \/ u[1] # 0) ELSE u = ToDouble(h)

\* r is within one unit in the last place of the (correctly computed) double u; the library promises
\* that much for its transcendental functions
Close(r, u) == LET h == FromDouble(u) IN
  IF IsNan(h) THEN IsNan(r) ELSE ~IsNan(r) /\ Key(r) - Key(h) \in {-1, 0, 1}

FmodOk(x, y, r, q) ==  \* |x| = q |y| + |r|, |r| < |y|, sign of x; q is a witness
  IF IsNan(x) \/ IsNan(y) \/ IsInf(x) \/ IsZero(y) THEN IsNan(r)
  ELSE IF IsInf(y) \/ IsZero(x) THEN r = x
  ELSE Sgn(r) = Sgn(x) /\ WLtU(Mag(r), Mag(y)) /\ Mag(x) = WAdd(WMul(q, Mag(y)), Mag(r))
RemOk(x, y, r, q) ==   \* |x| = q |y| +- |r|, 2|r| <= |y|, ties with q even
  IF IsNan(x) \/ IsNan(y) \/ IsInf(x) \/ IsZero(y) THEN IsNan(r)
  ELSE IF IsInf(y) THEN r = x
  ELSE LET rr == SAdd(0, WMul(q, Mag(y)), Xor1(Sgn(r), Sgn(x)), Mag(r)) IN
       /\ rr[2] = Mag(x) /\ (rr[1] = 0 \/ rr[2] = W(0))
       /\ ~WLtU(Mag(y), WShl(Mag(r), 1))
       /\ (Mag(y) = WShl(Mag(r), 1) => q[1] % 2 = 0)
       /\ (IsZero(r) => Sgn(r) = Sgn(x))

Un(f, h, r) ==
  CASE f = "neg" -> r = Neg(h) \/ (IsNan(h) /\ IsNan(r))
    [] f = "abs" -> r = Abs(h) \/ (IsNan(h) /\ IsNan(r))
    [] f = "inc" -> Same(r, Add(h, 15360))
    [] f = "dec" -> Same(r, Add(h, 48128))
    [] f = "sqrt" -> SqrtOk(h, r)
    [] f = "cbrt" -> CbrtOk(h, r)
    [] f = "rsqrt" -> RsqrtOk(h, r)
    [] f = "logb" -> Same(r, LogB(h))
    [] f = "text" -> Same(r, h)
    [] f \in {"trunc", "floor", "ceil"} -> Same(r, Integral(h, f))
    [] f = "round" -> Same(r, Integral(h, "away"))
    [] f \in {"rint", "nearbyint"} -> Same(r, Integral(h, "even"))
    [] f = "class" -> r = Class(h) + 8 * B01(Finite(h)) + 16 * B01(IsInf(h)) + 32 * B01(IsNan(h)) + 64 * B01(Class(h) = 4) + 128 * Sgn(h)
    [] f \in {"lround", "llround", "toint_away"} -> ~Finite(h) \/ r = SInt(h, "away")
    [] f \in {"lrint", "llrint"} -> ~Finite(h) \/ r = SInt(h, "even")
    [] f = "toint" -> ~Finite(h) \/ r = SInt(h, "trunc")
    [] f = "cast_int" -> ~Finite(h) \/ r = SInt(h, "even")
    [] f = "ilogb" -> ~Finite(h) \/ IsZero(h) \/ r = ILogB(h)
Bi(e, x, y, r, i) ==
  CASE e.f = "add" -> Same(r, Add(x, y))
    [] e.f = "sub" -> Same(r, Add(x, IF IsNan(y) THEN y ELSE Neg(y)))
    [] e.f = "mul" -> Same(r, Mul(x, y))
    [] e.f = "div" -> DivOk(x, y, r)
    [] e.f = "hypot" -> HypotOk(x, y, r)
    [] e.f = "fmax" -> MaxOk(x, y, r)
    [] e.f = "fmin" -> MinOk(x, y, r)
    [] e.f = "fdim" -> IF Unord(x, y) THEN IsNan(r) ELSE IF ~Lt(y, x) THEN r = 0 ELSE Same(r, Add(x, Neg(y)))
    [] e.f = "nextafter" -> Same(r, NextAfter(x, y))
    [] e.f = "copysign" -> r = SetSgn(Sgn(y), Abs(x))
    [] e.f = "fma" -> Same(r, Fma(x, y, e.w[i]))
    [] e.f = "fmod" -> FmodOk(x, y, r, e.q[i])
    [] e.f = "rem" -> RemOk(x, y, r, e.q[i])
    [] e.f = "ldexp" -> Same(r, Ldexp(x, e.n[i]))
    [] e.f = "cmp" -> e.b[i] = Cmps(x, y)
    [] e.f = "hash" -> Eq(x, y) => r = y

Ok(e) ==
  CASE e.op = "un" -> \A i \in DOMAIN e.x : Un(e.f, e.x[i], e.z[i])
    [] e.op = "unrange" -> \A i \in DOMAIN e.z : Un(e.f, e.lo + i - 1, e.z[i])
    [] e.op = "bin" -> \A i \in DOMAIN e.x : Bi(e, e.x[i], e.y[i], e.z[i], i)
    [] e.op = "tofloat" -> \A i \in DOMAIN e.u : ToFloatOk(e.lo + i - 1, e.u[i])
    [] e.op = "todouble" -> \A i \in DOMAIN e.u : ToDoubleOk(e.lo + i - 1, e.u[i])
    [] e.op = "fromfloat" -> \A i \in DOMAIN e.u : Same(e.z[i], FromFloat(e.u[i]))
    [] e.op = "fromdouble" -> \A i \in DOMAIN e.u : Same(e.z[i], FromDouble(e.u[i]))
    [] e.op = "fromint" -> \A i \in DOMAIN e.x : e.z[i] = FromInt(e.x[i])
    [] e.op = "frexp" -> \A i \in DOMAIN e.x : FrexpOk(e.x[i], e.z[i], e.n[i])
    [] e.op = "modf" -> \A i \in DOMAIN e.x : ModfOk(e.x[i], e.z[i], e.w[i])
    [] e.op = "close" -> \A i \in DOMAIN e.x : Close(e.z[i], e.u[i])
    [] e.op = "limits" -> e.z = <<1024, 31743, 64511, 5120, 14336, 31744, 1, 11, 5, -13, 16, -4, 4>> /\ e.nan = <<TRUE, TRUE>>
    [] e.op = "path" -> LET rk == e.base \o "/rank_" \o ToString(e.rank) IN
         /\ e.folder = rk /\ e.config = e.base \o "/config" /\ e.code = e.base \o "/code"
         /\ e.meta = rk \o "/" \o e.var \o ".meta"
         /\ e.chunk = rk \o "/" \o e.var \o "_" \o ToString(e.id) \o ".chunk"
         /\ e.ext = ".meta"
    [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].op>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
