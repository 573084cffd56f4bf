----------------------------- MODULE ApproxTrace -----------------------------
(* Fixed-point functions against the real functions (C21).  An element with  *)
(* f fractional bits stands for w * 2^-f; every result must lie within the   *)
(* error bound of its function and approximation mode on the whole domain.   *)
(* Quotients and roots are judged by integer relations, the rest against     *)
(* exact real functions (Real).                                              *)
EXTENDS Real, TLC, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Public(e) == \A i \in 1 .. Len(e.visl) : e.visl[i] = "P"
Ulp(e, n) == RPow2(n, e.f)
Ulps(e, n) == RMulN(Ulp(e, 1), n)
P2(s) == RPow2(1, s)
\* two-iteration quotients are good to 14 bits, three iterations to 28
Three(e) == e.divi >= 3 \/ e.f >= 30
Near(a, b, E) == RLe(WAbs(WSub(a, b)), E)
Nonneg(a) == IF WMsb(a) = 1 THEN RZero ELSE a

-----------------------------------------------------------------------------
\* integer relations, on words of 48 bytes; bounds are scaled by 2^48
ZN == 48
Z(w) == Tup(WFit(ZN, w, TRUE))
ZP(n, s) == WShl(WNat(ZN, n), s)
ZAbs(a) == WAbs(a)
ZMul(a, b) ==   \* signed product
  LET x == WAbs(a)  y == WAbs(b)  la == Top(x)  lb == Top(y)
      col(c) == LET i0 == IF c > lb THEN c - lb + 1 ELSE 1  i1 == IF c < la THEN c ELSE la
                IN IF i1 < i0 THEN 0 ELSE Sum([t \in 1..(i1 - i0 + 1) |-> x[i0 + t - 1] * y[c - i0 - t + 2]])
      q == Norm([c \in 1..ZN |-> col(c)])
  IN IF WMsb(a) # WMsb(b) THEN WNeg(q) ELSE q
ZLe(a, b) == ~WLtS(b, a)
\* relative error of a quotient, times 2^48
RelDiv(e) == WAdd(ZP(1, IF Three(e) THEN 20 ELSE 34), ZP(8, 48 - e.f))
\* |y * b - num| <= E * |b| + extra
Quotient(e, y, b, num, extra) ==
  LET E == IF Public(e) THEN WAdd(ZP(2, 48), ZMul(ZP(1, 26), ZAbs(y))) ELSE WAdd(ZP(4, 48), ZMul(RelDiv(e), ZAbs(y)))
      d == ZAbs(WSub(ZMul(y, b), num))
  IN ZLe(WShl(d, 48), WAdd(ZMul(E, ZAbs(b)), IF Public(e) THEN WZero(ZN) ELSE extra))
Recip(e, x, y) == Quotient(e, y, x, ZP(1, 2 * e.f), WZero(ZN))
Div(e, a, b, y) == Quotient(e, y, b, WShl(a, e.f), ZP(2, 48 + e.f))
Sq(a) == ZMul(a, a)
\* y within E of sqrt(x * 2^f):  (y - E)^2 <= x * 2^f <= (y + E)^2
Sqrt(e, x, y) ==
  LET E == WAdd(WAdd(ZP(6, 48), ZMul(ZP(1, IF e.low THEN 35 ELSE 30), ZAbs(y))), WShl(x, 50 - e.f))
      s == WShl(y, 48)  t == WShl(x, 96 + e.f)
  IN /\ ZLe(WZero(ZN), WAdd(s, E))
     /\ ZLe(t, Sq(WAdd(s, E)))
     /\ ZLe(s, E) \/ ZLe(Sq(WSub(s, E)), t)
RelRsqrt(e) == WAdd(IF e.low THEN ZP(1, 41) ELSE WAdd(ZP(1, 37), ZP(6, 48 - e.f)), ZP(1, 47 - (e.f \div 2)))
Rsqrt(e, x, y) ==
  LET E == WAdd(ZP(4, 48), ZMul(RelRsqrt(e), ZAbs(y)))
      s == WShl(y, 48)  t == ZP(1, 3 * e.f + 96)
  IN /\ ZLe(WZero(ZN), WAdd(s, E))
     /\ ZLe(t, ZMul(Sq(WAdd(s, E)), x))
     /\ ZLe(s, E) \/ ZLe(ZMul(Sq(WSub(s, E)), x), t)

-----------------------------------------------------------------------------
\* relative and absolute error of the limit approximation (1 + x/N)^N, N = 2^n
LimitErr(e, x) ==
  LET n == e.expi  ax == WAbs(x)
      q == Tup(WSar(RMul(x, x), n + 1))                                    \* x^2 / 2N
      r == RMul(q, WAdd(RDivN(RInt(115), 100), Tup(WSar(ax, n - 1))))      \* * (1.15 + 2|x|/N)
      rel == WAdd(r, WShl(Ulp(e, 1), n + 2))                               \* + 4N ulp
  IN IF WMsb(x) = 1 THEN RMin(ROne, rel) ELSE rel
\* error of the exponential of x, whose true value is t
ExpErr(e, x, t) ==
  LET lin == RMul(Ulp(e, 4), WAdd(WAbs(x), RInt(4))) IN
  CASE e.expm = "TAYLOR" -> IF RLe(x, RInt(-(2^(e.expi - 1)))) THEN WAdd(Ulp(e, 8), P2(17)) ELSE WAdd(Ulp(e, 8), RMul(t, LimitErr(e, x)))
    [] e.expm = "PADE" -> WAdd(Ulp(e, 4), RMul(t, WAdd(lin, P2(13))))
    [] OTHER -> WAdd(Ulp(e, 4), RMul(t, WAdd(P2(16), RMul(Ulp(e, 2), WAdd(WAbs(x), RInt(8))))))
ExpVal(x) == IF RLe(x, RInt(-60)) THEN RZero ELSE RExp(x)
\* a float computation in the clear
PubErr(e, t) == WAdd(Ulp(e, 2), Tup(WSar(WAbs(t), 22)))
Exp(e, x, y) ==
  LET t == ExpVal(x) IN
  IF Public(e) THEN Near(y, t, WAdd(PubErr(e, t), Tup(WSar(RMul(WAbs(x), t), 22)))) ELSE Near(y, t, ExpErr(e, x, t))
Exp2(e, x, y) == LET t == RExp(RMul(x, RLN2)) IN Near(y, t, WAdd(Ulp(e, 4), RMul(t, WAdd(P2(13), Ulp(e, 16)))))
\* e^(y-E) <= x <= e^(y+E)
LogWithin(x, y, E) == RLe(ExpVal(WSub(y, E)), x) /\ RLe(x, RExp(WAdd(y, E)))
LogErr(e, y, mode) ==
  IF mode = "NEWTON" THEN WAdd(RDivN(WAbs(y), 50), P2(7))
  ELSE WAdd(WAdd(Ulp(e, 24), RMul(Ulp(e, 2), WAbs(y))), WAdd(P2(22), IF mode = "PADE" THEN WAdd(Ulp(e, 8), IF Three(e) THEN RZero ELSE P2(13)) ELSE RZero))
Log(e, x, y) == LogWithin(x, y, IF Public(e) THEN WAdd(PubErr(e, y), P2(21)) ELSE LogErr(e, y, e.logm))
Log2(e, x, y) == LET z == RMul(y, RLN2) IN LogWithin(x, z, RMul(LogErr(e, y, "PADE"), RLN2))
\* |y| (1 + q) - (1 - q) within E (1 + q), q = e^(-2|x|)
Tanh(e, x, y) ==
  LET q == ExpVal(WNeg(WShl(RMin(WAbs(x), RInt(40)), 1)))  s == IF WMsb(x) = 1 THEN WNeg(y) ELSE y
      E == WAdd(RDivN(RInt(7), 1000), Ulp(e, 8))
  IN Near(RMul(s, WAdd(ROne, q)), WSub(ROne, q), RMul(E, WAdd(ROne, q)))
\* the logistic function 1 / (1 + e^-x); its linear and three-segment stand-ins are exact
Sigmoid(e, x, y) ==
  LET lin == WAdd(P2(1), Tup(WSar(x, 3)))
      t == ExpVal(WNeg(x))                \* e^-x
      d == WAdd(ROne, t)
      rel == IF Public(e) THEN P2(20) ELSE IF Three(e) THEN P2(28) ELSE P2(14)
      \* y within 4 ulp + rel/d + 2/d^2 * error of e^-x:  times d^2
      E == WAdd(RMul(Ulp(e, 4), RMul(d, d)), WAdd(RMul(WAdd(rel, Ulp(e, 8)), d), WShl(ExpErr(e, WNeg(x), t), 1)))
  IN CASE e.sigm = "MM1" -> Near(y, lin, Ulp(e, 2))
       [] e.sigm = "SEG3" -> Near(y, IF WLtS(RInt(4), x) THEN ROne ELSE IF WLtS(x, RInt(-4)) THEN RZero ELSE lin, Ulp(e, 2))
       [] OTHER -> Near(RMul(y, RMul(d, d)), d, E)
Trig(e, x, y, i) ==
  LET t == RSinCos(x)[i]
      E == IF Public(e) THEN WAdd(PubErr(e, t), Tup(WSar(WAbs(x), 23))) ELSE WAdd(P2(13), WAdd(Ulp(e, 16), RMul(WAbs(x), Ulp(e, 1))))
  IN Near(y, t, E)
Erf(e, x, y) ==
  LET ax == WAbs(x)  s == IF WMsb(x) = 1 THEN WNeg(y) ELSE y
      E == IF Public(e) THEN WAdd(Ulp(e, 3), P2(21)) ELSE WAdd(RDivN(RInt(6), 10000), Ulp(e, 32))
  IN IF RLe(ax, RDivN(RInt(31), 10)) THEN Near(s, RErf(ax), E)
     ELSE RLe(WSub(ROne, WAdd(E, P2(15))), s) /\ RLe(s, WAdd(ROne, E))      \* 1 - 2^-15 < erf 3.1
\* the direction (cos t, sin t) is that of (x, y)
Atan2(e, y, x, t) ==
  LET sc == RSinCos(t)
      m == RMax(WAbs(x), WAbs(y))
      E == IF Public(e) THEN WAdd(PubErr(e, t), P2(20))
           ELSE WAdd(WAdd(IF e.f <= 20 THEN P2(16) ELSE P2(23), IF Three(e) THEN P2(28) ELSE P2(14)), Ulp(e, 16))
      cross == WSub(RMul(y, sc[2]), RMul(x, sc[1]))
      dot == WAdd(RMul(x, sc[2]), RMul(y, sc[1]))
  IN /\ RLe(WAbs(cross), WAdd(RMul(m, E), Ulp(e, 4)))
     /\ WMsb(dot) = 0
     /\ RLe(WAbs(t), WAdd(RPI, WAdd(E, Ulp(e, 4))))
ArcErr(e, x) ==
  IF Public(e) THEN WAdd(Ulp(e, 6), IF RLe(WAbs(x), RPow2(31, 5)) THEN P2(20) ELSE P2(10))
  ELSE WAdd(WAdd(IF e.f <= 20 THEN P2(13) ELSE P2(20), Ulp(e, 24)), IF e.low THEN P2(14) ELSE P2(18))
\* cos(y + E) <= x <= cos(y - E) on [0, pi]
Acos(e, x, y) ==
  LET E == ArcErr(e, x)  hi == WAdd(y, E)  lo == WSub(y, E) IN
  /\ RLe(RZero, hi) /\ RLe(lo, RPI)
  /\ RLe(RPI, hi) \/ RLe(RSinCos(hi)[2], x)
  /\ RLe(lo, RZero) \/ RLe(x, RSinCos(lo)[2])
Asin(e, x, y) ==
  LET E == ArcErr(e, x)  hi == WAdd(y, E)  lo == WSub(y, E) IN
  /\ RLe(WNeg(RHALFPI), hi) /\ RLe(lo, RHALFPI)
  /\ RLe(RHALFPI, hi) \/ RLe(x, RSinCos(hi)[1])
  /\ RLe(lo, WNeg(RHALFPI)) \/ RLe(RSinCos(lo)[1], x)

Good(e, i) ==
  LET y == e.y[i]  ry == Tup(RRaw(y, e.f))  x == e.x[1][i]  rx == Tup(RRaw(x, e.f)) IN
  CASE e.op = "recip" -> Recip(e, Z(x), Z(y))
    [] e.op = "div" -> Div(e, Z(x), Z(e.x[2][i]), Z(y))
    [] e.op = "sqrt" -> Sqrt(e, Z(x), Z(y))
    [] e.op = "rsqrt" -> Rsqrt(e, Z(x), Z(y))
    [] e.op = "exp" -> Exp(e, rx, ry)
    [] e.op = "exp2" -> Exp2(e, rx, ry)
    [] e.op = "log" -> Log(e, rx, ry)
    [] e.op = "log1p" -> Log(e, WAdd(rx, ROne), ry)
    [] e.op = "log2" -> Log2(e, rx, ry)
    [] e.op = "tanh" -> Tanh(e, rx, ry)
    [] e.op = "sigmoid" -> Sigmoid(e, rx, ry)
    [] e.op = "sin" -> Trig(e, rx, ry, 1)
    [] e.op = "cos" -> Trig(e, rx, ry, 2)
    [] e.op = "erf" -> Erf(e, rx, ry)
    [] e.op = "atan2" -> Atan2(e, rx, Tup(RRaw(e.x[2][i], e.f)), ry)
    [] e.op = "acos" -> Acos(e, rx, ry)
    [] e.op = "asin" -> Asin(e, rx, ry)
    [] OTHER -> FALSE
Bad(e) == {i \in 1 .. Len(e.y) : ~Good(e, i)}
Check(e) == e.ok /\ e.same /\ Len(e.y) = Len(e.x[1]) /\ Bad(e) = {}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF "end" \in DOMAIN Trace[l] \/ Check(Trace[l]) THEN TRUE
           ELSE PrintT(<<"REJECT", l, Trace[l].op, Trace[l].p, Trace[l].k, Trace[l].f>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
