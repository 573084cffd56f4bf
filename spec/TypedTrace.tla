----------------------------- MODULE TypedTrace -----------------------------
(* Typed arithmetic.  A typed value is a ring element and an element type; an *)
(* integer stands for itself, a fixed-point number r for r * 2^-f.  The type   *)
(* of a result is the higher of the operands' types; every integer or boolean *)
(* result is exact (mod 2^k, in two's complement), a fixed-point product is    *)
(* off by at most one unit, and a result is public only if everything it was   *)
(* computed from is public.                                                    *)
EXTENDS Words, FiniteSets, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)

Types == <<"I1", "I8", "U8", "I16", "U16", "I32", "U32", "I64", "U64", "F16", "F32", "F64">>
Rank(t) == CHOOSE i \in DOMAIN Types : Types[i] = t
IsF(t) == Rank(t) >= 10
TWidth(t) == <<1, 8, 8, 16, 16, 32, 32, 64, 64, 16, 32, 64>>[Rank(t)]
Common(s, t) == IF Rank(s) < Rank(t) THEN t ELSE s
W0(w) == WZero(Len(w))
Fine(p, w) == IF p THEN WOne(Len(w)) ELSE W0(w)
Raise(w, f) == WShl(w, f)                                      \* an integer as a fixed-point number
\* operand i of event e, element j, as a number of the common type c
X(e, i, j) == e.in[i][j]
As(e, i, j, c) == IF IsF(c) /\ ~IsF(e.ty[i]) THEN Raise(X(e, i, j), e.f) ELSE X(e, i, j)
Frac(w, f) == WLow(w, f)
Flr(w, f) == WShl(WSar(w, f), f)
Unit(w, f) == WShl(WOne(Len(w)), f)
IsWhole(w, f) == Frac(w, f) = W0(w)
Cl(w, f) == IF IsWhole(w, f) THEN w ELSE WAdd(Flr(w, f), Unit(w, f))
\* toward zero, as an integer
ToInt(w, f) == IF WMsb(w) = 1 THEN WNeg(WShr(WNeg(w), f)) ELSE WShr(w, f)
\* nearest, halves away from zero / to even
HalfUp(w, f) == WShl(WShr(WAdd(w, WShl(WOne(Len(w)), f - 1)), f), f)      \* w >= 0
Near(w, f) == IF WMsb(w) = 1 THEN WNeg(HalfUp(WNeg(w), f)) ELSE HalfUp(w, f)
NearE(w, f) == LET d == Flr(w, f)  h == WShl(WOne(Len(w)), f - 1)  r == Frac(w, f) IN
               IF WLtU(r, h) \/ (r = h /\ WBit(d, f) = 0) THEN d ELSE WAdd(d, Unit(w, f))
Off1(a, b) == b \in {a, WAdd(a, WOne(Len(a))), WSub(a, WOne(Len(a)))}
\* x^y by squaring, y an unsigned word
WPow(x, y) ==
  LET n == LET S == {i \in 0..(WBits(y) - 1) : WBit(y, i) = 1} IN IF S = {} THEN 0 ELSE 1 + CHOOSE i \in S : \A j \in S : j <= i
  IN FoldLeft(LAMBDA acc, i : LET sq == WMul(acc, acc) IN IF WBit(y, n - i) = 1 THEN WMul(sq, x) ELSE sq, WOne(Len(x)), Up(n))
Pow(x, y) == IF WMsb(y) = 0 THEN WPow(x, y)
             ELSE IF WAbs(x) = WOne(Len(x)) THEN (IF y[1] % 2 = 1 THEN x ELSE WOne(Len(x))) ELSE W0(x)
Small(w) == IF WMsb(w) = 1 THEN -WVal(WNeg(w)) ELSE WVal(w)
AbsI(x) == IF x < 0 THEN -x ELSE x
Quot(x, y) == LET q == AbsI(x) \div AbsI(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
Lt(e, j, c) == WLtS(As(e, 1, j, c), As(e, 2, j, c))
Pop(w, n) == WNat(Len(w), WPop(w, n))

\* type of the result
RType(e) ==
  CASE e.op \in {"equal", "not_equal", "less", "less_equal", "greater", "greater_equal"} -> "I1"
    [] e.op \in {"cast", "bitcast"} -> e.to
    [] e.op = "select" -> e.ty[2]
    [] e.op \in {"add", "sub", "mul", "dot"} -> Common(e.ty[1], e.ty[2])
    [] OTHER -> e.ty[1]
\* element j of the result
Good(e, j, r) ==
  LET c == IF Len(e.ty) = 2 THEN Common(e.ty[1], e.ty[2]) ELSE e.ty[1]
      x == X(e, 1, j)
  IN
  CASE e.op = "add" -> r = WAdd(As(e, 1, j, c), As(e, 2, j, c))
    [] e.op = "sub" -> r = WSub(As(e, 1, j, c), As(e, 2, j, c))
    [] e.op = "mul" -> IF IsF(e.ty[1]) /\ IsF(e.ty[2]) THEN Off1(WSar(WMul(x, X(e, 2, j)), e.f), r) ELSE r = WMul(x, X(e, 2, j))
    [] e.op = "square" -> IF IsF(c) THEN Off1(WSar(WMul(x, x), e.f), r) ELSE r = WMul(x, x)
    [] e.op = "equal" -> r = Fine(As(e, 1, j, c) = As(e, 2, j, c), x)
    [] e.op = "not_equal" -> r = Fine(As(e, 1, j, c) # As(e, 2, j, c), x)
    [] e.op = "less" -> r = Fine(Lt(e, j, c), x)
    [] e.op = "less_equal" -> r = Fine(Lt(e, j, c) \/ As(e, 1, j, c) = As(e, 2, j, c), x)
    [] e.op = "greater_equal" -> r = Fine(~Lt(e, j, c), x)
    [] e.op = "greater" -> r = Fine(~Lt(e, j, c) /\ As(e, 1, j, c) # As(e, 2, j, c), x)
    [] e.op = "neg" -> r = WNeg(x)
    [] e.op = "abs" -> r = WAbs(x)
    [] e.op = "sign" -> LET s == IF x = W0(x) /\ ~e.iz THEN x ELSE IF WMsb(x) = 1 THEN WOnes(Len(x)) ELSE WOne(Len(x))
                        IN r = (IF IsF(c) THEN Raise(s, e.f) ELSE s)
    [] e.op = "select" -> r = (IF x = WOne(Len(x)) THEN X(e, 2, j) ELSE X(e, 3, j))
    [] e.op = "and" -> r = WAnd(x, X(e, 2, j))
    [] e.op = "or" -> r = WOr(x, X(e, 2, j))
    [] e.op = "xor" -> r = WXor(x, X(e, 2, j))
    [] e.op = "not" -> r = (IF c = "I1" THEN WXor(x, WOne(Len(x))) ELSE WNot(x))
    [] e.op = "max" -> r = (IF WLtS(x, X(e, 2, j)) THEN X(e, 2, j) ELSE x)
    [] e.op = "min" -> r = (IF WLtS(x, X(e, 2, j)) THEN x ELSE X(e, 2, j))
    [] e.op = "clamp" -> LET lo == IF WLtS(x, X(e, 2, j)) THEN X(e, 2, j) ELSE x IN r = (IF WLtS(lo, X(e, 3, j)) THEN lo ELSE X(e, 3, j))
    [] e.op = "cast" -> r = (IF IsF(e.ty[1]) = IsF(e.to) THEN x ELSE IF IsF(e.to) THEN Raise(x, e.f) ELSE ToInt(x, e.f))
    [] e.op \in {"bitcast", "move"} -> r = x
    [] e.op = "floor" -> r = Flr(x, e.f)
    [] e.op = "ceil" -> r = Cl(x, e.f)
    [] e.op = "round" -> r = Near(x, e.f)
    [] e.op = "rounde" -> r = NearE(x, e.f)
    [] e.op = "popcnt" -> r = Pop(x, TWidth(c))
    [] e.op = "lshift" -> r = WShl(x, Small(X(e, 2, j)))
    [] e.op = "rshift" -> r = WShr(x, Small(X(e, 2, j)))
    [] e.op = "arshift" -> r = WSar(x, Small(X(e, 2, j)))
    [] e.op = "power" -> r = Pow(x, X(e, 2, j))
    [] e.op = "div" -> Small(r) = Quot(Small(x), Small(X(e, 2, j)))
    [] e.op = "rem" -> Small(r) = Small(x) - Quot(Small(x), Small(X(e, 2, j))) * Small(X(e, 2, j))
    [] e.op = "dot" ->
         LET q == e.sh[1][2]  m == e.sh[2][2]  i == (j - 1) \div m  o == (j - 1) % m
             s == WSumAll(Len(r), [t \in 1..q |-> WMul(X(e, 1, i * q + t), X(e, 2, (t - 1) * m + o + 1))])
         IN IF IsF(e.ty[1]) /\ IsF(e.ty[2]) THEN Off1(WSar(s, e.f), r) ELSE r = s
    [] OTHER -> FALSE
\* who may see the result
RVis(e) ==
  LET S == {e.vis[i] : i \in DOMAIN e.vis} IN
  IF e.op = "move" \/ e.op = "cast" THEN {e.tv}
  ELSE IF S = {"P"} THEN {"P"}
  ELSE IF S \cap {"S", "B"} # {} \/ Cardinality({e.own[i] : i \in {j \in DOMAIN e.vis : e.vis[j] = "V"}}) > 1 THEN {"S"} ELSE {"S", "V"}
Shape(e) == IF e.op = "dot" THEN <<e.sh[1][1], e.sh[2][2]>> ELSE e.sh[1]
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Check(e) ==
  /\ e.ok /\ e.same
  /\ e.rsh = Shape(e) /\ Len(e.out) = Prod(e.rsh)
  /\ e.rt = RType(e)
  /\ e.out = <<>> \/ e.rv \in RVis(e)
  /\ \A j \in 1 .. Len(e.out) : Good(e, j, e.out[j])
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF Check(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].op>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
