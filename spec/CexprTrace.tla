---------------------------- MODULE CexprTrace ----------------------------
(* Cost expressions: a tree denotes a number modulo 2^64; its text, read     *)
(* with the usual precedence and left association, denotes the same number.  *)
EXTENDS Circuits, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Bound(env, n) == \E i \in DOMAIN env : env[i].n = n
Lookup(env, n) == env[CHOOSE i \in DOMAIN env : env[i].n = n].w
Log2C(w) == WNat(8, IF w = WZero(8) THEN 0 ELSE WBitWidth(WSub(w, WOne(8))))
LogDefined(w) == w # WZero(8) /\ WLtU(w, WShl(WOne(8), 40))
Arith(o, a, b) == CASE o = "+" -> WAdd(a, b) [] o = "-" -> WSub(a, b) [] o = "*" -> WMul(a, b)

\* ---- trees: [o |-> "c", w], [o |-> "v", n], [o |-> "log", l], [o |-> "+-*", l, r]
RECURSIVE AllBound(_, _), Value(_, _), Defined(_, _)
AllBound(t, env) == CASE t.o = "c" -> TRUE [] t.o = "v" -> Bound(env, t.n) [] t.o = "log" -> AllBound(t.l, env)
                      [] OTHER -> AllBound(t.l, env) /\ AllBound(t.r, env)
Value(t, env) == CASE t.o = "c" -> t.w [] t.o = "v" -> Lookup(env, t.n) [] t.o = "log" -> Log2C(Value(t.l, env))
                   [] OTHER -> Arith(t.o, Value(t.l, env), Value(t.r, env))
\* the logarithm is taken in floating point; outside 1..2^40 its rounding is not specified
Defined(t, env) == CASE t.o = "c" -> TRUE [] t.o = "v" -> TRUE [] t.o = "log" -> Defined(t.l, env) /\ LogDefined(Value(t.l, env))
                     [] OTHER -> Defined(t.l, env) /\ Defined(t.r, env)

\* ---- text: tokens are records [k |-> "num", w] | [k |-> "name", n] | [k |-> "+"] ...; parsing yields <<ok, tree, rest position>>
Tk(s, p) == IF p <= Len(s) THEN s[p].k ELSE "end"
Fail(p) == <<FALSE, [o |-> "c", w |-> WZero(8)], p>>
RECURSIVE PSum(_, _), PSumRest(_, _, _), PProd(_, _), PProdRest(_, _, _), PAtom(_, _)
PSum(s, p) == LET a == PProd(s, p) IN IF a[1] THEN PSumRest(s, a[2], a[3]) ELSE a
PSumRest(s, t, p) == IF Tk(s, p) \in {"+", "-"}
                     THEN LET b == PProd(s, p + 1) IN IF b[1] THEN PSumRest(s, [o |-> Tk(s, p), l |-> t, r |-> b[2]], b[3]) ELSE b
                     ELSE <<TRUE, t, p>>
PProd(s, p) == LET a == PAtom(s, p) IN IF a[1] THEN PProdRest(s, a[2], a[3]) ELSE a
PProdRest(s, t, p) == IF Tk(s, p) = "*"
                      THEN LET b == PAtom(s, p + 1) IN IF b[1] THEN PProdRest(s, [o |-> "*", l |-> t, r |-> b[2]], b[3]) ELSE b
                      ELSE <<TRUE, t, p>>
PAtom(s, p) ==
  CASE Tk(s, p) = "num" -> <<TRUE, [o |-> "c", w |-> s[p].w], p + 1>>
    [] Tk(s, p) = "name" /\ s[p].n = "log" /\ Tk(s, p + 1) = "(" ->
         LET a == PSum(s, p + 2) IN IF a[1] /\ Tk(s, a[3]) = ")" THEN <<TRUE, [o |-> "log", l |-> a[2]], a[3] + 1>> ELSE Fail(p)
    [] Tk(s, p) = "name" -> <<TRUE, [o |-> "v", n |-> s[p].n], p + 1>>
    [] Tk(s, p) = "(" -> LET a == PSum(s, p + 1) IN IF a[1] /\ Tk(s, a[3]) = ")" THEN <<TRUE, a[2], a[3] + 1>> ELSE Fail(p)
    [] OTHER -> Fail(p)
Parse(s) == LET a == PSum(s, 1) IN IF a[3] = Len(s) + 1 THEN a ELSE Fail(1)

Ok(e) ==
  LET P == Parse(e.text) IN
  /\ P[1]
  /\ \A i \in DOMAIN e.evals :
       LET ev == e.evals[i] IN
       IF ~AllBound(e.tree, ev.env) THEN ev.threw
       ELSE Defined(e.tree, ev.env) =>
              /\ ~ev.threw /\ ev.v = Value(e.tree, ev.env)
              /\ AllBound(P[2], ev.env) /\ Value(P[2], ev.env) = Value(e.tree, ev.env)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].op>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
