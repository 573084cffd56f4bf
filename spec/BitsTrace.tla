----------------------------- MODULE BitsTrace -----------------------------
(* Trace specification of bit utilities and bit circuits, in the clear and    *)
(* on boolean shares (z is what the parties' pieces open to).                 *)
EXTENDS Circuits, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
All(e, f(_)) == Len(e.z) = Len(e.x) /\ \A i \in DOMAIN e.x : e.z[i] = f(i)
LowAll(e, n, f(_)) == Len(e.z) = Len(e.x) /\ \A i \in DOMAIN e.x : WLow(e.z[i], n) = WLow(f(i), n)
W01(e, b) == WNat(e.w, b)
Ok(e) ==
  CASE e.op = "log2floor" -> All(e, LAMBDA i : IF WBitWidth(e.x[i]) = 0 THEN 0 ELSE WBitWidth(e.x[i]) - 1)
    [] e.op = "log2ceil" -> All(e, LAMBDA i : IF e.x[i] = WZero(8) THEN 0 ELSE WBitWidth(WSub(e.x[i], WOne(8))))
    [] e.op = "bitwidth" -> All(e, LAMBDA i : WBitWidth(e.x[i]))
    [] e.op = "deintl" -> All(e, LAMBDA i : WDeintl(e.x[i], e.s, Log2Ceil(e.n)))
    [] e.op = "intl" -> All(e, LAMBDA i : WIntl(e.x[i], e.s, Log2Ceil(e.n)))
    [] e.op = "add" -> LowAll(e, e.n, LAMBDA i : WAdd(e.x[i], e.y[i]))
    [] e.op = "carry" -> All(e, LAMBDA i : W01(e, WCarry(e.x[i], e.y[i], e.n)))
    [] e.op = "carry0" -> LowAll(e, 1, LAMBDA i : W01(e, WCarry(e.x[i], e.y[i], e.n)))
    [] e.op = "split" -> LowAll(e, e.n, LAMBDA i : WSplit(e.x[i], e.n))
    [] e.op = "bitrev" -> All(e, LAMBDA i : WBitRev(e.x[i], e.s, e.n))
    [] e.op = "parity" -> All(e, LAMBDA i : W01(e, WParity(e.x[i], e.n)))
    [] e.op = "popcount" -> All(e, LAMBDA i : W01(e, WPop(e.x[i], e.n)))
    [] e.op = "prefixor" -> All(e, LAMBDA i : WPrefixOr(e.x[i]))
    [] e.op = "leading" -> All(e, LAMBDA i : WLeading1(e.x[i]))
    [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].op>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
