----------------------------- MODULE EncodeTrace -----------------------------
EXTENDS Encode, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)

Every(e, P(_)) == \A i \in 1 .. Len(e.x) : P(i)
Monotone(e) == \A i, j \in 1 .. Len(e.x) :
  (i # j /\ ~DIsNan(e.x[i]) /\ ~DIsNan(e.x[j]) /\ DLess(e.x[i], e.x[j])) => ~WLtS(e.out[j], e.out[i])
EncE(e) ==
  IF ~Holds(e.kind, e.sz, e.k) THEN ~e.ok
  ELSE /\ e.ok /\ e.kept /\ e.ring /\ e.rsh = e.sh /\ e.dt = e.pt /\ Len(e.out) = Len(e.x)
       /\ Every(e, LAMBDA i : Enc1(e.kind, e.x[i], e.k, e.f, e.out[i]))
       /\ e.kind = "f" => Monotone(e)
DecE(e) ==
  /\ e.ok /\ e.kept /\ Len(e.out) = Len(e.x)
  /\ Every(e, LAMBDA i : Dec1(e.kind, e.x[i], e.f, e.sz, e.out[i]))
ConstE(e) ==
  /\ e.ok /\ e.rsh = e.sh /\ e.dsh = e.sh /\ Len(e.out) = Len(e.x) /\ Len(e.back) = Len(e.x)
  /\ Every(e, LAMBDA i : Enc1(e.kind, e.x[i], e.k, e.f, e.out[i]) /\ Dec1(e.kind, e.out[i], e.f, e.sz, e.back[i]))
IotaE(e) ==
  /\ e.ok /\ Len(e.out) = e.n /\ Len(e.back) = e.n
  /\ \A i \in 1 .. e.n : e.out[i] = (IF e.kind = "f" THEN WShl(WNat(e.k \div 8, i - 1), e.f) ELSE WNat(e.k \div 8, i - 1))
                         /\ Dec1(e.kind, e.out[i], e.f, e.sz, e.back[i])
Init == l = 1
Check(e) == CASE e.op = "enc" -> EncE(e) [] e.op = "dec" -> DecE(e) [] e.op = "const" -> ConstE(e) [] e.op = "iota" -> IotaE(e) [] OTHER -> FALSE
Next == /\ l <= Len(Trace)
        /\ IF Check(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].op \o " " \o Trace[l].pt>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
