------------------------------- MODULE MCReal -------------------------------
(* The real functions themselves: identities that determine them.            *)
EXTENDS Real, TLC
VARIABLE v
Close(a, b, s) == RLe(WAbs(WSub(a, b)), RPow2(1, s))
X == RDivN(RInt(v), 8)
Y == RDivN(RInt(v + 3), 16)
Init == v \in {-40, -17, -8, -1, 0, 1, 2, 5, 8, 13, 21, 24}
Next == UNCHANGED v
ExpLaw == Close(RMul(RExp(X), RExp(WNeg(X))), ROne, 40) /\ Close(RExp(WAdd(X, Y)), RMul(RExp(X), RExp(Y)), 36)
ExpLn2 == Close(RExp(RLN2), RInt(2), 48) /\ Close(RExp(WNeg(RLN2)), RPow2(1, 1), 48)
Slope == \* (e^h - 1) / h near 1, and sin h / h
  Close(WSub(RExp(RPow2(1, 20)), ROne), RPow2(1, 20), 40) /\ Close(RSinCos(RPow2(1, 20))[1], RPow2(1, 20), 50)
Circle == LET a == RSinCos(X)  b == RSinCos(Y)  c == RSinCos(WAdd(X, Y)) IN
  /\ Close(WAdd(RMul(a[1], a[1]), RMul(a[2], a[2])), ROne, 44)
  /\ Close(c[1], WAdd(RMul(a[1], b[2]), RMul(a[2], b[1])), 44)
  /\ Close(c[2], WSub(RMul(a[2], b[2]), RMul(a[1], b[1])), 44)
PiLaw == Close(RSinCos(RPI)[2], RInt(-1), 44) /\ Close(RSinCos(RHALFPI)[1], ROne, 44) /\ Close(RSinCos(RPI)[1], RZero, 44)
\* erf is odd, increasing, erf(1) = 0.842700792949714..., erf'(0) = 2/sqrt(pi), erfc(3) < 2.21e-5
ErfLaw ==
  /\ Close(RErf(WNeg(RPow2(5, 2))), WNeg(RErf(RPow2(5, 2))), 50)
  /\ Close(RErf(RPow2(1, 20)), RMul(RERFC, RPow2(1, 20)), 50)
  /\ Close(RErf(ROne), RDivN(RDivN(RInt(842700793), 31250), 32000), 29)
  /\ LET c == WSub(ROne, RErf(RInt(3))) IN RLe(RDivN(RInt(2209), 100000000 \div 64) , RMulN(c, 64)) /\ RLe(c, RDivN(RInt(221), 10000000 \div 2))
=============================================================================
