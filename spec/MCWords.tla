------------------------------ MODULE MCWords ------------------------------
(* Words against plain integer arithmetic, for every pair of words of 2       *)
(* limbs of 2 bits (and 1 limb of 4 bits), so that the limb algorithms used   *)
(* in every trace specification are themselves checked.                       *)
EXTENDS Words, TLC
CONSTANT NL
VARIABLES a, b, k
N == Base^NL
Bits == LB * NL
All == [1..NL -> 0..(Base-1)]
V(w) == Sum([i \in 1..NL |-> w[i] * Base^(i-1)])
S(w) == IF V(w) >= N \div 2 THEN V(w) - N ELSE V(w)
FloorDiv(x, d) == IF x >= 0 THEN x \div d ELSE -((-x + d - 1) \div d)
Init == a \in All /\ b \in All /\ k \in 0..(Bits-1)
Next == UNCHANGED <<a, b, k>>
Spec == Init /\ [][Next]_<<a, b, k>>
Inv ==
  /\ V(WAdd(a,b)) = (V(a) + V(b)) % N
  /\ V(WSub(a,b)) = (V(a) - V(b) + N) % N
  /\ V(WMul(a,b)) = (V(a) * V(b)) % N
  /\ V(WNeg(a)) = (N - V(a)) % N
  /\ V(WShl(a,k)) = (V(a) * 2^k) % N
  /\ V(WShr(a,k)) = V(a) \div 2^k
  /\ S(WSar(a,k)) = FloorDiv(S(a), 2^k)
  /\ WLtU(a,b) = (V(a) < V(b))
  /\ WLtS(a,b) = (S(a) < S(b))
  /\ WMulFull(a,b) = LET p == V(a) * V(b) IN [i \in 1..(2*NL) |-> (p \div Base^(i-1)) % Base]
  /\ V(WLow(a,k)) = V(a) % 2^k
  /\ WXor(a, WXor(a, b)) = b
  /\ WAdd(WXor(a,b), WShl(WAnd(a,b), 1)) = WAdd(a,b)
  /\ WBitRev(WBitRev(a, 0, k), 0, k) = a
  /\ V(a) = Sum([i \in 1..Bits |-> WBit(a,i-1) * 2^(i-1)])
  /\ WInt(NL, S(a)) = a
=============================================================================
