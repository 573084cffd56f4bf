----------------------------- MODULE MCCircuits -----------------------------
EXTENDS Circuits, TLC
CONSTANT N
VARIABLES x, y
Words_ == [1..N -> 0..(Base - 1)]
Init == x \in Words_ /\ y = x
Next == y = x /\ y' \in Words_ /\ x' = x
Spec == Init /\ [][Next]_<<x, y>>
k == LB * N
Adders == KoggeStone(x, y, k) = WAdd(x, y) /\ Sklansky(x, y, k) = WAdd(x, y)
Carries == \A nb \in 1..k : (nb % 2 = 0 \/ nb < k) => CarryTree(WXor(x, y), WAnd(x, y), nb) = WCarry(x, y, nb)
Unaries == /\ PrefixOrTree(x) = WPrefixOr(x)
           /\ \A m \in 0..Log2Floor(k), s \in 0..3 : k % 2^m = 0 =>
                /\ WIntl(WDeintl(x, s, m), s, m) = x /\ WDeintl(WIntl(x, s, m), s, m) = x
                /\ DeintlNet(x, s, m) = WDeintl(x, s, m)
           /\ \A h \in 1..(k \div 2) : (2 * h = 2^Log2Ceil(2 * h) /\ k % (2 * h) = 0) => WSplit(x, 2 * h) = WLow(WDeintl(x, 0, Log2Ceil(2 * h)), 2 * h)
Inv == Adders /\ Carries /\ Unaries
=============================================================================
