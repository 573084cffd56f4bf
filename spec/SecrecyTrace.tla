---------------------------- MODULE SecrecyTrace ----------------------------
(* What one party sees of a secret.                                            *)
(*  span: a set of lanes over which every bit of the party's view cancels while *)
(*    exactly the named bit of the secrets does not.  By duality such a set     *)
(*    exists iff no sum (mod 2) of bits of the view, and of other secret bits,  *)
(*    equals that bit: a party that holds a secret, a piece that completes it,  *)
(*    or two parts whose sum, difference or exclusive-or is a secret, leaves no *)
(*    such set (sums and differences agree modulo 2).                           *)
(*  bias: how often each bit was set over the lanes, for two secrets; the two   *)
(*    counts are draws from one binomial distribution if the view hides them.   *)
EXTENDS Integers, Sequences, Bitwise, TLC, Json, IOUtils, SequencesExt
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Cancel(rows) == FoldLeft(LAMBDA a, r : [i \in DOMAIN a |-> a[i] ^^ r[i]], [i \in DOMAIN rows[1] |-> 0], rows)
Unit(n, b) == [i \in 1..n |-> IF (b \div 30) + 1 = i THEN 2^(b % 30) ELSE 0]
Ignorant(e) == /\ e.ok /\ e.rows # <<>> /\ Len(e.rows) = Len(e.secret)
               /\ LET v == Cancel(e.rows) IN \A i \in DOMAIN v : v[i] = 0
               /\ Cancel(e.secret) = Unit(Len(e.secret[1]), e.bit)
\* a difference of 7.5 standard deviations does not happen by chance
Alike(a, b, n) == 2 * (a - b) * (a - b) <= 57 * n
Unbiased(e) == /\ \A q \in DOMAIN e.one : \A t \in DOMAIN e.one[q][1] : Alike(e.one[q][1][t], e.one[q][2][t], e.lanes)
               /\ \A q \in DOMAIN e.two : Alike(e.two[q][1], e.two[q][2], e.lanes)
Ok(e) == CASE e.op = "span" -> Ignorant(e) [] e.op = "bias" -> e.same => Unbiased(e) [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN IF Ok(e) THEN TRUE ELSE PrintT(<<"REJECT", l, e.op, e.f, e.proto, e.party>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
