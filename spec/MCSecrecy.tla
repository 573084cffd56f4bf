------------------------------ MODULE MCSecrecy ------------------------------
(* The designs, over every mask of a small ring: what each party holds and      *)
(* receives, together with what is left of the randomness, ranges over the same *)
(* set whatever the secrets are, each point once: so the view has the same      *)
(* distribution for all secrets.  And the results open to the right value.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT M               \* the ring is Z_M, M a power of two
VARIABLE x
Z == 0..M-1
Mod(a) == a % M
Tup(n) == [1..n -> Z]

\* V(s, r): the view for secrets s and randomness r; equal sets of one point per r
Hides(V(_, _), n, S) ==
  LET All(s) == {V(s, r) : r \in Tup(n)} IN
  LET s0 == CHOOSE s \in S : TRUE IN
  /\ Cardinality(All(s0)) = M^n
  /\ \A s \in S : All(s) = All(s0)
Pairs == Z \X Z

----------------------------------------------------------------------------
\* two-party multiplication with a triple; r = x0 y0 a b a0 b0 c0
Triple(s, r) ==
  LET x1 == Mod(s[1] - r[1])  y1 == Mod(s[2] - r[2])
      d == Mod(s[1] - r[3])  e == Mod(s[2] - r[4])
      a1 == Mod(r[3] - r[5]) b1 == Mod(r[4] - r[6]) c1 == Mod(r[3] * r[4] - r[7])
      z0 == Mod(r[7] + d * r[6] + e * r[5] + d * e)
      z1 == Mod(c1 + d * b1 + e * a1)
  IN [v0 |-> <<r[1], r[2], r[5], r[6], r[7], d, e>>, v1 |-> <<x1, y1, a1, b1, c1, d, e>>, z |-> Mod(z0 + z1)]
MulHides == /\ Hides(LAMBDA s, r : Triple(s, r).v0, 7, Pairs)
            /\ Hides(LAMBDA s, r : Triple(s, r).v1, 7, Pairs)
            /\ \A s \in Pairs, r \in Tup(7) : Triple(s, r).z = Mod(s[1] * s[2])

\* replicated multiplication: r = x0 x1 y0 y1 k0 k1 k2, party i holds pieces i and i+1 and keys i and i+1
Rep(s, r) ==
  LET xs == <<r[1], r[2], Mod(s[1] - r[1] - r[2])>>  ys == <<r[3], r[4], Mod(s[2] - r[3] - r[4])>>
      k == <<r[5], r[6], r[7]>>
      N(i) == (i % 3) + 1
      m(i) == Mod(xs[i] * ys[i] + xs[i] * ys[N(i)] + xs[N(i)] * ys[i] + k[i] - k[N(i)])
  IN [v |-> [i \in 1..3 |-> <<xs[i], xs[N(i)], ys[i], ys[N(i)], k[i], k[N(i)], m(N(i))>>], z |-> Mod(m(1) + m(2) + m(3))]
RepHides == /\ \A i \in 1..3 : Hides(LAMBDA s, r : Rep(s, r).v[i], 7, Pairs)
            /\ \A s \in Pairs, r \in Tup(7) : Rep(s, r).z = Mod(s[1] * s[2])

\* opening to one party: the others send masked pieces, here three additive pieces and a zero sharing
\* r = x0 x1 k0 k1 k2 ; party 2 is not the receiver and gets nothing, the receiver learns s and no more
Reveal(s, r) ==
  LET xs == <<r[1], r[2], Mod(s - r[1] - r[2])>> k == <<r[3], r[4], r[5]>>
  IN [v2 |-> <<xs[2], k[2], k[3], r[1], r[3]>>]
RevealHides == Hides(LAMBDA s, r : Reveal(s, r).v2, 5, Z)

\* resharing of a value known to party 1 in additive form: p1 keeps s - k1 - k2, the others hold k1, k2
Seal(s, r) == [v2 |-> <<r[1], r[2]>>, v3 |-> <<r[2], r[1]>>]
SealHides == Hides(LAMBDA s, r : Seal(s, r).v2, 2, Z)

\* probabilistic truncation by a dealt pair: the opened c = s + r masks s; r = x0 rho a0 t0
Shift(s, r) == LET c == Mod(s + r[2]) IN [v0 |-> <<r[1], r[3], r[4], c>>, v1 |-> <<Mod(s - r[1]), Mod(r[2] - r[3]), Mod((r[2] \div 2) - r[4]), c>>]
ShiftHides == /\ Hides(LAMBDA s, r : Shift(s, r).v0, 4, Z)
              /\ Hides(LAMBDA s, r : Shift(s, r).v1, 4, Z)

\* designs that do not hide: one mask for both operands; the receiver knows the mask
Reused(s, r) == <<r[1], r[2], Mod(s[1] - r[3]), Mod(s[2] - r[3])>>
KnownMask(s, r) == <<r[1], Mod(s - r[1])>>
Broken == /\ ~Hides(LAMBDA s, r : Reused(s, r), 3, Pairs)
          /\ ~Hides(LAMBDA s, r : KnownMask(s, r), 1, Z)

Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Inv == MulHides /\ RepHides /\ RevealHides /\ SealHides /\ ShiftHides /\ Broken
=============================================================================
