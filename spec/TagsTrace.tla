------------------------------ MODULE TagsTrace ------------------------------
(* Group-by aggregations, the LowMC block cipher and its tags (C24).         *)
EXTENDS Words, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mat    \* mat: the event that holds the material of the cipher in use
Tup(s) == SubSeq(s, 1, Len(s))

-----------------------------------------------------------------------------
(* Group-by: the first rows of the output are the groups, one row each, in    *)
(* any order; the rest is undefined.                                          *)
Rows(cols) == [i \in 1 .. Len(cols[1]) |-> [c \in 1 .. Len(cols) |-> cols[c][i]]]
Members(rows, key) == SelectSeq(Up(Len(rows)), LAMBDA i : rows[i] = key)
Big == 24
Wide(w) == WFit(Big, w, TRUE)
(* a mean is a product with a reciprocal of relative error 2^-13 and 8 units *)
Mean(e, a, sum, n) ==
  LET s == WAbs(sum)
      d == WAbs(WSub(WMul(Wide(a), WNat(Big, n)), sum))
      tol == WAdd(WAdd(WShr(s, 13), WShr(WMul(s, WNat(Big, 8 * n)), e.f)), WNat(Big, 4 * n + 4))
  IN ~WLtU(tol, d)
GroupBy(e) ==
  LET rows == Tup(Rows(e.keys))
      groups == {rows[i] : i \in 1 .. Len(rows)}
      n == Cardinality(groups)
      out == Tup(Rows(e.okeys))
      K == e.k \div 8
  IN /\ e.ok /\ e.same
     /\ Len(e.okeys) = Len(e.keys) /\ Len(e.opays) = Len(e.pays)
     /\ Len(out) = IF e.drop THEN n ELSE Len(rows)
     /\ \A c \in 1 .. Len(e.opays) : Len(e.opays[c]) = Len(out)
     /\ {out[i] : i \in 1 .. n} = groups
     /\ \A i \in 1 .. n : LET ms == Members(rows, out[i])
                          IN \A c \in 1 .. Len(e.pays) :
                               IF e.avg
                               THEN LET s == WSumAll(Big, [j \in 1 .. Len(ms) |-> Wide(e.pays[c][ms[j]])])
                                    IN Mean(e, e.opays[c][i], IF e.fxp[c] THEN s ELSE WShl(s, e.f), Len(ms))
                               ELSE e.opays[c][i] = WSumAll(K, [j \in 1 .. Len(ms) |-> e.pays[c][ms[j]]])

-----------------------------------------------------------------------------
(* LowMC: key whitening; then per round the 3-bit S-box on the low bits, an   *)
(* invertible matrix, a constant and a round key.                             *)
Parity == [b \in 0 .. 255 |-> FoldLeft(LAMBDA p, i : (p + (b \div 2^i)) % 2, 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]
Dot(row, x) == FoldLeft(LAMBDA p, i : p ^^ (row[i] & x[i]), 0, Up(Len(x)))
MatVec(m, x, n) ==   \* n limbs; bit i of the product is the parity of row i and x
  Tup([j \in 1 .. n |-> Sum([t \in 1 .. 8 |-> Parity[Dot(m[8 * (j - 1) + t], x)] * 2^(t - 1)])])
SboxT == <<0, 1, 3, 6, 7, 4, 5, 2>>
Sbox(x, boxes) ==
  LET at(i) == WBit(x, i)
      box(b) == SboxT[at(3 * b) + 2 * at(3 * b + 1) + 4 * at(3 * b + 2) + 1]
      out == Tup([b \in 1 .. boxes |-> box(b - 1)])
  IN Tup(WFromBits(Len(x), LAMBDA i : IF i < 3 * boxes THEN (out[(i \div 3) + 1] \div 2^(i % 3)) % 2 ELSE at(i)))
RoundKeys(m, key) == Tup([r \in 1 .. Len(m.K) |-> MatVec(m.K[r], key, m.k \div 8)])
Encrypt(m, rk, x) ==
  FoldLeft(LAMBDA s, r : WXor(WXor(MatVec(m.L[r], Sbox(s, m.boxes), m.k \div 8), m.C[r][1]), rk[r + 1]),
           WXor(x, rk[1]), Up(m.rounds))
(* S-boxes and rounds of the paper for 128-bit keys *)
Params(k, d) == CASE k = 32 -> <<9, 15>>
                  [] k = 64 -> (CASE d = 20 -> <<15, 11>> [] d = 30 -> <<13, 12>> [] OTHER -> <<13, 13>>)
                  [] OTHER -> (CASE d = 20 -> <<25, 10>> [] d = 30 -> <<25, 11>> [] OTHER -> <<25, 12>>)
(* rows are independent: every row, reduced by those before it, still has a bit of its own *)
LeadBit(w) == CHOOSE b \in 0 .. WBits(w) - 1 : WBit(w, b) = 1
Independent(m) ==
  LET step(acc, i) ==
        IF acc.bad THEN acc
        ELSE LET w == FoldLeft(LAMBDA v, p : IF WBit(v, p[1]) = 1 THEN Tup(WXor(v, p[2])) ELSE v, m[i], acc.b)
             IN IF \A j \in 1 .. Len(w) : w[j] = 0 THEN [bad |-> TRUE, b |-> acc.b]
                ELSE [bad |-> FALSE, b |-> Append(acc.b, <<LeadBit(w), w>>)]
  IN ~FoldLeft(step, [bad |-> FALSE, b |-> <<>>], Up(Len(m))).bad
Cipher(e) ==
  /\ e.blk = e.k
  /\ <<e.boxes, e.rounds>> = Params(e.k, e.d)
  /\ Len(e.L) = e.rounds /\ Len(e.C) = e.rounds /\ Len(e.K) = e.rounds + 1
  /\ \A r \in 1 .. e.rounds : Len(e.L[r]) = e.k /\ Len(e.C[r]) = 1 /\ Independent(e.L[r])
  /\ \A r \in 1 .. e.rounds + 1 : Len(e.K[r]) = e.k
Enc(e) ==
  /\ e.ok /\ e.same /\ mat > 0
  /\ Len(e.y) = Len(e.x)
  /\ LET m == Trace[mat]  rk == RoundKeys(m, e.key)
     IN \A i \in 1 .. Len(e.x) : e.y[i] = Encrypt(m, rk, e.x[i])
  /\ e.back # <<>> => /\ e.back[1] = e.x
                      /\ LET m == Trace[mat]  rk == RoundKeys(m, e.key)
                         IN \A i \in 1 .. Len(e.x) : Encrypt(m, rk, e.back[2][i]) = e.x[i]
Tags(e) ==
  LET rows == Tup(Rows(e.in))
  IN /\ e.ok /\ e.same /\ Len(e.out) = Len(rows)
     /\ \A i, j \in 1 .. Len(rows) : i < j => ((rows[i] = rows[j]) <=> (e.out[i] = e.out[j]))

Init == l = 1 /\ mat = 0
Check(e) == CASE e.op = "gb"     -> GroupBy(e)
              [] e.op = "cipher" -> Cipher(e)
              [] e.op = "enc"    -> Enc(e)
              [] e.op = "tags"   -> Tags(e)
              [] OTHER -> FALSE
Next == /\ l <= Len(Trace)
        /\ IF Check(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].op>>)
        /\ mat' = IF Trace[l].op = "cipher" THEN l ELSE mat
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, mat>>
=============================================================================
