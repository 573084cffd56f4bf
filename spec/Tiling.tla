-------------------------------- MODULE Tiling --------------------------------
(* Cutting a tensor of any shape into slices of at most Block elements along   *)
(* the outermost dimension that does not fit, stepping the slice window as a   *)
(* mixed-radix counter.  The slices, in order, must be the elements in order.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANTS MaxDims, MaxExt, MaxBlock
VARIABLES sh, blk, st, en, out, left

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Inner(s, d) == Prod(SubSeq(s, d + 1, Len(s)))                     \* elements below dimension d
\* the outermost dimension whose inner dimensions fit in a block
Cut(s, b) == CHOOSE d \in 1..Len(s) : Inner(s, d) <= b /\ Inner(s, d) * s[d] > b
Stride(s, b) == b \div Inner(s, Cut(s, b))
Shapes == UNION {[1..n -> 1..MaxExt] : n \in 1..MaxDims}
Tiles(s, b) == LET d == Cut(s, b) IN ((s[d] + Stride(s, b) - 1) \div Stride(s, b)) * Prod(SubSeq(s, 1, d - 1))

RECURSIVE Rows(_, _, _, _)
\* positions of the box [a, z) in row-major order
Rows(s, a, z, base) == IF s = <<>> THEN <<base>>
  ELSE FlattenSeq([i \in 1..(z[1] - a[1]) |-> Rows(Tail(s), Tail(a), Tail(z), base * s[1] + a[1] + i - 1)])

Init == /\ sh \in Shapes /\ blk \in 1..MaxBlock /\ Prod(sh) > blk
        /\ LET d == Cut(sh, blk) IN
           /\ st = [i \in DOMAIN sh |-> 0]
           /\ en = [i \in DOMAIN sh |-> IF i < d THEN 1 ELSE IF i = d THEN Stride(sh, blk) ELSE sh[i]]
        /\ out = <<>> /\ left = Tiles(sh, blk)

RECURSIVE Carry(_, _, _)
Carry(a, z, d) == IF d = 0 THEN <<a, z>>
  ELSE LET a2 == [a EXCEPT ![d] = (a[d] + 1) % sh[d]]
           z2 == [z EXCEPT ![d] = (z[d] % sh[d]) + 1]
       IN IF z2[d] # 1 THEN <<a2, z2>> ELSE Carry(a2, z2, d - 1)
Next == /\ left > 0 /\ left' = left - 1
        /\ out' = out \o Rows(sh, st, en, 0)
        /\ LET d == Cut(sh, blk) w == Stride(sh, blk) IN
           IF en[d] = sh[d]
           THEN LET c == Carry([st EXCEPT ![d] = 0], [en EXCEPT ![d] = w], d - 1) IN st' = c[1] /\ en' = c[2]
           ELSE /\ st' = [st EXCEPT ![d] = @ + w]
                /\ en' = [en EXCEPT ![d] = IF @ + w > sh[d] THEN sh[d] ELSE @ + w]
        /\ UNCHANGED <<sh, blk>>
Spec == Init /\ [][Next]_<<sh, blk, st, en, out, left>>
InOrder == out = [i \in 1..Len(out) |-> i - 1]
Complete == left = 0 => Len(out) = Prod(sh)
SliceFits == left > 0 => Prod([i \in DOMAIN sh |-> en[i] - st[i]]) \in 1..blk
=============================================================================
