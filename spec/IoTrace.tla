------------------------------- MODULE IoTrace -------------------------------
(* Client shares and the co-located store.  The state is the store: what each *)
(* party has set and not yet synchronised, and the symbols all parties have.  *)
EXTENDS Encode, TLC, Json, IOUtils
VARIABLES l, w, mine, sym
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chars(n, c) == n = 0 \/ c # ""
Rep(n, c) == CASE n = 2 -> c \o c [] n = 3 -> c \o c \o c [] n = 4 -> c \o c \o c \o c [] n = 5 -> c \o c \o c \o c \o c

(* shares of a client *)
Words1(e, i) == e.sharew[i]
Piece(x, j, n) == SubSeq(x, j * n + 1, (j + 1) * n)
Nxt(p, n) == (p % n) + 1
Recombine(e, i) ==      \* a secret from its pieces
  LET n == e.n  kb == e.k \div 8  r(p) == e.sharew[p][i]  pt == Len(r(1)) \div 2
  IN CASE e.proto \in {"SEMI2K", "SECURENN"} -> WSumAll(kb, [p \in 1 .. n |-> r(p)])
       [] e.proto = "ABY3" /\ e.kind # "b" -> WSumAll(kb, [p \in 1 .. n |-> Piece(r(p), 0, kb)])
       [] e.proto = "ABY3" -> WFit(kb, WXorAll(pt, [p \in 1 .. n |-> Piece(r(p), 0, pt)]), FALSE)
       [] e.proto = "SWIFT" -> WSub(WSub(Piece(r(2), 1, kb), Piece(r(1), 0, kb)), Piece(r(1), 1, kb))
       [] OTHER -> r(1)
Agree(e, i) ==          \* pieces held twice are the same
  LET n == e.n  kb == e.k \div 8  r(p) == e.sharew[p][i]  pt == IF e.kind = "b" THEN Len(r(1)) \div 2 ELSE kb
  IN CASE e.proto = "ABY3" -> \A p \in 1 .. n : /\ Piece(r(p), 1, pt) = Piece(r(Nxt(p, n)), 0, pt)
                                                /\ e.kind = "b" => Piece(r(p), 0, pt) \in {WZero(pt), WOne(pt)}
       [] e.proto = "SECURENN" -> r(3) = WZero(kb)
       [] e.proto = "SWIFT" -> /\ Piece(r(1), 0, kb) = Piece(r(2), 0, kb) /\ Piece(r(1), 1, kb) = Piece(r(3), 0, kb)
                               /\ Piece(r(2), 1, kb) = Piece(r(3), 1, kb) /\ Piece(r(2), 2, kb) = Piece(r(3), 2, kb)
                               /\ Piece(r(1), 2, kb) = WAdd(Piece(r(2), 1, kb), Piece(r(2), 2, kb))
       [] OTHER -> TRUE
Pieces(e) ==
  IF e.cx THEN TRUE
  ELSE /\ \A p \in 1 .. e.n : Len(e.sharew[p]) = Len(e.x)
       /\ \A i \in 1 .. Len(e.x) :
            IF e.kinds = Rep(e.n, "P") THEN \A p \in 1 .. e.n : Enc1(e.kind, e.x[i], e.k, e.f, e.sharew[p][i])
            ELSE IF e.kinds = Rep(e.n, "V") THEN \A p \in 1 .. e.n :      \* the owner has the value, the others have nothing of it
                    IF p = e.owner + 1 THEN Enc1(e.kind, e.x[i], e.k, e.f, e.sharew[p][i]) ELSE \A j \in DOMAIN e.sharew[p][i] : e.sharew[p][i][j] = 0
            ELSE Enc1(e.kind, e.x[i], e.k, e.f, Recombine(e, i)) /\ Agree(e, i)
Share(e) ==
  /\ e.ok /\ e.form /\ e.ptype /\ e.size
  /\ Len(e.out) = Len(e.x) /\ \A i \in 1 .. Len(e.x) : Near(e.kind, e.sz, e.k, e.f, e.x[i], e.out[i])
  /\ e.proto # "REF2K" => e.kinds = Rep(e.n, IF e.vis = "P" THEN "P" ELSE IF e.owner >= 0 /\ ~(e.kind = "b" /\ e.proto = "ABY3") THEN "V" ELSE "S")
  /\ Pieces(e)
(* 1024 pieces of one party, of constant data: each bit is fair and no word is frequent.  (A fair coin strays
   from 512 ones in 1024 by more than 112, seven standard deviations, with probability 3 * 10^-12.) *)
Hide(e) == /\ e.ok
           /\ \/ e.proto = "SECURENN" /\ e.party = 2 /\ \A b \in 1 .. e.w : e.ones[b] = 0     \* the assisting party gets zeros
              \/ \A b \in 1 .. e.w : e.ones[b] >= 400 /\ e.ones[b] <= 624
           /\ (e.w >= 32 /\ ~(e.proto = "SECURENN" /\ e.party = 2)) => e.most <= 3
(* the store *)
Val(e) == [pt |-> e.pt, kind |-> e.kind, sz |-> e.sz, sh |-> e.sh, x |-> e.x]
Back(v, e) ==   \* v was stored, e was read
  /\ e.pt = v.pt /\ e.sh = v.sh /\ Len(e.x) = Len(v.x)
  /\ \A i \in 1 .. Len(v.x) : Near(v.kind, v.sz, w.k, w.f, v.x[i], e.x[i])
Names(p) == DOMAIN mine[p]
Clash == \E p, q \in 1 .. w.n : p # q /\ Names(p) \cap Names(q) # {}
Synced == LET all == UNION {Names(p) : p \in 1 .. w.n} IN
  [nm \in all |-> LET p == CHOOSE p \in 1 .. w.n : nm \in Names(p)  r == mine[p][nm] IN
     [v |-> r.v, kind |-> IF r.vis = "P" THEN "P" ELSE IF w.colo /\ ~(r.v.kind = "b" /\ w.proto = "ABY3") THEN "V" ELSE "S", owner |-> IF r.vis = "S" /\ w.colo THEN p - 1 ELSE -1]]
None == [nm \in {} |-> 0]
Init == /\ l = 1 /\ w = [n |-> 0] /\ mine = <<>> /\ sym = None
Get(e) ==
  IF e.name \in Names(e.p) THEN e.ok /\ LET v == mine[e.p][e.name].v IN e.pt = v.pt /\ e.sh = v.sh /\ e.x = v.x
  ELSE IF e.name \in DOMAIN sym /\ sym[e.name].kind = "P" THEN e.ok /\ Back(sym[e.name].v, e)
  ELSE IF e.name \in DOMAIN sym /\ w.proto = "REF2K" THEN TRUE
  ELSE ~e.ok
Dev(e) ==
  IF e.name \notin DOMAIN sym THEN \A p \in 1 .. w.n : e.has[p] = 0
  ELSE /\ \A p \in 1 .. w.n : e.has[p] = 1
       /\ e.same /\ Back(sym[e.name].v, e)
       /\ w.proto # "REF2K" => e.kinds = sym[e.name].kind /\ (e.kinds = "V" => e.owner = sym[e.name].owner)
Check(e) == CASE e.op = "share" -> Share(e) [] e.op = "hide" -> Hide(e) [] e.op = "new" -> TRUE [] e.op = "set" -> e.ok
              [] e.op = "sync" -> \A p \in 1 .. w.n : e.ok[p] = B01(~Clash)
              [] e.op = "get" -> Get(e) [] e.op = "dev" -> Dev(e) [] e.op = "put" -> TRUE [] OTHER -> FALSE
Tag(e) == IF e.op \in {"share", "hide"} THEN e.op \o " " \o e.proto ELSE e.op \o " " \o (IF w.n = 0 THEN "" ELSE w.proto)
Step(e) ==
  CASE e.op = "new" -> /\ w' = e /\ mine' = [p \in 1 .. e.n |-> None] /\ sym' = None
    [] e.op = "set" -> /\ mine' = [mine EXCEPT ![e.p] = (e.name :> [v |-> Val(e), vis |-> e.vis]) @@ @] /\ UNCHANGED <<w, sym>>
    [] e.op = "sync" -> IF Clash THEN UNCHANGED <<w, mine, sym>> ELSE sym' = Synced @@ sym /\ mine' = [p \in 1 .. w.n |-> None] /\ UNCHANGED w
    [] e.op = "put" -> sym' = (e.name :> [v |-> Val(e), kind |-> e.vis, owner |-> -1]) @@ sym /\ UNCHANGED <<w, mine>>
    [] OTHER -> UNCHANGED <<w, mine, sym>>
Next == /\ l <= Len(Trace)
        /\ IF Check(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, Tag(Trace[l])>>)
        /\ Step(Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, w, mine, sym>>
=============================================================================
