------------------------------ MODULE Lockstep ------------------------------
(* Parties that follow fixed scripts of sends and receives over FIFO          *)
(* channels, one step at a time, in any interleaving and with any delay       *)
(* between sending and receiving.  For every choice of scripts: if one        *)
(* schedule ends with every party done, no schedule can get stuck, and every  *)
(* schedule delivers the same messages (confluence of Kahn networks).  This   *)
(* is what lets one recorded run stand for all schedules (TrafficTrace).      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, L            \* parties, longest script
Party == 1 .. N
Step(p) == {<<d, q>> : d \in {"send", "recv"}, q \in Party \ {p}}
Scripts(p) == UNION {[1 .. n -> Step(p)] : n \in 0 .. L}
VARIABLES script, pos, chan, got
vars == <<script, pos, chan, got>>

Done(p) == pos[p] > Len(script[p])
Cur(p) == script[p][pos[p]]
(* the run in which the lowest party that can move does move *)
Can(s, ps, ch, p) == ps[p] <= Len(s[p]) /\ (s[p][ps[p]][1] = "send" \/ ch[s[p][ps[p]][2]][p] > 0)
RECURSIVE Ends(_, _, _)
Ends(s, ps, ch) ==
  IF \A p \in Party : ps[p] > Len(s[p]) THEN TRUE
  ELSE IF \A p \in Party : ~Can(s, ps, ch, p) THEN FALSE
  ELSE LET p == CHOOSE x \in Party : Can(s, ps, ch, x) /\ \A y \in Party : y < x => ~Can(s, ps, ch, y)
           q == s[p][ps[p]][2]
           c == IF s[p][ps[p]][1] = "send" THEN [ch EXCEPT ![p][q] = @ + 1] ELSE [ch EXCEPT ![q][p] = @ - 1]
       IN Ends(s, [ps EXCEPT ![p] = @ + 1], c)
Zero == [p \in Party |-> [q \in Party |-> 0]]
Start == [p \in Party |-> 1]

Init == /\ script \in [Party -> UNION {Scripts(p) : p \in Party}]
        /\ \A p \in Party : script[p] \in Scripts(p)
        /\ Ends(script, Start, Zero)
        /\ pos = Start
        /\ chan = [p \in Party |-> [q \in Party |-> <<>>]]
        /\ got = [p \in Party |-> <<>>]
Send(p) == /\ ~Done(p) /\ Cur(p)[1] = "send"
           /\ chan' = [chan EXCEPT ![p][Cur(p)[2]] = Append(@, <<p, pos[p]>>)]    \* the message is named by its sender's step
           /\ pos' = [pos EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<script, got>>
Recv(p) == /\ ~Done(p) /\ Cur(p)[1] = "recv" /\ chan[Cur(p)[2]][p] # <<>>
           /\ got' = [got EXCEPT ![p] = Append(@, Head(chan[Cur(p)[2]][p]))]
           /\ chan' = [chan EXCEPT ![Cur(p)[2]][p] = Tail(@)]
           /\ pos' = [pos EXCEPT ![p] = @ + 1]
           /\ UNCHANGED script
Next == \E p \in Party : Send(p) \/ Recv(p)
Spec == Init /\ [][Next]_vars

NeverStuck == (\E p \in Party : ~Done(p)) => \E p \in Party : ~Done(p) /\ (Cur(p)[1] = "send" \/ chan[Cur(p)[2]][p] # <<>>)
(* the i-th message a party receives from a peer is the i-th one that the peer sends to it *)
NthSend(q, p, i) == CHOOSE j \in 1 .. Len(script[q]) : script[q][j] = <<"send", p>> /\ Cardinality({k \in 1 .. j : script[q][k] = <<"send", p>>}) = i
SameHistory == \A p \in Party : \A i \in 1 .. Len(got[p]) :
                 LET q == got[p][i][1] IN got[p][i][2] = NthSend(q, p, Cardinality({k \in 1 .. i : got[p][k][1] = q}))
AllDelivered == (\A p \in Party : Done(p)) =>
                  \A p, q \in Party : p # q => Len(chan[p][q]) = Cardinality({j \in 1 .. Len(script[p]) : script[p][j] = <<"send", q>>})
                                                               - Cardinality({j \in 1 .. Len(script[q]) : script[q][j] = <<"recv", p>>})
=============================================================================
