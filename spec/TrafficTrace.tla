---------------------------- MODULE TrafficTrace ----------------------------
(* Three runs of the same operation by all parties.  Runs 1 and 2 work on     *)
(* different secrets, run 3 on the secrets of run 1 under another schedule.   *)
(* A run is recorded as scripts, one per party and link (a forked context has *)
(* a link and a thread of its own): the messages sent (0) and received (1),   *)
(* in program order, as <<direction, peer, bytes>>.                           *)
(*                                                                            *)
(* A script that does not depend on the schedule makes the parties a network  *)
(* of deterministic processes over FIFO channels: if one schedule of it ends  *)
(* with all parties done and all channels empty, every schedule does          *)
(* (checked exhaustively on small scripts in module Lockstep).  So it is      *)
(* enough that the scripts agree between the runs and that the recorded       *)
(* schedule ended well.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

Messages(party, link) ==          \* what one party did on a link
  LET s == {j \in 1 .. Len(party) : party[j][1] = link}
  IN  IF s = {} THEN <<>> ELSE Tail(party[CHOOSE j \in s : TRUE])
Channel(party, link, d, peer) ==  \* the sizes it sent to (received from) a peer over it, in order
  LET Is(m) == m[1] = d /\ m[2] = peer
      ms == SelectSeq(Messages(party, link), Is)
  IN  [j \in 1 .. Len(ms) |-> ms[j][3]]
Links(party) == {party[j][1] : j \in 1 .. Len(party)}
(* Every message sent is received exactly once, unchanged in size and order. *)
Matched(S) == \A p, q \in 1 .. Len(S) : p # q =>
                \A k \in Links(S[p]) \cup Links(S[q]) : Channel(S[p], k, 0, q) = Channel(S[q], k, 1, p)
Lockstep(ty) == \A p \in 1 .. Len(ty) : ty[p] = ty[1]

Run(e) == /\ e.ok = <<TRUE, TRUE, TRUE>>
          /\ e.und = <<0, 0, 0>>
          /\ Matched(e.s[1])
          /\ e.s[3] = e.s[1]                    \* the schedule does not matter
          /\ e.exact => e.open[2] = e.open[1]
          /\ \A w \in 1 .. 3 : Lockstep(e.ty[w]) /\ e.ty[w][1] = e.ty[1][1]
          /\ Lockstep(e.open[1])
          /\ e.twin => e.s[2] = e.s[1]          \* nor do the secrets

VARIABLE l
Init == l = 1
Check(e) == CASE e.op = "run" -> Run(e)
              [] OTHER -> FALSE
Next == /\ l <= Len(Trace)
        /\ IF Check(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].op>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
