-------------------------- MODULE CollectiveTrace --------------------------
(* Communicators of n parties: collectives combine the parties' tensors as    *)
(* their contract says, messages travel in order on their own channel, a fork *)
(* opens channels and statistics of its own.                                  *)
EXTENDS Words, Json, IOUtils, TLC
VARIABLES l, n, chan, stat
vars == <<l, n, chan, stat>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
\* addition modulo the Mersenne prime of the width: 2^31-1, 2^61-1, 2^127-1
Exp(es) == IF es = 4 THEN 31 ELSE IF es = 8 THEN 61 ELSE 127
ModP(w, e) == LET x == WAdd(WLow(w, e), WShr(w, e))  p == WLow(WOnes(Len(w)), e) IN IF x = p THEN WZero(Len(w)) ELSE x
Combine(e) ==   \* element by element over the parties
  [j \in 1..Len(e.in[1]) |->
     LET col == [p \in 1..n |-> e.in[p][j]] IN
     IF e.fn = "xor" THEN WXorAll(e.es, col)
     ELSE IF e.ty = "gfmp" THEN FoldLeft(LAMBDA a, b : ModP(WAdd(a, b), Exp(e.es)), WZero(e.es), col)
     ELSE WSumAll(e.es, col)]
Nothing == [p \in 1..n |-> <<>>]
OnlyAt(r, v) == [p \in 1..n |-> IF p = r THEN v ELSE <<>>]
Next1(p) == (p % n) + 1
Bytes(e) == Len(e.in[1]) * e.es
Result(e) ==
  CASE e.op = "allreduce" -> [p \in 1..n |-> Combine(e)]
    [] e.op = "reduce" -> OnlyAt(e.root, Combine(e))
    [] e.op = "rotate" -> [p \in 1..n |-> e.in[Next1(p)]]
    [] e.op = "broadcast" -> [p \in 1..n |-> e.in[e.root]]
    [] e.op = "gather" -> OnlyAt(e.root, e.in)
Volume(e) == IF e.op = "allreduce" THEN Bytes(e) * (n - 1) ELSE Bytes(e)
Gets(e, p) == e.op \in {"allreduce", "rotate", "broadcast"} \/ p = e.root
ShapesOk(e) == e.typed \/ \A p \in 1..n : Gets(e, p) => e.shapes[p] = e.shape

Key(e) == <<e.comm + 1, e.src, e.dst>>
Queue(k) == IF k \in DOMAIN chan THEN chan[k] ELSE <<>>
Stats(e, s) == e.lat = [p \in 1..n |-> s[e.comm + 1][1]] /\ e.vol = [p \in 1..n |-> s[e.comm + 1][2]]

\* <<allowed, n, channels, statistics per communicator>>
Step(e) ==
  CASE e.op = "start" -> <<TRUE, e.n, <<>>, <<<<0, 0>>>>>>
    [] e.op = "stop" -> <<\A k \in DOMAIN chan : chan[k] = <<>>, n, <<>>, <<<<0, 0>>>>>>
    [] e.op = "fork" -> <<e.ok /\ \A p \in 1..n : e.lat[p] = 0 /\ e.vol[p] = 0, n, chan, Append(stat, <<0, 0>>)>>
    [] e.op = "send" -> <<e.ok /\ e.same, n, (Key(e) :> Append(Queue(Key(e)), e.in[1])) @@ chan, stat>>
    [] e.op = "recv" ->
         LET q == Queue(Key(e)) IN
         <<e.ok /\ q # <<>> /\ e.out = OnlyAt(e.dst, Head(q)) /\ (e.typed \/ e.shapes[e.dst] = <<Len(Head(q))>>) /\ Stats(e, stat),
           n, (Key(e) :> Tail(q)) @@ chan, stat>>
    [] e.op \in {"allreduce", "reduce", "rotate", "broadcast", "gather"} ->
         LET s == [stat EXCEPT ![e.comm + 1] = <<@[1] + 1, @[2] + Volume(e)>>] IN
         <<e.ok /\ e.same /\ e.out = Result(e) /\ ShapesOk(e) /\ Stats(e, s), n, chan, s>>
    [] OTHER -> <<FALSE, n, chan, stat>>

Init == l = 1 /\ n = 1 /\ chan = <<>> /\ stat = <<<<0, 0>>>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  s == Step(e)
           IN /\ (IF s[1] THEN TRUE ELSE PrintT(<<"REJECT", l, e.op>>))
              /\ n' = s[2] /\ chan' = s[3] /\ stat' = s[4]
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
