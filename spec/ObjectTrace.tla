---------------------------- MODULE ObjectTrace ----------------------------
(* Dynamic objects: tables of kernels and states, and their forks.           *)
(* The specification's state is the sequence of all objects of a behaviour;  *)
(* every call is one transition, with the answer the tables determine.        *)
(* An object forks whole or not at all; a fork shares the kernels, has its   *)
(* own copy of every state, and an identifier no other object ever had.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
VARIABLES l, objs
Trace == ndJsonDeserialize(IOEnv.TRACE)
Empty == [x \in {} |-> 0]
Has(f, n) == n \in DOMAIN f
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
NewObj(id, pid) == [id |-> id, pid |-> pid, kern |-> Empty, st |-> Empty, ids |-> {id}]
Low(o) == \A n \in DOMAIN o.st : o.st[n].low
Forkable(o) == \A n \in DOMAIN o.st : o.st[n].forks
AllIds == {objs[i].id : i \in DOMAIN objs}
O(e) == objs[e.o]
Set(e, o) == [objs EXCEPT ![e.o] = o]
\* several kernels registered by one call, in order
RECURSIVE RegAll(_, _)
RegAll(f, ks) == IF ks = <<>> THEN f ELSE RegAll(Put(f, ks[1].n, ks[1].k), Tail(ks))

\* <<is the recorded answer right, the objects afterwards>>
Step(e) ==
  CASE e.op = "new" -> <<e.id = e.want /\ e.pid = e.wantp /\ e.o = Len(objs) + 1, Append(objs, NewObj(e.want, e.wantp))>>
    [] e.op = "reg" -> LET dup == \E i \in DOMAIN e.ks : Has(O(e).kern, e.ks[i].n)
                       IN <<e.threw = dup, IF dup THEN objs ELSE Set(e, [O(e) EXCEPT !.kern = RegAll(@, e.ks)])>>
    [] e.op = "get" -> <<IF Has(O(e).kern, e.n) THEN ~e.threw /\ e.k = O(e).kern[e.n] ELSE e.threw, objs>>
    [] e.op = "has" -> <<e.r = Has(O(e).kern, e.n), objs>>
    [] e.op = "names" -> <<Len(e.ns) = Cardinality(DOMAIN O(e).kern) /\ {e.ns[i] : i \in DOMAIN e.ns} = DOMAIN O(e).kern, objs>>
    [] e.op = "add" -> LET dup == Has(O(e).st, e.n)
                       IN <<e.threw = dup, IF dup THEN objs ELSE Set(e, [O(e) EXCEPT !.st = Put(@, e.n, [t |-> e.t, v |-> e.v, low |-> e.low, forks |-> e.forks])])>>
    \* use the state of type t: read its value, then add d to it
    [] e.op = "use" -> IF ~Has(O(e).st, e.t) THEN <<e.threw, objs>>
                       ELSE IF O(e).st[e.t].t # e.t THEN <<~e.threw /\ e.null, objs>>
                       ELSE <<~e.threw /\ ~e.null /\ e.v = O(e).st[e.t].v, Set(e, [O(e) EXCEPT !.st[e.t].v = @ + e.d])>>
    [] e.op = "low" -> <<e.r = Low(O(e)), objs>>
    [] e.op = "fork" -> IF ~Forkable(O(e)) THEN <<e.threw, objs>>
                        ELSE <<~e.threw /\ e.id \notin AllIds /\ e.pid = O(e).id /\ e.new = Len(objs) + 1,
                               Append(objs, [O(e) EXCEPT !.id = e.id, !.pid = O(e).id])>>
    [] e.op = "dispatch" -> IF ~Has(O(e).kern, e.n) THEN <<e.threw, objs>>
                            ELSE <<~e.threw /\ e.k = O(e).kern[e.n] /\ e.got = e.args, objs>>
    \* a context and its fork: same configuration, same kernels, its own link and identifier
    [] e.op = "ctxfork" -> <<e.pid = e.id0 /\ e.id \notin (AllIds \cup {e.id0}) /\ e.cfg = e.cfg0 /\ e.names = e.names0 /\ e.link # e.link0, objs>>
    [] OTHER -> <<FALSE, objs>>
Init == l = 1 /\ objs = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  s == Step(e)
           IN /\ (IF s[1] THEN TRUE ELSE PrintT(<<"REJECT", l, e.op>>))
              /\ objs' = IF l < Len(Trace) /\ Trace[l + 1].c # e.c THEN <<>> ELSE s[2]
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
