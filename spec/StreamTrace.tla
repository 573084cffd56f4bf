----------------------------- MODULE StreamTrace -----------------------------
(* Random streams.  A stream is a seed; the generator logs, for every party,  *)
(* which blocks of which streams it drew.  A context h has a public stream    *)
(* (all parties), a private stream for each party, and a pairwise stream for  *)
(* each party, shared with its predecessor: its position must be the same at  *)
(* all who share it whenever they are at the same point of the program, no    *)
(* block may be drawn twice, and the streams of different contexts must be    *)
(* different streams, used by nobody else.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          at,    \* party -> stream -> the first block it has not drawn yet
          role,  \* stream -> the parties that may draw from it (streams of contexts)
          ctxs   \* handles of contexts, with their streams
vars == <<l, at, role, ctxs>>
Empty == [s \in {} |-> 0]

(* ---- one party's draws: e.log[p] = <<stream, <<first, blocks>>*>>* ------- *)
Streams(L) == {L[j][1] : j \in 1 .. Len(L)}
Of(L, s) == L[CHOOSE j \in 1 .. Len(L) : L[j][1] = s][2]
At(A, p, s) == IF s \in DOMAIN A[p] THEN A[p][s] ELSE 0
Max(a, b) == IF a >= b THEN a ELSE b
RECURSIVE Advance(_, _, _)      \* the position after the draws
Advance(pos, ds, j) == IF j > Len(ds) THEN pos ELSE Advance(Max(pos, ds[j][1] + ds[j][2]), ds, j + 1)
RECURSIVE Once(_, _, _)         \* each block at most once
Once(pos, ds, j) == IF j > Len(ds) THEN TRUE
                    ELSE (ds[j][2] = 0 \/ ds[j][1] >= pos) /\ Once(Max(pos, ds[j][1] + ds[j][2]), ds, j + 1)
After(A, L) == [p \in 1 .. Len(L) |->
                 [s \in DOMAIN A[p] \cup Streams(L[p]) |->
                    IF s \in Streams(L[p]) THEN Advance(At(A, p, s), Of(L[p], s), 1) ELSE A[p][s]]]
(* The dealer of correlated randomness is the first party: it replays what the parties just drew to correct its own
   share.  From streams that are no context's it may repeat a draw of the same step, but only exactly, and in any order. *)
Apart(x, y) == x = y \/ x[2] = 0 \/ y[2] = 0 \/ x[1] + x[2] <= y[1] \/ y[1] + y[2] <= x[1]
Replays(pos, ds) == LET I == {ds[j] : j \in 1 .. Len(ds)} IN \A x \in I : (x[2] = 0 \/ x[1] >= pos) /\ \A y \in I : Apart(x, y)
Fresh(A, Ro, L) ==           \* no block of a stream is used twice by a party
  \A p \in 1 .. Len(L) : \A s \in Streams(L[p]) :
    LET once == Once(At(A, p, s), Of(L[p], s), 1)
    IN  IF s \in DOMAIN Ro THEN p \in Ro[s] /\ once
        ELSE once \/ (p = 1 /\ Replays(At(A, p, s), Of(L[p], s)))
Synchronised(A, Ro) == \A s \in DOMAIN Ro : \A p, q \in Ro[s] : At(A, p, s) = At(A, q, s)

(* ---- the values drawn ----------------------------------------------------- *)
Nxt(p, n) == (p % n) + 1
Prv(p, n) == ((p + n - 2) % n) + 1
Same(v) == \A p \in 1 .. Len(v) : v[p] = v[1]
Paired(a, b) == \A p \in 1 .. Len(a) : b[p] = a[Nxt(p, Len(a))]   \* so the differences a - b add up to nothing
Unrelated(v) == \A p, q \in 1 .. Len(v) : p # q /\ Len(v[p]) >= 12 => v[p] # v[q]
IsPerm(v, n) == Len(v) = n /\ {v[j] : j \in 1 .. n} = 0 .. n - 1
Sized(v, n) == \A p \in 1 .. Len(v) : Len(v[p]) = n

(* ---- events ---------------------------------------------------------------- *)
(* A context is new (or forked): one draw from each of its streams names them. *)
Named(e) == [pub |-> e.seq[1][1], priv |-> [p \in 1 .. e.n |-> e.seq[p][2]], self |-> [p \in 1 .. e.n |-> e.seq[p][3]]]
CtxRoles(c, n) == [s \in {c.pub} \cup {c.priv[p] : p \in 1 .. n} \cup {c.self[p] : p \in 1 .. n} |->
                    IF s = c.pub THEN 1 .. n
                    ELSE IF \E q \in 1 .. n : c.priv[q] = s THEN {CHOOSE q \in 1 .. n : c.priv[q] = s}
                    ELSE LET p == CHOOSE q \in 1 .. n : c.self[q] = s IN {p, Prv(p, n)}]
ProbeOk(e) == /\ e.ok /\ Same(e.pub) /\ Paired(e.r0, e.r1) /\ Unrelated(e.priv) /\ Unrelated(e.r0)
              /\ \A p \in 1 .. e.n : e.priv[p] \notin {e.pub[1], e.r0[p]}
              /\ \A p \in 1 .. e.n : Len(e.seq[p]) = 4
CtxOk(e, A, R0) ==
  LET c == Named(e) r == CtxRoles(c, e.n)
  IN  /\ ProbeOk(e)
      /\ \A p \in 1 .. e.n : e.seq[p] = <<c.pub, c.priv[p], c.self[p], c.self[Nxt(p, e.n)]>>
      /\ Cardinality(DOMAIN r) = 2 * e.n + 1                       \* all different
      /\ \A s \in DOMAIN r : s \notin DOMAIN R0 /\ \A p \in 1 .. e.n : s \notin DOMAIN A[p]   \* and never used before
KnownOk(e) == ProbeOk(e) /\ \A p \in 1 .. e.n : e.seq[p] = <<ctxs[e.h].pub, ctxs[e.h].priv[p], ctxs[e.h].self[p], ctxs[e.h].self[Nxt(p, e.n)]>>
Allowed(h, n) == LET c == ctxs[h] IN DOMAIN CtxRoles(c, n)
DrawOk(e) ==
  /\ e.ok
  /\ \A p \in 1 .. e.n : Streams(e.log[p]) \subseteq Allowed(e.h, e.n)        \* a history draws from its own context
  /\ CASE e.kind \in {"pub", "pubn"}   -> Same(e.a) /\ Sized(e.a, e.size)
       [] e.kind \in {"priv", "privn"} -> Unrelated(e.a) /\ Sized(e.a, e.size)
       [] e.kind \in {"prss", "prssn", "first", "second"} -> Paired(e.a, e.b) /\ Unrelated(e.a) /\ Sized(e.a, e.size)
       [] e.kind = "permp" -> Unrelated(e.a) /\ \A p \in 1 .. e.n : IsPerm(e.a[p], e.size)
       [] e.kind = "perms" -> Paired(e.a, e.b) /\ Unrelated(e.a) /\ \A p \in 1 .. e.n : IsPerm(e.a[p], e.size)
       [] e.kind = "half"  -> e.b[Prv(e.q, e.n)] = e.a[e.q] /\ Len(e.a[e.q]) = e.size
       [] OTHER -> FALSE

Reset(n) == [p \in 1 .. n |-> Empty]
Init == l = 1 /\ at = <<>> /\ role = Empty /\ ctxs = Empty
Take(e, A, Ro, L, good) ==      \* common to all events
  /\ IF good /\ Fresh(A, Ro, L) /\ Synchronised(After(A, L), Ro) THEN TRUE
     ELSE PrintT(<<"REJECT", l, e.op, good, Fresh(A, Ro, L), Synchronised(After(A, L), Ro)>>)
  /\ at' = After(A, L)
  /\ role' = Ro
  /\ l' = l + 1
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] first == e.op = "ctx" /\ e.h = 0
     IN  CASE e.op = "ctx" ->
                LET A0 == IF first THEN Reset(e.n) ELSE at
                    R0 == IF first THEN Empty ELSE role
                    A == After(A0, e.before)
                    c == Named(e)
                IN  /\ Take(e, A, CtxRoles(c, e.n) @@ R0, e.log, Fresh(A0, R0, e.before) /\ CtxOk(e, A, R0))
                    /\ ctxs' = (e.h :> c) @@ (IF first THEN Empty ELSE ctxs)
           [] e.op = "probe" -> Take(e, at, role, e.log, KnownOk(e)) /\ UNCHANGED ctxs
           [] e.op = "draw"  -> Take(e, at, role, e.log, DrawOk(e)) /\ UNCHANGED ctxs
           [] e.op = "step"  -> Take(e, at, role, e.log, e.ok) /\ UNCHANGED ctxs
           [] OTHER -> PrintT(<<"REJECT", l, e.op>>) /\ l' = l + 1 /\ UNCHANGED <<at, role, ctxs>>
Spec == Init /\ [][Next]_vars
=============================================================================
