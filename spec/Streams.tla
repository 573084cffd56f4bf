-------------------------------- MODULE Streams --------------------------------
(* Shared random streams with forks, by themselves.  Every party follows the   *)
(* same program at its own pace; a draw is known by the stream and the block   *)
(* it came from, and the seed of a forked stream is the block it was drawn     *)
(* from.  No message passes after the start: the parties stay in step because  *)
(* each moves its copy of a shared counter exactly as the others do.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Ops
VARIABLES prog,   \* the program so far: <<kind, context, party>>
          pc,     \* party -> how much of it it has done
          ctx,    \* party -> sequence of contexts, each the seeds it knows and their counters
          drawn,  \* party -> the blocks it has drawn
          twice   \* some party drew a block twice
vars == <<prog, pc, ctx, drawn, twice>>
Party == 1 .. N
Nxt(p) == (p % N) + 1
Prv(p) == ((p + N - 2) % N) + 1
Root(p) == [pub |-> <<"pub">>, self |-> <<"self", p>>, next |-> <<"self", Nxt(p)>>, priv |-> <<"priv", p>>,
            c |-> 0, c0 |-> 0, c1 |-> 0, cp |-> 0]
Init == /\ prog = <<>> /\ pc = [p \in Party |-> 0]
        /\ ctx = [p \in Party |-> <<Root(p)>>] /\ drawn = [p \in Party |-> {}] /\ twice = FALSE
Contexts == 1 + Cardinality({j \in 1 .. Len(prog) : prog[j][1] = "fork"})
Extend == /\ Len(prog) < Ops
          /\ \E kind \in {"pub", "priv", "both", "half", "fork"}, h \in 1 .. Contexts, q \in Party :
               /\ kind # "half" => q = 1
               /\ prog' = Append(prog, <<kind, h, q>>)
          /\ UNCHANGED <<pc, ctx, drawn, twice>>
(* what a party draws, and what remains of the context *)
Blocks(p, o, x) ==
  CASE o[1] = "pub"  -> {<<x.pub, x.c>>}
    [] o[1] = "priv" -> {<<x.priv, x.cp>>}
    [] o[1] = "both" -> {<<x.self, x.c0>>, <<x.next, x.c1>>}
    [] o[1] = "half" -> (IF p = o[3] THEN {<<x.self, x.c0>>} ELSE {}) \cup (IF p = Prv(o[3]) THEN {<<x.next, x.c1>>} ELSE {})
    [] o[1] = "fork" -> {<<x.pub, x.c>>, <<x.self, x.c0>>, <<x.next, x.c1>>}
Left(p, o, x) ==
  CASE o[1] = "pub"  -> [x EXCEPT !.c = @ + 1]
    [] o[1] = "priv" -> [x EXCEPT !.cp = @ + 1]
    [] o[1] = "both" -> [x EXCEPT !.c0 = @ + 1, !.c1 = @ + 1]
    [] o[1] = "half" -> [x EXCEPT !.c0 = IF p = o[3] THEN @ + 1 ELSE @, !.c1 = IF p = Prv(o[3]) THEN @ + 1 ELSE @]
    [] o[1] = "fork" -> [x EXCEPT !.c = @ + 1, !.c0 = @ + 1, !.c1 = @ + 1]
Child(p, x, n) == [pub |-> Append(x.pub, x.c), self |-> Append(x.self, x.c0), next |-> Append(x.next, x.c1), priv |-> <<"priv", p, n>>,
                   c |-> 0, c0 |-> 0, c1 |-> 0, cp |-> 0]
Step(p) == /\ pc[p] < Len(prog)
           /\ LET o == prog[pc[p] + 1] x == ctx[p][o[2]] b == Blocks(p, o, x) y == [ctx[p] EXCEPT ![o[2]] = Left(p, o, x)]
              IN  /\ ctx' = [ctx EXCEPT ![p] = IF o[1] = "fork" THEN Append(y, Child(p, x, Len(y))) ELSE y]
                  /\ drawn' = [drawn EXCEPT ![p] = @ \cup b]
                  /\ twice' = (twice \/ b \cap drawn[p] # {})
           /\ pc' = [pc EXCEPT ![p] = @ + 1]
           /\ UNCHANGED prog
Next == Extend \/ \E p \in Party : Step(p)
Spec == Init /\ [][Next]_vars

Seeds(p, h) == LET x == ctx[p][h] IN {x.pub, x.self, x.next, x.priv}
NoReuse == ~twice
InStep == \A p, q \in Party : pc[p] = pc[q] => \A h \in 1 .. Len(ctx[p]) :
            LET x == ctx[p][h] y == ctx[q][h]
            IN  x.pub = y.pub /\ x.c = y.c /\ (q = Nxt(p) => x.next = y.self /\ x.c1 = y.c0)
ForkedApart == \A p, q \in Party : \A h \in 1 .. Len(ctx[p]), g \in 1 .. Len(ctx[q]) : h # g => Seeds(p, h) \cap Seeds(q, g) = {}
Private == \A p, q \in Party : p # q => \A h \in 1 .. Len(ctx[p]), g \in 1 .. Len(ctx[q]) : ctx[p][h].priv \notin Seeds(q, g)
=============================================================================
