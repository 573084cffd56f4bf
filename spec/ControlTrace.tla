---------------------------- MODULE ControlTrace ----------------------------
(* Control flow as a stack machine.  A value is a list of vectors.  A frame   *)
(* is a running construct or the body it is executing; a public predicate      *)
(* runs the one branch it names, a secret one runs every branch and selects    *)
(* element by element; a loop tests before every round, hands the results of   *)
(* each round to the next test, and refuses a secret test without a round.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES l, stack, cur
vars == <<l, stack, cur>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

Last(s) == s[Len(s)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Set(f) == Append(Pop, f)
Map2(f(_, _), a, b) == [i \in DOMAIN a |-> f(a[i], b[i])]
AddC(v, cst) == [i \in DOMAIN v |-> [j \in DOMAIN v[i] |-> v[i][j] + cst[((i - 1) % 2) + 1]]]
Chosen(e) == IF e.idx < 0 \/ e.idx >= e.n THEN e.n - 1 ELSE e.idx
Base == [kind |-> "-", in |-> <<>>, sec |-> FALSE, todo |-> <<>>, res |-> <<>>, run |-> -1, pred |-> <<>>, hi |-> 0, step |-> 0, bad |-> FALSE, phase |-> ""]
\* what a finished if/case gives: res maps the branches that ran to their results
Result(f) ==
  IF f.kind = "if"
  THEN IF f.sec THEN [i \in DOMAIN f.in |-> [j \in DOMAIN f.in[i] |-> f.res[f.pred[j]][i][j]]] ELSE f.res[f.pred[1]]
  ELSE f.res[f.pick]
Ran(f) == DOMAIN f.res
Must(f) == IF f.kind = "if" THEN (IF f.sec THEN {0, 1} ELSE {f.pred[1]}) ELSE (IF f.sec THEN 0..(f.n - 1) ELSE {f.pick})

\* <<allowed, stack, current value>>
Step(e) ==
  LET f == IF stack = <<>> THEN Base ELSE Last(stack) IN
  CASE e.op = "start" -> <<stack = <<>>, stack, e.in>>
    [] e.op = "stop" -> <<stack = <<>> /\ e.out = cur, stack, cur>>
    [] e.op = "result" -> <<e.ok /\ e.same, stack, cur>>
    [] e.op = "add" -> <<TRUE, stack, AddC(cur, e.cst)>>
    [] e.op = "mix" -> <<TRUE, stack, <<[j \in DOMAIN cur[1] |-> cur[2][j] - cur[1][j]], cur[1]>>>>
    [] e.op = "if" -> <<TRUE, Append(stack, [kind |-> "if", in |-> cur, sec |-> e.sec, pred |-> e.pred, res |-> <<>>, run |-> -1]), cur>>
    [] e.op = "case" -> <<TRUE, Append(stack, [kind |-> "case", in |-> cur, sec |-> e.sec, pick |-> Chosen(e), n |-> e.n, res |-> <<>>, run |-> -1]), cur>>
    [] e.op = "enter" -> <<f.kind \in {"if", "case"} /\ f.run = -1 /\ e.i \in Must(f) /\ e.i \notin Ran(f), Set([f EXCEPT !.run = e.i]), f.in>>
    [] e.op = "leave" /\ f.kind \in {"if", "case"} -> <<f.run = e.i /\ e.out = cur, Set([f EXCEPT !.run = -1, !.res = (e.i :> cur) @@ @]), f.in>>
    [] e.op = "end" /\ f.kind \in {"if", "case"} -> <<f.run = -1 /\ Ran(f) = Must(f) /\ e.out = Result(f), Pop, Result(f)>>
    \* loops: the counter is the last vector
    [] e.op = "while" -> <<SubSeq(e.in, 1, Len(e.in) - 1) = cur, Append(stack, [kind |-> "while", in |-> e.in, start |-> cur, hi |-> e.hi, step |-> e.step, bad |-> e.bad, phase |-> "test", count |-> 0]), cur>>
    [] e.op = "cond" -> <<f.kind = "while" /\ f.phase = "test" /\ e.in = f.in /\ (e.res = 1) = (f.in[3][1] < f.hi),
                          Set([f EXCEPT !.phase = IF f.bad THEN "refuse" ELSE IF f.in[3][1] < f.hi THEN "run" ELSE "out"]), cur>>
    [] e.op = "body" -> <<f.kind = "while" /\ f.phase = "run" /\ e.in = f.in, Set([f EXCEPT !.phase = "body"]), <<f.in[1], f.in[2]>>>>
    [] e.op = "leave" -> <<f.kind = "while" /\ f.phase = "body" /\ e.out = Append(cur, <<f.in[3][1] + f.step>>),
                           Set([f EXCEPT !.phase = "test", !.in = Append(cur, <<f.in[3][1] + f.step>>), !.count = @ + 1]), cur>>
    [] e.op = "end" -> <<f.kind = "while" /\ f.phase = "out" /\ e.out = f.in, Pop, <<f.in[1], f.in[2]>>>>
    [] e.op = "refused" -> <<f.kind = "while" /\ f.phase = "refuse" /\ f.count = 0, Pop, f.start>>
    [] OTHER -> <<FALSE, stack, cur>>

Init == l = 1 /\ stack = <<>> /\ cur = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  s == Step(e)
           IN /\ (IF s[1] THEN TRUE ELSE PrintT(<<"REJECT", l, e.op>>))
              /\ stack' = IF e.op = "result" THEN <<>> ELSE s[2]
              /\ cur' = IF e.op = "result" THEN <<>> ELSE s[3]
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
