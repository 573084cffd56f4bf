------------------------------- MODULE ParLoop -------------------------------
(* A parallel loop: the range is cut into chunks of at least the grain size,   *)
(* workers take chunks in any order and step through them index by index.      *)
(* Every interleaving visits every index exactly once, and a reduction of the  *)
(* per-chunk results with an associative operation in chunk order equals the   *)
(* sequential one, whatever the completion order.                              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANTS MaxN, MaxGrain, Workers
VARIABLES n, g, next, at, visits, part, done
Chunks == (n + g - 1) \div g
Lo(c) == c * g
Hi(c) == IF (c + 1) * g > n THEN n ELSE (c + 1) * g
vars == <<n, g, next, at, visits, part, done>>
Init == /\ n \in 0..MaxN /\ g \in 1..MaxGrain /\ next = 0
        /\ at = [w \in Workers |-> <<>>] /\ visits = [i \in 0..(MaxN - 1) |-> 0]
        /\ part = [c \in 0..MaxN |-> <<>>] /\ done = {}
Take(w) == /\ at[w] = <<>> /\ next < Chunks
           /\ at' = [at EXCEPT ![w] = <<next, Lo(next)>>] /\ next' = next + 1
           /\ UNCHANGED <<n, g, visits, part, done>>
Step(w) == /\ at[w] # <<>> /\ LET c == at[w][1] i == at[w][2] IN
              IF i < Hi(c) THEN /\ visits' = [visits EXCEPT ![i] = @ + 1] /\ part' = [part EXCEPT ![c] = Append(@, i)]
                                /\ at' = [at EXCEPT ![w] = <<c, i + 1>>] /\ UNCHANGED done
              ELSE /\ at' = [at EXCEPT ![w] = <<>>] /\ done' = done \cup {c} /\ UNCHANGED <<visits, part>>
           /\ UNCHANGED <<n, g, next>>
Next == \E w \in Workers : Take(w) \/ Step(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == next = Chunks /\ \A w \in Workers : at[w] = <<>>
AtMostOnce == \A i \in DOMAIN visits : visits[i] <= 1 /\ (i >= n => visits[i] = 0)
AllOnce == Finished => \A i \in DOMAIN visits : visits[i] = (IF i < n THEN 1 ELSE 0)
Reduced == Finished => FlattenSeq([c \in 1..Chunks |-> part[c - 1]]) = [i \in 1..n |-> i - 1]
Terminates == <>Finished
=============================================================================
