------------------------------ MODULE MonList -------------------------------
(***************************************************************************
How the server finds the streams that are due: one list; a new stream is put
at its head, due at once; of the list only the head is looked at; one that
was served goes to the end. That this serves everybody who is due, whoever
comes and goes, is what is checked here, as a refinement of Mon's Due.
***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, Period, MaxNow

VARIABLES now, list, due,
          stuck,        \* their peers take nothing
          pend          \* they have a number that was not taken

vars == <<now, list, due, stuck, pend>>

Init == now = 0 /\ list = <<>> /\ due = [i \in 1..N |-> 0] /\ stuck = {} /\ pend = {}

In(i) == \E k \in DOMAIN list : list[k] = i
Without(l, i) == SelectSeq(l, LAMBDA j : j # i)

Add(i)    == ~In(i) /\ list' = <<i>> \o list /\ due' = [due EXCEPT ![i] = now] /\ UNCHANGED <<now, stuck, pend>>
Remove(i) == In(i) /\ list' = Without(list, i) /\ stuck' = stuck \ {i} /\ pend' = pend \ {i} /\ UNCHANGED <<now, due>>
Stuck(i)  == In(i) /\ i \notin stuck /\ stuck' = stuck \cup {i} /\ UNCHANGED <<now, list, due, pend>>
Takes(i)  == i \in stuck /\ stuck' = stuck \ {i} /\ pend' = pend \ {i} /\ UNCHANGED <<now, list, due>>

RECURSIVE Check(_)
\* r: list, due times, pending; who has not taken the last number leaves
Check(r) ==
  LET l == r[1] d == r[2] p == r[3] IN
  IF l = <<>> THEN r ELSE IF d[Head(l)] > now THEN r
  ELSE IF Head(l) \in p THEN Check(<<Tail(l), d, p \ {Head(l)}>>)
  ELSE Check(<<Append(Tail(l), Head(l)), [d EXCEPT ![Head(l)] = now + Period], IF Head(l) \in stuck THEN p \cup {Head(l)} ELSE p>>)

Run == LET r == Check(<<list, due, pend>>) IN
       /\ list' = r[1] /\ due' = r[2] /\ pend' = r[3] /\ stuck' = stuck \cap {r[1][k] : k \in DOMAIN r[1]} /\ UNCHANGED now
\* time passes when all that is due was served
Tick == now < MaxNow /\ (IF list = <<>> THEN TRUE ELSE due[Head(list)] > now) /\ now' = now + 1 /\ UNCHANGED <<list, due, stuck, pend>>

Next == Tick \/ Run \/ \E i \in 1..N : Add(i) \/ Remove(i) \/ Stuck(i) \/ Takes(i)
Spec == Init /\ [][Next]_vars

Sorted == \A k \in DOMAIN list : k > 1 => due[list[k - 1]] <= due[list[k]]
Once   == \A i \in 1..N : Cardinality({k \in DOMAIN list : list[k] = i}) <= 1
\* the head tells about all of them
Enough == (list = <<>> \/ due[Head(list)] > now) => \A i \in 1..N : In(i) => due[i] > now
\* nobody is forgotten for longer than a period
Soon   == \A i \in 1..N : In(i) => due[i] <= now + Period
\* who takes what he is sent stays
Fair   == pend \subseteq stuck
Inv == Fair /\ Sorted /\ Once /\ Enough /\ Soon
=============================================================================
