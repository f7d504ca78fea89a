-------------------------------- MODULE MCMon -------------------------------
(***************************************************************************
Everything that can happen to a few connections, twice: in x all of them act,
in y only connection 1 does. Connection 1 must not be able to tell.
seen is what connection 1 received, born the time its stream began.
***************************************************************************)
EXTENDS Mon

CONSTANTS Ticks, MaxNow, MaxN

VARIABLES x, y, n, seen, born, full

Init == x = MStart /\ y = MStart /\ n = 0 /\ seen = <<>> /\ born = 0 /\ full = TRUE

Of1(out) == SelectSeq(out, LAMBDA o : o.c = 1)
Took(a) ==
  LET s0 == IF a.a = "open" /\ a.c = 1 THEN <<>> ELSE seen
      o  == Of1(x'.out)
  IN /\ seen' = s0 \o [i \in DOMAIN o |-> [kind |-> o[i].kind, n |-> o[i].n, at |-> x'.now]]
     /\ born' = IF \E i \in DOMAIN o : o[i].kind = "stream" THEN x'.now ELSE born
     /\ full' = IF a.c = 1 /\ a.a = "open" THEN TRUE ELSE full /\ ~x.c[1].blk

Next ==
  /\ n < MaxN /\ n' = n + 1
  /\ \/ \E i \in Strs : \E a \in Can(x, i) : /\ x' = MDo(x, a)
                                             /\ y' = IF i = 1 THEN MDo(y, a) ELSE [y EXCEPT !.out = <<>>]
                                             /\ Took(a)
     \/ \E d \in Ticks : /\ x.now + d <= MaxNow
                         /\ LET a == A("tick", 0, "", d) IN x' = MDo(x, a) /\ y' = MDo(y, a) /\ Took(a)

Spec == Init /\ [][Next]_<<x, y, n, seen, born, full>>

\* the others make no difference
Alone == x.c[1] = y.c[1] /\ Of1(x.out) = Of1(y.out)

Nums == SelectSeq(seen, LAMBDA o : o.kind = "num")
\* every number once, in order, not more often than every period
InOrder == \A i \in DOMAIN Nums : Nums[i].n = i - 1 /\ (i > 1 /\ full => Nums[i].at - Nums[i - 1].at >= Period)
\* nothing but the header comes before them
HeaderFirst == Nums # <<>> => \E i \in DOMAIN seen : seen[i].kind = "stream" /\ \A j \in DOMAIN seen : seen[j].kind = "num" => i < j
\* nobody who takes what he is sent waits longer than a period, or is disconnected
OnTime == \A i \in Strs : x.c[i].ph = "live" => x.c[i].due > x.now /\ x.c[i].due <= x.now + Period
Kept   == full => \A i \in DOMAIN seen : seen[i].kind # "cut"
\* if the time is looked at often enough no period is left out
Exact  == full /\ x.c[1].ph = "live" /\ Ticks = {1} => Len(Nums) = (x.now - born) \div Period + 1
Inv == Alone /\ InOrder /\ HeaderFirst /\ OnTime /\ Kept /\ Exact
=============================================================================
