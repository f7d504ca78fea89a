------------------------------ MODULE BindsGen ------------------------------
(* Random lists for -b and -B, mostly right, some with one mistake, and what has to come of them. *)
EXTENDS Binds, TLC, Json

CONSTANTS MaxItems, BadPct, Kinds
VARIABLE out

Form(k) == CASE k = "v4" -> <<"A4", ":", "N">>
             [] k = "v6" -> <<"[", "A6", "]", ":", "N">>
             [] OTHER    -> <<"u:", "P">>

RECURSIVE Join(_)
Join(ks) == IF Len(ks) = 1 THEN Form(ks[1]) ELSE Form(ks[1]) \o <<",">> \o Join(Tail(ks))

List(n) == Join([i \in 1..n |-> Kinds[RandomElement(1..Len(Kinds))]])

\* one token less, one more, or a wrong one. (Not among them: text that runs into a path, it makes another path)
Spoil(q) ==
  LET i == RandomElement(1..Len(q)) t == RandomElement(Tokens \ {"u:"}) IN
  CASE RandomElement(1..3) = 1 /\ ~(q[i] = "," /\ q[i - 1] = "P") -> SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
    [] q[i] \in {"A4", "A6", "N", "P"} -> [q EXCEPT ![i] = "X"]
    [] OTHER -> SubSeq(q, 1, i) \o <<t>> \o SubSeq(q, i + 1, Len(q))

Draw(n) == LET q == List(RandomElement(1..n)) IN IF RandomElement(1..100) <= BadPct THEN Spoil(q) ELSE q

GInit == Init /\ out = <<>>
GNext == /\ out = <<>>
         /\ \E b \in {Draw(MaxItems)} : \E m \in {IF RandomElement(1..3) = 1 THEN <<>> ELSE Draw(MaxItems)} :
              out' = [b |-> b, wb |-> Wanted(b), m |-> m, wm |-> IF m = <<>> THEN <<>> ELSE Wanted(m)]
         /\ UNCHANGED <<in, st, cur, got>>
GSpec == GInit /\ [][GNext]_<<in, st, cur, got, out>>
Emit == out # <<>> => PrintT("TRACE " \o ToJson(out))
==============================================================================
