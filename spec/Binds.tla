-------------------------------- MODULE Binds --------------------------------
(***************************************************************************
The lists given with -b and -B: what the server listens on.

    list = item { "," item }      item = A4 ":" N  |  "[" A6 "]" ":" N  |  "u:" P

A4, A6, N, P stand for texts that are an IPv4 address, an IPv6 address, a
port and a path; X for a text that is none of these. `Wanted` says what a list
means; the actions read it one token after the other, as the server does, and
`Right` states that this comes to the same for every list of at most MaxLen
tokens. Anything else than a list is refused: the server does not start, it
never listens on something that was not asked for.
***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS MaxLen
Tokens == {"A4", "A6", "N", "P", "X", "[", "]", ":", ",", "u:"}
VARIABLES in, st, cur, got

Item(q) == CASE q = <<"A4", ":", "N">> -> "v4"
             [] q = <<"[", "A6", "]", ":", "N">> -> "v6"
             [] q = <<"u:", "P">> -> "unix"
             [] OTHER -> "bad"

RECURSIVE Split(_)
Split(q) ==     \* the parts between the commas
  IF \A i \in 1..Len(q) : q[i] # "," THEN <<q>>
  ELSE LET i == CHOOSE i \in 1..Len(q) : q[i] = "," /\ \A j \in 1..(i - 1) : q[j] # ","
       IN <<SubSeq(q, 1, i - 1)>> \o Split(SubSeq(q, i + 1, Len(q)))

Refused == <<"refused">>
Wanted(q) == LET w == [i \in 1..Len(Split(q)) |-> Item(Split(q)[i])] IN
             IF \E i \in 1..Len(w) : w[i] = "bad" THEN Refused ELSE w

Init == in = <<>> /\ st = "first" /\ cur = "" /\ got = <<>>

\* state after a token
To(s, t) ==
  CASE s = "first" /\ t = "A4" -> "v4"
    [] s = "first" /\ t = "["  -> "v6"
    [] s = "first" /\ t = "u:" -> "unix"
    [] s = "v4" /\ t = ":"     -> "port"
    [] s = "v6" /\ t = "A6"    -> "v6a"
    [] s = "v6a" /\ t = "]"    -> "v6b"
    [] s = "v6b" /\ t = ":"    -> "port"
    [] s = "port" /\ t = "N"   -> "done"
    [] s = "unix" /\ t = "P"   -> "done"
    [] s = "done" /\ t = ","   -> "first"
    [] OTHER -> "bad"

Read(t) ==
  /\ in' = Append(in, t)
  /\ st' = To(st, t)
  /\ cur' = IF st = "first" THEN (IF st' \in {"v4", "v6", "unix"} THEN st' ELSE "") ELSE cur
  /\ got' = IF st' = "done" THEN Append(got, cur) ELSE got

Next == Len(in) < MaxLen /\ \E t \in Tokens : Read(t)
Spec == Init /\ [][Next]_<<in, st, cur, got>>

\* what the server does if the list ends here
Result == IF st = "done" THEN got ELSE Refused
Right == Result = Wanted(in)
\* nothing refused becomes right by more text of the same item
Stays == st = "bad" => Wanted(in) = Refused
==============================================================================
