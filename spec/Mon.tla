-------------------------------- MODULE Mon ---------------------------------
(***************************************************************************
The monitoring port: connections that ask for things that are answered at
once, and streams of numbers, one every period from the stream's own start.

Time is counted in quarters of a second. A connection is blocked while its
peer takes nothing. x.out is what the connections receive in a step.
***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NStr,          \* connections
          Period         \* quarters of a second between two numbers

Strs == 1..NStr

Gone == [ph |-> "gone", due |-> 0, cnt |-> 0, pend |-> FALSE, blk |-> FALSE]

MStart == [now |-> 0, c |-> [i \in Strs |-> Gone], out |-> <<>>, val |-> 0]

Out(x, i, kind, n) == [x EXCEPT !.out = Append(@, [c |-> i, kind |-> kind, n |-> n])]

\* one connection at the present time: the next number when it is due; who has not taken the last one is disconnected
Due1(x, i) ==
  LET c == x.c[i] IN
  IF c.ph # "live" \/ c.due > x.now THEN x
  ELSE IF c.pend THEN Out([x EXCEPT !.c[i] = Gone], i, "cut", 0)
  ELSE LET y == [x EXCEPT !.c[i].due = x.now + Period, !.c[i].cnt = (@ + 1) % 65536, !.c[i].pend = c.blk]
       IN IF c.blk THEN y ELSE Out(y, i, "num", c.cnt)

RECURSIVE DueFrom(_, _)
DueFrom(x, i) == IF i > NStr THEN x ELSE DueFrom(Due1(x, i), i + 1)
Settle(x) == DueFrom(x, 1)

\* the header is out: the stream starts now
Live(x, i) == Settle(Out([x EXCEPT !.c[i].ph = "live", !.c[i].due = x.now], i, "stream", 0))

Opens(x, i)  == [x EXCEPT !.c[i] = [Gone EXCEPT !.ph = "open"]]
\* a part of a request
Part(x, i)   == [x EXCEPT !.c[i].ph = "part"]
\* (the rest of) a request for kind
Ask(x, i, kind) ==
  CASE kind = "conn" -> IF x.c[i].blk THEN [x EXCEPT !.c[i].ph = "hdr"] ELSE Live(x, i)
    [] kind = "bad"  -> Out([x EXCEPT !.c[i] = Gone], i, "bad", 0)
    [] OTHER         -> Out([x EXCEPT !.c[i].ph = "open"], i, kind, 0)
Leaves(x, i) == [x EXCEPT !.c[i] = Gone]
Block(x, i)  == [x EXCEPT !.c[i].blk = TRUE]
Unblock(x, i) ==
  LET c == x.c[i] y == [x EXCEPT !.c[i].blk = FALSE, !.c[i].pend = FALSE]
  IN CASE c.ph = "hdr" -> Live(y, i)
       [] c.pend       -> Out(y, i, "num", (c.cnt + 65535) % 65536)
       [] OTHER        -> y
Tick(x, n)   == Settle([x EXCEPT !.now = @ + n])
\* the server is stopped
RECURSIVE StopFrom(_, _)
StopFrom(x, i) == IF i > NStr THEN x
                  ELSE StopFrom(IF x.c[i].ph = "gone" THEN x
                                ELSE Out([x EXCEPT !.c[i] = Gone], i, IF x.c[i].ph = "live" /\ ~x.c[i].blk THEN "q" ELSE "cut", 0), i + 1)
Stop(x)      == StopFrom(x, 1)

\* what connection i can do, as actions [a, c, k]: k is a kind of request
Kinds == {"conn", "root", "head", "404", "bad"}
A(a, i, k, n) == [a |-> a, c |-> i, k |-> k, n |-> n]
Can(x, i) ==
  LET c == x.c[i] IN
  CASE c.ph = "gone" -> {A("open", i, "", 0)}
    [] c.ph \in {"open", "part"} ->
         {A("leave", i, "", 0)} \cup (IF c.blk THEN {A("ask", i, "conn", 0), A("unblock", i, "", 0)} ELSE {A("ask", i, k, 0) : k \in Kinds} \cup {A("block", i, "", 0)})
         \cup (IF c.ph = "open" THEN {A("part", i, "", 0)} ELSE {})
    [] c.ph = "hdr"  -> {A("leave", i, "", 0), A("unblock", i, "", 0), A("noise", i, "", 0)}
    [] c.ph = "live" -> {A("leave", i, "", 0), A("noise", i, "", 0), IF c.blk THEN A("unblock", i, "", 0) ELSE A("block", i, "", 0)}

\* put: the cache is given a value, get: it has it
MDo(x0, a) ==
  LET x == [x0 EXCEPT !.out = <<>>] IN
  CASE a.a = "open"    -> Opens(x, a.c)
    [] a.a = "part"    -> Part(x, a.c)
    [] a.a = "ask"     -> Ask(x, a.c, a.k)
    [] a.a = "leave"   -> Leaves(x, a.c)
    [] a.a = "block"   -> Block(x, a.c)
    [] a.a = "unblock" -> Unblock(x, a.c)
    [] a.a = "noise"   -> x                        \* what comes in while streaming is ignored
    [] a.a = "tick"    -> Tick(x, a.n)
    [] a.a = "put"     -> [x EXCEPT !.val = a.n]
    [] a.a = "get"     -> x
    [] a.a = "stop"    -> Stop(x)
=============================================================================
