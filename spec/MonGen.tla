------------------------------- MODULE MonGen -------------------------------
(* Random behaviours of Mon.tla. *)
EXTENDS Mon, Json

CONSTANTS TickPct, CachePct, LeavePct, ConnPct, BlockPct, TickSizes, Depth

VARIABLES x, hist

Pick(S) == RandomElement(S)
PickQ(q) == q[RandomElement(1..Len(q))]

Init == x = MStart /\ hist = <<>>

Do(a) == \E y \in {MDo(x, a)} :
           /\ x' = y
           /\ hist' = Append(hist, [a |-> a.a, c |-> a.c, k |-> a.k, n |-> a.n, out |-> y.out, now |-> y.now, val |-> y.val,
                                    open |-> Cardinality({i \in Strs : y.c[i].ph # "gone"})])

Mostly(S, c) == \* streams are what it is about
  LET conns == {a \in S : a.k = "conn"} rest == {a \in S : a.a \notin {"leave", "ask"} \cup (IF RandomElement(1..100) > BlockPct THEN {"block"} ELSE {})} IN
  IF ConnPct < 20 /\ RandomElement(1..100) <= 50 /\ (\E a \in S : a.a = "ask") THEN {a \in S : a.a = "ask"}
  ELSE IF conns # {} /\ RandomElement(1..100) <= ConnPct THEN conns
  ELSE IF rest # {} /\ RandomElement(1..100) > LeavePct THEN rest ELSE S

Step ==
  /\ Len(hist) < Depth
  /\ \E g \in {RandomElement(1..100)} : \E i \in {RandomElement(Strs)} :
       IF Len(hist) = Depth - 1 THEN Do(A("stop", 0, "", 0))
       ELSE IF g <= TickPct THEN \E d \in {PickQ(TickSizes)} : Do(A("tick", 0, "", d))
       ELSE IF g <= TickPct + CachePct THEN \E k \in {PickQ(<<"put", "get">>)} : \E n \in {RandomElement(1..1000)} : Do(A(k, 0, "", IF k = "put" THEN n ELSE 0))
       ELSE \E a \in {Pick(Mostly(Can(x, i), i))} : Do(a)

GSpec == Init /\ [][Step]_<<x, hist>>
Emit == hist # <<>> /\ Len(hist) = Depth => PrintT("TRACE " \o ToJson(hist))
=============================================================================
