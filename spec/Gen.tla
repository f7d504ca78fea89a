-------------------------------- MODULE Gen --------------------------------
(* Random behaviours of the server, printed as JSON for replay (tlc -simulate). *)
EXTENDS Steps

CONSTANTS
  Globals, GlobalPct,    \* sequence of kinds that concern no connection, and how often in percent
  Starts,                \* sequence of kinds an idle connection begins with (repeat for weight)
  AbortPct,
  Sizes, Ttls, Ticks, PageSizes,  \* sequences
  ManyKeys, ManySizes, Pre, PreSize,
  Outs,                  \* whether to print what a crash during each step may leave
  Huge,                  \* uploads of more than that never get as far as the body (their sizes are announced, and count)
  FailPct,               \* how many of the bodies meet a failing store
  Depth

VARIABLES s, hist,
  many    \* a fill, unfill or scan under way: what, how far, uploads before it, answers so far

Pick(q) == q[RandomElement(1..Len(q))]

\* the keys of a table among which a request chooses: mostly present ones, so that it meets something
KeyFor(c) == RandomElement(Keys)

\* (with a parameter, because TLC evaluates a definition without one only once)
RandKs(c) == LET n == RandomElement(0..3) IN [i \in 1..n |-> RandomElement(Keys)]

Global(c) ==
  LET g == Pick(Globals) IN
  CASE g \in {"gc", "sig", "gcF"} /\ Unclear(s) -> Act("stats", 0, 0, 0, 0, 0, <<>>)
    \* (which values would be evicted is not specified)
    [] g = "tick" -> Act("tick", 0, 0, 0, Pick(Ticks), 0, <<>>)
    [] OTHER      -> Act(g, 0, 0, 0, 0, 0, <<>>)

Start1(c) ==
  LET g == Pick(Starts) t == RandomElement(Tabs) k == KeyFor(c) IN
  CASE g = "put"   -> LET n == Pick(Sizes) IN
         Act(IF RandomElement(1..100) <= FailPct THEN "putF" ELSE g, c, t, k, IF n > Huge THEN 1 ELSE n, Pick(Ttls), <<>>)
    [] g \in {"get", "head", "del"} -> Act(g, c, t, k, 0, 0, <<>>)
    [] g = "bulk"  -> Act(g, c, t, 0, 0, 0, RandKs(c))
    [] g = "pages" -> Act(g, c, t, 0, Pick(PageSizes), 0, <<>>)
    [] g \in {"fill", "unfill", "scan"} -> LET k0 == IF RandomElement(1..3) = 1 THEN 1 ELSE RandomElement(1..NKey) IN
         \* up to the last key, up to the last but one or two (what lies at the end of the block file stays), or anything
         Act(g, c, 1, k0, LET d == RandomElement(0..5) m == NKey + 1 - k0 IN
                          IF d < 3 THEN m ELSE IF d < 5 /\ g = "unfill" /\ m > 2 THEN m - (d - 2) ELSE RandomElement(1..m), Pick(ManySizes), <<>>)
    [] OTHER       -> Act(g, c, t, 0, 0, 0, <<>>)

Continue(c) ==
  IF RandomElement(1..100) <= AbortPct THEN Act("abort", c, 0, 0, 0, 0, <<>>)
  ELSE LET g == RandomElement(Next1(s, c)) IN
       CASE g \in {"key", "x"} -> Act(g, c, 0, RandomElement(Keys), 0, 0, <<>>)
         [] g = "hdr" -> Act(g, c, 0, 0, Pick(Sizes), Pick(Ttls), <<>>)
         [] g \in {"body", "end"} /\ s.conn[c].op = "put" /\ s.conn[c].n > Huge -> Act("stats", 0, 0, 0, 0, 0, <<>>)
         [] g \in {"body", "end"} /\ s.conn[c].op = "put" /\ RandomElement(1..100) <= FailPct ->
              Act(IF g = "body" THEN "bodyF" ELSE "endF", c, 0, 0, 0, 0, <<>>)
         [] OTHER -> Act(g, c, 0, 0, 0, 0, <<>>)

Draw(c) ==
  IF Len(hist) = 0 /\ Pre > 0 THEN Act("fill", 1, 1, 1, Pre, PreSize, <<>>)
  ELSE IF Globals # <<>> /\ RandomElement(1..100) <= GlobalPct THEN Global(c)
  ELSE IF s.conn[c].ph = "idle" THEN Start1(c) ELSE Continue(c)

None == [i |-> 0, a |-> Act("", 0, 0, 0, 0, 0, <<>>), up0 |-> 0, got |-> <<>>]

Init == s = Start /\ hist = <<>> /\ many = None

Record(a, rep, x, up0) ==
  hist' = Append(hist, a @@ [rep |-> rep, st |-> Counters(x), u |-> IF a.c = 0 THEN 0 ELSE x.conn[a.c].u,
                             up0 |-> up0, idle |-> \A d \in Conns : x.conn[d].ph = "idle",
                             busy |-> x.busy]
                           @@ IF Outs THEN [out |-> Outcomes(s, x), sw |-> x.saves # s.saves, cur |-> Entries(x, Snapshot(x))] ELSE [bad |-> x.bad])

Step ==
  /\ many.i = 0
  /\ Len(hist) < Depth
  /\ \E c \in {RandomElement(Conns)} : \E a \in {Draw(c)} :
       IF a.a \in {"fill", "unfill", "scan"}
       THEN many' = [i |-> 1, a |-> a, up0 |-> Len(s.up), got |-> <<>>] /\ UNCHANGED <<s, hist>>
       ELSE \E r \in {Do(s, a)} : s' = r.s /\ Record(a, r.rep, r.s, Len(s.up)) /\ UNCHANGED many

More ==
  /\ many.i > 0
  /\ \E r \in {Do(s, Piece(many.a, many.i - 1))} :
     LET got == IF many.a.a = "scan" THEN Append(many.got, r.rep) ELSE <<>> IN
       /\ s' = r.s
       /\ IF many.i = many.a.n
          THEN many' = None /\ Record(many.a, IF many.a.a = "scan" THEN [kind |-> "scan", got |-> got] ELSE NoReply, r.s, many.up0)
          ELSE many' = [many EXCEPT !.i = @ + 1, !.got = got] /\ UNCHANGED hist

Next == Step \/ More

Spec == Init /\ [][Next]_<<s, hist, many>>

\* every state of a behaviour satisfies the invariants; the behaviour is printed when it is complete
Emit == Len(hist) = Depth /\ many.i = 0 => PrintT("TRACE " \o ToJson(hist))
Inv == Safe(s)
=============================================================================
