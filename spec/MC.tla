--------------------------------- MODULE MC ---------------------------------
(* Every behaviour of the server within small constants. *)
EXTENDS Steps

CONSTANTS Sizes, Ttls, MaxUp, MaxNow, Ops, Glob

VARIABLE s

A(a, c, t, k, n, ttl) == Act(a, c, t, k, n, ttl, <<>>)

Acts(c) ==
  IF s.conn[c].ph = "idle"
  THEN {A(o, c, t, 0, 0, 0) : o \in IF Len(s.up) < MaxUp THEN Ops ELSE Ops \ {"putT"}, t \in Tabs}
  ELSE {A("abort", c, 0, 0, 0, 0)} \cup
       UNION {CASE g \in {"key", "x"} -> IF s.conn[c].op = "put" /\ Len(s.up) >= MaxUp THEN {}
                                         ELSE {A(g, c, 0, k, 0, 0) : k \in Keys}
                [] g = "hdr" -> {A(g, c, 0, 0, n, ttl) : n \in Sizes, ttl \in Ttls}
                [] g = "body" /\ "gcF" \in Glob -> {A(g, c, 0, 0, 0, 0), A("bodyF", c, 0, 0, 0, 0)}
                [] g = "end" /\ "gcF" \in Glob /\ s.conn[c].op = "put" -> {A(g, c, 0, 0, 0, 0), A("endF", c, 0, 0, 0, 0)}
                [] OTHER -> {A(g, c, 0, 0, 0, 0)} : g \in Next1(s, c)}

GActs == {A(g, 0, 0, 0, 1, 0) : g \in IF s.now < MaxNow THEN Glob ELSE Glob \ {"tick"}}

Init == s = Start
Next == \/ \E c \in Conns : \E a \in Acts(c) : s' = Do(s, a).s
        \/ \E a \in GActs : s' = Do(s, a).s
Spec == Init /\ [][Next]_s

\* what an answer promises: an upload that is acknowledged now is there unless somebody removed its key meanwhile, a key
\* that is said to be deleted is gone, a table too, and with it nothing of other tables
Answers ==
  \A c \in Conns : LET q == s.conn[c] IN
    /\ q.op = "put" /\ q.w /\ q.ph \in {"hdr", "body"} /\ q.n > 0 /\ ~s.up[q.u].del =>
         LET x == PutE(s, c) IN x.slot[q.t][Hash[s.up[q.u].k]] = q.u /\ x.up[q.u].st = "r" /\ Content(x, q.u) = q.u
    /\ q.op = "del" /\ q.ph = "key" /\ q.u # 0 => DelE(s, c).up[q.u].del
    /\ q.op = "delt" /\ q.ph = "tbl" /\ EndReply(s, c).kind = "deleted" =>
         LET x == DelTE(s, c) IN InTable(x, q.t) = {} /\ \A t \in Tabs \ {q.t} : x.slot[t] = s.slot[t]

Inv == Safe(s) /\ Answers

\* counters of requests do not influence anything (collections are explicit here)
\* and what an upload that is gone and that nobody uses was is forgotten
View == [s EXCEPT !.gets = 0, !.dels = 0, !.ins = 0, !.nti = 0, !.boot = 0, !.cold = {}, !.saves = 0,
           !.tcur = [t \in Tabs |-> IF s.tcur[t] = 0 THEN 0 ELSE 1],
           !.conn = [c \in Conns |-> [s.conn[c] EXCEPT !.ti =
                       IF @ = 0 THEN 0 ELSE IF @ = s.tcur[s.conn[c].t] THEN 1 ELSE 2]],
           !.up = [u \in 1..Len(s.up) |->
                     IF s.up[u].del /\ Readers(s, u) = {} /\ u \notin s.orph /\ u \notin s.save /\ u \notin s.pend
                        /\ ~\E b \in 1..Len(s.blk) : s.blk[b] = u
                     THEN [s.up[u] EXCEPT !.t = 0, !.k = 0, !.n = 0, !.exp = 0, !.st = "r", !.blk = 0] ELSE s.up[u]]]

----------------------------------------------------------------------------
(* Action properties: what the user relies on, step by step *)

Visible(x, t, k) ==   \* the upload a GET of t/k would be answered with, 0 if 404
  LET e == x.slot[t][Hash[k]] IN
  IF e = 0 THEN 0 ELSE IF x.up[e].k # k \/ x.up[e].st = "w" \/ Expired(x, e) THEN 0 ELSE e

\* a key changes only by: an upload of it beginning or ending, a delete of it or its table, a collision,
\* time, a collection or a restart; and what becomes visible is the upload whose last byte has just arrived
Stable ==
  [][\A t \in Tabs, k \in Keys :
       LET v == Visible(s, t, k) w == Visible(s', t, k) IN
       /\ w # 0 /\ w # v => \/ \E c \in Conns : s.conn[c].u = w /\ s.conn[c].w /\ ~s'.conn[c].w
                            \/ s'.boot # s.boot
       /\ v # 0 /\ w = 0 => \/ \E c \in Conns : /\ s.conn[c].ph # "idle" /\ s.conn[c].t = t
                                                /\ s.conn[c] # s'.conn[c]
                                                /\ s.conn[c].op \in {"put", "del", "delt", "bulk", "get", "head"}
                                                /\ s.conn[c].op \in {"get", "head"} => Expired(s, s.slot[t][Hash[k]])
                            \/ \E c \in Conns : s.conn[c].op = "bulk" /\ s.conn[c].t = t
                            \/ Expired(s', v)
                            \/ s'.boot # s.boot                                  \* uploads since the last save are lost by a crash
                            \/ MaxSize > 0 /\ s.bytes > MaxSize /\ s.conn = s'.conn   \* evicted
    ]_s

\* a GET finds exactly what is visible when its key arrives (a table that did not exist when its name arrived has nothing)
Found ==
  [][\A c \in Conns : s.conn[c].op \in {"get", "head"} /\ s.conn[c].ph = "tbl" /\ s'.conn[c].ph = "key" =>
       s'.conn[c].u = Visible(s, s.conn[c].t, s'.conn[c].k)]_s

\* a request for one key takes away nothing but what is at the place of that key
Precise ==
  [][s'.boot = s.boot /\ s'.now = s.now =>
     \A t \in Tabs, k \in Keys : Visible(s, t, k) # 0 /\ Visible(s', t, k) = 0 =>
       \A c \in Conns : s.conn[c] # s'.conn[c] /\ s.conn[c].op \in {"put", "del", "get", "head"} =>
         LET q == IF s'.conn[c].k # 0 THEN s'.conn[c].k ELSE s.conn[c].k IN
         q # 0 /\ s.conn[c].t = t /\ Hash[q] = Hash[k]]_s

\* a value being delivered never changes
Frozen ==
  [][\A c \in Conns : s.conn[c].ph = "send" /\ s'.conn[c].ph = "send" =>
       /\ s'.conn[c] = s.conn[c] /\ Content(s', s'.conn[c].u) = s.conn[c].u]_s

\* an upload is complete before it is visible, visible content never changes afterwards
Once == [][\A u \in 1..Len(s.up) : s.up[u].st = "r" =>
             /\ s'.up[u].st = "r" /\ s'.up[u].k = s.up[u].k /\ s'.up[u].t = s.up[u].t
             /\ s'.up[u].n = s.up[u].n /\ s'.up[u].exp = s.up[u].exp]_s

\* a finished save never changes but by the end of the next one, and that one contains what was complete when it began
Cut == [][/\ s'.save # s.save => \/ s.busy /\ ~s'.busy /\ s'.save = s.pend
                                 \/ ~Hold /\ \A u \in s'.save : s.up[u].st = "r" /\ u \in Present(s)
                                 \/ s'.boot # s.boot
          /\ s'.busy /\ s.busy => s'.pend = s.pend
          /\ s'.busy /\ ~s.busy => s'.pend = Snapshot(s')]_s

\* after a crash: the last finished save, less large values removed since
CrashOk == [][s'.boot # s.boot /\ s'.save = s.save =>
               /\ Present(s') \subseteq s.save
               /\ \A u \in s.save \ Present(s') : s.up[u].n > BlockMax /\ s.up[u].del]_s

\* wherever in a step the process ends, what is loaded then is one of the outcomes of that step
\* (loading the state before or after it is; the steps in between are those of Save.tla)
OutcomeOf(y, o) ==
  LET got == {[u |-> u, t |-> y.up[u].t, k |-> y.up[u].k, n |-> y.up[u].n, exp |-> y.up[u].exp] : u \in Present(y)}
  IN ToSet(o.must) \subseteq got /\ got \subseteq ToSet(o.must) \cup ToSet(o.may)
CrashAnywhere ==
  [][s'.boot = s.boot => /\ \E i \in DOMAIN Outcomes(s, s') : OutcomeOf(Crash(s), Outcomes(s, s')[i])
                         /\ \E i \in DOMAIN Outcomes(s, s') : OutcomeOf(Crash(s'), Outcomes(s, s')[i])]_s

\* an upload the store failed is not there, and nothing else is harmed: no save changes while the disk fails
FailSafe == [][s.bad /\ s'.bad /\ s'.boot = s.boot => s'.save = s.save]_s
=============================================================================
