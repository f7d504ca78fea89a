------------------------------- MODULE Steps -------------------------------
(***************************************************************************
Everything a client, an operator or the environment can do, as action
records a = [a, c, t, k, n, ttl, ks], and their effect and answer in a state:

    Do(s, a) = [s |-> next state, rep |-> what connection a.c receives]

MC.tla explores all of them exhaustively, Gen.tla draws random behaviours to
be replayed into the code, Trace.tla explains recorded concurrent runs.
***************************************************************************)
EXTENDS SCache

Act(a, c, t, k, n, ttl, ks) == [a |-> a, c |-> c, t |-> t, k |-> k, n |-> n, ttl |-> ttl, ks |-> ks]

R(s, rep) == [s |-> s, rep |-> rep]

\* a whole request at once is the steps of the request, one after the other
PutAll(s, a) ==
  LET s1 == PutK(PutT(s, a.c, a.t), a.c, a.k)
      s2 == PutH(s1, a.c, a.n, a.ttl)
      s3 == IF a.n > 0 THEN PutB(s2, a.c) ELSE s2
  IN IF (a.a = "putF" \/ s.bad) /\ StoreFails(s2, a.c)
     THEN R(Abort(s2, a.c), [kind |-> "closed", u |-> s1.conn[a.c].u])
     ELSE R(PutE(s3, a.c), EndReply(s3, a.c) @@ [u |-> s1.conn[a.c].u])

KeyAll(s, a, op) ==
  LET s1 == ReadT(s, a.c, op, a.t)
      s2 == IF op = "del" THEN DelK(s1, a.c, a.k) ELSE GetK(s1, a.c, a.k)
  IN R(EndStep(s2, a.c), EndReply(s2, a.c))

TabAll(s, a, op) ==
  LET s1 == ReadT(s, a.c, op, a.t)
      s2 == IF op = "bulk" THEN BulkAll(s1, a.c, a.ks) ELSE s1
  IN R(EndStep(s2, a.c), EndReply(s2, a.c))

\* fill: upload of keys a.k .. a.k + a.n - 1 with values of a.ttl bytes, one after the other;
\* unfill: their deletion; scan: a GET of each
Piece(a, i) == CASE a.a = "fill" -> Act("put", a.c, a.t, a.k + i, a.ttl, 0, <<>>)
                 [] a.a = "scan" -> Act("get", a.c, a.t, a.k + i, 0, 0, <<>>)
                 [] OTHER        -> Act("del", a.c, a.t, a.k + i, 0, 0, <<>>)

\* a step of an upload's body during which the store can fail
Failed(s, a) == (a.a \in {"bodyF", "endF"} \/ s.bad \/ s.conn[a.c].lost) /\ s.conn[a.c].op = "put" /\ StoreFails(s, a.c)

Do(s, a) ==
  CASE a.a \in {"put", "putF"} -> PutAll(s, a)
    [] a.a \in {"body", "bodyF", "end", "endF"} /\ Failed(s, a) -> R(Abort(s, a.c), [kind |-> "closed"])
    [] a.a \in {"get", "head", "del"} -> KeyAll(s, a, a.a)
    [] a.a \in {"delt", "bulk", "list"} -> TabAll(s, a, a.a)
    [] a.a = "pages" -> TabAll(s, a, "list")                        \* listing in pages of a.n keys
    [] a.a \in {"bad", "stats"} -> R(s, [kind |-> a.a])
    [] a.a = "gc"    -> R(Gc(s), [kind |-> "stats"])
    [] a.a = "sig"   -> R(Gc(s), NoReply)                           \* SIGUSR1
    [] a.a = "flush" -> R(IF s.bad THEN FlushFails(s) ELSE Flushed(s), NoReply)                      \* the child that saves comes to its end
    [] a.a = "getT"  -> R(ReadT(s, a.c, "get", a.t), NoReply)
    [] a.a = "headT" -> R(ReadT(s, a.c, "head", a.t), NoReply)
    [] a.a = "delT"  -> R(ReadT(s, a.c, "del", a.t), NoReply)
    [] a.a = "deltT" -> R(ReadT(s, a.c, "delt", a.t), NoReply)
    [] a.a = "bulkT" -> R(ReadT(s, a.c, "bulk", a.t), NoReply)
    [] a.a = "listT" -> R(ReadT(s, a.c, "list", a.t), NoReply)
    [] a.a = "putT"  -> R(PutT(s, a.c, a.t), NoReply)
    [] a.a = "key"   -> R(CASE s.conn[a.c].op = "put" -> PutK(s, a.c, a.k)
                            [] s.conn[a.c].op = "del" -> DelK(s, a.c, a.k)
                            [] OTHER -> GetK(s, a.c, a.k), NoReply)
    [] a.a = "x"     -> R(BulkK(s, a.c, a.k), NoReply)              \* an X-Delete header of BULK
    [] a.a = "hdr"   -> R(PutH(s, a.c, a.n, a.ttl), NoReply)
    [] a.a \in {"body", "bodyF"} -> R(PutB(s, a.c), NoReply)
    [] a.a \in {"end", "endF"} -> R(EndStep(s, a.c), EndReply(s, a.c))
    [] a.a = "drain" -> R(Release(s, a.c), NoReply)                 \* the slow reader takes the rest
    [] a.a = "abort" -> R(Abort(s, a.c), NoReply)                   \* the client closes
    [] a.a = "tick"  -> R([s EXCEPT !.now = @ + a.n], NoReply)
    [] a.a = "restart" -> R(IF s.bad THEN RestartF(s) ELSE Restart(s), NoReply)
    [] a.a = "restartF" -> R(RestartF(s), NoReply)                  \* the save at the stop fails
    [] a.a = "gcF"   -> R(Collected(s), [kind |-> "stats"])         \* the save fails
    [] a.a = "flushF" -> R(FlushFails(s), NoReply)
    [] a.a = "break" -> R([s EXCEPT !.bad = TRUE], NoReply)         \* the disk is full
    [] a.a = "heal"  -> R([s EXCEPT !.bad = FALSE], NoReply)
    [] a.a = "crash" -> R(Crash(s), NoReply)

\* what a connection in the middle of a request can do next
Next1(s, c) ==
  LET ph == s.conn[c].ph op == s.conn[c].op IN
  CASE ph = "idle" -> {}
    [] ph = "send" -> {"drain"}
    [] ph = "miss" -> {"key"}
    [] ph = "tbl"  -> IF op = "bulk" THEN {"x", "end"} ELSE IF op \in {"list", "delt"} THEN {"end"} ELSE {"key"}
    [] ph = "key"  -> IF op = "put" THEN {"hdr"} ELSE {"end"}
    [] ph = "hdr"  -> IF s.conn[c].n = 0 THEN {"end"} ELSE IF s.conn[c].n = 1 THEN {"end"} ELSE {"body", "end"}
    [] ph = "body" -> {"end"}
=============================================================================
