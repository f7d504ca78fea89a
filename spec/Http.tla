-------------------------------- MODULE Http --------------------------------
(***************************************************************************
What the server makes of the bytes it receives, byte by byte: any bytes.

x.s is the cache of SCache.tla, x.p[c] how far connection c has come in its
present request. A request has the effects of SCache at the bytes that
complete the table, the key, a header, the headers, the body. How the bytes
are cut into packets occurs nowhere here, so it can not matter.

Names are byte strings; tables and keys of SCache are numbered in the order
in which their names turn up (x.tn, x.kn).
***************************************************************************)
EXTENDS Steps

CONSTANTS B            \* size of the input buffer: a line must fit

LF == 10  CR == 13  SP == 32  SLASH == 47  COLON == 58

MethodOf(w) ==
  CASE w = <<71, 69, 84>>                 -> "get"
    [] w = <<80, 85, 84>>                 -> "put"
    [] w = <<72, 69, 65, 68>>             -> "head"
    [] w = <<68, 69, 76, 69, 84, 69>>     -> "del"
    [] w = <<66, 85, 76, 75>>             -> "bulk"
    [] w = <<80, 85, 82, 71, 69>>         -> "bulk"
    [] w = <<65, 68, 77, 73, 78>>         -> "admin"
    [] OTHER                              -> "?"
LongestMethod == 6

\* the headers that mean something, by request
HeaderOf(op, w) ==
  CASE op = "put"  /\ w = <<67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104>> -> "len"
    [] op = "put"  /\ w \in {<<88, 45, 84, 116, 108>>, <<120, 45, 116, 116, 108>>}              -> "ttl"
    [] op = "list" /\ w \in {<<88, 45, 83, 116, 97, 114, 116>>, <<120, 45, 115, 116, 97, 114, 116>>}     -> "start"
    [] op = "list" /\ w \in {<<88, 45, 76, 105, 109, 105, 116>>, <<120, 45, 108, 105, 109, 105, 116>>}   -> "limit"
    [] op = "bulk" /\ w \in {<<88, 45, 68, 101, 108, 101, 116, 101>>, <<120, 45, 100, 101, 108, 101, 116, 101>>} -> "delete"
    [] OTHER -> ""

RECURSIVE Value(_, _)
\* a number of 31 bits, or -1
Value(w, acc) ==
  IF w = <<>> THEN acc
  ELSE IF Head(w) < 48 \/ Head(w) > 57 THEN -1
  ELSE IF acc > 214748364 \/ (acc = 214748364 /\ Head(w) > 55) THEN -1
  ELSE Value(Tail(w), acc * 10 + Head(w) - 48)

----------------------------------------------------------------------------
Fresh == [ph |-> "method", acc |-> <<>>, m |-> "", nl |-> 0, hn |-> "", left |-> 0, start |-> 0, limit |-> 10000]

XStart == [s |-> Start, p |-> [c \in Conns |-> [Fresh EXCEPT !.ph = "dead"]], tn |-> <<>>, kn |-> <<>>, val |-> <<>>, out |-> <<>>, over |-> FALSE]

\* number of a name
Index(names, w) == IF \E i \in DOMAIN names : names[i] = w THEN CHOOSE i \in DOMAIN names : names[i] = w ELSE Len(names) + 1
Known(names, w) == IF \E i \in DOMAIN names : names[i] = w THEN names ELSE Append(names, w)

Say(x, c, rep) == [x EXCEPT !.out = Append(@, [c |-> c] @@ rep)]
To(x, c, ph)   == [x EXCEPT !.p[c].ph = ph, !.p[c].acc = <<>>, !.p[c].nl = 0]

\* an answer after which the connection is closed; nothing it sends has any effect any more
Refuse(x, c) == Say([x EXCEPT !.s = Abort(x.s, c), !.p[c] = [Fresh EXCEPT !.ph = "dead"]], c, [kind |-> "400"])
\* closed without an answer
Cut(x, c)    == Say([x EXCEPT !.s = Abort(x.s, c), !.p[c] = [Fresh EXCEPT !.ph = "dead"]], c, [kind |-> "cut"])

\* the request is complete
Complete(x, c) ==
  LET r  == EndReply(x.s, c)
      y  == [x EXCEPT !.s = EndStep(x.s, c), !.p[c] = Fresh]
      y0 == [x EXCEPT !.s = EndStep(x.s, c), !.p[c] = [Fresh EXCEPT !.ph = "dead"]]
      q  == x.p[c]
  IN CASE r.kind = "val"  -> Say(y, c, [kind |-> "val", n |-> r.n, ttl |-> r.ttl, v |-> x.val[r.u]])
       [] r.kind = "head" -> Say(y, c, [kind |-> "head", n |-> r.n, ttl |-> r.ttl])
       [] r.kind = "list" -> LET rest == IF Len(r.keys) > q.start THEN Len(r.keys) - q.start ELSE 0 IN
                             Say(y0, c, [kind |-> "list", n |-> IF q.limit < rest THEN q.limit ELSE rest,
                                         all |-> [i \in DOMAIN r.keys |-> x.kn[r.keys[i]]]])
       [] r.kind = "400"  -> Say(y0, c, r)
       [] OTHER           -> Say(y, c, [kind |-> r.kind])

\* the table is known: w is its name, key tells whether a key follows
Table(x, c, w, key) ==
  LET m == x.p[c].m
      t == Index(x.tn, w)
      y == [x EXCEPT !.tn = Known(@, w)]
  IN IF t > NTab THEN [x EXCEPT !.over = TRUE]
     ELSE IF key
     THEN CASE m \in {"get", "head", "del"} ->
                 LET z == [y EXCEPT !.s = ReadT(x.s, c, m, t)] IN
                 IF z.s.conn[c].ph = "miss" THEN To(z, c, "miss") ELSE To(z, c, "key")
            [] m = "put" -> To([y EXCEPT !.s = PutT(x.s, c, t)], c, "key")
            [] OTHER     -> LET s1 == IF x.s.tcur[t] = 0 THEN NewTable(x.s, t) ELSE x.s IN     \* refused later
                            To([y EXCEPT !.s = Begin(s1, c, "none", t, s1.tcur[t], "tbl")], c, "key")
     ELSE To([y EXCEPT !.s = ReadT(x.s, c, CASE m = "get" -> "list" [] m = "del" -> "delt" [] OTHER -> "bulk", t)], c, "headers")

\* a header with value w
Header(x, c, w) ==
  LET n == Value(w, 0) hn == x.p[c].hn
      y == [To(x, c, "headers") EXCEPT !.p[c].nl = 1]
      k == Index(x.kn, w)
  IN CASE hn = "len"   -> IF n = -1 \/ x.s.conn[c].n # 0 THEN Refuse(x, c)
                          ELSE IF n = 0 THEN [y EXCEPT !.s = PutLen0(x.s, c)] ELSE [y EXCEPT !.s = PutLen(x.s, c, n)]
       [] hn = "ttl"   -> IF ~x.s.conn[c].w THEN y
                          ELSE IF n = -1 THEN Refuse(x, c) ELSE [y EXCEPT !.s = PutTtl(x.s, c, n)]
       [] hn = "start" -> IF n = -1 THEN Refuse(x, c) ELSE [y EXCEPT !.p[c].start = n]
       [] hn = "limit" -> IF n = -1 THEN Refuse(x, c) ELSE [y EXCEPT !.p[c].limit = n]
       [] hn = "delete" -> IF k > NKey THEN [x EXCEPT !.over = TRUE]
                           ELSE [y EXCEPT !.s = BulkK(x.s, c, k), !.kn = Known(@, w)]

\* the empty line after the headers
Headers(x, c) ==
  IF x.s.conn[c].op = "put" /\ x.s.conn[c].n > 0
  THEN [To(x, c, "body") EXCEPT !.p[c].left = x.s.conn[c].n]
  ELSE Complete(x, c)

Blank(q, b) == IF b = LF THEN q.nl + 1 ELSE IF b = CR THEN q.nl ELSE 0

Feed1(x, c, b) ==
  LET q == x.p[c]
      n == Len(q.acc)
      more == [x EXCEPT !.p[c].acc = Append(@, b)]
      eol == To(x, c, "eol")
      k == Index(x.kn, q.acc)
  IN
  CASE q.ph = "dead" -> x
    [] q.ph = "method" ->
         IF n = 0 /\ b \in {LF, CR} THEN x
         ELSE IF n > LongestMethod THEN IF b = LF THEN Refuse(x, c) ELSE eol
         ELSE IF b = SP THEN IF MethodOf(q.acc) = "?" THEN eol ELSE [To(x, c, "url") EXCEPT !.p[c].m = MethodOf(q.acc)]
         ELSE more
    [] q.ph = "eol" -> IF b = LF THEN Refuse(x, c) ELSE x          \* the rest of a line that is refused
    [] q.ph = "url" ->
         IF b = LF \/ (n = 0 /\ b # SLASH) THEN Refuse(x, c)
         ELSE IF n > 0 /\ b = SLASH THEN Table(x, c, Tail(q.acc), TRUE)
         ELSE IF b = SP THEN
              CASE q.m \in {"get", "del", "bulk"} /\ n = 1 -> To(x, c, "stats")
                [] q.m \in {"get", "del", "bulk"} -> Table(x, c, Tail(q.acc), FALSE)
                [] q.m = "admin" /\ q.acc = <<SLASH, 103, 99>> -> To([x EXCEPT !.s = Gc(@)], c, "stats")
                [] OTHER -> eol
         ELSE IF n >= B THEN Cut(x, c)
         ELSE more
    [] q.ph = "key" ->
         IF b = LF THEN Refuse(x, c)
         ELSE IF b = SP THEN
              IF q.m \in {"bulk", "admin"} THEN eol
              ELSE IF k > NKey THEN [x EXCEPT !.over = TRUE]
              ELSE To([x EXCEPT !.kn = Known(@, q.acc),
                                !.s = CASE q.m = "put" -> PutK(x.s, c, k) [] q.m = "del" -> DelK(x.s, c, k) [] OTHER -> GetK(x.s, c, k)],
                      c, "version")
         ELSE IF n >= B THEN Cut(x, c)
         ELSE more
    [] q.ph = "version" -> IF b = LF THEN [To(x, c, "headers") EXCEPT !.p[c].nl = 1] ELSE x
    [] q.ph = "headers" ->
         IF b = COLON /\ HeaderOf(x.s.conn[c].op, q.acc) # ""
         THEN [To(x, c, "value") EXCEPT !.p[c].hn = HeaderOf(x.s.conn[c].op, q.acc)]
         ELSE IF b = LF THEN IF q.nl = 1 THEN Headers(x, c) ELSE [x EXCEPT !.p[c].nl = 1, !.p[c].acc = <<>>]
         ELSE IF n + 1 >= B THEN Refuse(x, c)
         ELSE [more EXCEPT !.p[c].nl = Blank(q, b)]
    [] q.ph = "value" ->
         IF n = 0 /\ b = SP THEN x
         ELSE IF b = LF THEN Header(x, c, IF n > 0 /\ q.acc[n] = CR THEN SubSeq(q.acc, 1, n - 1) ELSE q.acc)
         ELSE IF n >= B THEN Cut(x, c)
         ELSE more
    [] q.ph = "body" ->
         LET u  == x.s.conn[c].u
             y  == [x EXCEPT !.s = PutB(x.s, c), !.p[c].left = @ - 1,
                             !.val = IF x.s.conn[c].w THEN [i \in 1..(IF u > Len(@) THEN u ELSE Len(@)) |-> LET w == IF i <= Len(@) THEN @[i] ELSE <<>> IN IF i = u THEN Append(w, b) ELSE w] ELSE @]
         IN IF q.left = 1 THEN Complete(y, c) ELSE y
    [] q.ph \in {"miss", "stats"} ->
         LET nl == Blank(q, b) IN
         IF nl < 2 THEN [x EXCEPT !.p[c].nl = nl]
         ELSE IF q.ph = "miss" THEN Complete(x, c)
         ELSE Say([x EXCEPT !.p[c] = Fresh], c, [kind |-> "stats"])

RECURSIVE Feed(_, _, _)
Feed(x, c, w) == IF w = <<>> \/ x.over THEN x
                 ELSE Only({Feed(y[1], c, y[2]) : y \in {<<Feed1(x, c, Head(w)), Tail(w)>>}})

\* the client goes away
Leave(x, c) == [x EXCEPT !.s = Abort(x.s, c), !.p[c] = [Fresh EXCEPT !.ph = "dead"]]
=============================================================================
