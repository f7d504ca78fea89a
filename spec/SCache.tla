------------------------------ MODULE SCache ------------------------------
(***************************************************************************
The cache server as its clients can see it, one connection step at a time.

The whole state is one record s, every step of the server is a function from
records to records, so that a request sent at once is the composition of the
steps of the same request sent in pieces:

  ...T   the URL has been received up to the / after the table (the table is
         looked up, for an upload created)
  ...K   the key has been received (the entry is looked up; an upload removes
         the old value and inserts the new, still invisible, entry)
  ...H   the headers with Content-Length and X-Ttl of an upload (space is
         allocated and counted)
  ...B   a part of the body, ...E the rest of the request (it takes effect
         and is answered)

Counters (bytes, keys, blocks) are kept incrementally, as the code does; that
they always equal what the entries imply is an invariant, not a definition.
Blocks are modelled with their contents, so that a reader that is given the
block of another value is a state the invariants exclude.
***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json

CONSTANTS
  NConn, NTab, NKey,
  Hash,             \* Hash[k]: keys with equal values collide
  BlockMax,         \* values up to this size live in a block, others in a file
  Slow,             \* values above this size do not fit into the socket of a client that does not read
  MaxSize, ClearNum, ClearDen,
  KeepFree,         \* the block file shrinks only while it has more free blocks than this
  GcEvery,          \* uploads between two collections
  Hold              \* saves take a while (see Flushed); otherwise a save is finished as soon as it is started

Conns  == 1..NConn
Tabs   == 1..NTab
Keys   == 1..NKey
Hashes == {Hash[k] : k \in Keys}

Idle == [ph |-> "idle", op |-> "", t |-> 0, ti |-> 0, k |-> 0, u |-> 0, n |-> 0, ttl |-> 0, w |-> FALSE, rn |-> 0, re |-> 0, lost |-> FALSE]

NoReply == [kind |-> "none"]

Start == [
  now   |-> 0,
  up    |-> <<>>,                                   \* every upload ever begun
  slot  |-> [t \in Tabs |-> [h \in Hashes |-> 0]],  \* present entries
  tcur  |-> [t \in Tabs |-> 0],                     \* table instance known by the name, 0 = none
  nti   |-> 0,
  lru   |-> <<>>,                                   \* least recently used first
  conn  |-> [c \in Conns |-> Idle],
  bytes |-> 0, keys |-> 0, gets |-> 0, ins |-> 0, dels |-> 0,
  free  |-> <<>>, exist |-> 0,                      \* free list, number of blocks in the file
  blk   |-> <<>>,                                   \* blk[b]: upload whose bytes are in block b
  saved |-> FALSE, save |-> {},                     \* the save on disk
  busy  |-> FALSE, pend |-> {},                     \* a save being written, and what it will contain
  saves |-> 0,                                      \* how often the save on disk was replaced
  bad   |-> FALSE,                                  \* nothing can be written to the disk
  orph  |-> {},                                     \* files a crash left behind
  cold  |-> {},                                     \* loaded by a start and not used since: their order of use is lost
  boot  |-> 0]                                      \* how often the server was started again

----------------------------------------------------------------------------
(* Entries, tables, blocks *)

Present(s)    == {s.slot[t][h] : t \in Tabs, h \in Hashes} \ {0}
InTable(s, t) == {s.slot[t][h] : h \in Hashes} \ {0}
Holders(s, ti) == {c \in Conns : s.conn[c].ti = ti}
Readers(s, u)  == {c \in Conns : s.conn[c].u = u}
Expired(s, u)  == s.up[u].exp # 0 /\ s.up[u].exp < s.now
IsFile(s, u)   == s.up[u].blk = -1

\* a table nobody holds and that has no keys is gone
TidyTable(s, t) ==
  IF t # 0 /\ s.tcur[t] # 0 /\ InTable(s, t) = {} /\ Holders(s, s.tcur[t]) = {}
  THEN [s EXCEPT !.tcur[t] = 0] ELSE s

FreeBlock(s, u) ==
  LET b == s.up[u].blk IN
  IF b = s.exist /\ Len(s.free) > KeepFree
  THEN [s EXCEPT !.exist = @ - 1, !.up[u].blk = 0]
  ELSE [s EXCEPT !.free = <<b>> \o @, !.up[u].blk = 0]

\* the block of an entry that is gone is freed once nobody reads it
TidyBlock(s, u) ==
  IF u = 0 THEN s
  ELSE IF s.up[u].blk <= 0 \/ ~s.up[u].del \/ Readers(s, u) # {} THEN s ELSE FreeBlock(s, u)

\* take entry u out of the cache; the name of a table that becomes empty is free at once
Unlink(s, u) ==
  [s EXCEPT !.up[u].del = TRUE,
            !.slot[s.up[u].t][Hash[s.up[u].k]] = 0,
            !.bytes = @ - s.up[u].n,
            !.keys = @ - 1,
            !.lru = SelectSeq(@, LAMBDA x : x # u)]
Drop(s, u) ==
  LET s1 == Unlink(s, u)
      s2 == IF InTable(s1, s.up[u].t) = {} THEN [s1 EXCEPT !.tcur[s.up[u].t] = 0] ELSE s1
  IN TidyBlock(s2, u)

\* (binding x to the element of a set makes TLC compute a step before the next one)
Only(S) == CHOOSE x \in S : TRUE

RECURSIVE RemoveAll(_, _)
RemoveAll(s, U) == IF U = {} THEN s
                   ELSE LET u == Only(U) IN Only({RemoveAll(x[1], x[2]) : x \in {<<Drop(s, u), U \ {u}>>}})

NewTable(s, t) == [s EXCEPT !.nti = @ + 1, !.tcur[t] = s.nti + 1]

Alloc(s, u, n) ==
  IF n > BlockMax THEN [s EXCEPT !.up[u].blk = -1]
  ELSE IF s.free # <<>> THEN [s EXCEPT !.up[u].blk = Head(s.free), !.free = Tail(@)]
  ELSE [s EXCEPT !.exist = @ + 1, !.up[u].blk = s.exist + 1,
                 !.blk = IF Len(@) > s.exist THEN @ ELSE Append(@, 0)]

Fill(s, u) == IF s.up[u].blk > 0 THEN [s EXCEPT !.blk[s.up[u].blk] = u] ELSE s

\* what reading the storage of u yields
Content(s, u) == IF s.up[u].blk > 0 THEN s.blk[s.up[u].blk] ELSE u

----------------------------------------------------------------------------
(* Collection and saving *)

RECURSIVE Evict(_, _)
Evict(s, need) ==
  IF need <= 0 \/ s.lru = <<>> THEN s
  ELSE LET u == Head(s.lru) IN Only({Evict(x[1], x[2]) : x \in {<<Drop(s, u), need - s.up[u].n>>}})

Snapshot(s) == {u \in Present(s) : s.up[u].st = "r"}

Collected(s) ==
  LET s1 == RemoveAll(s, {u \in Present(s) : Expired(s, u)})
      s2 == IF MaxSize > 0 /\ s1.bytes > MaxSize
            THEN Evict(s1, s1.bytes - MaxSize + (MaxSize * ClearNum) \div ClearDen) ELSE s1
  IN s2

\* The order of use is not saved: what a start found and nobody used since is older than everything else, in an
\* unknown order. Whether a collection evicts values of which that order decides:
Unclear(s) ==
  LET s1   == RemoveAll(s, {u \in Present(s) : Expired(s, u)})
      need == s1.bytes - MaxSize + (MaxSize * ClearNum) \div ClearDen
      un   == s1.cold \cap ToSet(s1.lru)
      all  == FoldSet(LAMBDA u, acc : acc + s1.up[u].n, 0, un)
  IN /\ MaxSize > 0 /\ s1.bytes > MaxSize
     /\ Cardinality(un) > 1
     /\ \E u \in un : all - s1.up[u].n >= need

Gc(s) ==
  LET s2 == Collected(s)
  IN IF s2.busy \/ s2.bad THEN s2                              \* one save at a time; a save that fails changes nothing
     ELSE IF Hold THEN [s2 EXCEPT !.busy = TRUE, !.pend = Snapshot(s2)]
     ELSE [s2 EXCEPT !.saved = TRUE, !.save = Snapshot(s2), !.saves = @ + 1]

\* the save that was being written is finished and replaces the last one
Flushed(s) ==
  IF s.busy THEN [s EXCEPT !.busy = FALSE, !.pend = {}, !.saved = TRUE, !.save = s.pend, !.saves = @ + 1] ELSE s

\* the save that was being written fails, or its process is killed
FlushFails(s) == [s EXCEPT !.busy = FALSE, !.pend = {}]

----------------------------------------------------------------------------
(* Connections *)

Release(s, c) ==
  LET u == s.conn[c].u  t == s.conn[c].t
      s1 == [s EXCEPT !.conn[c] = Idle]
  IN TidyTable(TidyBlock(s1, u), t)

Begin(s, c, op, t, ti, ph) == [s EXCEPT !.conn[c] = [Idle EXCEPT !.op = op, !.t = t, !.ti = ti, !.ph = ph]]

\* the instance a connection holds, exchanged for the current one if that was deleted
Refresh(s, c) ==
  LET t == s.conn[c].t IN
  IF s.conn[c].ti # 0 /\ s.conn[c].ti # s.tcur[t] THEN [s EXCEPT !.conn[c].ti = s.tcur[t]] ELSE s

\* lookup of a table for get, head, del, list, delt, bulk
ReadT(s, c, op, t) ==
  Begin(s, c, op, t, s.tcur[t], IF s.tcur[t] = 0 /\ op \in {"get", "head", "del"} THEN "miss" ELSE "tbl")

PutT(s, c, t) ==
  LET s1 == IF s.tcur[t] = 0 THEN NewTable(s, t) ELSE s IN Begin(s1, c, "put", t, s1.tcur[t], "tbl")

\* the connection lets go of the table
DropT(s, c) == TidyTable([s EXCEPT !.conn[c].ti = 0], s.conn[c].t)

GetK(s, c, k) ==
  LET s0 == [s EXCEPT !.conn[c].k = k, !.conn[c].ph = "key"]
      s1 == Refresh(s0, c)
      t  == s.conn[c].t
      e  == IF s1.conn[c].ti = 0 THEN 0 ELSE s1.slot[t][Hash[k]]
  IN IF s.conn[c].ph = "miss" THEN s0
     ELSE IF e = 0 THEN DropT(s1, c)
     ELSE IF Expired(s1, e) THEN DropT(Drop(s1, e), c)
     ELSE IF s1.up[e].k # k THEN DropT(s1, c)
     ELSE IF s1.up[e].st = "w" THEN DropT([s1 EXCEPT !.gets = @ + 1], c)
     ELSE [s1 EXCEPT !.gets = @ + 1, !.conn[c].u = e,
                     !.cold = @ \ {e},
                     !.lru = Append(SelectSeq(@, LAMBDA x : x # e), e)]

DelK(s, c, k) ==
  LET s0 == [s EXCEPT !.conn[c].k = k, !.conn[c].ph = "key"]
      s1 == Refresh(s0, c)
      t  == s.conn[c].t
      e  == IF s1.conn[c].ti = 0 THEN 0 ELSE s1.slot[t][Hash[k]]
  IN IF s.conn[c].ph = "miss" THEN s0
     ELSE IF e = 0 THEN DropT(s1, c)
     ELSE IF s1.up[e].k # k THEN DropT(s1, c)
     ELSE [s1 EXCEPT !.dels = @ + 1, !.conn[c].u = e]

PutK(s, c, k) ==
  LET t  == s.conn[c].t
      s0 == [s EXCEPT !.conn[c].k = k, !.conn[c].ph = "key", !.ins = @ + 1]
      s1 == IF s0.conn[c].ti # s0.tcur[t]
            THEN LET a == IF s0.tcur[t] = 0 THEN NewTable(s0, t) ELSE s0 IN [a EXCEPT !.conn[c].ti = a.tcur[t]]
            ELSE s0
      e  == s1.slot[t][Hash[k]]
      s2 == IF e # 0 THEN TidyBlock(Unlink(s1, e), e) ELSE s1
      u  == Len(s2.up) + 1
      s3 == [s2 EXCEPT !.up = Append(@, [t |-> t, k |-> k, n |-> 0, exp |-> 0, st |-> "w", del |-> FALSE, blk |-> 0]),
                       !.slot[t][Hash[k]] = u, !.keys = @ + 1,
                       !.conn[c].u = u, !.conn[c].w = TRUE]
  IN IF e # 0 /\ s1.up[e].st = "w" THEN DropT(s1, c)      \* somebody else is uploading: accepted, not stored
     ELSE IF s3.ins % GcEvery = 0 THEN Gc(s3) ELSE s3

\* the headers of an upload, one by one
PutTtl(s, c, ttl) ==
  LET u == s.conn[c].u IN
  IF u = 0 \/ ~s.conn[c].w \/ ttl = 0 THEN s ELSE [s EXCEPT !.up[u].exp = s.now + ttl]

PutLen(s, c, n) ==
  LET u  == s.conn[c].u
      s0 == [s EXCEPT !.conn[c].n = n, !.conn[c].ph = "hdr",
                      !.conn[c].lost = s.bad /\ s.conn[c].w /\ n > BlockMax]       \* its file can not be created
      s2 == IF s0.up[u].blk <= 0 THEN Alloc(s0, u, n) ELSE IF n <= BlockMax THEN s0
            ELSE [FreeBlock(s0, u) EXCEPT !.up[u].blk = -1]       \* the block of PutLen0 is too small
  IN IF u = 0 \/ ~s.conn[c].w \/ n = 0 THEN s0
     ELSE [s2 EXCEPT !.up[u].n = n, !.bytes = IF s2.up[u].del THEN @ ELSE @ + n]

\* a length of 0 that is said explicitly: the block is there already (and the length can still be said)
PutLen0(s, c) ==
  LET u == s.conn[c].u IN IF u # 0 /\ s.conn[c].w /\ s.up[u].blk = 0 THEN Alloc(s, u, 0) ELSE s

PutH(s, c, n, ttl) == PutLen(PutTtl(s, c, ttl), c, n)

PutB(s, c) ==
  LET s0 == [s EXCEPT !.conn[c].ph = "body"] IN IF s.conn[c].w THEN Fill(s0, s.conn[c].u) ELSE s0

Abort(s, c) ==
  LET u  == s.conn[c].u
      s1 == IF s.conn[c].w /\ ~s.up[u].del THEN Drop(s, u) ELSE s
  IN Release([s1 EXCEPT !.conn[c].w = FALSE], c)

PutE(s, c) ==
  LET u  == s.conn[c].u
      s1 == Fill(s, u)
      s2 == [s1 EXCEPT !.up[u].st = "r", !.lru = IF s1.up[u].del THEN @ ELSE Append(@, u), !.conn[c].w = FALSE]
  IN IF s.conn[c].n = 0 THEN Abort(s, c)
     ELSE Release(IF s.conn[c].w THEN s2 ELSE s, c)

\* a write to the store fails while the body of an upload arrives: the upload is given up, the connection closed
StoreFails(s, c) == s.conn[c].w /\ s.conn[c].n > 0

\* the last byte of the headers
GetE(s, c) ==
  LET u == s.conn[c].u IN
  IF u = 0 THEN Release(s, c)
  ELSE IF s.conn[c].op = "get" /\ s.up[u].n > Slow
       THEN [s EXCEPT !.conn[c].ph = "send", !.conn[c].rn = s.up[u].n,
                      !.conn[c].re = IF s.up[u].exp = 0 THEN 0 ELSE s.up[u].exp - s.now]
  ELSE Release(s, c)

DelE(s, c) ==
  LET u == s.conn[c].u IN
  Release(IF u # 0 /\ ~s.up[u].del THEN Drop(s, u) ELSE s, c)

DelTE(s, c) ==
  LET s1 == Refresh(s, c) t == s.conn[c].t
  IN Release(IF s1.conn[c].ti = 0 THEN s1
             ELSE [RemoveAll(s1, InTable(s1, t)) EXCEPT !.tcur[t] = 0], c)

BulkK(s, c, k) ==
  LET s1 == Refresh(s, c) t == s.conn[c].t
      e  == IF s1.conn[c].ti = 0 THEN 0 ELSE s1.slot[t][Hash[k]]
  IN IF e = 0 THEN s1
     ELSE IF s1.up[e].k # k THEN s1
     ELSE Drop([s1 EXCEPT !.dels = @ + 1], e)

RECURSIVE BulkAll(_, _, _)
BulkAll(s, c, ks) == IF ks = <<>> THEN s ELSE Only({BulkAll(x[1], c, x[2]) : x \in {<<BulkK(s, c, Head(ks)), Tail(ks)>>}})

----------------------------------------------------------------------------
(* Replies, computed from the state before the step that answers *)

ValueReply(s, c) ==
  LET u == s.conn[c].u IN
  IF u = 0 THEN [kind |-> "404"]
  ELSE [kind |-> IF s.conn[c].op = "get" THEN "val" ELSE "head",
        u |-> Content(s, u), n |-> s.up[u].n,
        ttl |-> IF s.up[u].exp = 0 THEN 0 ELSE s.up[u].exp - s.now]

EndReply(s, c) ==
  CASE s.conn[c].op \in {"get", "head"} -> ValueReply(s, c)
    [] s.conn[c].op = "del"  -> [kind |-> IF s.conn[c].u # 0 THEN "deleted" ELSE "404"]
    [] s.conn[c].op = "put"  -> [kind |-> IF s.conn[c].n = 0 THEN "400" ELSE "ok"]
    [] s.conn[c].op = "delt" -> [kind |-> IF s.conn[c].ti # 0 /\ s.tcur[s.conn[c].t] # 0 THEN "deleted" ELSE "404"]
    [] s.conn[c].op = "bulk" -> [kind |-> "bulk"]
    [] s.conn[c].op = "list" ->
         IF s.conn[c].ti # 0 /\ s.tcur[s.conn[c].t] # 0
         THEN [kind |-> "list", keys |-> SetToSeq({s.up[u].k : u \in InTable(s, s.conn[c].t)})]
         ELSE [kind |-> "404"]

EndStep(s, c) ==
  CASE s.conn[c].op \in {"get", "head"} -> GetE(s, c)
    [] s.conn[c].op = "del"  -> DelE(s, c)
    [] s.conn[c].op = "put"  -> PutE(s, c)
    [] s.conn[c].op = "delt" -> DelTE(s, c)
    [] s.conn[c].op \in {"bulk", "list"} -> Release(Refresh(s, c), c)

----------------------------------------------------------------------------
(* Stop, crash, start *)

RECURSIVE AbortAll(_, _)
AbortAll(s, C) == IF C = {} THEN s ELSE LET c == Only(C) IN Only({AbortAll(x[1], x[2]) : x \in {<<Abort(s, c), C \ {c}>>}})

FilesOf(s) == {u \in 1..Len(s.up) : s.up[u].blk = -1 /\ ~s.up[u].del}

\* what the next process finds: values in files only if nobody removed the file.
\* The order of use is not saved; order is any order of the survivors.
Load(s, alive, order) ==
  LET base == [Start EXCEPT !.now = s.now, !.boot = s.boot + 1, !.nti = s.nti, !.saved = s.saved, !.save = s.save,
                            !.saves = s.saves, !.bad = s.bad,
                            !.orph = (s.orph \cup FilesOf(s)) \ alive]
      ups  == [u \in 1..Len(s.up) |->
                 IF u \in alive
                 THEN [s.up[u] EXCEPT !.del = FALSE, !.st = "r",
                                      !.blk = IF s.up[u].n > BlockMax THEN -1
                                              ELSE Cardinality({x \in alive : x <= u /\ s.up[x].n <= BlockMax})]
                 ELSE [s.up[u] EXCEPT !.del = TRUE, !.blk = 0]]
      nb   == Cardinality({x \in alive : s.up[x].n <= BlockMax})
      full == {t \in Tabs : \E u \in alive : s.up[u].t = t}
  IN [base EXCEPT
        !.up = ups,
        !.slot = [t \in Tabs |-> [h \in Hashes |->
                    IF \E u \in alive : s.up[u].t = t /\ Hash[s.up[u].k] = h
                    THEN CHOOSE u \in alive : s.up[u].t = t /\ Hash[s.up[u].k] = h ELSE 0]],
        !.tcur = [t \in Tabs |-> IF t \in full THEN s.nti + t ELSE 0],
        !.nti = s.nti + NTab,
        !.lru = order,
        !.cold = alive,
        !.bytes = FoldSet(LAMBDA u, acc : acc + s.up[u].n, 0, alive),
        !.keys = Cardinality(alive),
        !.exist = nb,
        !.blk = [b \in 1..nb |-> CHOOSE u \in alive : ups[u].blk = b]]

Restart(s) ==
  LET s1 == AbortAll(Flushed(s), Conns)
      s2 == [s1 EXCEPT !.saved = TRUE, !.save = Snapshot(s1), !.saves = @ + 1]
  IN Load(s2, s2.save, SetToSeq(s2.save))

\* what can be loaded from the save sv: large values live in files of their own, which may be gone
Loadable(s, sv) == {u \in sv : s.up[u].n <= BlockMax \/ u \in FilesOf(s)}

Crash(s) == LET alive == Loadable(s, s.save) IN Load(s, alive, SetToSeq(alive))

\* a stop whose last save fails
RestartF(s) ==
  LET s1 == AbortAll(FlushFails(s), Conns) alive == Loadable(s1, s1.save)
  IN Load(s1, alive, SetToSeq(alive))

\* entries as a client knows them, and
\* what a start may find if the process ends at any point of the step from s to x: one of these saves, of which the
\* values with files that exist before and after the step must be there, those with files that go or come may be there
Entries(x, S) == SetToSeq({[u |-> u, t |-> x.up[u].t, k |-> x.up[u].k, n |-> x.up[u].n, exp |-> x.up[u].exp] : u \in S})
Outcomes(s, x) ==
  LET Of(S) == Entries(x, S)
      both(sv) == {u \in sv : x.up[u].n <= BlockMax \/ (u \in FilesOf(s) /\ u \in FilesOf(x))}
      one(sv)  == {u \in sv : x.up[u].n > BlockMax /\ (u \in FilesOf(s)) # (u \in FilesOf(x))}
      saves == {s.save, x.save} \cup IF s.busy /\ x.saves # s.saves THEN {s.pend} ELSE {}
  IN SetToSeq({[must |-> Of(both(sv)), may |-> Of(one(sv))] : sv \in saves})

----------------------------------------------------------------------------
(* What everybody can see at any time *)

Counters(s) == [keys |-> s.keys, bytes |-> s.bytes, gets |-> s.gets, ins |-> s.ins, dels |-> s.dels,
                tables |-> Cardinality({t \in Tabs : s.tcur[t] # 0}),
                bused |-> s.exist - Len(s.free),
                files |-> Cardinality(FilesOf(s) \cup s.orph),
                fbytes |-> FoldSet(LAMBDA u, acc : acc + s.up[u].n, 0, FilesOf(s) \cup s.orph)]

----------------------------------------------------------------------------
(* Invariants, over the state record *)

BytesExact(s) == s.bytes = FoldSet(LAMBDA u, acc : acc + s.up[u].n, 0, Present(s))
KeysExact(s)  == s.keys = Cardinality(Present(s))
Where(s)      == \A t \in Tabs, h \in Hashes : s.slot[t][h] # 0 =>
                   LET e == s.up[s.slot[t][h]] IN e.t = t /\ Hash[e.k] = h /\ ~e.del
\* exactly the complete, present values are in the order of use, once
LruExact(s)   == /\ ToSet(s.lru) = {u \in Present(s) : s.up[u].st = "r"}
                 /\ Len(s.lru) = Cardinality(ToSet(s.lru))
\* every block is free or belongs to one entry that is present or being used; none is lost
Owner(s, b)   == {u \in 1..Len(s.up) : s.up[u].blk = b}
BlocksExact(s) == /\ \A b \in 1..s.exist : Cardinality(Owner(s, b)) + (IF b \in ToSet(s.free) THEN 1 ELSE 0) = 1
                  /\ Len(s.free) = Cardinality(ToSet(s.free))
                  /\ \A u \in 1..Len(s.up) : s.up[u].blk > 0 => s.up[u].blk <= s.exist /\ (~s.up[u].del \/ Readers(s, u) # {})
\* whoever reads or can read a value finds its own bytes
Intact(s)     == /\ \A c \in Conns : s.conn[c].u # 0 /\ s.conn[c].op \in {"get", "head"} => Content(s, s.conn[c].u) = s.conn[c].u
                 /\ \A u \in Present(s) : s.up[u].st = "r" => Content(s, u) = u
\* a value that is visible was received completely
Atomic(s)     == \A u \in Present(s) : s.up[u].st = "r" => s.up[u].n > 0 /\ ~\E c \in Conns : s.conn[c].u = u /\ s.conn[c].w
OneWriter(s)  == \A c, d \in Conns : s.conn[c].w /\ s.conn[d].w /\ c # d => s.conn[c].u # s.conn[d].u
Writing(s)    == \A u \in Present(s) : s.up[u].st = "w" => \E c \in Conns : s.conn[c].u = u /\ s.conn[c].w
\* a table is known exactly if it has keys, or somebody who found it before it had any still holds it
TablesExact(s) == \A t \in Tabs : /\ InTable(s, t) # {} => s.tcur[t] # 0
                                  /\ s.tcur[t] # 0 => InTable(s, t) # {} \/ Holders(s, s.tcur[t]) # {}
QuietTables(s) == (\A c \in Conns : s.conn[c].ph = "idle") =>
                    /\ \A t \in Tabs : (s.tcur[t] # 0) <=> (InTable(s, t) # {})
                    /\ \A u \in 1..Len(s.up) : s.up[u].blk > 0 => u \in Present(s)
Safe(s) == /\ BytesExact(s) /\ KeysExact(s) /\ Where(s) /\ LruExact(s) /\ BlocksExact(s) /\ Intact(s)
           /\ Atomic(s) /\ OneWriter(s) /\ Writing(s) /\ TablesExact(s) /\ QuietTables(s)
=============================================================================
