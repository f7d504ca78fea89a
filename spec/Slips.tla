------------------------------- MODULE Slips -------------------------------
(***************************************************************************
Designs that are wrong. Each takes the place of a definition of SCache (the
configuration says which), and TLC has to find that a property of MC does not
hold then: so each of the properties can fail, and the models are large enough
to show it.
***************************************************************************)
EXTENDS MC

\* a block is free for others as soon as its entry is gone, although it is still being read
TidyBlockEarly(s0, u) ==
  IF u = 0 THEN s0 ELSE IF s0.up[u].blk <= 0 \/ ~s0.up[u].del THEN s0
  ELSE IF Readers(s0, u) = {} THEN FreeBlock(s0, u) ELSE [FreeBlock(s0, u) EXCEPT !.up[u].blk = s0.up[u].blk]

\* a block is never free again
TidyBlockNever(s0, u) == s0

\* an upload is visible with its first bytes
PutBVisible(s0, c) ==
  LET s1 == [s0 EXCEPT !.conn[c].ph = "body"] IN
  IF s0.conn[c].w /\ ~s0.up[s0.conn[c].u].del
  THEN [Fill(s1, s0.conn[c].u) EXCEPT !.up[s0.conn[c].u].st = "r", !.lru = Append(@, s0.conn[c].u)] ELSE s1

\* what an upload that ends early has left stays
AbortKeeps(s0, c) == Release([s0 EXCEPT !.conn[c].w = FALSE], c)

\* what is removed stays in the sum
UnlinkNoBytes(s0, u) ==
  [s0 EXCEPT !.up[u].del = TRUE, !.slot[s0.up[u].t][Hash[s0.up[u].k]] = 0, !.keys = @ - 1,
             !.lru = SelectSeq(@, LAMBDA x : x # u)]

\* ... or in the order of use
UnlinkNoLru(s0, u) ==
  [s0 EXCEPT !.up[u].del = TRUE, !.slot[s0.up[u].t][Hash[s0.up[u].k]] = 0, !.keys = @ - 1, !.bytes = @ - s0.up[u].n]

\* the hash is taken for the key
GetKHash(s0, c, k) ==
  LET s1 == Refresh([s0 EXCEPT !.conn[c].k = k, !.conn[c].ph = "key"], c)
      e  == IF s1.conn[c].ti = 0 THEN 0 ELSE s1.slot[s0.conn[c].t][Hash[k]]
  IN IF s0.conn[c].ph = "miss" THEN [s0 EXCEPT !.conn[c].k = k, !.conn[c].ph = "key"]
     ELSE IF e = 0 THEN DropT(s1, c) ELSE IF s1.up[e].st = "w" THEN DropT(s1, c)
     ELSE [s1 EXCEPT !.conn[c].u = e, !.lru = Append(SelectSeq(@, LAMBDA x : x # e), e)]

\* a read does not look at the time to live
GetKStale(s0, c, k) ==
  LET s1 == Refresh([s0 EXCEPT !.conn[c].k = k, !.conn[c].ph = "key"], c)
      e  == IF s1.conn[c].ti = 0 THEN 0 ELSE s1.slot[s0.conn[c].t][Hash[k]]
  IN IF s0.conn[c].ph = "miss" THEN [s0 EXCEPT !.conn[c].k = k, !.conn[c].ph = "key"]
     ELSE IF e = 0 THEN DropT(s1, c)
     ELSE IF s1.up[e].k # k \/ s1.up[e].st = "w" THEN DropT(s1, c)
     ELSE [s1 EXCEPT !.conn[c].u = e, !.lru = Append(SelectSeq(@, LAMBDA x : x # e), e)]

\* a delete of a key removes its table
DelEAll(s0, c) ==
  LET u == s0.conn[c].u IN
  Release(IF u # 0 /\ ~s0.up[u].del THEN RemoveAll(s0, InTable(s0, s0.conn[c].t)) ELSE s0, c)

\* a delete answers and does nothing
DelENot(s0, c) == Release(s0, c)

\* a delete of a table leaves its last key
DelTEOne(s0, c) ==
  LET s1 == Refresh(s0, c) U == InTable(s1, s0.conn[c].t) IN
  Release(IF s1.conn[c].ti = 0 \/ U = {} THEN s1 ELSE RemoveAll(s1, U \ {Only(U)}), c)

\* the second of two uploads of a key takes it over
PutEOver(s0, c) ==
  LET u == s0.conn[c].u IN
  IF s0.conn[c].n = 0 THEN Abort(s0, c)
  ELSE Release(IF s0.conn[c].w THEN [Fill(s0, u) EXCEPT !.up[u].st = "r", !.lru = Append(@, u), !.conn[c].w = FALSE,
                                        !.slot[s0.conn[c].t][Hash[s0.conn[c].k]] = u] ELSE s0, c)

\* a save contains uploads that are not complete
SnapshotAll(s0) == Present(s0)

\* a collection begins another save while one is being written
GcTwice(s0) ==
  LET s2 == Collected(s0) IN
  IF s2.bad THEN s2 ELSE [s2 EXCEPT !.busy = TRUE, !.pend = Snapshot(s2)]

\* a save that fails takes the last one with it
FlushFailsLoses(s0) == [s0 EXCEPT !.busy = FALSE, !.pend = {}, !.save = {}, !.saved = FALSE]
=============================================================================
