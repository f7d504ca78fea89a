-------------------------------- MODULE Save --------------------------------
(***************************************************************************
How a save is made and loaded, file operation by file operation, with the
server, its saving child, or both ended between any two of them, and with
copying and writing that fails half way. It is what the outcomes of SCache
(Crash, Outcomes) rest on: there a save is one step.

disk holds what survives a crash (of the processes, not of the machine):
  blk, blkTemp, blkSave   block files: the upload whose bytes are in each
                          block, 0 where nothing was written; <<>> = no file
  idxTemp, idxSave        [lines, whole]: the entries written, and whether
                          that was all; NoIdx = no file
  files                   large values: name -> upload, 0 while incomplete
An upload is known by its number; up[u] is [k, large, it].
***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Blocks, MaxUp, MaxSaves, MaxCrash, MaxFail,
          Slip        \* "" or a way to get it wrong (the check must see it)

VARIABLES disk, up, ent, open, free, nextit, run, pid, child, saved, pend, n

vars == <<disk, up, ent, open, free, nextit, run, pid, child, saved, pend, n>>

NoIdx == [lines |-> {}, whole |-> FALSE, is |-> FALSE]
None  == [b \in {} |-> 0]

Init ==
  /\ disk = [blk |-> [b \in Blocks |-> 0], blkTemp |-> None, blkSave |-> None, idxTemp |-> NoIdx, idxSave |-> NoIdx, files |-> None]
  /\ up = <<>>
  /\ ent = [k \in Keys |-> 0]             \* what the server would answer: complete uploads
  /\ open = 0                             \* the upload in progress
  /\ free = Blocks
  /\ nextit = 0
  /\ run = TRUE                           \* the server runs
  /\ pid = [st |-> "idle", to |-> {}]     \* the server: idle, or making a save
  /\ child = [st |-> "none", idx |-> {}]  \* the saving child and the entries it saw
  /\ saved = {} /\ pend = {}              \* uploads in the last finished save; in the one being made
  /\ n = [saves |-> 0, crash |-> 0, fail |-> 0]

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x)   == [y \in DOMAIN f \ {x} |-> f[y]]

Idle == run /\ pid.st = "idle"

Entry(u) == [u |-> u, k |-> up[u].k, large |-> up[u].large, b |-> up[u].b, it |-> up[u].it]
Snapshot == {Entry(ent[k]) : k \in {k \in Keys : ent[k] # 0}}

----------------------------------------------------------------------------
(* The store *)

\* the old value goes when an upload of the key begins; its block can be used again, its file is removed
Release(u) == /\ free' = IF ~up[u].large THEN free \cup {up[u].b} ELSE free
              /\ disk' = IF up[u].large THEN [disk EXCEPT !.files = Drop(@, up[u].it)] ELSE disk

Delete(k) == Idle /\ ent[k] # 0 /\ Release(ent[k]) /\ ent' = [ent EXCEPT ![k] = 0]
             /\ UNCHANGED <<up, open, nextit, run, pid, child, saved, pend, n>>

Begin(k, b) ==          \* b: a block, or 0 for a large value
  LET it == IF Slip = "zero" THEN nextit ELSE
            CHOOSE i \in nextit..(nextit + Cardinality(DOMAIN disk.files)) :
                   i \notin DOMAIN disk.files /\ \A j \in nextit..(i - 1) : j \in DOMAIN disk.files
      \* what is left of a crash stays: a name in use is skipped
  IN /\ Idle /\ open = 0 /\ ent[k] = 0 /\ Len(up) < MaxUp
     /\ b = 0 \/ b \in free
     /\ up' = Append(up, [k |-> k, large |-> b = 0, b |-> b, it |-> IF b = 0 THEN it ELSE nextit])
     /\ open' = Len(up) + 1
     /\ nextit' = IF b = 0 /\ Slip # "nobump" THEN it + 1 ELSE nextit + 1
     /\ free' = free \ {b}
     /\ disk' = IF b = 0 THEN [disk EXCEPT !.files = Put(@, it, 0)] ELSE disk
     /\ UNCHANGED <<ent, run, pid, child, saved, pend, n>>

Complete ==
  /\ Idle /\ open # 0
  /\ disk' = IF up[open].large THEN [disk EXCEPT !.files = Put(@, up[open].it, open)]
             ELSE [disk EXCEPT !.blk = Put(@, up[open].b, open)]
  /\ ent' = [ent EXCEPT ![up[open].k] = open]
  /\ open' = 0
  /\ UNCHANGED <<up, free, nextit, run, pid, child, saved, pend, n>>

Abort ==
  /\ Idle /\ open # 0 /\ open' = 0
  /\ Release(open)
  /\ UNCHANGED <<up, ent, nextit, run, pid, child, saved, pend, n>>

----------------------------------------------------------------------------
(* A save: the server copies the block file, then a child writes the index and switches *)

SaveBegins ==
  /\ Idle /\ child.st = "none" /\ n.saves < MaxSaves
  /\ n' = [n EXCEPT !.saves = @ + 1]
  /\ disk' = [disk EXCEPT !.blkTemp = None]
  /\ pid' = [st |-> "copy", to |-> Blocks]
  /\ UNCHANGED <<up, ent, open, free, nextit, run, child, saved, pend>>

CopyStep ==
  /\ run /\ pid.st = "copy"
  /\ \E b \in pid.to : \A c \in pid.to : b <= c /\ disk' = [disk EXCEPT !.blkTemp = Put(@, b, disk.blk[b])] /\ pid' = [pid EXCEPT !.to = @ \ {b}]
  /\ UNCHANGED <<up, ent, open, free, nextit, run, child, saved, pend, n>>

CopyFails ==
  /\ run /\ pid.st = "copy" /\ n.fail < MaxFail /\ n' = [n EXCEPT !.fail = @ + 1]
  /\ IF Slip = "nocheck" THEN pid' = [pid EXCEPT !.to = {}] /\ disk' = disk
     ELSE pid' = [st |-> "idle", to |-> {}] /\ disk' = [disk EXCEPT !.blkTemp = None]
  /\ UNCHANGED <<up, ent, open, free, nextit, run, child, saved, pend>>

Fork ==
  /\ run /\ pid.st = "copy" /\ pid.to = {}
  /\ pid' = [st |-> "idle", to |-> {}]
  /\ child' = [st |-> "open", idx |-> Snapshot]
  /\ pend' = {e.u : e \in Snapshot}
  /\ UNCHANGED <<disk, up, ent, open, free, nextit, run, saved, n>>

C(st, d) == child' = [child EXCEPT !.st = st] /\ disk' = d
Rest == UNCHANGED <<up, ent, open, free, nextit, run, pid, pend>>
Rest2 == Rest /\ UNCHANGED <<saved, n>>

ChildStep ==
  \/ child.st = "open"   /\ C("write", [disk EXCEPT !.idxTemp = [NoIdx EXCEPT !.is = TRUE]]) /\ Rest2
  \/ child.st = "write"  /\ \E e \in child.idx \ disk.idxTemp.lines : C("write", [disk EXCEPT !.idxTemp.lines = @ \cup {e}]) /\ Rest2
  \/ child.st = "write"  /\ child.idx \subseteq disk.idxTemp.lines
                         /\ C(IF Slip = "nounlink" THEN "blk" ELSE "unlink", [disk EXCEPT !.idxTemp.whole = TRUE]) /\ Rest2
  \/ child.st = "write"  /\ n.fail < MaxFail /\ n' = [n EXCEPT !.fail = @ + 1]           \* the disk is full: given up
                         /\ C("none", disk) /\ Rest /\ UNCHANGED saved
  \/ child.st = "unlink" /\ C(IF Slip = "swap" THEN "idx" ELSE "blk", [disk EXCEPT !.idxSave = NoIdx]) /\ Rest2
  \/ child.st = "blk"    /\ C(IF Slip = "swap" THEN "tidy" ELSE "idx", [disk EXCEPT !.blkSave = disk.blkTemp, !.blkTemp = None])
                         /\ saved' = (IF Slip = "swap" THEN pend ELSE saved) /\ Rest /\ UNCHANGED n
  \/ child.st = "idx"    /\ C(IF Slip = "swap" THEN "blk" ELSE "tidy", [disk EXCEPT !.idxSave = disk.idxTemp, !.idxTemp = NoIdx])
                         /\ saved' = (IF Slip = "swap" THEN saved ELSE pend) /\ Rest /\ UNCHANGED n
  \/ child.st = "tidy"   /\ C("none", [disk EXCEPT !.blkTemp = None, !.idxTemp = NoIdx]) /\ Rest2

----------------------------------------------------------------------------
(* Crashes and starts *)

Crash == /\ run /\ n.crash < MaxCrash /\ n' = [n EXCEPT !.crash = @ + 1]
         /\ run' = FALSE /\ child' = [st |-> "none", idx |-> {}] /\ pid' = [st |-> "idle", to |-> {}]
         /\ UNCHANGED <<disk, up, ent, open, free, nextit, saved, pend>>
\* the child alone is killed: the save is not made
ChildDies == /\ child.st # "none" /\ n.crash < MaxCrash /\ n' = [n EXCEPT !.crash = @ + 1]
             /\ child' = [st |-> "none", idx |-> {}]
             /\ UNCHANGED <<disk, up, ent, open, free, nextit, run, pid, saved, pend>>

\* what a start would load now
Loads ==
  IF ~disk.idxSave.is \/ disk.blkSave = None THEN {}
  ELSE {e \in disk.idxSave.lines : IF e.large THEN e.it \in DOMAIN disk.files ELSE e.b \in DOMAIN disk.blkSave}
\* what would be answered for an entry loaded
Served(e) == IF e.large THEN disk.files[e.it] ELSE disk.blkSave[e.b]

Max0(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x

Begins == /\ ~run /\ run' = TRUE
          /\ LET l == Loads IN
             /\ ent' = [k \in Keys |-> IF \E e \in l : e.k = k THEN (CHOOSE e \in l : e.k = k).u ELSE 0]
             /\ free' = Blocks \ {e.b : e \in {f \in l : ~f.large}}
             /\ disk' = IF disk.idxSave.is /\ disk.blkSave # None THEN [disk EXCEPT !.blk = [b \in Blocks |-> disk.blkSave[b]]] ELSE disk
             /\ nextit' = IF disk.idxSave.is /\ Slip # "zero" THEN Max0({e.it : e \in disk.idxSave.lines}) + 1 ELSE 0
             /\ saved' = {e.u : e \in l}
          /\ open' = 0 /\ pend' = {}
          /\ UNCHANGED <<up, pid, child, n>>

Next == \/ \E k \in Keys : Delete(k) \/ \E b \in Blocks \cup {0} : Begin(k, b)
        \/ Complete \/ Abort \/ SaveBegins \/ CopyStep \/ CopyFails \/ Fork \/ ChildStep \/ Crash \/ ChildDies \/ Begins
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* nobody is served anything but what was uploaded under that key, completely
Right == /\ \A e \in Loads : Served(e) = e.u /\ up[e.u].k = e.k
         /\ run => \A k \in Keys : ent[k] # 0 => (IF up[ent[k]].large THEN /\ up[ent[k]].it \in DOMAIN disk.files
                                                                           /\ disk.files[up[ent[k]].it] = ent[k]
                                                  ELSE disk.blk[up[ent[k]].b] = ent[k]) /\ up[ent[k]].k = k
\* two present keys never share a block or a file; what is being uploaded shares with nobody
Apart == run => LET us == ({ent[k] : k \in Keys} \cup {open}) \ {0}
                IN /\ \A u, v \in us : u # v => IF up[u].large /\ up[v].large THEN up[u].it # up[v].it
                                                ELSE up[u].large \/ up[v].large \/ up[u].b # up[v].b
                   /\ \A u \in us : ~up[u].large => up[u].b \notin free
\* a start serves the last finished save, less large values whose file is gone; or nothing, only within the switch
Whole(us) == LET l == {e.u : e \in Loads} IN l \subseteq us /\ \A u \in us \ l : up[u].large
Switch == ~disk.idxSave.is
Consistent == IF Switch THEN Loads = {} ELSE Whole(saved)
\* the switch is short: with no save being made there is always a save, once there was one, unless a process ended within the switch
NoGap == saved # {} /\ n.crash = 0 /\ child.st \in {"none", "open", "write", "tidy"} => disk.idxSave.is
Inv == Right /\ Apart /\ Consistent /\ NoGap
=============================================================================
