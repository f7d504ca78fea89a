------------------------------ MODULE RBufGen ------------------------------
(* Random behaviours of the input buffer with the answer to every question after each step. *)
EXTENDS RBuf

CONSTANTS Depth
VARIABLES hist, off

Rand(n) == [i \in 1..n |-> RandomElement(Bytes)]
RandD(n) == [i \in 1..n |-> IF RandomElement(1..20) = 1 THEN RandomElement(Bytes) ELSE RandomElement(Digits)]
Text(n) == IF RandomElement(1..2) = 1 THEN Rand(n) ELSE RandD(n)

\* something to compare the buffer with: its own beginning, mostly, or with one byte changed
Like(s, n) == LET c == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Rand(n - Len(s)) IN
              IF n = 0 \/ RandomElement(1..3) # 1 THEN c
              ELSE LET i == RandomElement(1..n) IN [c EXCEPT ![i] = RandomElement(Bytes)]

\* after every step: all answers, with random arguments
Obs(s, r, n, w, m) == [len |-> Remaining(s), room |-> Room(s), contig |-> Contig(s, r), roomto |-> RoomTo(s, r), all |-> s,
                       n |-> n, copy |-> Copy(s, n), w |-> w, eq |-> Equal(s, w), m |-> m, num |-> Number(s, m)]

Record(a, x) == hist' = Append(hist, [a |-> a, x |-> x] @@
                   Obs(q', rp', RandomElement(0..B), Like(q', RandomElement(0..B)), RandomElement(-1..B)))

GInit == Init /\ hist = <<>> /\ off = rp

GStep ==
  /\ Len(hist) < Depth
  /\ UNCHANGED off
  /\ \E op \in {RandomElement(1..2)} :
       IF (op = 1 /\ RoomTo(q, rp) > 0) \/ q = <<>>
       THEN \E s \in {Text(IF RandomElement(1..3) = 1 THEN RoomTo(q, rp) ELSE RandomElement(1..RoomTo(q, rp)))} : Write(s) /\ Record("w", s)
       ELSE \E n \in {IF RandomElement(1..4) = 1 THEN Len(q) ELSE RandomElement(1..Len(q))} : Read(n) /\ Record("r", n)

GSpec == GInit /\ [][GStep]_<<rp, wp, mem, q, hist, off>>
Emit == Len(hist) = Depth => PrintT("TRACE " \o ToJson([off |-> off, steps |-> hist]))
=============================================================================
