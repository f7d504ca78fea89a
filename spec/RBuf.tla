-------------------------------- MODULE RBuf --------------------------------
(***************************************************************************
The circular input buffer: B bytes of memory and two cursors that count
modulo W (B divides W), as the code keeps them, next to what it stands for:
a queue q of at most B bytes. Everything a caller can ask is defined twice,
over the cursors (Impl...) and over the queue, and Agree says that the two
never differ; the answers of the queue are what the code is compared with.
***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS B, W, Bytes, Starts, Digits   \* Digits: bytes that are digits; byte d stands for the digit d

VARIABLES rp, wp, mem, q

Mod(x) == x % W
At(x)  == x % B

----------------------------------------------------------------------------
(* over the queue *)
Remaining(s)  == Len(s)
Room(s)       == B - Len(s)
Least(a, b)     == IF a < b THEN a ELSE b
\* contiguous parts, given where the reader stands
Contig(s, r)  == Least(Len(s), B - At(r))
RoomTo(s, r)  == LET w == At(r + Len(s)) IN Least(Room(s), B - w)
Copy(s, n)    == SubSeq(s, 1, Least(n, Len(s)))
Equal(s, w)   == Len(w) <= Len(s) /\ SubSeq(s, 1, Len(w)) = w
\* the number spelled by the first n bytes; -1 if another byte is among them or it is too large for 31 bits
RECURSIVE Value(_, _)
Value(s, acc) ==
  IF s = <<>> THEN acc
  ELSE IF Head(s) \notin Digits THEN -1
  ELSE IF acc > 214748364 \/ (acc = 214748364 /\ Head(s) > 7) THEN -1
  ELSE Value(Tail(s), acc * 10 + Head(s))
Number(s, max) == Value(IF max = -1 THEN s ELSE Copy(s, max), 0)

----------------------------------------------------------------------------
(* over the cursors *)
ILen       == Mod(wp - rp)
IRoom      == B - ILen
IContig    == IF ILen < B - At(rp) THEN ILen ELSE B - At(rp)
IRoomTo    == IF At(wp) <= At(rp) /\ rp # wp THEN At(rp) - At(wp) ELSE B - At(wp)
IByte(i)   == mem[At(rp + i - 1)]
ICopy(n)   == [i \in 1..(IF n < IContig THEN n ELSE IContig + Least(n - IContig, ILen - IContig)) |->
                 IF i <= IContig THEN mem[At(rp) + i - 1] ELSE mem[i - IContig - 1]]

Agree == /\ ILen = Remaining(q) /\ IRoom = Room(q) /\ IContig = Contig(q, rp) /\ IRoomTo = RoomTo(q, rp)
         /\ \A i \in 1..Len(q) : IByte(i) = q[i]
         /\ \A n \in 0..B : ICopy(n) = Copy(q, n)

----------------------------------------------------------------------------
Init == /\ rp \in Starts /\ wp = rp /\ q = <<>>
        /\ mem = [i \in 0..(B - 1) |-> CHOOSE b \in Bytes : TRUE]

Write(s) ==
  /\ Len(s) <= RoomTo(q, rp)
  /\ mem' = [i \in 0..(B - 1) |-> IF i >= At(wp) /\ i < At(wp) + Len(s) THEN s[i - At(wp) + 1] ELSE mem[i]]
  /\ wp' = Mod(wp + Len(s)) /\ q' = q \o s /\ UNCHANGED rp

Read(n) ==
  /\ n <= Len(q)
  /\ rp' = Mod(rp + n) /\ q' = SubSeq(q, n + 1, Len(q)) /\ UNCHANGED <<wp, mem>>

Strings(n) == UNION {[1..k -> Bytes] : k \in 1..n}
Next == (\E s \in Strings(RoomTo(q, rp)) : Write(s)) \/ (\E n \in 1..Len(q) : Read(n))
Spec == Init /\ [][Next]_<<rp, wp, mem, q>>
=============================================================================
