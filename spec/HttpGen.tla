------------------------------ MODULE HttpGen ------------------------------
(* Random bytes, sensible and not, and what is answered. *)
EXTENDS Http

CONSTANTS TokMethod, TokUrl, TokKey, TokVersion, TokHeader, TokLength, TokAny,    \* sequences of byte sequences
          OddPct,       \* how often something else than what the request needs next comes
          MutPct,       \* how often it is damaged
          AbortPct, TickPct, Depth

VARIABLES x, hist

Pick(q) == q[RandomElement(1..Len(q))]

Expected(c) ==
  LET ph == x.p[c].ph IN
  CASE ph \in {"method", "dead"} -> Pick(TokMethod)
    [] ph = "url"     -> Pick(TokUrl)
    [] ph = "key"     -> Pick(TokKey)
    [] ph = "version" -> Pick(TokVersion)
    [] ph = "headers" /\ x.s.conn[c].op = "put" /\ x.s.conn[c].n = 0 /\ RandomElement(1..10) <= 7 -> Pick(TokLength)
    [] ph \in {"headers", "miss", "stats", "eol"} -> Pick(TokHeader)
    [] ph = "body"    -> IF RandomElement(1..3) = 1 THEN Pick(TokAny) \o Pick(TokMethod) ELSE [i \in 1..RandomElement(1..x.p[c].left) |-> RandomElement(0..255)]
    [] OTHER          -> Pick(TokAny)

Bytes == <<10, 13, 32, 47, 58, 48, 71, 255, 0, 9>>
Damage(w, c) ==
  IF w = <<>> THEN w
  ELSE LET i == RandomElement(1..Len(w)) IN
       CASE RandomElement(1..4) = 1 -> SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
         [] RandomElement(1..3) = 1 -> SubSeq(w, 1, i)
         [] RandomElement(1..2) = 1 -> [w EXCEPT ![i] = Pick(Bytes)]
         [] OTHER                   -> SubSeq(w, 1, i) \o <<Pick(Bytes)>> \o SubSeq(w, i + 1, Len(w))

Draw(c) == LET w == IF RandomElement(1..100) <= OddPct THEN Pick(Pick(<<TokMethod, TokUrl, TokKey, TokVersion, TokHeader, TokAny>>)) ELSE Expected(c)
           IN IF RandomElement(1..100) <= MutPct THEN Damage(w, c) ELSE w

Init == x = XStart /\ hist = <<>>

Record(a, c, w, n, y, new) ==
  hist' = Append(hist, [a |-> a, c |-> c, w |-> w, n |-> n, new |-> new, out |-> y.out, ph |-> IF c = 0 THEN "" ELSE y.p[c].ph, st |-> Counters(y.s),
                        idle |-> \A d \in Conns : y.p[d].ph = "dead"])

Step ==
  /\ Len(hist) < Depth /\ ~x.over
  /\ \E c \in {RandomElement(Conns)} : \E g \in {RandomElement(1..100)} :
       IF g <= TickPct
       THEN \E n \in {RandomElement(1..2)} : \E y \in {[x EXCEPT !.s.now = @ + n, !.out = <<>>]} : x' = y /\ Record("tick", 0, <<>>, n, y, FALSE)
       ELSE IF g <= TickPct + AbortPct /\ x.p[c].ph # "dead"
       THEN \E a \in {Pick(<<"abort", "half">>)} : \E y \in {[Leave(x, c) EXCEPT !.out = <<>>]} : x' = y /\ Record(a, c, <<>>, 0, y, FALSE)
       ELSE \E w \in {Draw(c)} :
              \E x0 \in {[x EXCEPT !.out = <<>>, !.p[c] = IF @.ph = "dead" THEN Fresh ELSE @]} :
                \E y \in {Feed(x0, c, w)} :
                  IF y.over THEN x' = [x EXCEPT !.over = TRUE] /\ UNCHANGED hist
                  ELSE x' = y /\ Record("feed", c, w, 0, y, x.p[c].ph = "dead")

GSpec == Init /\ [][Step]_<<x, hist>>
Emit == hist # <<>> /\ (Len(hist) = Depth \/ x.over) => PrintT("TRACE " \o ToJson(hist))
Inv == Safe(x.s)
=============================================================================
