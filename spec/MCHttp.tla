------------------------------- MODULE MCHttp -------------------------------
(***************************************************************************
Every stream of a few tokens, on a few connections, twice: x and y receive
the same bytes, except that the bytes of bodies differ. What bodies contain
must make no difference but to the values themselves.
***************************************************************************)
EXTENDS Http

CONSTANTS TMethod, TUrl, TKey, TVersion, THeader, TBody, TOdd,   \* sets of byte sequences; TBody: pairs of the same length
          MaxTok, MaxOdd

VARIABLES x, y, n, odd

Usual(c) == LET ph == x.p[c].ph IN
  CASE ph \in {"dead", "method"} -> TMethod [] ph = "url" -> TUrl [] ph = "key" -> TKey [] ph = "version" -> TVersion
    [] ph = "body" -> {} [] OTHER -> THeader

Opened(z, c) == [z EXCEPT !.out = <<>>, !.p[c] = IF @.ph = "dead" THEN Fresh ELSE @]

Init == x = XStart /\ y = XStart /\ n = 0 /\ odd = 0

Same(c, w) == x' = Feed(Opened(x, c), c, w) /\ y' = Feed(Opened(y, c), c, w)

Next ==
  /\ n < MaxTok /\ n' = n + 1
  /\ \E c \in Conns :
       \/ \E w \in Usual(c) : Same(c, w) /\ UNCHANGED odd
       \/ odd < MaxOdd /\ x.p[c].ph # "body" /\ odd' = odd + 1 /\ \E w \in TOdd : Same(c, w)
       \/ /\ x.p[c].ph = "body" /\ UNCHANGED odd
          /\ \E b \in TBody : \E k \in 1..Len(b[1]) :
               /\ k <= x.p[c].left
               /\ x' = Feed(Opened(x, c), c, SubSeq(b[1], 1, k)) /\ y' = Feed(Opened(y, c), c, SubSeq(b[2], 1, k))
       \/ x.p[c].ph # "dead" /\ UNCHANGED odd /\ x' = [Leave(x, c) EXCEPT !.out = <<>>] /\ y' = [Leave(y, c) EXCEPT !.out = <<>>]

Spec == Init /\ [][Next]_<<x, y, n, odd>>

Plain(o) == [i \in DOMAIN o |-> IF o[i].kind = "val" THEN [o[i] EXCEPT !.v = Len(@)] ELSE o[i]]
BodiesAreOpaque == x.s = y.s /\ x.p = y.p /\ x.tn = y.tn /\ x.kn = y.kn /\ Plain(x.out) = Plain(y.out)

\* a connection between requests, or gone, holds nothing; one that was refused says nothing more
Rested == \A c \in Conns : x.p[c].ph = "dead" \/ (x.p[c].ph = "method" /\ x.p[c].acc = <<>>) => x.s.conn[c].ph = "idle"
LastWord == \A i, j \in DOMAIN x.out : i < j /\ x.out[i].c = x.out[j].c => x.out[i].kind \notin {"400", "cut", "list"}
Within == \A c \in Conns : Len(x.p[c].acc) <= B
Inv == Safe(x.s) /\ BodiesAreOpaque /\ Rested /\ LastWord /\ Within

\* bytes taken one by one or all together lead to the same
OneByOne == \A c \in Conns : \A w \in TOdd \cup Usual(c) : \A k \in {1, Len(w) - 1} :
              k < 1 \/ k >= Len(w) \/ Feed(Feed(x, c, SubSeq(w, 1, k)), c, SubSeq(w, k + 1, Len(w))) = Feed(x, c, w)
=============================================================================
