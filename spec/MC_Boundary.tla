---- MODULE MC_Boundary ----
(* The search for delimiters as the code does it: pieces of any size come from the source, some bytes are held back in case
   a delimiter has begun, the rest is pushed back onto the stream. Checked for every body, every delimiter and every way of
   cutting the source: what comes out are the segments of Multipart (C08, C09), nothing is handed out twice or lost, pieces
   and read-ahead are bounded (C28), and it ends. Extra: the bytes held back besides a delimiter's length (6 in the code, 1 is enough, to hold back a line end that belongs to the delimiter). *)
EXTENDS Multipart
CONSTANTS MaxBody, Chunk, Extra, Letters, Delims

VARIABLES body, delim, rest, left, acc, seg, segs, ph, out, want
vars == <<body, delim, rest, left, acc, seg, segs, ph, out, want>>
(* ph: peek (before a segment), pull, over; acc: what this step has pulled; out: length of the last piece handed out *)
Delim == CASE delim = "1" -> <<45>> [] delim = "2" -> <<45, 66>> [] delim = "3" -> <<45, 45>> [] delim = "4" -> <<45, 66, 45>>
Roll == Len(Delim) + Extra
Init == /\ delim \in Delims
        /\ body \in UNION {[1..n -> Letters] : n \in 0..MaxBody}
        /\ rest = body /\ left = <<>> /\ acc = <<>> /\ seg = <<>> /\ segs = <<>> /\ ph = "peek" /\ out = 0
        /\ want = Segments(body, Delim)
Const == UNCHANGED <<body, delim, want>>
Sizes == 1..Min2(Chunk, Len(rest))
Same == UNCHANGED <<acc, seg, segs, out>>
(* a new segment begins with a look at one byte *)
Peek == /\ ph = "peek" /\ Const /\ Same
        /\ IF left # <<>> THEN ph' = "pull" /\ UNCHANGED <<rest, left>>
           ELSE IF rest = <<>> THEN ph' = "over" /\ UNCHANGED <<rest, left>>
           ELSE \E n \in Sizes : left' = Upto(rest, n) /\ rest' = From(rest, n + 1) /\ ph' = "pull"
CloseSeg(s) == segs' = Append(segs, s) /\ seg' = <<>> /\ ph' = "peek"
Find1(x) == Find(x, Delim, 1)
(* what is done with the bytes pulled so far, x; ended: the source is exhausted *)
Process(x, ended, l) ==
    LET k == Find1(x) IN
    IF x = <<>> THEN CloseSeg(seg) /\ left' = l /\ acc' = <<>> /\ out' = 0
    ELSE IF k # 0 THEN /\ left' = From(x, k + Len(Delim)) \o l
                       /\ CloseSeg(seg \o TrimEnd(Upto(x, k - 1))) /\ acc' = <<>> /\ out' = k - 1
    ELSE IF Len(x) <= Roll THEN CloseSeg(seg \o x) /\ left' = l /\ acc' = <<>> /\ out' = Len(x)
    ELSE /\ left' = From(x, Len(x) - Roll + 1) \o l
         /\ seg' = seg \o Upto(x, Len(x) - Roll) /\ segs' = segs /\ acc' = <<>> /\ out' = Len(x) - Roll /\ ph' = "pull"
Got(x, r) == \* x: pulled so far, r: rest of the source
    /\ rest' = r
    /\ IF Len(x) > Roll THEN Process(x, FALSE, <<>>)
       ELSE acc' = x /\ left' = <<>> /\ UNCHANGED <<seg, segs, out, ph>>
Pull == /\ ph = "pull" /\ Const
        /\ IF left # <<>> THEN Got(acc \o left, rest)
           ELSE IF rest # <<>> THEN \E n \in Sizes : Got(acc \o Upto(rest, n), From(rest, n + 1))
           ELSE Process(acc, TRUE, <<>>) /\ rest' = rest
Next == Peek \/ Pull
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == ph = "over" => segs = want
Prefix == \A i \in 1..Len(segs) : i <= Len(want) /\ segs[i] = want[i]
Bounded == out <= Chunk + Roll /\ Len(left) <= Chunk + 2 * Roll /\ Len(acc) <= Chunk + Roll
Ends == <>(ph = "over")
====
