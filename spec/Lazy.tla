---- MODULE Lazy ----
(* The push-back stream. pend: the bytes still to be handed out; pos: bytes handed out less those pushed back;
   fresh: what happened since a piece was last taken from the source (amounts pushed back by the caller, 0 for a read,
   which may push back any amount); got and pulls: how many bytes and pieces were taken from the source; a piece may
   be empty. Each step is given the progress g = <<bytes, pieces>> of the source after it. *)
EXTENDS Bytes

LInit(bytes) == [pend |-> bytes, pos |-> 0, fresh |-> <<>>, got |-> 0, pulls |-> 0, total |-> Len(bytes), dead |-> FALSE]
After(s, n, g) == [s EXCEPT !.pend = From(@, n + 1), !.pos = @ + n, !.got = g[1], !.pulls = g[2]]
Note(s, g, mark) == IF g[2] > s.pulls THEN <<mark>> ELSE Append(s.fresh, mark)

(* Any non-empty prefix may be handed out by one step of the iteration; nothing at all only for an empty piece. *)
NextOk(s, v, g) == StartsWith(s.pend, v) /\ (v # <<>> \/ (g[1] = s.got /\ g[2] > s.pulls))
AfterNext(s, v, g) == [After(s, Len(v), g) EXCEPT !.fresh = IF g[2] > s.pulls THEN <<>> ELSE s.fresh]

ReadLen(s, n) == IF n < 0 THEN Len(s.pend) ELSE Min2(n, Len(s.pend))
LineLen(s, n) == LET k == FindByte(s.pend, 10, 1)
                     e == IF k = 0 THEN Len(s.pend) ELSE k
                 IN IF n < 0 THEN e ELSE Min2(n, e)
AfterRead(s, n, g) == [After(s, n, g) EXCEPT !.fresh = Note(s, g, 0)]

AfterUnget(s, b) == [s EXCEPT !.pend = b \o @, !.pos = @ - Len(b), !.fresh = IF b = <<>> THEN @ ELSE Append(@, Len(b))]
(* More than 40 times the same amount, nothing else pushed back in between. *)
Stuck(s, b) == /\ b # <<>> /\ Len(s.fresh) >= 40
               /\ \A i \in (Len(s.fresh) - 39)..Len(s.fresh) : s.fresh[i] = Len(b)
(* Not more than 40 times the same amount, however often reads pushed back internally. *)
NotStuck(s, b) == b = <<>> \/ Cardinality({i \in 1..Len(s.fresh) : s.fresh[i] \in {0, Len(b)}}) < 40

(* A read may push back internally, too. *)
MayStick(s) == Len(s.fresh) >= 40

(* Closing cuts off what was not yet taken from the source. *)
AfterClose(s) == [s EXCEPT !.pend = Upto(@, Len(@) - (s.total - s.got)), !.total = s.got]
====
