---- MODULE MC_Lazy ----
(* The algorithm of the push-back stream (pieces from the source, leftover, history of amounts), checked against the
   abstract stream of Lazy: every step of the algorithm is a step of the abstraction. *)
EXTENDS Lazy, Json
CONSTANTS Depth, Emit, MaxLen, Limit   \* Limit: the number of equal push-backs that counts as a loop (40 in the code)

Alphabet == {10, 65}
Sources == {s \in UNION {[1..n -> UNION {[1..k -> Alphabet] : k \in 0..2}] : n \in 0..3} : Len(Flatten(s)) <= MaxLen}
Backs == {<<>>, <<66>>, <<66, 10>>}

VARIABLES pieces, left, pos, past, abs, hist
ivars == <<pieces, left, pos, past>>
view == <<pieces, left, pos, past, abs, Len(hist.ops)>>

Init == /\ pieces \in Sources
        /\ left = <<>> /\ pos = 0 /\ past = <<>>
        /\ abs = LInit(Flatten(pieces))
        /\ hist = [bytes |-> Flatten(pieces), cuts |-> [i \in 1..Len(pieces) |-> Len(pieces[i])], ops |-> <<>>]

(* ---- the algorithm, on a record i of the four variables ---- *)
I == [pieces |-> pieces, left |-> left, pos |-> pos, past |-> past]
Eof(i) == i.left = <<>> /\ i.pieces = <<>>
Take1(i) == IF i.left # <<>> THEN [v |-> i.left, i |-> [i EXCEPT !.left = <<>>, !.pos = @ + Len(i.left)]]
            ELSE [v |-> Head(i.pieces), i |-> [i EXCEPT !.pieces = Tail(@), !.past = <<>>, !.pos = @ + Len(Head(i.pieces))]]
Same(past1, n) == Cardinality({k \in 1..Len(past1) : past1[k] = n})
Put(i, b) == IF b = <<>> THEN [ok |-> TRUE, i |-> i]
             ELSE LET p == <<Len(b)>> \o SubSeq(i.past, 1, Min2(Len(i.past), Limit + 9)) IN
                  IF Same(p, Len(b)) > Limit THEN [ok |-> FALSE, i |-> [i EXCEPT !.past = p]]
                  ELSE [ok |-> TRUE, i |-> [i EXCEPT !.past = p, !.pos = @ - Len(b), !.left = b \o @]]
RECURSIVE ReadI(_, _, _)
ReadI(i, n, acc) == IF n = 0 \/ Eof(i) THEN [ok |-> TRUE, v |-> acc, i |-> i]
                    ELSE LET t == Take1(i)
                             e == IF n < 0 THEN t.v ELSE Upto(t.v, Min2(n, Len(t.v)))
                             p == Put(t.i, From(t.v, Len(e) + 1))
                         IN IF ~p.ok THEN [ok |-> FALSE, v |-> <<>>, i |-> p.i]
                            ELSE ReadI(p.i, IF n < 0 THEN n ELSE n - Len(e), acc \o e)
RECURSIVE LineI(_, _)
LineI(i, acc) == IF Eof(i) THEN [ok |-> TRUE, v |-> acc, i |-> i]
                 ELSE LET t == Take1(i)
                          k == FindByte(t.v, 10, 1)
                          e == IF k = 0 THEN Len(t.v) ELSE k
                          q == Put(t.i, From(t.v, e + 1))
                      IN IF ~q.ok THEN [ok |-> FALSE, v |-> <<>>, i |-> q.i]
                         ELSE IF k # 0 THEN [ok |-> TRUE, v |-> acc \o Upto(t.v, e), i |-> q.i] ELSE LineI(q.i, acc \o Upto(t.v, e))
Got(i) == <<abs.total - Len(Flatten(i.pieces)), abs.pulls + Len(pieces) - Len(i.pieces)>>
Set(i) == pieces' = i.pieces /\ left' = i.left /\ pos' = i.pos /\ past' = i.past
Log(o) == /\ hist' = [hist EXCEPT !.ops = Append(@, o)]
          /\ Emit => PrintT("## " \o ToJson(hist'))

(* ---- steps; abs follows the abstraction, with the data the algorithm gave ---- *)
Next1 == ~Eof(I) /\ LET t == Take1(I) IN Set(t.i) /\ abs' = AfterNext(abs, t.v, Got(t.i)) /\ Log([op |-> "next"])
                                         /\ Assert(NextOk(abs, t.v, Got(t.i)), "a step hands out other bytes")
Read(n) == LET t == ReadI(I, n, <<>>) IN /\ t.ok /\ Set(t.i) /\ abs' = AfterRead(abs, Len(t.v), Got(t.i)) /\ Log([op |-> "read", n |-> n])
                                         /\ Assert(t.v = Upto(abs.pend, ReadLen(abs, n)), "a read hands out other bytes")
Line == LET t == LineI(I, <<>>) IN /\ t.ok /\ Set(t.i) /\ abs' = AfterRead(abs, Len(t.v), Got(t.i)) /\ Log([op |-> "readline", n |-> -1])
                                   /\ Assert(t.v = Upto(abs.pend, LineLen(abs, -1)), "a line is another one")
Back(b) == LET t == Put(I, b) IN
           /\ t.ok /\ Set(t.i) /\ abs' = AfterUnget(abs, b) /\ Log([op |-> "unget", b |-> b])
Refuse(b) == LET t == Put(I, b) IN   \* reported as a loop
           /\ ~t.ok /\ Set(t.i) /\ abs' = abs /\ Log([op |-> "unget", b |-> b])
Close == /\ abs' = AfterClose(abs) /\ pieces' = <<>> /\ UNCHANGED <<left, pos, past>> /\ Log([op |-> "close"])
Next == /\ Len(hist.ops) < Depth
        /\ \/ Next1 \/ \E n \in {-1, 0, 1, 2, 3} : Read(n) \/ Line
           \/ \E b \in Backs : Back(b) \/ Refuse(b)
           \/ Close
Spec == Init /\ [][Next]_<<ivars, abs, hist>>

(* C14: nothing is lost, doubled or reordered, and the position is right. *)
Conserves == abs.pend = left \o Flatten(pieces)
Position == abs.pos = pos
(* A loop is reported only after Limit push-backs without new data. *)
Loops == /\ \A b \in Backs : ~Put(I, b).ok => Len(abs.fresh) >= Limit
         /\ \A n \in {-1, 0, 1, 2, 3} : ~ReadI(I, n, <<>>).ok => Len(abs.fresh) >= Limit
         /\ ~LineI(I, <<>>).ok => Len(abs.fresh) >= Limit
(* ... and then always. *)
Caught == \A n \in 1..2 : (Len(abs.fresh) >= Limit /\ \A k \in (Len(abs.fresh) - Limit + 1)..Len(abs.fresh) : abs.fresh[k] = n)
                            => ~Put(I, [k \in 1..n |-> 66]).ok
====
