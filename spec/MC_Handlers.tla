---- MODULE MC_Handlers ----
(* The parser's loops over parts, chunks and handlers, with every reaction of every handler: each call is one the protocol of
   Handlers allows, and the history of calls has the properties the protocol is there for. *)
EXTENDS Handlers, Json
CONSTANTS N, News, Recvs, Dones, Ends, Emit

Scripts == [raw : {""}, real : {""}, chunk : {0}, file : {TRUE}, end : Ends,
            files : {<<[new |-> a, recv |-> <<r>>, done |-> d]>> : a \in News, r \in Recvs, d \in Dones}]
Base0 == TLCEval(KOf(hBody, hType, NatDigits(Len(hBody)), N, <<>>, "latin1", -1, -1, 100, 100))
(* The parts of the body never change: kept in a variable so that they are worked out once. *)
VARIABLES base, hs, pc, i, f, h, chunk, rest, cnt, old, seen, out, how, calls, s
vars == <<base, hs, pc, i, f, h, chunk, rest, cnt, old, seen, out, how, calls, s>>
K == [base EXCEPT !.hs = hs]
Zero == [x \in 1..N |-> 0]
Init == /\ base = Base0
        /\ hs \in [1..N -> Scripts]
        /\ pc = "raw" /\ i = 1 /\ f = 0 /\ h = 1 /\ chunk = <<>> /\ rest = <<>> /\ cnt = Zero /\ old = FALSE /\ seen = Zero
        /\ out = <<>> /\ how = "" /\ calls = <<>>
        /\ s = Start([base EXCEPT !.hs = hs])

Scr == hs[h].files[1]
Call(e) == LET v == TLCEval(HStep(TLCEval(K), s, TLCEval(e @@ [h |-> h, pos |-> IF e.op = "raw" THEN 0 ELSE base.len]))) IN
           /\ s' = v.st
           /\ Assert(v.bad = {}, <<v.bad, e>>)
           /\ calls' = Append(calls, e @@ [h |-> h, f |-> f])
P == base.parts[i]

Raw == /\ pc = "raw" /\ Call([op |-> "raw", args |-> TRUE])
       /\ (IF h < N THEN h' = h + 1 /\ pc' = pc ELSE pc' = "next" /\ h' = 1)
       /\ UNCHANGED <<base, hs, i, f, chunk, rest, cnt, old, seen, out, how>>
NextPart ==
    /\ pc = "next"
    /\ IF i > Len(base.parts) THEN pc' = "upload" /\ h' = 1 /\ UNCHANGED <<i, f, rest, cnt, seen>>
       ELSE IF old THEN pc' = "complete" /\ h' = 1 /\ UNCHANGED <<i, f, rest, cnt, seen>>
       ELSE IF P.type = "file" THEN pc' = "new" /\ h' = 1 /\ f' = f + 1 /\ rest' = P.pay /\ cnt' = Zero /\ seen' = Zero /\ i' = i
       ELSE i' = i + 1 /\ UNCHANGED <<pc, h, f, rest, cnt, seen>>
    /\ UNCHANGED <<base, hs, chunk, old, out, how, calls, s>>
Drop(a) == IF a = "skip" THEN pc' = "next" /\ i' = i + 1 /\ how' = how /\ old' = FALSE /\ h' = 1
           ELSE pc' = "upload" /\ h' = 1 /\ i' = i /\ how' = a /\ old' = FALSE
New == /\ pc = "new"
       /\ Call([op |-> "new", name |-> P.name, file |-> P.filename, ct |-> P.ct, charset |-> P.charset, extra |-> SetToSeq(P.extra), te |-> P.te, clen |-> <<>>])
       /\ IF Stops(Scr.new) THEN Drop(Scr.new)
          ELSE /\ (IF Scr.new = "claim" \/ h = N THEN pc' = "chunk" /\ h' = 1 ELSE pc' = pc /\ h' = h + 1)
               /\ UNCHANGED <<i, how, old>>
       /\ UNCHANGED <<base, hs, f, chunk, rest, cnt, seen, out>>
Chunk == /\ pc = "chunk"
         /\ IF rest = <<>> THEN /\ pc' = "next" /\ i' = i + 1 /\ old' = TRUE /\ UNCHANGED <<chunk, rest, h>>
            ELSE /\ \E n \in 1..Len(rest) : chunk' = Upto(rest, n) /\ rest' = From(rest, n + 1)
                 /\ pc' = "recv" /\ h' = 1 /\ UNCHANGED <<i, old>>
         /\ UNCHANGED <<base, hs, f, cnt, seen, out, how, calls, s>>
Recv == /\ pc = "recv"
        /\ Call([op |-> "recv", data |-> chunk, start |-> cnt[h]])
        /\ seen' = [seen EXCEPT ![h] = @ + 1]
        /\ LET a == Pick(Scr.recv, seen[h] + 1) IN
           IF Stops(a) THEN Drop(a) /\ UNCHANGED <<chunk, cnt>>
           ELSE /\ cnt' = [cnt EXCEPT ![h] = @ + Len(chunk)]
                /\ (IF a = "absorb" \/ h = N THEN pc' = "chunk" /\ h' = 1 /\ chunk' = <<>>
                    ELSE pc' = pc /\ h' = h + 1 /\ chunk' = Changed(a, chunk))
                /\ UNCHANGED <<i, how, old>>
        /\ UNCHANGED <<base, hs, f, rest, out>>
Complete ==
    /\ pc = "complete"
    /\ Call([op |-> "done", size |-> cnt[h]])
    /\ IF Stops(Scr.done) THEN Drop(Scr.done) /\ out' = out
       ELSE /\ (IF Scr.done = "obj" THEN out' = Append(out, <<f, h>>) /\ pc' = "next" /\ old' = FALSE /\ h' = 1
                ELSE IF h = N THEN out' = out /\ pc' = "next" /\ old' = FALSE /\ h' = 1
                ELSE out' = out /\ h' = h + 1 /\ UNCHANGED <<pc, old>>)
            /\ UNCHANGED <<i, how>>
    /\ UNCHANGED <<base, hs, f, chunk, rest, cnt, seen>>
UploadDone ==
    /\ pc = "upload"
    /\ Call([op |-> "upload"])
    /\ (IF hs[h].end # "" \/ h = N THEN pc' = "return" /\ h' = 0 ELSE pc' = pc /\ h' = h + 1)
    /\ UNCHANGED <<base, hs, i, f, chunk, rest, cnt, old, seen, out, how>>
Return == /\ pc = "return"
          /\ LET e == [op |-> "end", h |-> 0, err |-> "", result |-> 0, pos |-> base.len, open |-> <<>>,
                       post |-> LET g == SetToSeq(FieldsOf4(s.post)) IN [x \in 1..Len(g) |-> <<g[x][1], [y \in 1..Len(g[x][2]) |-> [g[x][2][y] EXCEPT !.extra = SetToSeq(@)]]>>],
                       files |-> LET g == SetToSeq(FilesOf([x \in 1..Len(out) |-> [key |-> IF out[x][1] = 1 THEN <<102>> ELSE <<103>>, by |-> out[x][2], f |-> out[x][1]]]))
                                 IN [x \in 1..Len(g) |-> <<g[x][1], [y \in 1..Len(g[x][2]) |-> <<g[x][2][y][1], g[x][2][y][2], TRUE>>]>>]]
                 v == TLCEval(HStep(TLCEval(K), s, TLCEval(e)))
             IN s' = v.st /\ Assert(v.bad = {}, <<v.bad, e>>)
          /\ pc' = "over"
          /\ Emit => PrintT("## " \o ToJson([hs |-> hs]))
          /\ UNCHANGED <<base, hs, i, f, h, chunk, rest, cnt, old, seen, out, how, calls>>
Next == Raw \/ NextPart \/ New \/ Chunk \/ Recv \/ Complete \/ UploadDone \/ Return \/ (pc = "over" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- C10, on the history of calls ---- *)
Idx(Q(_)) == {x \in 1..Len(calls) : Q(calls[x])}
Of(op, g) == SelectSeq(calls, LAMBDA e : e.op = op /\ e.f = g)
Told == \A g \in 1..f : LET n == Of("new", g) IN        \* in order, up to one that claims the file
           /\ \A x \in 1..Len(n) : n[x].h = x
           /\ \A x \in 1..(Len(n) - 1) : hs[x].files[1].new = "ok"
Contiguous == \A g \in 1..f, x \in 1..N :
    LET r == SelectSeq(calls, LAMBDA e : e.op = "recv" /\ e.f = g /\ e.h = x) IN
    \A y \in 1..Len(r) : r[y].start = Len(Flatten([z \in 1..(y - 1) |-> r[z].data]))
AllBytes == \A g \in 1..f :                            \* what the first handler gets is the file; all of it before the end is told
    LET r == SelectSeq(calls, LAMBDA e : e.op = "recv" /\ e.f = g /\ e.h = 1)
        pay == IF g = 1 THEN <<97, 98>> ELSE <<99>>
        d == Flatten([z \in 1..Len(r) |-> r[z].data])
    IN StartsWith(pay, d) /\ (Of("done", g) # <<>> => d = pay)
Absorbed == \A x \in 1..(Len(calls) - 1) :             \* an absorbed chunk goes no further; a passed one does
    (calls[x].op = "recv" /\ calls[x + 1].op = "recv") =>
        LET a == hs[calls[x].h].files[1].recv[1] IN
        IF a = "absorb" \/ calls[x].h = N THEN calls[x + 1].h = 1
        ELSE calls[x + 1].h = calls[x].h + 1 /\ calls[x + 1].data = Changed(a, calls[x].data)
OneFile == /\ \A x, y \in 1..Len(out) : out[x][1] = out[y][1] => x = y          \* one object per file: the first one given
           /\ \A x \in 1..Len(out) : \A y \in 1..(out[x][2] - 1) : hs[y].files[1].done = "none"
Finish == LET u == SelectSeq(calls, LAMBDA e : e.op = "upload") IN               \* told once, in order, at the very end
          /\ \A x \in 1..Len(u) : u[x].h = x /\ calls[Len(calls) - Len(u) + x].op = "upload"
          /\ pc = "over" => u # <<>> /\ (Len(u) = N \/ hs[Len(u)].end # "")
Stopped == how # "" => pc \in {"upload", "return", "over"}
Skipped == \A x \in 1..Len(calls) :                    \* nothing more is said about a file after a skip or a stop
    (calls[x].op \in {"new", "recv"} /\ Stops(IF calls[x].op = "new" THEN hs[calls[x].h].files[1].new ELSE hs[calls[x].h].files[1].recv[1]))
        => /\ \A y \in (x + 1)..Len(calls) : calls[y].f # calls[x].f \/ calls[y].op = "upload"
           /\ \A y \in 1..Len(out) : out[y][1] # calls[x].f
Ends2 == <>(pc = "over")
====
