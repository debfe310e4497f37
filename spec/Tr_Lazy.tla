---- MODULE Tr_Lazy ----
EXTENDS Lazy, TrBase

Init == TrInit(LAMBDA k : LInit(k.bytes))
G == <<Obs.got, Obs.pulls>>
Pos(s) == If(Obs.pos # s.pos, "lazy.tell")
Judge(bad, s) == Q(bad \cup (IF bad = {} THEN Pos(s) ELSE {}), s)
Err == If(Obs.err # "", "lazy.err:" \o Obs.err)
Data(n) == IF Obs.err # "" THEN Err ELSE If(Obs.val # Upto(st.pend, n), "lazy.data")
DoNext == IF Obs.err = "Stop" THEN Judge(If(st.pend # <<>>, "lazy.lost"), AfterNext(st, <<>>, G))
          ELSE IF Obs.err # "" THEN Q(Err, st)
          ELSE Judge(If(~NextOk(st, Obs.val, G), "lazy.data"), AfterNext(st, Obs.val, G))
DoUnget == IF Obs.err = "Multipart" \/ Obs.err = "Suspicious"
           THEN Judge(If(NotStuck(st, Op.b), "lazy.false-alarm"), st)
           ELSE IF Obs.err # "" THEN Q(Err, st)
           ELSE Judge(If(Stuck(st, Op.b), "lazy.loop"), AfterUnget(st, Op.b))

Reading(n) == IF Obs.err \in {"Multipart", "Suspicious"} THEN Q(If(~MayStick(st), "lazy.false-alarm"), [st EXCEPT !.dead = TRUE])
              ELSE Judge(Data(n), AfterRead(st, n, G))
Do(q) == TrTake(IF st.dead THEN Q({}, st) ELSE q)

TrRead == IsOp("read") /\ Do(Reading(ReadLen(st, Op.n)))
TrLine == IsOp("readline") /\ Do(Reading(LineLen(st, Op.n)))
TrRest == IsOp("rest") /\ Do(Reading(Len(st.pend)))
TrNext == IsOp("next") /\ Do(DoNext)
TrUnget == IsOp("unget") /\ Do(DoUnget)
TrClose == IsOp("close") /\ Do(Judge(Err, AfterClose(st)))
(* The chunks of a file: never empty, never longer than asked for, together the file. *)
TrChunks == IsOp("chunks") /\ TrTake(Q(If(Obs.err # "", "chunks.err:" \o Obs.err)
                \cup If(\E i \in 1..Len(Obs.vals) : Obs.vals[i] = <<>> \/ Len(Obs.vals[i]) > Op.n, "chunks.size")
                \cup If(Flatten(Obs.vals) # st.pend, "chunks.data"), [st EXCEPT !.pend = <<>>]))
Next == TrNext \/ TrRead \/ TrLine \/ TrRest \/ TrUnget \/ TrClose \/ TrChunks \/ TrEnd
Spec == Init /\ [][Next]_trvars
====
