---- MODULE Tr_Handlers ----
EXTENDS Handlers, TrBase

Init == TrInit(LAMBDA x : LET k == TLCEval(KOf(x.body, x.ctype, x.clen, Len(x.hs), x.hs, x.cs, x.duf, x.dum, x.fum, x.least)) IN [k |-> k, s |-> Start(k)])
Do == LET r == HStep(st.k, st.s, Op) IN TrTake(Q(r.bad, [st EXCEPT !.s = r.st]))
TrRaw == IsOp("raw") /\ Do
TrNew == IsOp("new") /\ Do
TrRecv == IsOp("recv") /\ Do
TrDone == IsOp("done") /\ Do
TrUpload == IsOp("upload") /\ Do
TrFinish == IsOp("end") /\ Do
Next == TrRaw \/ TrNew \/ TrRecv \/ TrDone \/ TrUpload \/ TrFinish \/ TrEnd
Spec == Init /\ [][Next]_trvars
====
