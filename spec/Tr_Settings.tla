---- MODULE Tr_Settings ----
(* Recorded settings: what every object made so far has, and what the directories hold, after every operation. *)
EXTENDS Settings, TrBase

Entry(e) == [p |-> e[1], k |-> e[2], t |-> e[3]]
Known == {"request_parser.files.uploadhandler.ConvenientFileUploadHandler", "request_parser.files.uploadhandler.MemoryFileUploadHandler",
          "request_parser.files.uploadhandler.TemporaryFileUploadHandler", "request_parser.files.uploadhandler.FileUploadHandler"}
Conv == <<"request_parser.files.uploadhandler.ConvenientFileUploadHandler">>
Init == TrInit(LAMBDA k : [objs |-> <<>>, fs |-> {Entry(k.dirs[i]) : i \in 1..Len(k.dirs)}])

Val(kind, v) == CASE kind = "none" -> <<-1>> [] kind = "true" -> <<1>> [] kind = "false" -> <<0>> [] OTHER -> v
Given == [f \in {Op.given[i][1] : i \in 1..Len(Op.given)} |->
            LET i == CHOOSE i \in 1..Len(Op.given) : Op.given[i][1] = f IN Val(Op.given[i][2], Op.given[i][3])]
Obj(given) == [f |-> Built(given), h |-> Conv]
Seen(x) == [f |-> [f \in {x.f[i][1] : i \in 1..Len(x.f)} |-> LET i == CHOOSE i \in 1..Len(x.f) : x.f[i][1] = f IN x.f[i][2]], h |-> x.h]
Files == {Entry(Obs.fs[i]) : i \in 1..Len(Obs.fs)}
Rest(s) ==   \* what can be seen of the rest: every object, every file
    If(Len(Obs.all) # Len(s.objs), "set.lost")
    \cup UNION {LET o == Seen(Obs.all[i]) IN
                If(o.h # s.objs[i].h, "set.handlers") \cup UNION {If(f \notin DOMAIN o.f \/ o.f[f] # s.objs[i].f[f], "set." \o f) : f \in Fields}
                : i \in 1..Min2(Len(Obs.all), Len(s.objs))}
    \cup If({e \in s.fs : e.k \notin {"ro", "null"}} # Files, "set.files")
    \cup If(~Obs.dict, "set.dict")
Judge(bad, s) == TrTake(Q(bad \cup Rest(s), s))
TrBuild == IsOp("build") /\ LET g == TLCEval(Given) IN
    IF Refused(st.fs, g) THEN Judge(If(Obs.err # "InvalidDirectory", "set.accepted:" \o Obs.err), st)
    ELSE IF Obs.err # "" THEN Judge({"set.err:" \o Obs.err}, st)
    ELSE Judge({}, [objs |-> Append(st.objs, Obj(g)), fs |-> After(st.fs, g)])
TrDefault == IsOp("default") /\
    IF Obs.err # "" THEN Judge({"set.err:" \o Obs.err}, st)
    ELSE Judge(If(Op.presence /\ ~Obs.made, "set.made"), [st EXCEPT !.objs = Append(@, Obj([x \in {} |-> 0]))])
TrAlter == IsOp("alter") /\ Judge(If(Obs.err # "", "set.err:" \o Obs.err),
    [st EXCEPT !.objs[Op.s].f = Altered(@, Op.f, Val(Op.kind, Op.v))])
(* Handlers: the names put on one object, the handlers a request made with it gets. *)
TrHandlers == IsOp("handlers") /\ Judge(
    (IF \E i \in 1..Len(Op.names) : Op.names[i] \notin Known THEN If(Obs.err # "ImportError", "set.handler.accepted:" \o Obs.err)
     ELSE If(Obs.err # "", "set.handler.err:" \o Obs.err) \cup If(Obs.err = "" /\ Obs.got # Op.names, "set.handler.got")),
    [st EXCEPT !.objs[Op.s].h = Op.names])
TrLoad == IsOp("load") /\ Judge(
    IF Op.name \in Known THEN If(Obs.err # "", "set.load.err:" \o Obs.err) \cup If(Obs.err = "" /\ Obs.got # Op.name, "set.load.got") \cup If(Obs.err = "" /\ ~Obs.args, "set.load.args")
    ELSE If(Obs.err # "ImportError", "set.load.accepted:" \o Obs.err), st)
(* Several threads at a time, thread i with its own value of duf. *)
TrRace == IsOp("race") /\ LET g == TLCEval(Given)
                              gi(i) == ("duf" :> Op.dufs[i]) @@ g IN
    IF Refused(st.fs, g) THEN Judge(UNION {If(Obs.errs[i] # "InvalidDirectory", "set.race.accepted") : i \in 1..Len(Obs.errs)}, st)
    ELSE Judge(UNION {If(Obs.errs[i] # "", "set.race:" \o Obs.errs[i])
                      \cup If(Obs.errs[i] = "" /\ Seen(Obs.got[i]).f # Built(gi(i)), "set.race.got") : i \in 1..Len(Obs.errs)}, [st EXCEPT !.fs = After(@, g)])
Next == TrBuild \/ TrDefault \/ TrAlter \/ TrHandlers \/ TrLoad \/ TrRace \/ TrEnd
Spec == Init /\ [][Next]_trvars
====
