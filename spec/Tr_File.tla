---- MODULE Tr_File ----
EXTENDS File, TrBase

Case == Cases[c]
Init == TrInit(LAMBDA k : [files |-> <<>>, got |-> 0, spilled |-> FALSE])
F == st.files[Op.f]
Judge(bad, f) == TrTake(Q(bad, [st EXCEPT !.files[Op.f] = f]))
Err(clause) == If(Obs.err # "", clause \o ".err:" \o Obs.err)

(* ---- making a file ---- *)
Sp == Case.files[Op.f]
Simple == Case.h \in {"simple", "dict"}
Fits == Case.cl <= Case.fum
Temp == CASE Case.h = "temp" -> TRUE
          [] Case.h = "conv" -> st.spilled \/ Spills(st.got, Sp.pieces, Case.fum)
          [] OTHER -> FALSE
Made == ~(Case.h = "mem" /\ ~Fits)
Data == Flatten(Sp.pieces)
DoMake == IF Obs.err # "" THEN Q(Err("make"), st)
          ELSE LET kind == IF ~Made THEN "none" ELSE IF Temp THEN "temp" ELSE "mem"
                   claim == ~Simple /\ Case.h # "temp" /\ Made /\ ~st.spilled
                   bad == If(Obs.kind # kind, "make.kind:" \o Obs.kind)
                          \cup If(Obs.claim # claim, "make.claim")
                          \cup If(\E x \in 1..Len(Obs.passed) : Obs.passed[x] # ~Made, "make.passed")
                          \cup (IF ~Made \/ Obs.kind = "none" THEN {}
                                ELSE If(Obs.name # FileName(Sp.name), "name.made")
                                     \cup If(Obs.ct # (IF Simple /\ Sp.ct = <<>> THEN vPlain ELSE Sp.ct), "make.type")
                                     \cup If(~Simple /\ Obs.charset # Sp.charset, "make.charset")
                                     \cup If(~Simple /\ Obs.extra # Sp.extra, "make.extra")
                                     \cup If(~Simple /\ Obs.te # Sp.te, "make.encoding")
                                     \cup If(Obs.size # Len(Data), "make.size")
                                     \cup If(Obs.pos # 0, "make.position")
                                     \cup If(~Obs.placed, "make.place") \cup If(~Obs.upload, "make.class"))
                          \cup If(Obs.disk # Cardinality({x \in 1..Len(st.files) : st.files[x].temp /\ st.files[x].open}) + (IF kind = "temp" THEN 1 ELSE 0), "make.disk")
               IN Q(bad, [files |-> Append(st.files, New(Data, kind = "temp") @@ [name |-> FileName(Sp.name)]),
                          got |-> st.got + Len(Data), spilled |-> st.spilled \/ (Case.h = "conv" /\ Temp)])

(* ---- reading it ---- *)
Closed == ~F.open
WhenOpen(bad, f) == IF Closed THEN Judge(If(Obs.err = "", "closed.readable"), F)
                    ELSE IF Obs.err # "" THEN Judge(Err(Op.op), F)
                    ELSE Judge(IF bad # {} THEN bad ELSE If(Obs.pos # f.pos, "file.position"), f)
DoRead == WhenOpen(If(Obs.val # ReadN(F, Op.n), "file.data"), Moved(F, ReadN(F, Op.n)))
DoLine == WhenOpen(If(Obs.val # LineN(F), "file.readline"), Moved(F, LineN(F)))
DoReadLines == WhenOpen(If(Obs.vals # LfLines(Left(F)), "file.readlines"), IF F.pos > Len(F.data) THEN F ELSE AtEnd(F))
Size == IF Op.n = 0 THEN 65536 ELSE Op.n
DoChunks == WhenOpen(If(Flatten(Obs.vals) # F.data, "file.chunks.data")
                     \cup If(F.temp /\ Obs.vals # Pieces(F.data, Size), "file.chunks.size"), AtEnd(F))
DoLines == WhenOpen(If(Flatten(Obs.vals) # F.data, "file.lines.data") \cup If(Obs.vals # Lines(F.data), "file.lines"), AtEnd(F))
DoSeek == WhenOpen({}, [F EXCEPT !.pos = Op.n])
DoOpen == WhenOpen(If(~Obs.same, "file.open"), [F EXCEPT !.pos = 0])
DoWith == IF Closed THEN Judge(If(Obs.err = "", "closed.readable"), F)
          ELSE Judge(Err("with") \cup (IF Obs.err # "" THEN {} ELSE If(~Obs.same, "file.with") \cup If(Obs.val # Left(F), "file.data")), [F EXCEPT !.open = FALSE])
DoClose == Judge(Err("close"), [F EXCEPT !.open = FALSE])
DoAsk == Judge(Err("ask") \cup (IF Obs.err # "" THEN {} ELSE
            If(Obs.size # Len(F.data), "ask.size") \cup If(Obs.len # Len(F.data), "ask.length") \cup If(Obs.bool # (F.name # <<>>), "ask.truth")
            \cup If(Obs.closed # Closed, "ask.closed") \cup If(Obs.able # F.open, "ask.readable") \cup If(Obs.seekable # F.open, "ask.seekable")
            \cup If(Obs.multi # Multiple(F, Size), "ask.multiple") \cup If(Obs.str # F.name, "name.text")
            \cup If(Obs.gone # (F.temp /\ Closed), "closed.disk")), F)
TrMake == IsOp("make") /\ TrTake(DoMake)
TrOver == IsOp("over") /\ TrTake(Q(Err("over"), st))
TrRead == IsOp("read") /\ DoRead
TrReadLine == IsOp("readline") /\ DoLine
TrReadLines == IsOp("readlines") /\ DoReadLines
TrChunks == IsOp("chunks") /\ DoChunks
TrLines == IsOp("lines") /\ DoLines
TrSeek == IsOp("seek") /\ DoSeek
TrOpen == IsOp("open") /\ DoOpen
TrWith == IsOp("with") /\ DoWith
TrClose == IsOp("close") /\ DoClose
TrAsk == IsOp("ask") /\ DoAsk
Next == TrMake \/ TrOver \/ TrRead \/ TrReadLine \/ TrReadLines \/ TrChunks \/ TrLines \/ TrSeek \/ TrOpen \/ TrWith \/ TrClose \/ TrAsk \/ TrEnd
Spec == Init /\ [][Next]_trvars
====
