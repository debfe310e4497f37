---- MODULE Handlers ----
(* How upload handlers are driven while a multipart body is parsed: an acceptor of call sequences.
   k: the parts of the body and the configuration; B: the handlers' reactions (see Script below). *)
EXTENDS Multipart

(* k = [bad: error of the constructor, empty: nothing to parse, parts, ends: end of each part's payload in the body, n: handlers,
        charset, fieldsMax, dataMax, fileMax, clen, len: body length, ahead, most]
   Reactions of handler h:
     RawAct(h)      "" or "result"
     NewAct(s, h, f) "ok", "claim", "skip", "stop", "reset"
     RecvAct(h,f,j) "pass", "absorb", "double", "empty", "skip", "stop", "reset"     (j-th chunk of file f)
     DoneAct(h, f)  "none", "obj", "stop", "reset"
     EndAct(h)      "" or "answer" *)
Pick(s, i) == s[Min2(i, Len(s))]
Fits(k) == k.clen <= k.fileMax
RawAct(k, h) == k.hs[h].raw
NewAct(k, s, h, f) == CASE k.hs[h].real = "mem" -> IF Fits(k) THEN "claim" ELSE "ok"
                     [] k.hs[h].real = "temp" -> "ok"
                     [] k.hs[h].real = "conv" -> IF s.tot[h] <= k.fileMax THEN "claim" ELSE "ok"
                     [] OTHER -> Pick(k.hs[h].files, f).new
RecvAct(k, h, f, j) == CASE k.hs[h].real = "mem" -> IF Fits(k) THEN "absorb" ELSE "pass"
                         [] k.hs[h].real \in {"temp", "conv"} -> "absorb"
                         [] OTHER -> Pick(Pick(k.hs[h].files, f).recv, j)
DoneAct(k, h, f) == CASE k.hs[h].real = "mem" -> IF Fits(k) THEN "obj" ELSE "none"
                      [] k.hs[h].real \in {"temp", "conv"} -> "obj"
                      [] OTHER -> Pick(k.hs[h].files, f).done
EndAct(k, h) == k.hs[h].end

Changed(act, d) == CASE act = "double" -> d \o d
                     [] act = "empty" -> <<>>
                     [] OTHER -> d

(* ---- states ----
   ph: "raw", "new", "chunks", "done", "upload", "end"; i: part; f: files so far; h: the handler to be called next;
   fl: <<>> or the chunk on its way along the handlers; taken: bytes of the payload handed over; cnt, calls: per handler, of this file;
   pend: a file whose end is not yet told; told: the handlers told of the current file. *)
H0(k) == [ph |-> "raw", i |-> 1, f |-> 0, h |-> 1, fl |-> <<>>, taken |-> 0, cnt |-> [x \in 1..k.n |-> 0], calls |-> [x \in 1..k.n |-> 0], tot |-> [x \in 1..k.n |-> 0],
          pend |-> FALSE, told |-> {}, post |-> <<>>, files |-> <<>>, nf |-> 0, nb |-> 0, stop |-> "", err |-> "", result |-> 0, shut |-> {}, last |-> <<>>, pos |-> 0]
Ending(s) == [s EXCEPT !.ph = "end"]
RECURSIVE Enter(_, _)
(* About to look at part s.i. *)
Upload(k, s) == IF k.n = 0 THEN Ending(s) ELSE [s EXCEPT !.ph = "upload", !.h = 1]
Enter(k, s) ==
    IF s.i > Len(k.parts) THEN Upload(k, [s EXCEPT !.pend = FALSE])
    ELSE IF s.pend THEN [s EXCEPT !.ph = "done", !.h = 1]
    ELSE LET p == k.parts[s.i] IN
    IF p.type \in {"raw", "skip"} THEN Enter(k, [s EXCEPT !.i = @ + 1])
    ELSE IF p.type = "field" THEN
        LET m == StepPart([M0 EXCEPT !.nfields = s.nf, !.nbytes = s.nb], p, FALSE, k) IN
        IF m.err # "" THEN Ending([s EXCEPT !.err = m.err])
        ELSE Enter(k, [s EXCEPT !.i = @ + 1, !.nf = m.nfields, !.nb = m.nbytes, !.post = @ \o m.post])
    ELSE IF k.n = 0 THEN IF p.fok THEN Enter(k, [s EXCEPT !.i = @ + 1, !.f = @ + 1]) ELSE Ending([s EXCEPT !.err = "Multipart"])
    ELSE [s EXCEPT !.ph = "new", !.h = 1, !.f = @ + 1, !.fl = <<>>, !.taken = 0, !.told = {},
                   !.cnt = [x \in 1..k.n |-> 0], !.calls = [x \in 1..k.n |-> 0]]
Part(k, s) == k.parts[s.i]
Payload(k, s) == Part(k, s).pay
(* The file in progress is dropped: its open files are closed. *)
Shut(s) == [s EXCEPT !.shut = @ \cup {<<h, s.f>> : h \in s.told}]
Stops(act) == act \in {"skip", "stop", "reset"}
Leave(k, s, act) == IF act = "skip" THEN Enter(k, [Shut(s) EXCEPT !.i = @ + 1, !.pend = FALSE])
                    ELSE Upload(k, [Shut(s) EXCEPT !.stop = act, !.pend = FALSE])

(* Every byte of the file was handed over: on to the next part. *)
FileEnd(k, s) == IF s.ph = "chunks" /\ s.fl = <<>>
                 THEN IF ~Part(k, s).fok THEN Ending([s EXCEPT !.err = "Multipart"])
                      ELSE Enter(k, [s EXCEPT !.i = @ + 1, !.pend = Part(k, s).name # <<>>, !.last = Part(k, s).name])
                 ELSE s
Start(k) == IF k.bad # "" THEN Ending([H0(k) EXCEPT !.err = k.bad])
            ELSE IF k.empty THEN Ending(H0(k))
            ELSE IF k.n = 0 THEN Enter(k, H0(k)) ELSE H0(k)

(* ---- events: [bad, st] ---- *)
R(bad, s) == [bad |-> bad, st |-> s]
C(b, clause) == IF b THEN {clause} ELSE {}
Unexpected(s, e) == R({"order." \o e.op \o " in " \o s.ph \o " of " \o ToString(s.h)}, s)

OnRaw(k, s, e) ==
    IF s.ph # "raw" \/ e.h # s.h THEN Unexpected(s, e)
    ELSE R(C(~e.args, "raw.args") \cup C(e.pos # 0, "raw.read"),
           IF RawAct(k, e.h) = "result" THEN Ending([s EXCEPT !.result = e.h])
           ELSE IF e.h < k.n THEN [s EXCEPT !.h = @ + 1] ELSE Enter(k, s))

OnNew(k, s0, e) ==
    LET s == FileEnd(k, s0) IN
    IF s.ph # "new" \/ e.h # s.h THEN R(C(s0.ph = "chunks" /\ s0.taken < Len(Payload(k, s0)), "recv.lost") \cup Unexpected(s, e).bad, s)
    ELSE LET p == Part(k, s)
             act == NewAct(k, s, e.h, s.f)
             t == [s EXCEPT !.told = @ \cup {e.h}]
             cl == IntLit(p.clen)
         IN R(C(e.name # p.name, "new.name") \cup C(e.file # p.filename, "new.filename") \cup C(e.ct # p.ct, "new.type")
              \cup C(e.charset # p.charset, "new.charset") \cup C({<<e.extra[x][1], e.extra[x][2]>> : x \in 1..Len(e.extra)} # p.extra, "new.extra")
              \cup C(e.te # p.te, "new.encoding")
              \cup C(IF cl.ok THEN e.clen = <<>> \/ IntLit(e.clen[1]) # cl ELSE e.clen # <<>>, "new.length"),
              IF Stops(act) THEN Leave(k, t, act)
              ELSE IF act = "claim" \/ e.h = k.n THEN [t EXCEPT !.ph = "chunks", !.h = 1] ELSE [t EXCEPT !.h = @ + 1])

OnRecv(k, s, e) ==
    IF s.ph # "chunks" \/ e.h # s.h THEN Unexpected(s, e)
    ELSE LET first == s.fl = <<>>
             pay == Payload(k, s)
             ok == Part(k, s).fok
             want == IF first THEN SubSeq(pay, s.taken + 1, s.taken + Len(e.data)) ELSE s.fl[1]
             j == s.calls[e.h] + 1
             act == RecvAct(k, e.h, s.f, j)
             t == [s EXCEPT !.calls[e.h] = j, !.cnt[e.h] = @ + Len(e.data), !.tot[e.h] = @ + Len(e.data), !.taken = IF first THEN @ + Len(e.data) ELSE @]
             bad == C((~first \/ ok) /\ e.data # want, IF first THEN "recv.data" ELSE "recv.passed")
                    \cup C(e.start # s.cnt[e.h], "recv.start")
                    \cup C(first /\ Len(e.data) > k.most, "stream.chunk")
                    \cup C(first /\ ~IsB64(Part(k, s)) /\ e.pos > k.starts[s.i] + Part(k, s).head + t.taken + k.ahead, "stream.ahead")
         IN R(bad, IF Stops(act) THEN Leave(k, t, act)
                   ELSE IF act = "absorb" \/ e.h = k.n THEN [t EXCEPT !.fl = <<>>, !.h = 1]
                   ELSE [t EXCEPT !.fl = <<Changed(act, e.data)>>, !.h = @ + 1])

Ended(k, s0) == C(s0.ph = "chunks" /\ s0.fl = <<>> /\ Part(k, s0).fok /\ s0.taken < Len(Payload(k, s0)), "recv.lost")
OnDone(k, s0, e) ==
    LET s == FileEnd(k, s0) IN
    IF s.ph # "done" \/ e.h # s.h THEN R(Ended(k, s0) \cup Unexpected(s, e).bad, s)
    ELSE LET act == DoneAct(k, e.h, s.f)
             p == k.parts[s.i - 1]
             next == [s EXCEPT !.pend = FALSE]
         IN R(Ended(k, s0) \cup C(e.size # s.cnt[e.h], "done.size"),
              IF Stops(act) THEN Leave(k, s, act)
              ELSE IF act = "obj" THEN Enter(k, [next EXCEPT !.files = Append(@, [key |-> s.last, by |-> e.h, f |-> s.f])])
              ELSE IF e.h < k.n THEN [s EXCEPT !.h = @ + 1] ELSE Enter(k, next))

OnUpload(k, s0, e) ==
    LET s == FileEnd(k, s0) IN
    IF s.ph # "upload" \/ e.h # s.h THEN R(Ended(k, s0) \cup Unexpected(s, e).bad, s)
    ELSE R(Ended(k, s0) \cup C(s.stop # "reset" /\ e.pos # k.len, "upload.unread") \cup C(s.stop = "reset" /\ e.pos # s.pos, "upload.read"),
           IF EndAct(k, e.h) # "" \/ e.h = k.n THEN Ending(s) ELSE [s EXCEPT !.h = @ + 1])

(* The end: what the parser returned. *)
FieldsOf4(fs) == {<<n, LET g == SelectSeq(fs, LAMBDA x : x.name = n) IN [i \in 1..Len(g) |-> [data |-> g[i].data, ct |-> g[i].ct, te |-> g[i].te, extra |-> g[i].extra]]>> : n \in {fs[i].name : i \in 1..Len(fs)}}
FilesOf(fs) == {<<n, LET g == SelectSeq(fs, LAMBDA x : x.key = n) IN [i \in 1..Len(g) |-> <<g[i].by, g[i].f>>]>> : n \in {fs[i].key : i \in 1..Len(fs)}}
OnEnd(k, s0, e) ==
    LET s == FileEnd(k, s0) IN
    IF s.ph # "end" THEN R(Ended(k, s0) \cup Unexpected(s, e).bad \cup C(e.err # "", "end.err:" \o e.err), s)
    ELSE R(C(e.err # s.err, "end.err:" \o e.err \o " for " \o s.err)
           \cup C(e.result # s.result, "end.result")
           \cup (IF e.err # s.err \/ s.err # "" \/ s.result # 0 THEN {}
                 ELSE C({<<e.post[x][1], [y \in 1..Len(e.post[x][2]) |-> [e.post[x][2][y] EXCEPT !.extra = {<<@[z][1], @[z][2]>> : z \in 1..Len(@)}]]>> : x \in 1..Len(e.post)} # FieldsOf4(s.post), "end.post")
                      \cup C({<<e.files[x][1], [y \in 1..Len(e.files[x][2]) |-> <<e.files[x][2][y][1], e.files[x][2][y][2]>>]>> : x \in 1..Len(e.files)} # FilesOf(s.files), "end.files")
                      \cup C(\E x \in 1..Len(e.files) : \E y \in 1..Len(e.files[x][2]) : ~e.files[x][2][y][3], "end.content")
                      \cup C(~k.empty /\ s.stop # "reset" /\ e.pos # k.len, "end.unread"))
           \cup C(\E x \in s.shut : \E y \in 1..Len(e.open) : <<e.open[y][1], e.open[y][2]>> = x, "end.open")
           \cup C(e.pos # s.pos /\ (s.result # 0 \/ s.stop = "reset" \/ k.bad # ""), "end.read"),
           [s EXCEPT !.ph = "over"])
HStep(k, s, e) ==
    LET r == CASE e.op = "raw" -> OnRaw(k, s, e)
               [] e.op = "new" -> OnNew(k, s, e)
               [] e.op = "recv" -> OnRecv(k, s, e)
               [] e.op = "done" -> OnDone(k, s, e)
               [] e.op = "upload" -> OnUpload(k, s, e)
               [] e.op = "end" -> OnEnd(k, s, e)
    IN [r EXCEPT !.st.pos = e.pos]

(* ---- the constant part of a case ---- *)
KOf(body, ctv, clv, n, hs, charset, fieldsMax, dataMax, fileMax, chunk) ==
    LET hv == TLCEval(HeaderValue(ctv))
        b == GetParam(hv.params, kBoundary)
        il == TLCEval(IntLit(clv))
        okb == StartsWith(Lower(ctv), vMultipart) /\ b # <<>> /\ BoundaryOk(b[1])
        neg == il.ok /\ il.sign < 0
        bad == IF ~okb \/ neg THEN "Multipart" ELSE ""
        zero == ~il.ok \/ il.sign = 0
        delim == DASHES \o b[1]
        segs == TLCEval(Segments(body, delim))
        ps == TLCEval(SplitSeq(body, delim))
        more(p) == p @@ (IF p.type = "file" THEN [pay |-> TLCEval(FileData(p)), fok |-> TLCEval(FileOk(p))] ELSE [pay |-> <<>>, fok |-> TRUE])
        st[i \in 1..(Len(segs) + 1)] == IF i = 1 THEN 0 ELSE st[i - 1] + Len(ps[i - 1]) + Len(delim)
    IN [bad |-> bad, empty |-> zero, n |-> n, hs |-> hs, charset |-> charset, fieldsMax |-> fieldsMax, dataMax |-> dataMax, fileMax |-> fileMax,
        mode |-> "conv", clen |-> il.val, len |-> Len(body),
        parts |-> IF bad # "" \/ zero THEN <<>> ELSE TLCEval([i \in 1..Len(segs) |-> more(PartOf(segs[i]))]),
        starts |-> IF bad # "" \/ zero THEN <<>> ELSE st,
        most |-> PartHeadMax + chunk + (IF b = <<>> THEN 0 ELSE Len(b[1])) + 8,
        ahead |-> PartHeadMax + 2 * (chunk + (IF b = <<>> THEN 0 ELSE Len(b[1])) + 8)]
====
