---- MODULE Tr_Request ----
(* Trace validation: every recorded call on a request object must be a step of the specification.
   One behaviour per recorded case; a case that is no behaviour prints the clauses that fail. *)
EXTENDS Request, Json, IOUtils, TLCExt

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, st

Ev(i) == Cases[i].ops
Init == /\ c \in 1..Len(Cases)
        /\ l = 1
        /\ st = [r \in 1..Len(Cases[c].cfgs) |-> InitReq(Cases[c].cfgs[r], IF Cases[c].init[r] = 0 THEN [b |-> <<>>, fail |-> FALSE]
                                                                       ELSE Cases[c].streams[Cases[c].init[r]])
                                              @@ [reused |-> FALSE, lost |-> FALSE]]

ToSet2(s) == {s[i] : i \in 1..Len(s)}
PairSet(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}

(* ---- clauses about one call ---- *)
CallClauses(op, o, r) ==
    LET okv == o.err = "" IN
    (IF o.err \notin r.errs THEN {"err." \o op.op \o ":" \o o.err \o " for " \o ToString(r.errs)} ELSE {})
    \cup (IF o.err \in {"IOError", "Unreadable"} /\ ~o.args THEN {"args." \o op.op} ELSE {})
    \cup (IF okv /\ "" \in r.errs /\ op.op \in {"body", "read", "readline"} /\ o.val # r.val THEN {"val." \o op.op} ELSE {})
    \cup (IF okv /\ op.op \in {"handlers", "poke"} /\ ~o.args THEN {"val." \o op.op} ELSE {})
    \cup (IF okv /\ "" \in r.errs /\ op.op \in {"lines", "readlines", "xreadlines"} /\ o.lines # r.val THEN {"val." \o op.op} ELSE {})

(* ---- clauses about what is visible after it ---- *)
FullOf(st1, s, slash) == FullPath(IF s.path = NoneVal THEN <<>> ELSE s.path, IF st1.hp = "ok" THEN st1.head.query ELSE <<>>, slash)
RawOf(st1, s) == EncodeU8(UriToIri(FullOf(st1, s, FALSE)))
\* decoders differ in how many replacement characters they make of a byte sequence cut off
Utf8Path(st1, s) == DecodableIn(UnquoteBytes(FullOf(st1, s, FALSE)), "utf8")
HeadClauses(st1, v) ==
    IF st1.hp = "odd" \/ (st1.hp = "bad" /\ st1.ov # {}) THEN {}
    ELSE LET s == TLCEval(Seen(st1)) IN
    {"snap." \o f : f \in {g \in {"method", "scheme", "host", "port", "path", "proto", "query", "ctype", "secure", "ajax"} : s[g] # v[g]}}
    \cup (IF s.headers # PairSet(v.headers) \/ Cardinality(s.headers) # Len(v.headers) THEN {"snap.headers"} ELSE {})
    \cup (IF ~v.getters THEN {"snap.getters"} ELSE {})
    \cup (IF v.hasuri /\ s.fullpath # v.fullpath THEN {"snap.fullpath"} ELSE {})
    \cup (IF v.hasuri /\ s.hosted /\ s.uri # v.uri THEN {"snap.uri"} ELSE {})
    \cup (IF v.hasuri /\ v.slash # FullOf(st1, s, TRUE) THEN {"snap.slash"} ELSE {})
    \cup (IF v.hasuri /\ Utf8Path(st1, s) /\ v.rawpath # RawOf(st1, s) THEN {"snap.rawpath"} ELSE {})
    \cup (IF v.hasuri /\ s.hosted /\ Utf8Path(st1, s) /\ v.rawuri # FullUri(s.scheme, s.host, RawOf(st1, s)) THEN {"snap.rawuri"} ELSE {})
    \cup (IF v.repr # <<>> /\ v.repr # Shown(s) THEN {"snap.repr"} ELSE {})
    \cup (IF v.plain # (s.ctype = vPlain) THEN {"snap.plain"} ELSE {})
    \cup (IF v.cs # st1.cs /\ st1.hp # "bad" THEN {"snap.charset"} ELSE {})
    \cup (IF Params(st1) # PairSet(v.get) \/ Cardinality(PairSet(v.get)) # Len(v.get) THEN {"snap.get"} ELSE {})
    \cup (IF v.weird # 0 THEN {"snap.weird"} ELSE {})

FieldView(fs) == [i \in 1..Len(fs) |-> [data |-> fs[i].data, ct |-> fs[i].ct, te |-> fs[i].te, extra |-> fs[i].extra]]
MpostClauses(st1, v) ==
    LET want == {<<g[1], FieldView(g[2])>> : g \in st1.mpost}
        have == {<<v.mpost[i][1], [j \in 1..Len(v.mpost[i][2]) |->
                    [v.mpost[i][2][j] EXCEPT !.extra = PairSet(@)]]>> : i \in 1..Len(v.mpost)}
        shape(S) == {<<g[1], Len(g[2])>> : g \in S}
        data(S) == {<<g[1], [i \in 1..Len(g[2]) |-> g[2][i].data]>> : g \in S}
    IN IF want = have THEN {}
       ELSE IF shape(want) # shape(have) THEN {"mpost.shape"}
       ELSE IF data(want) # data(have) THEN {"mpost.data"} ELSE {"mpost.meta"}

FileClauses(st1, v) ==
    LET want == GroupFiles(st1.files)
        have == PairSet(v.files)
        shape(S) == {<<g[1], Len(g[2])>> : g \in S}
        wf == [k \in {g[1] : g \in want} |-> (CHOOSE g \in want : g[1] = k)[2]]
        hf == [k \in {g[1] : g \in have} |-> (CHOOSE g \in have : g[1] = k)[2]]
        all(P(_, _)) == \A k \in DOMAIN wf : \A i \in 1..Len(wf[k]) : P(wf[k][i], hf[k][i])
    IN IF shape(want) # shape(have) \/ Len(v.files) # Cardinality(have) THEN {"files.shape"}
       ELSE IF ~all(LAMBDA w, h : h.closed = st1.closed) THEN {IF st1.closed THEN "close.open" ELSE "files.closed"}
       ELSE IF st1.closed THEN {}
       ELSE (IF all(LAMBDA w, h : w.data = h.data) THEN {} ELSE {"files.data"})
       \cup (IF all(LAMBDA w, h : w.size = h.size /\ w.size = h.len) THEN {} ELSE {"files.size"})
       \cup (IF all(LAMBDA w, h : w.name = h.name) THEN {} ELSE {"files.name"})
       \cup (IF all(LAMBDA w, h : w.ct = h.ct /\ w.charset = h.charset /\ w.extra = PairSet(h.extra) /\ w.te = h.te) THEN {} ELSE {"files.meta"})
       \cup (IF all(LAMBDA w, h : h.place = (IF w.disk THEN "disk" ELSE "mem")) THEN {} ELSE {"files.place"})
DiskFiles(st1) == Cardinality({i \in 1..Len(st1.files) : st1.files[i].disk})

BodyClauses(st1, v) ==
    IF st1.stale THEN {}
    ELSE (IF st1.post # PairSet(v.post) \/ Cardinality(st1.post) # Len(v.post) THEN {"snap.post"} ELSE {})
         \cup MpostClauses(st1, v)
         \cup FileClauses(st1, v)

ViewClauses(st1, op, o) ==
    LET v == o.snap IN
    IF "viewerr" \in DOMAIN v THEN {"snap.error:" \o v.viewerr}
    ELSE HeadClauses(st1, v) \cup BodyClauses(st1, v)
         \cup (IF ~v.settings /\ op.op # "enc" THEN {"settings.changed"} ELSE {})
         \cup (IF st1.closed \/ st1.reused \/ st1.loose \/ st1.dead \/ Len(Cases[c].cfgs) > 1 \/ v.ndir = DiskFiles(st1) THEN {} ELSE {"dir.count"})
CloseClauses(st1, o) ==
    IF st1.reused THEN {}
    ELSE (IF o.allclosed THEN {} ELSE {"close.open"}) \cup (IF o.gone THEN {} ELSE {"close.left"})
         \cup (IF "ndir" \notin DOMAIN o.snap \/ st1.loose \/ st1.dead \/ Len(Cases[c].cfgs) > 1 \/ o.snap.ndir = 0 THEN {} ELSE {"close.dir"})

(* ---- steps ---- *)
Live == c > 0 /\ l <= Len(Ev(c))
Op == Ev(c)[l]
S == st[Op.r]

(* a source that once failed goes on failing: what is left of the body cannot be had any more *)
Lasting == \A i \in 1..Len(Cases[c].streams) : "once" \in DOMAIN Cases[c].streams[i] => ~Cases[c].streams[i].once

Report(bad) == PrintT("@@ " \o Cases[c].id \o " REJECT " \o ToString(l) \o " " \o Op.op \o " " \o ToString(bad))
Done == PrintT("@@ " \o Cases[c].id \o " DONE 0 - -")
Take(r) ==
    LET o == Op.obs
        call == CallClauses(Op, o, r)
        fresh == Op.op \in {"stream", "bstream"}
        upd(st0) == [st0 EXCEPT !.reused = (@ \/ fresh), !.lost = ~fresh /\ (@ \/ (o.err \in {"IOError", "Unreadable"} /\ Lasting))]
        judged == S.dead => Op.op \in {"stream", "bstream", "close", "enc", "scheme", "path", "set", "handlers", "poke"}
        st2 == upd(r.alt)      \* the other state possible after an error
        other == o.err # "" /\ r.alt # r.stf /\ judged /\ call = {} /\ TLCEval(ViewClauses(st2, Op, o)) = {}
        st1 == IF other THEN st2 ELSE upd(IF o.err = "" THEN r.st ELSE r.stf)
        bad == IF ~judged THEN (IF S.lost /\ S.hp = "ok" /\ S.cache = "none" /\ Op.op = "body" /\ o.err = "" THEN {"err.body:short"} ELSE {})
               ELSE IF call # {} THEN call
               ELSE TLCEval(ViewClauses(st1, Op, o) \cup (IF Op.op = "close" THEN CloseClauses(st1, o) ELSE {}))
    IN IF bad # {}
       THEN Report(bad) /\ c' = 0 - c /\ l' = l /\ st' = <<>>
       ELSE /\ l' = l + 1
            /\ st' = [st EXCEPT ![Op.r] = IF judged THEN TLCEval(st1) ELSE S]
            /\ c' = c

IsOp(o) == Live /\ Op.op = o
TrHead == IsOp("head") /\ Take(ParseHead(S))
TrParseBody == IsOp("pbody") /\ Take(ParseBody(S))
TrParse == IsOp("parse") /\ Take(Parse(S))
TrBody == IsOp("body") /\ Take(ReadBody(S))
TrRead == IsOp("read") /\ Take(ReadN(S, Op.n))
TrReadLine == IsOp("readline") /\ Take(ReadLine(S, IF "n" \in DOMAIN Op THEN Op.n ELSE -1))
TrLines == (IsOp("lines") \/ IsOp("readlines") \/ IsOp("xreadlines")) /\ Take(Lines(S))
TrSetStream == IsOp("stream") /\ Take(SetStream(S, Cases[c].streams[Op.s]))
TrSetBodyStream == IsOp("bstream") /\ Take(SetBodyStream(S, Cases[c].streams[Op.s]))
TrSetCharset == IsOp("enc") /\ Take(SetCharset(S, Op.cs))
Value == IF Op.v = NoneVal THEN <<>> ELSE Op.v
TrSetScheme == IsOp("scheme") /\ Take(SetScheme(S, Value))
TrSetPath == IsOp("path") /\ Take(SetPath(S, Op.v, Op.safe))
TrSetField == IsOp("set") /\ Take(SetField(S, Op.f, Op.v))
TrSetHandlers == IsOp("handlers") /\ Take(SetHandlers(S, Op.mode))
TrPoke == IsOp("poke") /\ Take(Poke(S))
TrClose == IsOp("close") /\ Take(Close(S))
TrEnd == /\ c > 0 /\ l = Len(Ev(c)) + 1
         /\ IF Cases[c].defaults THEN Done
            ELSE PrintT("@@ " \o Cases[c].id \o " REJECT " \o ToString(l - 1) \o " end " \o ToString({"defaults.changed"}))
         /\ c' = 0 - c /\ l' = l + 1 /\ st' = <<>>

Next == \/ TrHead \/ TrParseBody \/ TrParse \/ TrBody \/ TrRead \/ TrReadLine \/ TrLines
        \/ TrSetStream \/ TrSetBodyStream \/ TrSetCharset \/ TrSetScheme \/ TrSetPath \/ TrSetField \/ TrSetHandlers \/ TrPoke \/ TrClose \/ TrEnd
Spec == Init /\ [][Next]_<<c, l, st>>
====
