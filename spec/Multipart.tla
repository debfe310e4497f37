---- MODULE Multipart ----
(* multipart/form-data bodies. *)
EXTENDS Bytes, HeaderValue, Params, Names

(* ---- delimiter level ---- *)
TrimEnd(s) ==  \* one line end before a delimiter belongs to the delimiter
    LET a == IF EndsWith(s, LF1) THEN Upto(s, Len(s) - 1) ELSE s
    IN IF EndsWith(a, CR1) THEN Upto(a, Len(a) - 1) ELSE a
Segments(body, delim) ==
    LET ps == TLCEval(SplitSeq(body, delim))
        n == Len(ps)
        cut == [i \in 1..(n - 1) |-> TrimEnd(ps[i])]
    IN IF ps[n] = <<>> THEN cut ELSE Append(cut, ps[n])

(* ---- part level ---- *)
PartHeadMax == 1024
PartHeader(line) ==
    LET hv == TLCEval(HeaderValue(line))
        c == FindByte(hv.main, 58, 1)
    IN IF c = 0 THEN <<>> ELSE <<[name |-> Upto(hv.main, c - 1), value |-> From(hv.main, c + 1), params |-> hv.params]>>
PartOf(seg) ==
    LET he == Find(Upto(seg, Min2(PartHeadMax, Len(seg))), CRLFCRLF, 1)
        lines == TLCEval(SplitSeq(Upto(seg, he - 1), CRLF))
        hs == TLCEval(Flatten([i \in 1..Len(lines) |-> PartHeader(lines[i])]))
        lastOf(n) == LastIdx(1, Len(hs), LAMBDA i : hs[i].name = n)
        cd == lastOf(kCD)
        fn == GetParam(hs[cd].params, kFilename)
        isFile == fn # <<>> /\ fn[1] # <<>>
        nm == GetParam(hs[cd].params, kName)
        te == lastOf(kCTE)
        ct == lastOf(kCT)
        cl == lastOf(kPCL)
    IN IF he = 0 THEN [type |-> "raw"]
       ELSE IF cd = 0 THEN [type |-> "raw"]
       ELSE IF nm = <<>> THEN [type |-> "skip"]
       ELSE IF isFile /\ ~Usable(SentName(fn[1])) THEN [type |-> "skip"]
       ELSE [type |-> IF isFile THEN "file" ELSE "field",
             name |-> Strip(nm[1]),
             filename |-> IF isFile THEN SentName(fn[1]) ELSE <<>>,
             te |-> IF te = 0 THEN <<>> ELSE <<Strip(hs[te].value)>>,
             ct |-> IF ct = 0 THEN <<>> ELSE Strip(hs[ct].value),
             extra |-> IF ct = 0 THEN {} ELSE ParamSet(hs[ct].params),
             charset |-> IF ct = 0 THEN <<>> ELSE GetParam(hs[ct].params, kCharset),
             clen |-> IF cl = 0 THEN <<>> ELSE hs[cl].value,
             head |-> he + 3,
             data |-> From(seg, he + 4)]
IsB64(p) == p.te = <<vBase64>>

(* Payload of a field: decoded if it is valid base64, else unchanged. *)
FieldData(p) == LET s == TLCEval(NoWs(p.data)) IN
                IF IsB64(p) /\ B64Valid(s) THEN B64Decode(s) ELSE p.data
FileData(p) == IF IsB64(p) THEN B64Decode(TLCEval(NoWs(p.data))) ELSE p.data
FileOk(p) == ~IsB64(p) \/ B64Valid(TLCEval(NoWs(p.data)))

(* ---- the whole body ----
   cfg: fieldsMax (-1: none), dataMax (-1: none), fileMax, charset, mode, clen (Content-Length, large ones capped).
   Upload handlers (mode): "conv" moves to disk once the files of the request exceed the limit, "temp" always
   stores on disk, "mem" keeps in memory what announces to fit, "memtemp" falls back to disk for the rest; with
   no handler at all ("none") files are dropped.
   Walks the parts in order; the state is the accounting plus what was delivered. *)
M0 == [err |-> "", nfields |-> 0, nbytes |-> 0, post |-> <<>>, files |-> <<>>, filebytes |-> 0, spilled |-> FALSE,
       loose |-> FALSE,   \* a temporary file was created for an upload that is not delivered
       read |-> TRUE]     \* the body was read
StepPart(m, p, last, cfg) ==
    IF m.err # "" THEN m
    ELSE IF p.type = "field" THEN
        LET nf == m.nfields + 1
            nb == m.nbytes + Len(p.data) + Len(p.name) + 2
        IN IF cfg.fieldsMax >= 0 /\ nf > cfg.fieldsMax THEN [m EXCEPT !.err = "TooMany"]
           ELSE IF cfg.dataMax >= 0 /\ nb > cfg.dataMax THEN [m EXCEPT !.err = "TooBig"]
           ELSE [m EXCEPT !.nfields = nf, !.nbytes = nb,
                          !.post = Append(@, [name |-> Decode(p.name, cfg.charset), data |-> FieldData(p), ct |-> p.ct,
                                              extra |-> p.extra, te |-> IF p.te = <<>> THEN <<>> ELSE p.te[1]])]
    ELSE IF p.type = "file" THEN
        IF ~FileOk(p) THEN [m EXCEPT !.err = "Multipart"]
        ELSE LET d == TLCEval(FileData(p))
                 fb == m.filebytes + Len(d)
                 sp == m.spilled \/ (d # <<>> /\ fb > cfg.fileMax)
                 fits == cfg.clen <= cfg.fileMax
                 disk == CASE cfg.mode = "conv" -> sp
                           [] cfg.mode = "temp" -> TRUE
                           [] cfg.mode = "memtemp" -> ~fits
                           [] cfg.mode \in {"mem", "none"} -> FALSE
                 out == ~last /\ p.name # <<>> /\ cfg.mode # "none" /\ (cfg.mode = "mem" => fits)
             IN [m EXCEPT !.filebytes = fb, !.spilled = sp, !.loose = @ \/ (disk /\ ~out),
                          !.files = IF ~out THEN @
                                    ELSE Append(@, [key |-> p.name, name |-> FileName(p.filename), data |-> d, size |-> Len(d), ct |-> p.ct,
                                                    extra |-> p.extra, charset |-> p.charset, te |-> p.te, disk |-> disk])]
    ELSE m
RECURSIVE WalkParts(_, _, _, _)
WalkParts(segs, i, m, cfg) ==
    IF i > Len(segs) \/ m.err # "" THEN m
    ELSE WalkParts(segs, i + 1, TLCEval(StepPart(m, TLCEval(PartOf(segs[i])), i = Len(segs), cfg)), cfg)

BoundaryOk(b) == /\ Len(b) \in 1..201
                 /\ \A k \in 1..Len(b) : b[k] \in 32..126
                 /\ b[Len(b)] # 32
(* Result of parsing `body` under a head with Content-Type value ctv (its media type already known to be
   multipart/form-data) and Content-Length value clv (<<>> if absent). *)
MultipartOf(body, ctv, clv, cfg) ==
    LET b == GetParam(HeaderValue(ctv).params, kBoundary)
        il == IntLit(clv)
    IN IF b = <<>> \/ ~BoundaryOk(b[1]) THEN [M0 EXCEPT !.err = "Multipart", !.read = FALSE]
       ELSE IF il.ok /\ il.sign < 0 THEN [M0 EXCEPT !.err = "Multipart", !.read = FALSE]
       ELSE IF ~il.ok \/ il.sign = 0 THEN [M0 EXCEPT !.read = FALSE]
       ELSE WalkParts(TLCEval(Segments(body, DASHES \o b[1])), 1, M0,
                      [charset |-> cfg.charset, fieldsMax |-> cfg.fieldsMax, dataMax |-> cfg.dataMax,
                       fileMax |-> cfg.fileMax, mode |-> cfg.mode, clen |-> il.val])
====
