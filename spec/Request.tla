---- MODULE Request ----
(* The life of a request object: a stream is assigned, the head is parsed, the body is parsed or read,
   streams are replaced, the charset is changed, the request is closed.

   A state is a record; Step(st, op) gives the outcomes the library may show for one call:
     errs : the set of error categories allowed ("" for success),
     val  : the value the call returns when it succeeds (<<>> if it returns none),
     st   : the state after success, stf : the state after an error
     (alt : another state possible after an error).

   Configuration cfg: dum (in-memory data limit, -1: none), duf (parameter limit, -1: none),
   fum (in-memory file limit), cs (charset), mode (upload handlers: "conv", "temp", "memtemp", "mem", "none"). *)
EXTENDS Head, Multipart, Uri

NoHead == [err |-> "none"]
NoneVal == <<-1>>

InitReq(cfg, s) ==
    [cfg |-> cfg, cs |-> cfg.cs, und |-> "",
     pend |-> s.b, failing |-> s.fail,
     hp |-> "no", head |-> NoHead,
     bp |-> FALSE, cache |-> "none", cval |-> <<>>,
     post |-> {}, mpost |-> {}, files |-> <<>>, loose |-> FALSE,
     ov |-> {},            \* what the caller set: <<field, value>>
     proc |-> "no",        \* an upload was processed ("maybe": one of a body assigned before, or one that failed)
     closed |-> FALSE,     \* the files delivered were closed
     stale |-> FALSE,      \* parameters and files still are those of the stream assigned before
     dead |-> FALSE]       \* after a failure that left the stream somewhere unknown

IsForm(h) == h.ctype = vFormData \/ h.ctype = vUrlenc
Ok(st, val) == [errs |-> {""}, val |-> val, st |-> st, stf |-> st, alt |-> st]
Fail(e, st) == [errs |-> {e}, val |-> <<>>, st |-> st, stf |-> st, alt |-> st]
MayIO(r, e, stf) == [r EXCEPT !.errs = @ \cup {e}, !.stf = stf, !.alt = stf]
Dead(st) == [st EXCEPT !.dead = TRUE]

(* ---- the head ---- *)
ParseHead(st) ==
    IF st.hp # "no" THEN Ok(st, <<>>)
    ELSE LET h == TLCEval(HeadOf(st.pend, st.cs, st.cfg.duf))
             bad == [st EXCEPT !.hp = IF h.err \in {"Invalid", "NoHost"} THEN "bad" ELSE "odd", !.dead = TRUE]
             io == [st EXCEPT !.hp = "bad", !.dead = TRUE]
             good == [st EXCEPT !.hp = "ok", !.head = h, !.pend = From(st.pend, h.bodyAt), !.cs = h.charset,
                                !.und = IF h.declared THEN st.cs ELSE @, !.ov = {}]
         IN IF st.failing /\ Find(st.pend, CRLFCRLF, 1) = 0 THEN Fail("IOError", io)
            ELSE IF h.err # ""
                 THEN IF st.failing THEN [Fail(h.err, bad) EXCEPT !.errs = {h.err, "IOError"}] ELSE Fail(h.err, bad)
            ELSE IF st.failing THEN MayIO(Ok(good, <<>>), "IOError", io)
            ELSE Ok(good, <<>>)

(* ---- the raw body ---- *)
TooBig(st, n) == st.cfg.dum >= 0 /\ n > st.cfg.dum
ReadBody0(st) ==    \* head parsed
    IF st.bp /\ IsForm(st.head) THEN Fail("RawPost", st)
    ELSE IF st.cache # "none" THEN Ok(st, st.cval)
    ELSE IF st.failing
         THEN [Fail("Unreadable", Dead(st)) EXCEPT !.errs = @ \cup (IF TooBig(st, Len(st.pend)) THEN {"TooBig"} ELSE {})]
    ELSE IF TooBig(st, Len(st.pend)) THEN Fail("TooBig", st)
    ELSE Ok([st EXCEPT !.cache = "raw", !.cval = st.pend, !.pend = <<>>], st.pend)
Then(r, F(_)) ==    \* a call made of two steps
    IF r.errs = {""} THEN F(r.st)
    ELSE IF "" \notin r.errs THEN r
    ELSE LET q == F(r.st) IN [q EXCEPT !.errs = @ \cup (r.errs \ {""}), !.alt = r.stf]
ReadBody(st) == IF st.hp = "no" THEN Then(ParseHead(st), ReadBody0) ELSE ReadBody0(st)

(* ---- form data ---- *)
MpCfg(st) == [fieldsMax |-> st.cfg.duf, dataMax |-> st.cfg.dum, fileMax |-> st.cfg.fum,
              charset |-> st.cs, mode |-> st.cfg.mode]
GroupFiles(fs) == {<<k, SelectSeq(fs, LAMBDA f : f.key = k)>> : k \in {fs[i].key : i \in 1..Len(fs)}}
GroupFields(fs) == {<<k, SelectSeq(fs, LAMBDA f : f.name = k)>> : k \in {fs[i].name : i \in 1..Len(fs)}}

ParseBody0(st) ==
    IF st.bp THEN Ok(st, <<>>)
    ELSE IF st.hp = "no" THEN Fail("HeaderNotParsed", st)
    ELSE
    LET p == st.cval \o st.pend
        s0 == [st EXCEPT !.cache = "none", !.cval = <<>>, !.pend = p]
        clean == [s0 EXCEPT !.post = {}, !.mpost = {}, !.files = <<>>, !.loose = FALSE, !.stale = FALSE, !.closed = FALSE]
        h == st.head
        s1 == [s0 EXCEPT !.cache = "raw", !.cval = p, !.pend = <<>>]
    IN IF p = <<>> THEN (IF st.failing THEN Fail("IOError", Dead(s0)) ELSE Ok(clean, <<>>))
       ELSE IF h.ctype = vFormData THEN
            LET m == TLCEval(MultipartOf(p, h.ctvalue, h.clen, MpCfg(st)))
                good == [clean EXCEPT !.bp = TRUE, !.mpost = GroupFields(m.post), !.files = m.files, !.loose = m.loose,
                                      !.pend = IF m.read THEN <<>> ELSE @]
                bad == Dead([s0 EXCEPT !.bp = TRUE])
            IN IF st.failing /\ m.read
               THEN [Fail("IOError", bad) EXCEPT !.errs = @ \cup (IF m.err # "" THEN {m.err} ELSE {})]
               ELSE IF st.failing THEN [(IF m.err # "" THEN Fail(m.err, bad) ELSE Ok(good, <<>>)) EXCEPT !.errs = @ \cup {"IOError"}, !.stf = bad, !.alt = bad]
               ELSE IF m.err # "" THEN Fail(m.err, bad)
               ELSE Ok(good, <<>>)
       ELSE IF st.failing
            THEN [Fail("IOError", Dead(s0)) EXCEPT !.errs = @ \cup {"Unreadable"} \cup (IF TooBig(s0, Len(p)) THEN {"TooBig"} ELSE {})]
       ELSE IF TooBig(s0, Len(p)) THEN Fail("TooBig", s0)
       ELSE IF h.ctype = vUrlenc THEN
            LET q == TLCEval(ParamsOf(p, st.cs, st.cfg.duf))
            IN IF q.err # "" THEN Fail(q.err, s1)
               ELSE Ok([clean EXCEPT !.bp = TRUE, !.cache = "raw", !.cval = p, !.pend = <<>>, !.post = Grouped(q.pairs)], <<>>)
       ELSE IF ~DecodableIn(p, st.cs) THEN Fail("Decode", s1)
       ELSE Ok([clean EXCEPT !.bp = TRUE, !.cache = "text", !.cval = Decode(p, st.cs), !.pend = <<>>], <<>>)
(* Whether an upload was processed decides if other handlers may still be chosen. *)
ParseBody(st) ==
    LET r == ParseBody0(st)
        done(s) == [s EXCEPT !.proc = IF @ = "no" THEN "maybe" ELSE @]
    IN IF st.bp THEN r
       ELSE [r EXCEPT !.st = IF "" \in r.errs THEN [@ EXCEPT !.proc = "yes"] ELSE done(@), !.stf = done(@), !.alt = done(@)]
Parse(st) == Then(ParseHead(st), ParseBody)

(* ---- the request as a file ---- *)
Unreadable(st) == Fail("Unreadable", Dead(st))
ReadN(st, n) ==
    LET k == IF n < 0 THEN Len(st.pend) ELSE Min2(n, Len(st.pend))
        r == Ok([st EXCEPT !.pend = From(st.pend, k + 1)], Upto(st.pend, k))
    IN IF ~st.failing \/ n = 0 THEN r
       ELSE IF n < 0 \/ n > Len(st.pend) THEN Unreadable(st)
       ELSE MayIO(r, "Unreadable", Dead(st))
LineEnd(s) == LET e == FindByte(s, 10, 1) IN IF e = 0 THEN Len(s) ELSE e
ReadLine(st, n) ==     \* n: at most so many bytes, -1 for any
    LET e == LineEnd(st.pend)
        k == IF n < 0 THEN e ELSE Min2(n, e)
        r == Ok([st EXCEPT !.pend = From(st.pend, k + 1)], Upto(st.pend, k))
    IN IF ~st.failing \/ n = 0 THEN r
       ELSE IF ~Has(Upto(st.pend, k), 10) /\ (n < 0 \/ n > Len(st.pend)) THEN Unreadable(st)
       ELSE MayIO(r, "Unreadable", Dead(st))
RECURSIVE LinesFrom(_, _)
LinesFrom(s, acc) == IF s = <<>> THEN acc ELSE LET k == LineEnd(s) IN LinesFrom(From(s, k + 1), Append(acc, Upto(s, k)))
Lines(st) == IF st.failing THEN Unreadable(st)
             ELSE Ok([st EXCEPT !.pend = <<>>], LinesFrom(st.pend, <<>>))

(* ---- replacing streams and charset ---- *)
SetStream(st, s) ==
    Ok([st EXCEPT !.pend = s.b, !.failing = s.fail, !.hp = "no", !.head = NoHead, !.bp = FALSE,
                  !.cache = "none", !.cval = <<>>, !.stale = TRUE, !.dead = FALSE,
                  !.cs = IF st.und # "" THEN st.und ELSE @, !.und = "",
                  !.ov = {}, !.proc = IF @ = "no" THEN @ ELSE "maybe"], <<>>)
SetBodyStream(st, s) ==
    Ok([st EXCEPT !.pend = s.b, !.failing = s.fail, !.bp = FALSE, !.cache = "none", !.cval = <<>>,
                  !.post = {}, !.mpost = {}, !.files = <<>>, !.loose = FALSE, !.stale = FALSE, !.closed = FALSE,
                  !.dead = (st.hp \in {"bad", "odd"}), !.proc = IF @ = "no" THEN @ ELSE "maybe"], <<>>)
SetCharset(st, cs) ==
    Ok([st EXCEPT !.cs = cs, !.und = "", !.dead = @ \/ (st.bp /\ st.hp = "ok" /\ ~IsForm(st.head))], <<>>)
(* What a caller sets on the request: shown until the next head is parsed or the next stream assigned. *)
SetField(st, f, v) == Ok([st EXCEPT !.ov = {x \in @ : x[1] # f} \cup {<<f, v>>}], <<>>)
SetScheme(st, v) == IF v = <<>> THEN Ok(st, <<>>) ELSE SetField(st, "scheme", v)
SetPath(st, v, safely) == SetField(st, "path", IF safely THEN EscapePathKeep(IriToUri(v)) ELSE v)
SetHandlers(st, mode) ==
    LET r == Ok([st EXCEPT !.cfg.mode = mode], <<>>) IN
    CASE st.proc = "no" -> r
      [] st.proc = "yes" -> Fail("AttributeError", st)
      [] OTHER -> MayIO(r, "AttributeError", st)
(* The caller adds to the parameters of the content types delivered: those of this request, and of no later body. *)
Poked(f) == [f EXCEPT !.extra = @ \cup {<<sPoked, sYes>>}]
Poke(st) == Ok([st EXCEPT !.mpost = {<<g[1], [i \in 1..Len(g[2]) |-> Poked(g[2][i])]>> : g \in @},
                          !.files = [i \in 1..Len(@) |-> Poked(@[i])]], <<>>)
Close(st) == Ok([st EXCEPT !.closed = TRUE], <<>>)

(* ---- what can be seen of a state ---- *)
Params(st) == IF st.hp # "ok" THEN {} ELSE Grouped(ParamsOf(st.head.query, st.cs, -1).pairs)
HeadSeen(st) ==
    IF st.hp = "ok"
    THEN LET fp == TLCEval(FullPath(st.head.path, st.head.query, FALSE)) IN
         [method |-> st.head.method, scheme |-> st.head.scheme, host |-> st.head.host, port |-> st.head.port,
          path |-> st.head.path, proto |-> st.head.proto, query |-> st.head.query, headers |-> st.head.headers,
          hosted |-> TRUE, ctype |-> IF st.head.hasCt THEN st.head.ctype ELSE NoneVal,
          secure |-> st.head.scheme = sHttps, ajax |-> st.head.ajax,
          fullpath |-> fp, uri |-> FullUri(st.head.scheme, st.head.host, fp)]
    ELSE [method |-> NoneVal, scheme |-> NoneVal, host |-> NoneVal, port |-> NoneVal,
          path |-> NoneVal, proto |-> NoneVal, query |-> NoneVal, headers |-> {}, hosted |-> FALSE, ctype |-> NoneVal,
          secure |-> FALSE, ajax |-> FALSE, fullpath |-> <<>>, uri |-> <<>>]
Over(st, s, f) == IF \E x \in st.ov : x[1] = f THEN (CHOOSE x \in st.ov : x[1] = f)[2] ELSE s[f]
Seen(st) ==
    IF st.ov = {} THEN HeadSeen(st)
    ELSE LET s == TLCEval(HeadSeen(st))
             sch == Over(st, s, "scheme") host == Over(st, s, "host") path == Over(st, s, "path")
             fp == FullPath(IF path = NoneVal THEN <<>> ELSE path, IF st.hp = "ok" THEN st.head.query ELSE <<>>, FALSE)
         IN [s EXCEPT !.scheme = sch, !.host = host, !.path = path, !.method = Over(st, s, "method"),
                      !.secure = sch = sHttps, !.fullpath = fp, !.hosted = sch # NoneVal /\ host # NoneVal,
                      !.uri = FullUri(sch, host, fp)]
(* The text of the request in a log. *)
Quoted(t) == LET q == IF Has(t, 39) THEN 34 ELSE 39 IN <<q>> \o t \o <<q>>
Shown(s) == IF s.method = NoneVal \/ s.fullpath = <<>> THEN sNameless ELSE sNamed \o s.method \o <<32>> \o Quoted(s.fullpath) \o <<62>>
====
