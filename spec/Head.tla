---- MODULE Head ----
(* The head of a request: everything up to the first blank line. *)
EXTENDS Bytes, Url, HeaderValue, Params

BadHead(e) == [err |-> e]
HeaderPair(line) == LET c == FindByte(line, 58, 1) IN <<Upto(line, c - 1), Strip(From(line, c + 1))>>

(* cs: the request's charset before the head is parsed; limit: field-count limit. *)
HeadOf(bytes, cs, limit) ==
    LET e == Find(bytes, CRLFCRLF, 1)
        h == TLCEval(Upto(bytes, e - 1) \o CRLF)
        re == Find(h, CRLF, 2)
        rl == Upto(h, re - 1)
        rest == TLCEval(From(h, re + 2))
        lines == TLCEval(IF rest = <<>> THEN <<>> ELSE SplitSeq(Upto(rest, Len(rest) - 2), CRLF))
        toks == TLCEval(SplitByte(rl, 32))
        u == TLCEval(UrlParts(toks[2]))
        hs == TLCEval([i \in 1..Len(lines) |-> HeaderPair(lines[i])])
        hosts == SelectSeq(hs, LAMBDA p : p[1] = kHost)
        fromHost == u.netloc = <<>>
        hp == TLCEval(SplitPort(IF fromHost THEN hosts[Len(hosts)][2] ELSE u.netloc))
        kept == TLCEval(IF fromHost THEN SelectSeq(hs, LAMBDA p : p[1] # kHost) ELSE hs)
        cts == SelectSeq(kept, LAMBDA p : p[1] = kContentType)
        ct == TLCEval(HeaderValue(cts[Len(cts)][2]))
        dcs == IF cts = <<>> THEN <<>> ELSE GetParam(ct.params, kCharset)
        cs2 == IF dcs # <<>> /\ Charset(dcs[1]) # "" THEN Charset(dcs[1]) ELSE cs
        qp == TLCEval(ParamsOf(u.query, cs2, limit))
    IN IF e = 0 THEN BadHead("Invalid")
       ELSE IF re = 0 THEN BadHead("Invalid")
       ELSE IF \E i \in 1..Len(lines) : ~Has(lines[i], 58) THEN BadHead("Invalid")
       ELSE IF lines = <<>> THEN BadHead("Invalid")
       ELSE IF Len(toks) # 3 THEN BadHead("Invalid")
       ELSE IF ~u.ok THEN BadHead("Invalid")
       ELSE IF fromHost /\ hosts = <<>> THEN BadHead("NoHost")
       ELSE IF u.query # <<>> /\ qp.err # "" THEN BadHead(qp.err)
       ELSE [err |-> "",
             bodyAt |-> e + 4,
             method |-> toks[1], proto |-> toks[3],
             scheme |-> IF u.scheme = <<>> THEN sUNKNOWN ELSE u.scheme,
             host |-> hp[1],
             port |-> IF hp[2] # <<>> THEN hp[2] ELSE IF u.scheme = sHttps THEN p443 ELSE IF u.scheme = sHttp THEN p80 ELSE p65536,
             path |-> u.path, query |-> u.query,
             headers |-> Grouped(kept),
             hasCt |-> cts # <<>>,
             ctype |-> IF cts = <<>> THEN <<>> ELSE ct.main,
             ctvalue |-> IF cts = <<>> THEN <<>> ELSE cts[Len(cts)][2],
             clen |-> LET cl == SelectSeq(kept, LAMBDA p : p[1] = kContentLength) IN IF cl = <<>> THEN <<>> ELSE cl[Len(cl)][2],
             declared |-> cs2 # cs \/ (dcs # <<>> /\ Charset(dcs[1]) # ""),
             charset |-> cs2,
             ajax |-> LET x == SelectSeq(kept, LAMBDA p : p[1] = kXRW) IN x # <<>> /\ x[Len(x)][2] = vXHR,
             params |-> qp.pairs]
====
