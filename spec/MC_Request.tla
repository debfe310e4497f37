---- MODULE MC_Request ----
(* All histories of calls on NReq request objects up to Depth calls, over a few streams.
   Checked: what C02, C15, C16 and C21 say about every state. With Emit, every transition prints the calls leading
   to it: these histories are replayed into the library. *)
EXTENDS Request, Json

CONSTANTS NReq, Depth, Emit, Full, Setters

Cfg == [cs |-> "latin1", dum |-> 1000000, duf |-> 1000, fum |-> 100000, mode |-> "conv"]
OK(b) == [b |-> b, fail |-> FALSE]
Streams == <<OK(xForm), OK(xMulti), OK(xText), OK(xBad), OK(xGet), OK(xEmptyForm),
             OK(bForm), OK(<<>>), OK(bMulti), OK(bText),
             [b |-> xFailHead, fail |-> TRUE], [b |-> xForm, fail |-> TRUE], [b |-> bText, fail |-> TRUE]>>
Heads == IF Full THEN {1, 2, 3, 4, 5, 6, 11, 12} ELSE {1, 2, 3}
Bodies == IF Full THEN {7, 8, 9, 10, 13} ELSE {7, 8}
Charsets == IF Full THEN {"utf8", "latin1"} ELSE {"utf8"}
Calls == {[op |-> o] : o \in {"head", "pbody", "parse", "body", "readline", "lines", "close"}}
         \cup {[op |-> "read", n |-> 2], [op |-> "read", n |-> -1]}
         \cup {[op |-> "stream", s |-> s] : s \in Heads} \cup {[op |-> "bstream", s |-> s] : s \in Bodies}
         \cup {[op |-> "enc", cs |-> cs] : cs \in Charsets}
\* what a caller sets: a secure scheme, none; a path with text outside ASCII and one given as it is; a host; where uploads go
sPath == <<47, 233, 37, 50, 48, 63, 35>>
Sets == {[op |-> "scheme", v |-> sHttps], [op |-> "scheme", v |-> <<>>], [op |-> "path", v |-> sPath, safe |-> TRUE],
         [op |-> "path", v |-> <<47, 120>>, safe |-> FALSE], [op |-> "set", f |-> "host", v |-> <<111>>],
         [op |-> "handlers", mode |-> "temp", chunk |-> 0], [op |-> "handlers", mode |-> "mem", chunk |-> 0], [op |-> "handlers", mode |-> "none", chunk |-> 0], [op |-> "poke"]}
AllCalls == IF Setters THEN (Calls \ {x \in Calls : x.op \in {"read", "readline", "lines"} \/ (x.op = "stream" /\ x.s > 3)
                                               \/ (x.op = "bstream" /\ x.s \notin {8, 9})}) \cup Sets ELSE Calls

VARIABLES st, hs, bs, raw, told, want, hist
(* hs, bs: the stream assigned last and the body stream assigned since (0: none);
   raw: what was taken from the body as a file, unless the body was replaced; told: a charset was set by the caller;
   want: what the caller set since the last head. *)
view == <<st, hs, bs, raw, told, want>>

Init == /\ hs \in [1..NReq -> Heads]
        /\ st = [r \in 1..NReq |-> InitReq(Cfg, Streams[hs[r]])]
        /\ bs = [r \in 1..NReq |-> 0]
        /\ raw = [r \in 1..NReq |-> <<>>]
        /\ told = [r \in 1..NReq |-> FALSE]
        /\ want = [r \in 1..NReq |-> [f \in {} |-> <<>>]]
        /\ hist = [init |-> hs, ops |-> <<>>]

Apply(s, o) ==
    CASE o.op = "head" -> ParseHead(s) [] o.op = "pbody" -> ParseBody(s) [] o.op = "parse" -> Parse(s)
      [] o.op = "body" -> ReadBody(s) [] o.op = "read" -> ReadN(s, o.n) [] o.op = "readline" -> ReadLine(s, -1)
      [] o.op = "lines" -> Lines(s) [] o.op = "close" -> Close(s)
      [] o.op = "stream" -> SetStream(s, Streams[o.s]) [] o.op = "bstream" -> SetBodyStream(s, Streams[o.s])
      [] o.op = "enc" -> SetCharset(s, o.cs)
      [] o.op = "scheme" -> SetScheme(s, o.v) [] o.op = "path" -> SetPath(s, o.v, o.safe) [] o.op = "set" -> SetField(s, o.f, o.v)
      [] o.op = "handlers" -> SetHandlers(s, o.mode) [] o.op = "poke" -> Poke(s)
Sensible(s, o) == /\ (s.dead => o.op \in {"stream", "bstream", "close", "enc", "scheme", "path", "set", "handlers", "poke"})
                  \* reading an unparsed request as a file consumes its head: outside what is specified as useful
                  /\ (s.hp = "no" => o.op \notin {"read", "readline", "lines"})

Step(r, o) ==
    /\ Sensible(st[r], o)
    /\ LET q == TLCEval(Apply(st[r], o)) IN
       /\ \E ok \in BOOLEAN :
            /\ IF ok THEN "" \in q.errs ELSE q.errs # {""}
            /\ st' = [st EXCEPT ![r] = IF ok THEN q.st ELSE q.stf]
            /\ raw' = [raw EXCEPT ![r] = IF o.op \in {"stream", "bstream"} THEN <<>>
                                         ELSE IF ok /\ o.op \in {"read", "readline"} THEN @ \o q.val
                                         ELSE IF ok /\ o.op = "lines" THEN @ \o Flatten(q.val) ELSE @]
       /\ hs' = [hs EXCEPT ![r] = IF o.op = "stream" THEN o.s ELSE @]
       /\ bs' = [bs EXCEPT ![r] = IF o.op = "bstream" THEN o.s ELSE IF o.op = "stream" THEN 0 ELSE @]
       /\ told' = [told EXCEPT ![r] = @ \/ o.op = "enc"]
       /\ hist' = [hist EXCEPT !.ops = Append(@, o @@ [r |-> r])]
       /\ want' = [want EXCEPT ![r] = CASE o.op = "stream" \/ (st[r].hp = "no" /\ st'[r].hp = "ok") -> [f \in {} |-> <<>>]
                                         [] o.op = "scheme" /\ o.v # <<>> -> ("scheme" :> o.v) @@ @
                                         [] o.op = "path" -> ("path" :> IF o.safe THEN EscapePathKeep(IriToUri(o.v)) ELSE o.v) @@ @
                                         [] o.op = "set" -> (o.f :> o.v) @@ @
                                         [] OTHER -> @]
       /\ Emit => PrintT("## " \o ToJson(hist'))
Next == /\ Len(hist.ops) < Depth
        /\ \E r \in 1..NReq, o \in AllCalls : Step(r, o)
Spec == Init /\ [][Next]_<<st, hs, bs, raw, told, want, hist>>

(* ---- what must hold in every state ---- *)
BodyOf(r) ==   \* the bytes of the body now assigned
    IF bs[r] # 0 THEN Streams[bs[r]].b
    ELSE LET b == Streams[hs[r]].b IN From(b, Find(b, CRLFCRLF, 1) + 4)
HeadIs(r) == HeadOf(Streams[hs[r]].b, "latin1", -1)

(* C15: parsing again changes nothing. *)
Idempotent == \A r \in 1..NReq : /\ st[r].hp # "no" => ParseHead(st[r]) = Ok(st[r], <<>>)
                                 /\ st[r].bp => ParseBody(st[r]) = Ok(st[r], <<>>)
(* C15: the body is never parsed before the head. *)
HeadFirst == \A r \in 1..NReq : st[r].bp /\ ~st[r].dead => st[r].hp # "no"
(* C15: once the head is parsed it is the head of the stream assigned last. *)
OwnHead == \A r \in 1..NReq : st[r].hp = "ok" =>
              /\ st[r].head.method = HeadIs(r).method /\ st[r].head.path = HeadIs(r).path
              /\ st[r].head.host = HeadIs(r).host /\ st[r].head.headers = HeadIs(r).headers
(* C15: once the body is parsed, parameters and files are those of the body assigned last, read with no bytes taken before. *)
OwnBody == \A r \in 1..NReq :
    (st[r].bp /\ ~st[r].dead /\ raw[r] = <<>>) =>
        LET b == BodyOf(r) IN
        /\ ~st[r].stale
        /\ st[r].head.ctype = vUrlenc =>
             (\E cs \in {"latin1", "utf8"} : st[r].post = Grouped(ParamsOf(b, cs, -1).pairs)) /\ st[r].files = <<>>
        /\ ~IsForm(st[r].head) => st[r].post = {} /\ st[r].mpost = {} /\ st[r].files = <<>>
(* C02: the bytes taken from the body, the bytes kept and the bytes still to come are the body. *)
Conserved == \A r \in 1..NReq :
    (st[r].hp = "ok" /\ ~st[r].dead /\ ~(st[r].bp)) =>
        LET b == BodyOf(r) IN
        raw[r] \o (IF st[r].cache = "raw" THEN st[r].cval ELSE <<>>) \o st[r].pend = b
(* C02/C15: asking for the raw body twice gives the same. *)
BodyTwice == \A r \in 1..NReq : st[r].cache # "none" =>
                LET q == ReadBody(st[r]) IN q.errs = {""} => ReadBody(q.st) = q
(* C15: a parsed form refuses the raw body. *)
FormRefuses == \A r \in 1..NReq : (st[r].bp /\ st[r].hp = "ok" /\ IsForm(st[r].head)) => ReadBody(st[r]).errs = {"RawPost"}
(* C03/C21: a request whose head could not be parsed shows no head. *)
NothingShown == \A r \in 1..NReq : st[r].hp # "ok" => Seen(st[r]).method = NoneVal /\ Params(st[r]) = {}
(* C21: no call on a failing source whose data would be needed to the end succeeds. *)
NoTruncation == \A r \in 1..NReq : (st[r].failing /\ ~st[r].dead /\ st[r].hp = "ok") =>
                  /\ "" \notin ReadBody(st[r]).errs \/ st[r].cache # "none"
                  /\ "" \notin Lines(st[r]).errs
                  /\ (~st[r].bp /\ st[r].head.ctype # vFormData) => "" \notin ParseBody(st[r]).errs
(* C16: what a request shows does not depend on the others: its charset is its own. *)
OwnCharset == \A r \in 1..NReq : st[r].cs = "utf8" =>
                 \/ st[r].hp = "ok" /\ st[r].head.declared
                 \/ told[r]
(* C30: what the caller set is shown, and all else is as without it. *)
Shows == \A r \in 1..NReq : st[r].hp \in {"no", "ok"} =>
    LET s == TLCEval(Seen(st[r])) h == TLCEval(HeadSeen(st[r])) w == want[r] IN
    /\ \A f \in DOMAIN w : s[f] = w[f]
    /\ \A f \in {"method", "scheme", "host", "port", "path", "proto", "query", "headers", "ctype", "ajax"} \ DOMAIN w : s[f] = h[f]
    /\ s.secure = (s.scheme = sHttps)
    /\ IsAscii(s.fullpath) /\ (s.path # NoneVal => StartsWith(s.fullpath, EscapePathKeep(s.path)))
    /\ ("path" \in DOMAIN w /\ w["path"] # <<47, 120>> => w["path"] = EscapePathKeep(sPath))
(* C30: an upload went where the handlers say that are assigned now, for they cannot be changed any more. *)
Placed == \A r \in 1..NReq : (~st[r].stale /\ ~st[r].dead) => (st[r].cfg.mode = "none" => st[r].files = <<>>) /\ \A i \in 1..Len(st[r].files) : st[r].files[i].disk = (st[r].cfg.mode = "temp")
Processed == \A r \in 1..NReq : (st[r].files # <<>> /\ ~st[r].stale) => st[r].proc = "yes"
====
