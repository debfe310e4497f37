---- MODULE MC_Url ----
(* Taking targets and authorities apart, against scanners that read one character at a time: the parts of a target are those a
   left-to-right reader finds, an authority has a host exactly when an automaton for the host grammar accepts it (C01, C03, C04).
   The reconstructed URI leads to the same host, path and query. *)
EXTENDS Uri, Url
CONSTANTS Tokens, MaxTokens, HostTokens, MaxHost
VARIABLES u, sc, a, ho
vars == <<u, sc, a, ho>>

(* ---- a reader of targets ---- *)
R0 == [ph |-> "start", buf |-> <<>>, scheme |-> <<>>, net |-> FALSE, netloc |-> <<>>, path |-> <<>>, par |-> <<>>, semi |-> FALSE, query |-> <<>>]
InPath(r, c) ==
    IF c = 63 THEN [r EXCEPT !.ph = "query"]
    ELSE IF c = 35 THEN [r EXCEPT !.ph = "frag"]
    ELSE IF r.semi /\ c = 47 THEN [r EXCEPT !.ph = "path", !.path = @ \o r.par \o <<47>>, !.par = <<>>, !.semi = FALSE]
    ELSE IF r.semi THEN [r EXCEPT !.par = Append(@, c)]
    ELSE IF c = 59 /\ r.scheme \in UsesParams THEN [r EXCEPT !.ph = "path", !.par = <<59>>, !.semi = TRUE]
    ELSE [r EXCEPT !.ph = "path", !.path = Append(@, c)]
InRest(r, c) == IF c = 47 THEN [r EXCEPT !.ph = "slash"] ELSE InPath(r, c)
Read(r, c) ==
    CASE r.ph = "start" -> IF c = 58 /\ r.buf # <<>> THEN [r EXCEPT !.ph = "rest", !.scheme = Lower(r.buf), !.buf = <<>>]
                           ELSE IF c \in SchemeChars THEN [r EXCEPT !.buf = Append(@, c)]
                           ELSE IF r.buf = <<>> THEN InRest(r, c) ELSE InPath([r EXCEPT !.path = r.buf, !.buf = <<>>], c)
      [] r.ph = "rest" -> InRest(r, c)
      [] r.ph = "slash" -> IF c = 47 THEN [r EXCEPT !.ph = "net", !.net = TRUE] ELSE InPath([r EXCEPT !.path = <<47>>], c)
      [] r.ph = "net" -> IF c \in {47, 63, 35} THEN InPath(r, c) ELSE [r EXCEPT !.netloc = Append(@, c)]
      [] r.ph = "path" -> InPath(r, c)
      [] r.ph = "query" -> IF c = 35 THEN [r EXCEPT !.ph = "frag"] ELSE [r EXCEPT !.query = Append(@, c)]
      [] r.ph = "frag" -> r
Path(r) == CASE r.ph = "start" -> r.buf [] r.ph = "slash" -> <<47>> [] OTHER -> r.path

(* ---- an automaton for authorities ---- *)
PlainC == (97..122) \cup (48..57) \cup {45, 46}
H0 == [q |-> "empty", host |-> <<>>, port |-> <<>>]
HexC == (97..102) \cup (48..57)
Dead(h) == [h EXCEPT !.q = "no"]
Host(h, q, c) == [h EXCEPT !.q = q, !.host = Append(@, c)]
Port(h, q, c) == [h EXCEPT !.q = q, !.port = Append(@, c)]
Step(h, c0) ==
    LET c == LowerC(c0) IN
    CASE h.q \in {"empty", "plain"} /\ c \in PlainC -> Host(h, "plain", c)
      [] h.q = "plain" /\ c = 58 -> [h EXCEPT !.q = "pcolon"]
      [] h.q \in {"pcolon", "pport"} /\ IsDigit(c) -> Port(h, "pport", c)
      [] h.q = "empty" /\ c = 91 -> Host(h, "b0", c)
      [] h.q = "b0" /\ c \in HexC -> Host(h, "b0", c)
      [] h.q = "b0" /\ c = 58 -> Host(h, "b1", c)
      [] h.q \in {"b1", "b2"} /\ c \in HexC \cup {46, 58} -> Host(h, "b2", c)
      [] h.q = "b2" /\ c = 93 -> Host(h, "closed", c)
      [] h.q = "closed" /\ c = 58 -> [h EXCEPT !.q = "bcolon"]
      [] h.q \in {"bcolon", "bport"} /\ IsDigit(c) -> Port(h, "bport", c)
      [] OTHER -> Dead(h)
NoDot(s) == IF EndsWith(s, <<46>>) THEN Upto(s, Len(s) - 1) ELSE s

Init == /\ \/ u = <<>> /\ a = <<0>>
           \/ u = <<0>> /\ a = <<>>
        /\ sc = R0 /\ ho = H0
Word(t) == CASE t = 1001 -> sHttp [] t = 1002 -> sHttps [] t = 1003 -> <<109, 97, 105, 108, 116, 111>> [] OTHER -> <<t>>
Grow == u # <<0>> /\ Len(u) < MaxTokens /\ (\E t \in Tokens : u' = u \o Word(t) /\ sc' = FoldLeft(Read, sc, Word(t))) /\ UNCHANGED <<a, ho>>
GrowHost == u = <<0>> /\ Len(a) < MaxHost /\ (\E t \in HostTokens : a' = Append(a, t) /\ ho' = Step(ho, t)) /\ UNCHANGED <<u, sc>>
Next == Grow \/ GrowHost
Spec == Init /\ [][Next]_vars

Parts == u # <<0>> => LET p == TLCEval(UrlParts(u)) IN
    /\ p.scheme = sc.scheme /\ p.netloc = sc.netloc /\ p.path = Path(sc) /\ p.query = sc.query
    /\ p.ok = ~(sc.net /\ Has(sc.netloc, 91) # Has(sc.netloc, 93))
Authority == u = <<0>> =>
    SplitPort(a) = (IF ho.q \in {"plain", "pport"} THEN <<NoDot(ho.host), ho.port>>
                    ELSE IF ho.q \in {"closed", "bport"} THEN <<ho.host, ho.port>> ELSE <<<<>>, <<>>>>)
HostForm == u = <<0>> => LET h == SplitPort(a) IN
    /\ Lower(h[1]) = h[1] /\ AllIn(h[2], 48..57) /\ AllIn(h[1], HostChars \cup {58, 91, 93})
    /\ (h[1] # <<>> => (Has(h[1], 58) = (h[1][1] = 91)) /\ SplitPort(h[1])[1] = NoDot(h[1]))
(* The URI built from what was found is taken apart into the same again. *)
Rebuilt == u # <<0>> => LET p == TLCEval(UrlParts(u)) h == SplitPort(p.netloc)[1] IN
    (p.ok /\ p.scheme # <<>> /\ h # <<>> /\ ~StartsWith(p.path, <<47, 47>>)) =>
        LET w == TLCEval(UrlParts(FullUri(p.scheme, h, FullPath(p.path, p.query, FALSE)))) IN
        /\ w.ok /\ w.scheme = p.scheme /\ w.netloc = h
        /\ UnquoteBytes(w.path) = UnquoteBytes(p.path)
        /\ UnquoteBytes(w.query) = UnquoteBytes(p.query)
====
