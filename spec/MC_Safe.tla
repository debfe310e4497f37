---- MODULE MC_Safe ----
(* A URL that counts as safe leads a browser nowhere else: against a model of how browsers read a URL (WHATWG), for all
   sequences of tokens. Host patterns match whole labels only. *)
EXTENDS Safe
CONSTANTS Tokens, MaxTokens, HostTokens, MaxHost, Https
VARIABLES u, host, pattern
vars == <<u, host, pattern>>
A == <<97>>
Good == {A}

(* ---- a browser ---- *)
Trim(s) == StripSet(s, 0..32)
NoTab(s) == SelectSeq(s, LAMBDA x : x \notin {9, 10, 13})
SlashC == {47, 92}
SchemeEnd(s) == LET k == FindByte(s, 58, 1) IN
    IF k > 1 /\ IsAlpha(s[1]) /\ AllIn(Upto(s, k - 1), SchemeChars) THEN k ELSE 0
Authority(s) == LET st == FirstIdx(1, Len(s), LAMBDA k : s[k] \notin SlashC)
                    t == IF st = 0 THEN <<>> ELSE From(s, st)
                    e == FirstIdx(1, Len(t), LAMBDA k : t[k] \in {47, 92, 63, 35})
                    a == IF e = 0 THEN t ELSE Upto(t, e - 1)
                    h == From(a, RFindByte(a, 64) + 1)
                    c == IF Len(h) > 0 /\ h[1] = 91 THEN 0 ELSE FindByte(h, 58, 1)
                IN Lower(IF c = 0 THEN h ELSE Upto(h, c - 1))
(* The hosts it may end up at ("self": <<0>>, an other scheme: <<1>>, nowhere: <<>>); for http(s) both readings, whatever the page. *)
Browse(s0) ==
    LET s == TLCEval(NoTab(Trim(s0)))
        k == SchemeEnd(s)
        sch == Lower(Upto(s, k - 1))
        r == From(s, k + 1)
        rel == Len(r) >= 2 /\ r[1] \in SlashC /\ r[2] \in SlashC
    IN IF k = 0 THEN (IF rel THEN {Authority(s)} ELSE {<<0>>})
       ELSE IF sch \notin {sHttp, sHttps} THEN {<<1>>}
       ELSE IF rel THEN {Authority(r)} ELSE {Authority(r), <<0>>}
BrowserScheme(s0) == LET s == NoTab(Trim(s0)) IN Lower(Upto(s, SchemeEnd(s) - 1))

Init == /\ \/ u = <<>> /\ host = <<0>> /\ pattern = <<0>>
           \/ u = <<0>> /\ host = <<>> /\ pattern = <<>>
Grow == /\ u # <<0>> /\ Len(u) < MaxTokens /\ \E t \in Tokens : u' = Append(u, t)
        /\ UNCHANGED <<host, pattern>>
GrowHost == u = <<0>> /\ Len(host) < MaxHost /\ pattern = <<>> /\ (\E t \in HostTokens : host' = Append(host, t)) /\ UNCHANGED <<u, pattern>>
GrowPattern == u = <<0>> /\ Len(pattern) < MaxHost /\ (\E t \in HostTokens \cup {65} : pattern' = Append(pattern, t)) /\ UNCHANGED <<u, host>>
Next == Grow \/ GrowHost \/ GrowPattern
Spec == Init /\ [][Next]_vars

(* Tokens are numbers; those above 1000 are words. *)
Word(t) == CASE t = 1001 -> sHttp [] t = 1002 -> sHttps [] t = 1003 -> sSchemeSep [] OTHER -> <<t>>
Text == TLCEval(Flatten([i \in 1..Len(u) |-> Word(u[i])]))
Url1 == u # <<0>>
Foreign == \* nothing safe leads elsewhere
    (Url1 /\ SafeUrl(Text, Good, FALSE)) => Browse(Text) \subseteq {<<0>>, <<>>} \cup Good
Secure == (Url1 /\ SafeUrl(Text, Good, TRUE)) => SafeUrl(Text, Good, FALSE) /\ BrowserScheme(Text) \in {<<>>, sHttps}
Nobody == (Url1 /\ SafeUrl(Text, {}, FALSE)) => Browse(Text) \subseteq {<<0>>, <<>>} /\ SafeUrl(Text, Good, FALSE)
Plain == {97, 120, 64, 63, 35, 47}
Accepted == Url1 =>
    /\ (Text # <<>> /\ AllIn(Text, Plain) /\ ~StartsWith(Text, <<47, 47>>)) => SafeUrl(Text, {}, TRUE)
    /\ (Text = <<>> \/ (AllIn(Text, Plain) /\ Text[1] = 47)) =>
          /\ SafeUrl(sHttp \o sSchemeSep \o A \o Text, Good, FALSE) /\ SafeUrl(sHttps \o sSchemeSep \o A \o Text, Good, TRUE)
          /\ SafeUrl(<<47, 47>> \o A \o Text, Good, FALSE) /\ ~SafeUrl(<<47, 47>> \o A \o Text, Good, TRUE)
          /\ ~SafeUrl(sHttp \o sSchemeSep \o A \o Text, Good, TRUE)

(* ---- hosts and patterns, label by label ---- *)
Labels(h) == SplitByte(h, 46)
Match == (u = <<0>> /\ SameDomain(host, pattern)) =>
    LET p == Lower(pattern) IN
    IF p[1] # 46 THEN host = p
    ELSE LET q == Labels(Tail(p)) h == Labels(host) IN Len(h) >= Len(q) /\ SubSeq(h, Len(h) - Len(q) + 1, Len(h)) = q
Matches == (u = <<0>> /\ pattern # <<>> /\ host # <<>>) =>
    /\ SameDomain(host, host) = (Lower(host) = host \/ (host[1] = 46 /\ EndsWith(host, Lower(host))))
    /\ SameDomain(host, <<46>> \o host)
    /\ SameDomain(pattern \o <<46>> \o host, <<46>> \o host)
    /\ (host[1] # 46 => ~SameDomain(<<97>> \o host, host))
====
