---- MODULE Safe ----
(* Which URLs may be redirected to, and which hosts match a pattern. *)
EXTENDS Url

(* White space that is dropped from the ends of text, and characters of the control, format, private and noncharacter categories. *)
WsT == WsU \cup {5760, 6158, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
IsCtl(x) == x < 32 \/ x \in 127..159 \/ x \in {173, 65279} \/ x \in 8203..8207 \/ x \in 8234..8238 \/ x \in 55296..63743 \/ x \in 64976..65007 \/ x \in {65534, 65535}

SSS == <<47, 47, 47>>
Clean(u) == SelectSeq(StripSet(u, WsT), LAMBDA x : x \notin {9, 10, 13})
Slashes(u) == [i \in 1..Len(u) |-> IF u[i] = 92 THEN 47 ELSE u[i]]
PartSafe(u, hosts, https) ==
    LET p == TLCEval(UrlParts(u))
        scheme == IF p.scheme = <<>> /\ p.netloc # <<>> THEN sHttp ELSE p.scheme
    IN /\ ~StartsWith(u, SSS)
       /\ Has(p.netloc, 91) = Has(p.netloc, 93)
       /\ ~(p.netloc = <<>> /\ p.scheme # <<>>)
       /\ ~IsCtl(u[1])
       /\ p.netloc = <<>> \/ p.netloc \in hosts
       /\ scheme = <<>> \/ scheme = sHttps \/ (scheme = sHttp /\ ~https)
SafeUrl(u, hosts, https) ==
    LET t == TLCEval(Clean(u)) IN t # <<>> /\ PartSafe(t, hosts, https) /\ PartSafe(TLCEval(Slashes(t)), hosts, https)

SameDomain(host, pattern) ==
    /\ pattern # <<>>
    /\ LET p == Lower(pattern) IN (p[1] = 46 /\ (EndsWith(host, p) \/ host = Tail(p))) \/ p = host
====
