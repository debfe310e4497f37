---- MODULE Url ----
(* How a request target and an authority are taken apart. *)
EXTENDS Bytes

SchemeChars == (48..57) \cup (65..90) \cup (97..122) \cup {43, 45, 46}

(* [ok, scheme, netloc, path, query]: the parts of a target; fragment and path parameters are dropped. *)
UrlParts(u) ==
    LET c == FindByte(u, 58, 1)
        hasS == c > 1 /\ AllIn(Upto(u, c - 1), SchemeChars)
        scheme == IF hasS THEN Lower(Upto(u, c - 1)) ELSE <<>>
        r1 == IF hasS THEN From(u, c + 1) ELSE u
        hasN == StartsWith(r1, <<47, 47>>)
        e == FirstIdx(3, Len(r1), LAMBDA k : r1[k] \in {47, 63, 35})
        ne == IF e = 0 THEN Len(r1) ELSE e - 1
        netloc == IF hasN THEN SubSeq(r1, 3, ne) ELSE <<>>
        r2 == IF hasN THEN From(r1, ne + 1) ELSE r1
        f == FindByte(r2, 35, 1)
        r3 == IF f = 0 THEN r2 ELSE Upto(r2, f - 1)
        q == FindByte(r3, 63, 1)
        query == IF q = 0 THEN <<>> ELSE From(r3, q + 1)
        p1 == IF q = 0 THEN r3 ELSE Upto(r3, q - 1)
        sl == RFindByte(p1, 47)
        sc == FindByte(p1, 59, Max2(sl, 1))
        path == IF scheme \in UsesParams /\ sc # 0 THEN Upto(p1, sc - 1) ELSE p1
    IN [ok |-> IsAscii(u) /\ ~(hasN /\ (Has(netloc, 91) # Has(netloc, 93))),
        scheme |-> scheme, netloc |-> netloc, path |-> path, query |-> query]

(* <<host, port>> of an authority; both empty when it is not a plain host with optional port. *)
HostChars == (97..122) \cup (48..57) \cup {46, 45}
SplitPort(authority) ==
    LET h == Lower(authority)
        lc == RFindByte(h, 58)
        tailDigits(k) == k < Len(h) /\ \A j \in (k + 1)..Len(h) : IsDigit(h[j])
        ip6(t) == /\ Len(t) >= 3 /\ t[1] = 91 /\ t[Len(t)] = 93
                  /\ LET m == SubSeq(t, 2, Len(t) - 1)
                         x == FindByte(m, 58, 1)
                     IN /\ x # 0 /\ x < Len(m)
                        /\ \A k \in 1..(x - 1) : m[k] \in (97..102) \cup (48..57)
                        /\ \A k \in (x + 1)..Len(m) : m[k] \in (97..102) \cup (48..57) \cup {46, 58}
        plain(t) == Len(t) > 0 /\ AllIn(t, HostChars)
        dot(t) == IF EndsWith(t, <<46>>) THEN Upto(t, Len(t) - 1) ELSE t
    IN IF plain(h) THEN <<dot(h), <<>>>>
       ELSE IF ip6(h) THEN <<h, <<>>>>
       ELSE IF lc # 0 /\ tailDigits(lc) /\ (plain(Upto(h, lc - 1)) \/ ip6(Upto(h, lc - 1)))
            THEN <<dot(Upto(h, lc - 1)), From(h, lc + 1)>>
       ELSE <<<<>>, <<>>>>
====
