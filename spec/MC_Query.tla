---- MODULE MC_Query ----
(* Parameters and their encoding, for all short dictionaries and all short query strings. *)
EXTENDS Params, FiniteSetsExt
CONSTANTS Chars, Cs, MaxPairs, MaxText, QTokens, MaxQ
VARIABLES pairs, q
vars == <<pairs, q>>
Texts == UNION {[1..n -> Chars] : n \in 0..MaxText}
Init == pairs = <<>> /\ q = <<>>
Add == q = <<>> /\ Len(pairs) < MaxPairs /\ (\E n, v \in Texts : pairs' = Append(pairs, <<n, v>>)) /\ UNCHANGED q
Grow == pairs = <<>> /\ Len(q) < MaxQ /\ (\E x \in QTokens : q' = Append(q, x)) /\ UNCHANGED pairs
Next == Add \/ Grow
Spec == Init /\ [][Next]_vars
Join(ps) == FoldLeft(LAMBDA a, b : IF a = <<>> THEN b ELSE a \o <<38>> \o b, <<>>, ps)
Encoded(ps, cs) == Join([i \in 1..Len(ps) |-> UrlEncodePair(ps[i][1], ps[i][2], cs)])
Ok(ps, cs) == \A i \in 1..Len(ps) : EncodableIn(ps[i][1], cs) /\ EncodableIn(ps[i][2], cs)
RoundTrip == \A cs \in Cs : Ok(pairs, cs) =>
    LET e == Encoded(pairs, cs) IN IsAscii(e) /\ ParamsOf(e, cs, -1) = [err |-> "", pairs |-> pairs]
Raw == TLCEval(Flatten([i \in 1..Len(q) |-> IF q[i] = 1001 THEN <<37, 52, 49>> ELSE IF q[i] = 1002 THEN <<37, 67, 51, 37, 65, 57>> ELSE <<q[i]>>]))
Again == \A cs \in Cs : LET p == ParamsOf(Raw, cs, -1).pairs IN
    Ok(p, cs) => ParamsOf(Encoded(p, cs), cs, -1).pairs = p
(* The fields of a query: as many as separators plus one; the limit counts them all. *)
Limit == LET n == Cardinality({k \in 1..Len(Raw) : Raw[k] \in {38, 59}}) + 1 IN
    \A cs \in Cs : \A lim \in 0..4 :
        /\ ParamsOf(Raw, cs, lim).err = (IF Raw # <<>> /\ n > lim THEN "TooMany" ELSE "")
        /\ (Raw = <<>> \/ n <= lim => ParamsOf(Raw, cs, lim) = ParamsOf(Raw, cs, -1))
(* A reader of queries, one character at a time: a name ends at the first =, a pair at & or ;. *)
Rd0 == [n |-> <<>>, v |-> <<>>, eq |-> FALSE, any |-> FALSE, out |-> <<>>]
Emit(r) == [Rd0 EXCEPT !.out = IF r.any THEN Append(r.out, <<r.n, r.v>>) ELSE r.out]
Rd(r, c) == IF c \in {38, 59} THEN Emit(r)
            ELSE IF c = 61 /\ ~r.eq THEN [r EXCEPT !.eq = TRUE, !.any = TRUE]
            ELSE IF r.eq THEN [r EXCEPT !.v = Append(@, IF c = 43 THEN 32 ELSE c)]
            ELSE [r EXCEPT !.n = Append(@, IF c = 43 THEN 32 ELSE c), !.any = TRUE]
Fields == \A cs \in Cs : LET ps == Emit(FoldLeft(Rd, Rd0, QueryText(Raw, cs))).out IN
    ParamsOf(Raw, cs, -1).pairs = [i \in 1..Len(ps) |-> <<UnquoteText(ps[i][1], cs), UnquoteText(ps[i][2], cs)>>]
Order == \* grouping keeps the order of the values of a name, and nothing else is lost
    LET g == Grouped(pairs) IN
    /\ FoldSet(LAMBDA x, a : a + Len(x[2]), 0, g) = Len(pairs)
    /\ \A x \in g : x[2] = [i \in 1..Len(x[2]) |-> SelectSeq(pairs, LAMBDA p : p[1] = x[1])[i][2]]
====
