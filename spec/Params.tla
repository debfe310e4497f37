---- MODULE Params ----
(* Query strings and urlencoded bodies. *)
EXTENDS Bytes

FieldsOf(q) == SplitSet(q, {38, 59})       \* q: text
Plus(t) == [i \in 1..Len(t) |-> IF t[i] = 43 THEN 32 ELSE t[i]]
PairOf(f, cs) == LET e == FindByte(f, 61, 1)
                     n == IF e = 0 THEN f ELSE Upto(f, e - 1)
                     v == IF e = 0 THEN <<>> ELSE From(f, e + 1)
                 IN <<UnquoteText(Plus(n), cs), UnquoteText(Plus(v), cs)>>
(* The text of raw bytes: in the charset if valid, else Latin-1. *)
QueryText(b, cs) == IF DecodableIn(b, cs) THEN Decode(b, cs) ELSE b

(* limit: -1 for none; a text of no bytes has no field. [err, pairs] *)
ParamsOf(b, cs, limit) ==
    LET t == TLCEval(QueryText(b, cs))
        fs == TLCEval(FieldsOf(t))
    IN IF limit >= 0 /\ t # <<>> /\ Len(fs) > limit THEN [err |-> "TooMany", pairs |-> <<>>]
       ELSE [err |-> "",
             pairs |-> LET ne == SelectSeq(fs, LAMBDA f : f # <<>>)
                       IN TLCEval([i \in 1..Len(ne) |-> PairOf(ne[i], cs)])]

(* The multi-map of a sequence of pairs: a set of <<name, values in order>>. *)
Grouped(pairs) ==
    {<<n, LET vs == SelectSeq(pairs, LAMBDA p : p[1] = n) IN [i \in 1..Len(vs) |-> vs[i][2]]>> :
        n \in {pairs[i][1] : i \in 1..Len(pairs)}}

UrlEncodePair(n, v, cs) == QuotePlus(Encode(n, cs)) \o <<61>> \o QuotePlus(Encode(v, cs))
====
