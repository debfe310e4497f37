---- MODULE HeaderValue ----
(* A header value "main; name=value; name=\"quoted; value\"; name*=charset'lang'escaped". *)
EXTENDS Bytes

(* End of the parameter that starts at k: the first ';' with an even number of quotes since k; escaped quotes and
   backslashes do not count. *)
RECURSIVE OpenAt(_, _, _, _)
OpenAt(s, a, b, open) ==       \* is a quote open after s[a..b]?
    IF a > b THEN open
    ELSE IF s[a] = 92 /\ a < b /\ s[a + 1] \in {34, 92} THEN OpenAt(s, a + 2, b, open)
    ELSE OpenAt(s, a + 1, b, IF s[a] = 34 THEN ~open ELSE open)
PieceEnd(s, k) ==
    LET e == FirstIdx(k, Len(s), LAMBDA j : s[j] = 59 /\ ~OpenAt(s, k, j - 1, FALSE))
    IN IF e = 0 THEN Len(s) + 1 ELSE e
RECURSIVE PiecesFrom(_, _, _)
PiecesFrom(s, k, acc) ==   \* k: position just after a ';'
    LET e == PieceEnd(s, k)
        acc2 == Append(acc, Strip(SubSeq(s, k, e - 1)))
    IN IF e > Len(s) THEN acc2 ELSE PiecesFrom(s, e + 1, acc2)
Pieces(s) == PiecesFrom(s, 1, <<>>)

Unescape(v) == IF Len(v) >= 2 /\ v[1] = 34 /\ v[Len(v)] = 34
               THEN Replace1(Replace1(SubSeq(v, 2, Len(v) - 1), <<92, 92>>, <<92>>), <<92, 34>>, <<34>>)
               ELSE v

Param(p) ==  \* <<name, value>> of one parameter; <<>> if it has no '='
    LET i == FindByte(p, 61, 1)
        n0 == Lower(Strip(Upto(p, i - 1)))
        ext == EndsWith(n0, <<42>>)
        v0 == Strip(From(p, i + 1))
        enc == ext /\ CountByte(v0, 39) = 2
        ps == SplitByte(v0, 39)
        cs == Charset(ps[1])
        v1 == IF ~enc THEN v0
              ELSE IF ~IsAscii(v0) \/ (Has(ps[3], 37) /\ cs = "") THEN ps[3]
              ELSE IF Has(ps[3], 37) THEN EncodeU8(UnquoteText(ps[3], cs)) ELSE ps[3]
    IN IF i = 0 THEN <<>> ELSE <<IF ext THEN Upto(n0, Len(n0) - 1) ELSE n0, Unescape(v1)>>

(* [main, params]: params is a sequence of <<name, value>> with distinct names, the last occurrence deciding. *)
LastWins(ps) == SelectSeq([i \in 1..Len(ps) |->
                              IF \E j \in (i + 1)..Len(ps) : ps[j][1] = ps[i][1] THEN <<>> ELSE ps[i]],
                          LAMBDA p : p # <<>>)
HeaderValue(s) ==
    LET ps == TLCEval(Pieces(s))
    IN [main |-> Lower(ps[1]),
        params |-> LastWins(
                            SelectSeq([i \in 1..(Len(ps) - 1) |-> Param(ps[i + 1])], LAMBDA p : p # <<>>))]
ParamSet(ps) == {ps[i] : i \in 1..Len(ps)}
GetParam(ps, n) == LET k == FirstIdx(1, Len(ps), LAMBDA i : ps[i][1] = n) IN IF k = 0 THEN <<>> ELSE <<ps[k][2]>>
====
