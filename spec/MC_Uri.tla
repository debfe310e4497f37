---- MODULE MC_Uri ----
(* The escapes of Uri for all short texts over characters that matter: ASCII only, idempotent, reversible. *)
EXTENDS Uri
CONSTANTS Chars, MaxLen
VARIABLES t, q
vars == <<t, q>>
Init == t = <<>> /\ q = <<>>
Grow == Len(t) < MaxLen /\ q = <<>> /\ (\E x \in Chars : t' = Append(t, x)) /\ UNCHANGED q
GrowQ == Len(t) <= 1 /\ Len(q) < MaxLen - 1 /\ (\E x \in Chars : q' = Append(q, x)) /\ UNCHANGED t
Next == Grow \/ GrowQ
Spec == Init /\ [][Next]_vars

Reserved == {47, 35, 91, 93, 61, 58, 59, 36, 38, 40, 41, 43, 44, 33, 63, 42, 64, 39, 126, 37}
Ascii == IsAscii(IriToUri(t)) /\ IsAscii(EscapePath(t)) /\ IsAscii(FullPath(t, q, TRUE))
Visible == \A x \in {IriToUri(t)[i] : i \in 1..Len(IriToUri(t))} : x \in 33..126
Idempotent == IriToUri(IriToUri(t)) = IriToUri(t) /\ EscapePathKeep(EscapePathKeep(t)) = EscapePathKeep(t)
Kept == \* reserved characters and escapes stay where they are
    SelectSeq(IriToUri(t), LAMBDA x : x \in Reserved \ {37}) = SelectSeq(t, LAMBDA x : x \in Reserved \ {37})
    /\ (AllIn(t, Reserved \cup AlwaysSafe) => IriToUri(t) = t)
Reversible == ~Has(t, 37) => UriToIri(IriToUri(t)) = t
ReversiblePath == UriToIri(EscapePath(t)) = t /\ (~Has(t, 37) => UriToIri(EscapePathKeep(t)) = t)
SameMeaning == \* the escaped form of any text reads as the text does
    UriToIri(IriToUri(t)) = UriToIri(EscapePathKeep(t)) /\ (IsAscii(t) => UriToIri(IriToUri(t)) = UriToIri(t))
OneQuery == LET f == FullPath(t, q, FALSE) g == FullPath(t, q, TRUE) IN
    /\ Has(EscapePathKeep(t), 63) = FALSE /\ Has(EscapePathKeep(t), 35) = FALSE
    /\ FindByte(f, 63, 1) = (IF q = <<>> THEN 0 ELSE Len(EscapePathKeep(t)) + 1)
    /\ (q # <<>> => From(f, FindByte(f, 63, 1) + 1) = IriToUri(q))
    /\ Len(g) - Len(f) = (IF EndsWith(t, <<47>>) THEN 0 ELSE 1)
    /\ (IF q = <<>> THEN EndsWith(g, <<47>>) ELSE g[FindByte(g, 63, 1) - 1] = 47)
Leading == LET e == EscapeLeading(t) IN ~StartsWith(e, <<47, 47>>) /\ (e # t => UriToIri(e) = UriToIri(t) \/ ~IsAscii(t)) /\ EscapeLeading(e) = e
====
