---- MODULE MC_Head ----
(* Reading a head as the code does it: the source is read in pieces of the configured size until a blank line has been seen,
   the surplus is pushed back, and the header lines are cut off one after another. Checked for every byte string, every read
   size and every length of pieces: the head, the lines, the header values and the body are those of Head (C01, C02, C03). *)
EXTENDS Head
CONSTANTS MaxLen, Letters, Sizes

VARIABLES bytes, size, src, buf, body, lines, hs, ph
vars == <<bytes, size, src, buf, body, lines, hs, ph>>
Pre == <<71, 10>>      \* something before, so that the request line is not empty
Init == /\ bytes \in {Pre \o x : x \in UNION {[1..n -> Letters] : n \in 0..MaxLen}}
        /\ size \in Sizes
        /\ src = bytes /\ buf = <<>> /\ body = <<>> /\ lines = <<>> /\ hs = <<>> /\ ph = "read"
Const == UNCHANGED <<bytes, size>>
Read == /\ ph = "read" /\ Const /\ UNCHANGED <<lines, hs>>
        /\ LET n == Min2(size, Len(src))
               b == buf \o Upto(src, n)
               e == Find(b, CRLFCRLF, 1)
           IN IF n = 0 THEN ph' = "Invalid" /\ UNCHANGED <<src, buf, body>>
              ELSE /\ src' = From(src, n + 1)
                   /\ IF e = 0 THEN buf' = b /\ ph' = "read" /\ body' = body
                      ELSE buf' = Upto(b, e - 1) \o CRLF /\ body' = From(b, e + 4) \o src' /\ ph' = "first"
Cut(next) == LET e == Find(buf, CRLF, 2) IN
        IF e = 0 THEN next
        ELSE buf' = From(buf, e + 2) /\ lines' = Append(lines, Upto(buf, e - 1))
First == /\ ph = "first" /\ Const /\ UNCHANGED <<src, body, hs>>
         /\ IF Find(buf, CRLF, 2) = 0 THEN ph' = "Invalid" /\ UNCHANGED <<buf, lines>>
            ELSE Cut(FALSE) /\ ph' = "lines"
Line == /\ ph = "lines" /\ Const /\ UNCHANGED <<src, body>>
        /\ IF Find(buf, CRLF, 2) = 0 THEN ph' = (IF hs = <<>> THEN "Invalid" ELSE "over") /\ UNCHANGED <<buf, lines, hs>>
           ELSE /\ Cut(FALSE)
                /\ LET x == Upto(buf, Find(buf, CRLF, 2) - 1) IN
                   IF Has(x, 58) THEN hs' = Append(hs, HeaderPair(x)) /\ ph' = ph ELSE hs' = hs /\ ph' = "Invalid"
Next == Read \/ First \/ Line
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what Head says *)
E0 == Find(bytes, CRLFCRLF, 1)
H0 == Upto(bytes, E0 - 1) \o CRLF
R0 == Find(H0, CRLF, 2)
Rest0 == From(H0, R0 + 2)
Lines0 == IF Rest0 = <<>> THEN <<>> ELSE SplitSeq(Upto(Rest0, Len(Rest0) - 2), CRLF)
Bad0 == E0 = 0 \/ R0 = 0 \/ Lines0 = <<>> \/ \E i \in 1..Len(Lines0) : ~Has(Lines0[i], 58)
Right == /\ ph = "Invalid" => Bad0
         /\ ph = "over" => /\ ~Bad0
                           /\ lines = <<Upto(H0, R0 - 1)>> \o Lines0
                           /\ hs = [i \in 1..Len(Lines0) |-> HeaderPair(Lines0[i])]
                           /\ body = From(bytes, E0 + 4)
                           /\ HeadOf(bytes, "latin1", -1).err = "Invalid"   \* no proper request line here
Exact == ph \in {"lines", "over"} => bytes = Flatten([i \in 1..Len(lines) |-> lines[i] \o CRLF]) \o buf \o CRLF \o body
Lazy == ph = "read" => Len(buf) + Len(src) = Len(bytes) /\ Find(buf, CRLFCRLF, 1) = 0
Ends == <>(ph \in {"over", "Invalid"})
====
