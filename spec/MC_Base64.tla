---- MODULE MC_Base64 ----
(* Decoding base64 piece by piece as the code does it: white space is dropped from a piece, then bytes are read one by one
   until it is a whole number of quads, then it is decoded. Checked for every text and every way of cutting it: what the
   handlers get is the decoded whole, or the file is refused (C13). Texts have padding only where it can mean something. *)
EXTENDS Multipart
CONSTANTS MaxLen, Chunk, Letters

VARIABLES text, rest, piece, out, ph
vars == <<text, rest, piece, out, ph>>
Stripped(t) == NoWs(t)
Tame(t) == LET s == Stripped(t) IN \A k \in 1..Len(s) : s[k] = 61 => k >= Len(s) - 1 /\ k > 1 /\ \A j \in k..Len(s) : s[j] = 61
Texts == {t \in UNION {[1..n -> Letters] : n \in 0..MaxLen} : Tame(t)}
Part == [te |-> <<vBase64>>, data |-> text]
Init == text \in Texts /\ rest = text /\ piece = <<>> /\ out = <<>> /\ ph = "next"
Const == UNCHANGED text
Take1 == /\ ph = "next" /\ Const
         /\ IF rest = <<>> THEN ph' = "done" /\ UNCHANGED <<rest, piece, out>>
            ELSE \E n \in 1..Min2(Chunk, Len(rest)) : rest' = From(rest, n + 1) /\ piece' = NoWs(Upto(rest, n)) /\ ph' = "fill" /\ out' = out
Fill == /\ ph = "fill" /\ Const
        /\ LET r == Len(piece) % 4
               n == Min2(4 - r, Len(rest))
           IN IF r = 0 \/ rest = <<>> THEN ph' = "decode" /\ UNCHANGED <<rest, piece, out>>
              ELSE piece' = piece \o NoWs(Upto(rest, n)) /\ rest' = From(rest, n + 1) /\ UNCHANGED <<out, ph>>
Decode1 == /\ ph = "decode" /\ Const /\ UNCHANGED rest
           /\ IF B64Valid(piece) THEN out' = out \o B64Decode(piece) /\ piece' = <<>> /\ ph' = "next"
              ELSE ph' = "refused" /\ UNCHANGED <<out, piece>>
Next == Take1 \/ Fill \/ Decode1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == /\ ph = "done" => FileOk(Part) /\ out = FileData(Part)
         /\ ph = "refused" => ~FileOk(Part)
Aligned == ph = "next" => \E k \in 0..Len(text) : rest = From(text, k + 1) /\ Len(NoWs(Upto(text, k))) % 4 = 0
Ends == <>(ph \in {"done", "refused"})
====
