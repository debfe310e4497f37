---- MODULE Names ----
(* From the file name sent by the client to the name of the uploaded file. *)
EXTENDS Bytes

IsWord(c) == IsAlpha(c) \/ IsDigit(c) \/ c = 95
(* A character entity starting at k ('&'): [len, text] with text the replacement; len 0 if none. *)
EntAt(s, k) ==
    LET e == FindByte(s, 59, k)
        b == SubSeq(s, k + 1, e - 1)
        num == Len(b) > 0 /\ b[1] = 35
        n0 == IF num THEN Tail(b) ELSE b
        hex == num /\ Len(n0) > 0 /\ n0[1] \in {120, 88}
        d == IF hex THEN Tail(n0) ELSE n0
        sig == LET f == FirstIdx(1, Len(d), LAMBDA i : d[i] # 48) IN IF f = 0 THEN <<>> ELSE From(d, f)
        small == Len(sig) <= 5
        val == IF hex THEN FoldLeft(LAMBDA a, c : a * 16 + HexVal(c), 0, sig) ELSE DigitsVal(sig, 0)
        okNum == num /\ Len(d) > 0 /\ (IF hex THEN \A i \in 1..Len(d) : IsHex(d[i]) ELSE \A i \in 1..Len(d) : IsDigit(d[i]))
                 /\ small /\ val < 256
        named == IF num \/ Len(b) > 8 \/ Len(b) < 2 THEN {} ELSE {x \in Entities : x[1] = b}
        okName == ~num /\ Len(b) <= 8 /\ named # {} /\ (CHOOSE x \in named : TRUE)[2] < 256
    IN IF e = 0 THEN [len |-> 0, text |-> <<>>]
       ELSE IF okNum THEN [len |-> e - k + 1, text |-> <<val>>]
       ELSE IF okName THEN [len |-> e - k + 1, text |-> <<(CHOOSE x \in named : TRUE)[2]>>]
       ELSE [len |-> 0, text |-> <<>>]
RECURSIVE UnescapeFrom(_, _, _)
UnescapeFrom(s, k, acc) ==
    LET a == FindByte(s, 38, k) IN
    IF a = 0 THEN acc \o From(s, k)
    ELSE LET x == EntAt(s, a) IN
         IF x.len = 0 THEN UnescapeFrom(s, a + 1, acc \o SubSeq(s, k, a))
         ELSE UnescapeFrom(s, a + x.len, acc \o SubSeq(s, k, a - 1) \o x.text)
UnescapeEntities(s) == UnescapeFrom(s, 1, <<>>)

BaseName(s) == From(s, RFindByte(s, 47) + 1)
(* <<root, ext>>: the extension starts at the last dot, leading dots do not count. *)
SplitExt(s) ==
    LET sep == RFindByte(s, 47)
        dot == RFindByte(s, 46)
        lead == FirstIdx(sep + 1, dot - 1, LAMBDA k : s[k] # 46)
    IN IF dot > sep /\ lead # 0 THEN <<Upto(s, dot - 1), From(s, dot)>> ELSE <<s, <<>>>>
ShortenTo(s, m) == IF Len(s) <= m THEN s
                   ELSE LET x == SplitExt(s)
                            ext == Upto(x[2], Min2(m, Len(x[2])))
                        IN Upto(x[1], Min2(m - Len(ext), Len(x[1]))) \o ext
MaxName == 255
Shorten(s) == ShortenTo(s, MaxName)
(* The name of an uploaded-file object given a client name. *)
FileName(s) == Shorten(BaseName(s))
(* Name handed to the upload handlers. *)
SentName(s) == LET t == UnescapeEntities(s) IN Strip(From(t, RFindByte(t, 92) + 1))
Usable(s) == s # <<>> /\ BaseName(s) # <<>>
====
