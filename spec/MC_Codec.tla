---- MODULE MC_Codec ----
(* The codecs of Codec: a calendar that goes day by day, numbers counted up in base 36, all short tag lists and byte strings. *)
EXTENDS Codec
CONSTANTS Years, Start, MaxNum, MaxTag, TagChars, Bytes0, MaxBytes
VARIABLES mode, y, m, d, n, wd, num, dec, tag, by
vars == <<mode, y, m, d, n, wd, num, dec, tag, by>>
Z == /\ y = 0 /\ m = 0 /\ d = 0 /\ n = 0 /\ wd = 0
Init == \/ mode = "cal" /\ y \in Start /\ m = 1 /\ d = 1 /\ n = DaysOf(y, 1, 1) /\ wd = Weekday(n) /\ num = <<48>> /\ dec = <<48>> /\ tag = <<>> /\ by = <<>>
        \/ mode = "num" /\ Z /\ num = <<48>> /\ dec = <<48>> /\ tag = <<>> /\ by = <<>>
        \/ mode = "tag" /\ Z /\ num = <<48>> /\ dec = <<48>> /\ tag = <<>> /\ by = <<>>
        \/ mode = "b64" /\ Z /\ num = <<48>> /\ dec = <<48>> /\ tag = <<>> /\ by = <<>>
(* The length of the current month, by the Gregorian rule read off a cycle of 400 years. *)
ModelLen == IF m = 2 THEN (IF (y % 400) \in {4 * k : k \in 0..99} \ {100, 200, 300} THEN 29 ELSE 28)
            ELSE IF m <= 7 THEN 30 + (m % 2) ELSE 31 - (m % 2)
NextDay == /\ mode = "cal" /\ ~(\E s \in Start : y = s + Years) 
           /\ IF d < ModelLen THEN d' = d + 1 /\ UNCHANGED <<m, y>>
              ELSE d' = 1 /\ (IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1)
           /\ n' = n + 1 /\ wd' = (wd + 1) % 7 /\ UNCHANGED <<mode, num, dec, tag, by>>
RECURSIVE Inc(_, _)
Inc(s, b) == IF s = <<>> THEN <<49>>
             ELSE LET x == s[Len(s)] r == Upto(s, Len(s) - 1) IN
                  IF x = 57 /\ b = 36 THEN Append(r, 97)
                  ELSE IF x = (IF b = 36 THEN 122 ELSE 57) THEN Append(Inc(r, b), 48) ELSE Append(r, x + 1)
Count == /\ mode = "num" /\ n < MaxNum /\ n' = n + 1 /\ num' = Inc(num, 36) /\ dec' = Inc(dec, 10) /\ UNCHANGED <<mode, y, m, d, wd, tag, by>>
GrowTag == mode = "tag" /\ Len(tag) < MaxTag /\ (\E x \in TagChars : tag' = Append(tag, x)) /\ UNCHANGED <<mode, y, m, d, n, wd, num, dec, by>>
GrowBytes == mode = "b64" /\ Len(by) < MaxBytes /\ (\E x \in Bytes0 : by' = Append(by, x)) /\ UNCHANGED <<mode, y, m, d, n, wd, num, dec, tag>>
Next == NextDay \/ Count \/ GrowTag \/ GrowBytes
Spec == Init /\ [][Next]_vars

Calendar == mode = "cal" => DaysOf(y, m, d) = n /\ Weekday(n) = wd
Long == <<<<77,111,110,100,97,121>>, <<84,117,101,115,100,97,121>>, <<87,101,100,110,101,115,100,97,121>>, <<84,104,117,114,115,100,97,121>>, <<70,114,105,100,97,121>>, <<83,97,116,117,114,100,97,121>>, <<83,117,110,100,97,121>>>>
Sec == (n * 37 + 86399 * (n % 2)) % 86400
Date == [ok |-> TRUE, days |-> n, sec |-> Sec]
RoundTrip == (mode = "cal" /\ d \in {1, 28, 29, 31}) =>
    LET s == HttpDate(n, Sec) IN
    /\ Len(s) = 29 /\ ParseDate(s) = Date
    /\ (y \in 1970..2069 => ParseDate(Long[wd + 1] \o <<44, 32>> \o Two(d) \o <<45>> \o Cap(Months[m]) \o <<45>> \o Two(y % 100) \o SP \o Clock(Sec) \o GMT) = Date)
    /\ ParseDate(DayNames[wd + 1] \o SP \o Cap(Months[m]) \o SP \o (IF d < 10 THEN <<32, 48 + d>> ELSE Two(d)) \o SP \o Clock(Sec) \o SP \o Four(y)) = Date
    /\ ~ParseDate(From(s, 2)).ok /\ ~ParseDate(Append(s, 32)).ok /\ ~ParseDate(Upto(s, 28)).ok
Known == DaysOf(1970, 1, 1) = 0 /\ DaysOf(1994, 11, 6) = 9075 /\ Weekday(9075) = 6 /\ DaysOf(2000, 2, 29) = 11016 /\ DaysOf(1, 1, 1) = -719162
Base36 == mode = "num" => ToDecimal(num) = dec /\ B36Text(num, dec) /\ ~B36Text(<<48>> \o num, dec) /\ ToDecimal(<<48>> \o num) = dec
Tags == mode = "tag" =>
    LET r == ParseTags(tag) IN
    /\ \A i \in 1..Len(r) : r[i] = <<42>> \/ IsTag(r[i])
    /\ ParseTags(FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o <<44>> \o x, <<>>, r)) = r
    /\ (~Has(tag, 34) => QuoteTag(QuoteTag(tag)) = QuoteTag(tag) /\ IsTag(QuoteTag(tag)))
    /\ (IsTag(tag) /\ ~Has(tag, 44) => ParseTags(tag) = <<tag>> /\ QuoteTag(tag) = tag)
(* One text for every byte string, by the alphabet: the value of the bits. *)
Alpha64(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 45 ELSE 95
Bit(b, i) == IF i > 8 * Len(b) THEN 0 ELSE LET x == b[((i - 1) \div 8) + 1] j == 7 - ((i - 1) % 8) IN (x \div (2 ^ j)) % 2
Enc64(b) == [k \in 1..((8 * Len(b) + 5) \div 6) |-> Alpha64(FoldLeft(LAMBDA a, i : 2 * a + Bit(b, 6 * (k - 1) + i), 0, <<1, 2, 3, 4, 5, 6>>))]
Base64 == mode = "b64" => B64UOk(Enc64(by)) /\ B64UDecode(Enc64(by)) = by /\ B64UText(Enc64(by), by)
====
