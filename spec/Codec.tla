---- MODULE Codec ----
(* Tokens of HTTP: base 36 numbers, URL-safe base64, dates, entity tags. *)
EXTENDS Bytes

(* ---- numbers as decimal digit sequences, most significant first (they exceed TLC's integers) ---- *)
RECURSIVE Carry(_, _, _)
Carry(d, c, acc) ==  \* d: digits still to be multiplied, right to left
    IF d = <<>> THEN (IF c = 0 THEN acc ELSE Carry(d, c \div 10, <<c % 10>> \o acc))
    ELSE Carry(Upto(d, Len(d) - 1), (c + d[Len(d)] * 36) \div 10, <<(c + d[Len(d)] * 36) % 10>> \o acc)
Trimmed(d) == LET k == FirstIdx(1, Len(d), LAMBDA i : d[i] # 0) IN IF k = 0 THEN <<0>> ELSE From(d, k)
MulAdd36(d, x) == Carry(d, x, <<>>)
B36Val(c0) == IF IsDigit(c0) THEN c0 - 48 ELSE LowerC(c0) - 87
IsB36(c0) == IsDigit(c0) \/ IsAlpha(c0)
ToDecimal(s) == LET d == Trimmed(FoldLeft(LAMBDA a, x : MulAdd36(a, B36Val(x)), <<0>>, s))
                IN TLCEval([i \in 1..Len(d) |-> 48 + d[i]])
MaxB36 == 13
B36Refused(s) == Len(s) > MaxB36 \/ s = <<>> \/ \E i \in 1..Len(s) : ~IsB36(s[i])
(* The base 36 text of a number: the only one in lower case without leading zeros. *)
B36Text(s, dec) == /\ s # <<>> /\ \A i \in 1..Len(s) : IsB36(s[i]) /\ LowerC(s[i]) = s[i]
                   /\ (Len(s) > 1 => s[1] # 48)
                   /\ ToDecimal(s) = dec

(* ---- URL-safe base64 without padding ---- *)
B64UAlpha == (65..90) \cup (97..122) \cup (48..57) \cup {45, 95}
FromUrl(s) == [i \in 1..Len(s) |-> IF s[i] = 45 THEN 43 ELSE IF s[i] = 95 THEN 47 ELSE s[i]]
PadTo4(s) == s \o (CASE Len(s) % 4 = 2 -> <<61, 61>> [] Len(s) % 4 = 3 -> <<61>> [] OTHER -> <<>>)
B64UDecode(s) == B64Decode(PadTo4(FromUrl(s)))
B64UOk(s) == AllIn(s, B64UAlpha) /\ Len(s) % 4 # 1
B64UText(s, b) ==   \* s is the unpadded URL-safe text of the bytes b
    /\ AllIn(s, B64UAlpha) /\ Len(s) = (8 * Len(b) + 5) \div 6 /\ B64UDecode(s) = b
    /\ (Len(s) > 0 => LET v == B64Val(FromUrl(s)[Len(s)]) IN CASE Len(s) % 4 = 2 -> v % 16 = 0 [] Len(s) % 4 = 3 -> v % 4 = 0 [] OTHER -> TRUE)

(* ---- dates: days since 1970-01-01 and seconds of the day ---- *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
YearDays(y) == LET p == y - 1 IN 365 * p + (p \div 4) - (p \div 100) + (p \div 400)         \* days before year y, from year 1
MonthDays(y, m) == FoldLeft(LAMBDA a, x : a + MonthLen(y, x), 0, [i \in 1..(m - 1) |-> i])
DaysOf(y, m, d) == YearDays(y) + MonthDays(y, m) + d - 1 - 719162
Weekday(days) == (days + 3 + 7 * 200000) % 7                                               \* 0: Monday
Civil(days) == LET y == CHOOSE z \in 1..9999 : DaysOf(z, 1, 1) <= days /\ (z = 9999 \/ days < DaysOf(z + 1, 1, 1))
                   m == CHOOSE x \in 1..12 : DaysOf(y, x, 1) <= days /\ (x = 12 \/ days < DaysOf(y, x + 1, 1))
               IN [y |-> y, m |-> m, d |-> days - DaysOf(y, m, 1) + 1]
Months == <<<<106,97,110>>, <<102,101,98>>, <<109,97,114>>, <<97,112,114>>, <<109,97,121>>, <<106,117,110>>,
            <<106,117,108>>, <<97,117,103>>, <<115,101,112>>, <<111,99,116>>, <<110,111,118>>, <<100,101,99>>>>
DayNames == <<<<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>>, <<83,117,110>>>>
Cap(s) == <<s[1] - 32>> \o Tail(s)
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Four(n) == Two(n \div 100) \o Two(n % 100)
SP == <<32>>
COLON == <<58>>
GMT == <<32, 71, 77, 84>>
Clock(sec) == Two(sec \div 3600) \o COLON \o Two((sec \div 60) % 60) \o COLON \o Two(sec % 60)
HttpDate(days, sec) == LET k == Civil(days) IN
    DayNames[Weekday(days) + 1] \o <<44, 32>> \o Two(k.d) \o SP \o Cap(Months[k.m]) \o SP \o Four(k.y) \o SP \o Clock(sec) \o GMT

NoDate == [ok |-> FALSE, days |-> 0, sec |-> 0]
IsWordC(x) == IsDigit(x) \/ IsAlpha(x) \/ x = 95
Dig(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
Lit(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
NumAt(s, i, n) == DigitsVal(SubSeq(s, i, i + n - 1), 0)
DigAt(s, i, n) == i + n - 1 <= Len(s) /\ Dig(SubSeq(s, i, i + n - 1))
WordAt(s, i, n) == i + n - 1 <= Len(s) /\ \A j \in i..(i + n - 1) : IsWordC(s[j])
ClockAt(s, i) == DigAt(s, i, 2) /\ Lit(s, i + 2, COLON) /\ DigAt(s, i + 3, 2) /\ Lit(s, i + 5, COLON) /\ DigAt(s, i + 6, 2)
Made(y0, mon, d, s, clk) ==
    LET y == IF y0 < 70 THEN 2000 + y0 ELSE IF y0 < 100 THEN 1900 + y0 ELSE y0
        m == FirstIdx(1, 12, LAMBDA i : Months[i] = Lower(mon))
        hh == NumAt(s, clk, 2) mm == NumAt(s, clk + 3, 2) ss == NumAt(s, clk + 6, 2)
    IN IF m = 0 THEN NoDate
       ELSE IF d \notin 1..MonthLen(y, m) \/ hh > 23 \/ mm > 59 \/ ss > 59 THEN NoDate
       ELSE [ok |-> TRUE, days |-> DaysOf(y, m, d), sec |-> hh * 3600 + mm * 60 + ss]
(* Wdy, DD Mon YYYY HH:MM:SS GMT *)
Rfc1123(s) == IF Len(s) = 29 /\ WordAt(s, 1, 3) /\ Lit(s, 4, <<44, 32>>) /\ DigAt(s, 6, 2) /\ Lit(s, 8, SP) /\ WordAt(s, 9, 3) /\ Lit(s, 12, SP)
                 /\ DigAt(s, 13, 4) /\ Lit(s, 17, SP) /\ ClockAt(s, 18) /\ Lit(s, 26, GMT)
              THEN Made(NumAt(s, 13, 4), SubSeq(s, 9, 11), NumAt(s, 6, 2), s, 18) ELSE NoDate
(* Weekday, DD-Mon-YY HH:MM:SS GMT *)
Rfc850(s) == LET n == Len(s) - 24 IN
              IF n \in 6..9 /\ WordAt(s, 1, n) /\ Lit(s, n + 1, <<44, 32>>) /\ DigAt(s, n + 3, 2) /\ Lit(s, n + 5, <<45>>) /\ WordAt(s, n + 6, 3)
                 /\ Lit(s, n + 9, <<45>>) /\ DigAt(s, n + 10, 2) /\ Lit(s, n + 12, SP) /\ ClockAt(s, n + 13) /\ Lit(s, n + 21, GMT)
              THEN Made(NumAt(s, n + 10, 2), SubSeq(s, n + 6, n + 8), NumAt(s, n + 3, 2), s, n + 13) ELSE NoDate
(* Wdy Mon _D HH:MM:SS YYYY *)
Asctime(s) == IF Len(s) = 24 /\ WordAt(s, 1, 3) /\ Lit(s, 4, SP) /\ WordAt(s, 5, 3) /\ Lit(s, 8, SP) /\ (s[9] = 32 \/ IsDigit(s[9])) /\ IsDigit(s[10])
                 /\ Lit(s, 11, SP) /\ ClockAt(s, 12) /\ Lit(s, 20, SP) /\ DigAt(s, 21, 4)
              THEN Made(NumAt(s, 21, 4), SubSeq(s, 5, 7), (IF s[9] = 32 THEN 0 ELSE s[9] - 48) * 10 + s[10] - 48, s, 12) ELSE NoDate
ParseDate(s) == LET a == Rfc1123(s) b == Rfc850(s) IN IF a.ok THEN a ELSE IF b.ok THEN b ELSE Asctime(s)

(* ---- entity tags ---- *)
IsTag(s) == LET t == IF StartsWith(s, <<87, 47>>) THEN From(s, 3) ELSE s IN
            Len(t) >= 2 /\ t[1] = 34 /\ t[Len(t)] = 34 /\ \A i \in 2..(Len(t) - 1) : t[i] # 34
ParseTags(s) == IF Strip(s) = <<42>> THEN <<<<42>>>>
                ELSE LET ps == SplitByte(s, 44) IN SelectSeq([i \in 1..Len(ps) |-> Strip(ps[i])], IsTag)
QuoteTag(s) == IF IsTag(s) THEN s ELSE <<34>> \o s \o <<34>>
====
