---- MODULE Bytes ----
(* Byte strings are sequences of integers 0..255, text is a sequence of code points. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Lit

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* The smallest k in lo..hi with P(k), or 0. *)
FirstIdx(lo, hi, P(_)) ==
    IF \E k \in lo..hi : P(k)
    THEN CHOOSE k \in lo..hi : P(k) /\ \A j \in lo..(k - 1) : ~P(j)
    ELSE 0

(* The largest k in lo..hi with P(k), or 0. *)
LastIdx(lo, hi, P(_)) ==
    LET r == FirstIdx(0, hi - lo, LAMBDA d : P(hi - d))
    IN IF \E k \in lo..hi : P(k) THEN hi - r ELSE 0

MatchAt(s, p, k) == /\ k + Len(p) - 1 <= Len(s)
                    /\ \A j \in 1..Len(p) : s[k + j - 1] = p[j]

(* Position (1-based) of the first occurrence of p (non-empty) in s at or after i; 0 if none. *)
Find(s, p, i) == FirstIdx(i, Len(s) - Len(p) + 1, LAMBDA k : s[k] = p[1] /\ MatchAt(s, p, k))
FindByte(s, b, i) == FirstIdx(i, Len(s), LAMBDA k : s[k] = b)
RFindByte(s, b) == LastIdx(1, Len(s), LAMBDA k : s[k] = b)
Has(s, b) == \E k \in 1..Len(s) : s[k] = b
CountByte(s, b) == Cardinality({k \in 1..Len(s) : s[k] = b})

From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

SortedSet(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* The pieces of s between the bytes of the set S. *)
SplitSet(s, S) ==
    LET ps == TLCEval(<<0>> \o SortedSet({k \in 1..Len(s) : s[k] \in S}) \o <<Len(s) + 1>>)
    IN TLCEval([i \in 1..(Len(ps) - 1) |-> SubSeq(s, ps[i] + 1, ps[i + 1] - 1)])
SplitByte(s, b) == SplitSet(s, {b})

(* The pieces of s between leftmost non-overlapping occurrences of p. *)
RECURSIVE SplitSeqFrom(_, _, _, _)
SplitSeqFrom(s, p, i, acc) ==
    LET k == Find(s, p, i)
    IN IF k = 0 THEN Append(acc, From(s, i))
       ELSE SplitSeqFrom(s, p, k + Len(p), Append(acc, SubSeq(s, i, k - 1)))
SplitSeq(s, p) == SplitSeqFrom(s, p, 1, <<>>)

(* White space of Python 2 byte strings and text. *)
WsB == {9, 10, 11, 12, 13, 32}
WsU == WsB \cup {28, 29, 30, 31, 133, 160}
StripSet(s, W) ==
    LET a == FirstIdx(1, Len(s), LAMBDA k : s[k] \notin W)
        b == LastIdx(1, Len(s), LAMBDA k : s[k] \notin W)
    IN IF a = 0 THEN <<>> ELSE SubSeq(s, a, b)
Strip(s) == StripSet(s, WsB)
NoWs(s) == SelectSeq(s, LAMBDA c : c \notin WsB)

LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == TLCEval([i \in 1..Len(s) |-> LowerC(s[i])])

IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
AllIn(s, S) == \A k \in 1..Len(s) : s[k] \in S
IsAscii(s) == \A k \in 1..Len(s) : s[k] < 128

(* The concatenation of a sequence of sequences. *)
Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

Replace1(s, p, r) ==  \* replace leftmost non-overlapping occurrences of p by r
    LET ps == SplitSeq(s, p)
    IN IF Len(ps) = 1 THEN s ELSE FoldLeft(LAMBDA a, b : a \o r \o b, ps[1], SubSeq(ps, 2, Len(ps)))

(* ---- charsets ---- *)
REPL == 65533
Charset(name) ==  \* canonical charset of a declared name, "" if not a known text charset
    LET n == Lower(name) IN
    IF n \in {eUtf8, eUtf8b} THEN "utf8"
    ELSE IF n \in {eLatin1, eLatin1b, eLatin1c} THEN "latin1"
    ELSE IF n \in {eAscii, eAsciib} THEN "ascii" ELSE ""

(* Length of the well-formed UTF-8 sequence at k, 0 if there is none. *)
Cont(s, k) == k <= Len(s) /\ s[k] \in 128..191
U8Len(s, k) ==
    LET b == s[k] IN
    IF b < 128 THEN 1
    ELSE IF b \in 194..223 THEN (IF Cont(s, k + 1) THEN 2 ELSE 0)
    ELSE IF b \in 224..239 THEN
        (IF Cont(s, k + 1) /\ Cont(s, k + 2) /\ (b # 224 \/ s[k + 1] >= 160) /\ (b # 237 \/ s[k + 1] < 160) THEN 3 ELSE 0)
    ELSE IF b \in 240..244 THEN
        (IF Cont(s, k + 1) /\ Cont(s, k + 2) /\ Cont(s, k + 3) /\ (b # 240 \/ s[k + 1] >= 144) /\ (b # 244 \/ s[k + 1] < 144)
         THEN 4 ELSE 0)
    ELSE 0
U8Code(s, k, n) ==
    IF n = 1 THEN s[k]
    ELSE IF n = 2 THEN (s[k] - 192) * 64 + (s[k + 1] - 128)
    ELSE IF n = 3 THEN (s[k] - 224) * 4096 + (s[k + 1] - 128) * 64 + (s[k + 2] - 128)
    ELSE (s[k] - 240) * 262144 + (s[k + 1] - 128) * 4096 + (s[k + 2] - 128) * 64 + (s[k + 3] - 128)
RECURSIVE U8From(_, _, _)
U8From(s, k, acc) ==
    IF k > Len(s) THEN acc
    ELSE LET n == U8Len(s, k) IN
         IF n = 0 THEN U8From(s, k + 1, Append(acc, REPL))
         ELSE U8From(s, k + n, Append(acc, U8Code(s, k, n)))
RECURSIVE U8ValidFrom(_, _)
U8ValidFrom(s, k) == k > Len(s) \/ (U8Len(s, k) # 0 /\ U8ValidFrom(s, k + U8Len(s, k)))

DecodableIn(s, cs) == CASE cs = "latin1" -> TRUE
                        [] cs = "ascii" -> IsAscii(s)
                        [] cs = "utf8" -> IsAscii(s) \/ U8ValidFrom(s, 1)
(* Decoding with replacement of invalid bytes. *)
Decode(s, cs) == IF IsAscii(s) THEN s
                 ELSE CASE cs = "latin1" -> s
                        [] cs = "ascii" -> [i \in 1..Len(s) |-> IF s[i] < 128 THEN s[i] ELSE REPL]
                        [] cs = "utf8" -> U8From(s, 1, <<>>)

U8Bytes(c) == IF c < 128 THEN <<c>>
              ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
              ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
              ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
EncodeU8(t) == IF IsAscii(t) THEN t ELSE FoldLeft(LAMBDA a, c : a \o U8Bytes(c), <<>>, t)
EncodableIn(t, cs) == CASE cs = "latin1" -> \A i \in 1..Len(t) : t[i] < 256
                        [] cs = "ascii" -> IsAscii(t)
                        [] cs = "utf8" -> TRUE
Encode(t, cs) == IF cs = "utf8" THEN EncodeU8(t) ELSE t

(* ---- percent escapes ---- *)
RECURSIVE UnquoteFrom(_, _, _)
UnquoteFrom(s, k, acc) ==
    LET p == FindByte(s, 37, k) IN
    IF p = 0 THEN acc \o From(s, k)
    ELSE IF p + 2 <= Len(s) /\ IsHex(s[p + 1]) /\ IsHex(s[p + 2])
         THEN UnquoteFrom(s, p + 3, acc \o SubSeq(s, k, p - 1) \o <<16 * HexVal(s[p + 1]) + HexVal(s[p + 2])>>)
         ELSE UnquoteFrom(s, p + 1, acc \o SubSeq(s, k, p))
UnquoteBytes(s) == UnquoteFrom(s, 1, <<>>)

(* Maximal runs of ASCII / non-ASCII characters: escapes are decoded run by run. *)
RunStarts(t) == {k \in 1..Len(t) : k = 1 \/ (t[k] < 128) # (t[k - 1] < 128)}
UnquoteText(t, cs) ==
    IF ~Has(t, 37) THEN t
    ELSE IF IsAscii(t) THEN Decode(UnquoteBytes(t), cs)
    ELSE LET st == TLCEval(SortedSet(RunStarts(t)))
             run(i) == SubSeq(t, st[i], IF i = Len(st) THEN Len(t) ELSE st[i + 1] - 1)
             dec(i) == IF run(i)[1] < 128 THEN Decode(UnquoteBytes(run(i)), cs) ELSE run(i)
         IN FoldLeft(LAMBDA a, i : a \o dec(i), <<>>, [i \in 1..Len(st) |-> i])

(* quote(): bytes outside ALPHA DIGIT _ . - and `safe` become %XX. *)
AlwaysSafe == (48..57) \cup (65..90) \cup (97..122) \cup {95, 46, 45}
QuoteBytes(s, safe) ==
    IF \A k \in 1..Len(s) : s[k] \in AlwaysSafe \cup safe THEN s
    ELSE FoldLeft(LAMBDA a, c : IF c \in AlwaysSafe \cup safe THEN Append(a, c)
                                ELSE a \o <<37, HexDigit(c \div 16), HexDigit(c % 16)>>, <<>>, s)
QuotePlus(s) == LET q == QuoteBytes(s, {32}) IN [i \in 1..Len(q) |-> IF q[i] = 32 THEN 43 ELSE q[i]]

(* ---- decimal strings ---- *)
RECURSIVE DigitsVal(_, _)
DigitsVal(s, acc) == IF s = <<>> THEN acc ELSE DigitsVal(Tail(s), acc * 10 + (Head(s) - 48))
(* A whole number literal as int() reads it: ok, sign, val (capped: more than nine digits count as 10^9). *)
IntLit(s) ==
    LET t == Strip(s)
        signed == Len(t) > 0 /\ t[1] \in {43, 45}
        d == IF signed THEN Tail(t) ELSE t
        z == FirstIdx(1, Len(d), LAMBDA k : d[k] # 48)
        m == From(d, z)
    IN IF d = <<>> \/ ~(\A k \in 1..Len(d) : IsDigit(d[k])) THEN [ok |-> FALSE, sign |-> 0, val |-> 0]
       ELSE IF z = 0 THEN [ok |-> TRUE, sign |-> 0, val |-> 0]
       ELSE [ok |-> TRUE, sign |-> IF signed /\ t[1] = 45 THEN -1 ELSE 1,
             val |-> IF Len(m) > 9 THEN 1000000000 ELSE DigitsVal(m, 0)]
RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<48 + n>> ELSE NatDigits(n \div 10) \o <<48 + (n % 10)>>

(* ---- base64 ---- *)
B64Alpha == (65..90) \cup (97..122) \cup (48..57) \cup {43, 47}
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71
             ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE 63
(* Well-formed: alphabet only, padded to a multiple of four, padding only at the end. *)
B64Pad(s) == IF s = <<>> THEN 0 ELSE IF s[Len(s)] # 61 THEN 0 ELSE IF Len(s) > 1 /\ s[Len(s) - 1] = 61 THEN 2 ELSE 1
B64Valid(s) == /\ Len(s) % 4 = 0
               /\ \A k \in 1..(Len(s) - B64Pad(s)) : s[k] \in B64Alpha
B64Quad(s, i) ==  \* the three bytes of quad i (padding read as zero)
    LET v(j) == LET c == s[4 * (i - 1) + j] IN IF c = 61 THEN 0 ELSE B64Val(c)
        n == v(1) * 262144 + v(2) * 4096 + v(3) * 64 + v(4)
    IN <<n \div 65536, (n \div 256) % 256, n % 256>>
B64Decode(s) ==
    LET n == Len(s) \div 4
        q == TLCEval([i \in 1..n |-> B64Quad(s, i)])
    IN TLCEval([k \in 1..(3 * n - B64Pad(s)) |-> q[((k - 1) \div 3) + 1][((k - 1) % 3) + 1]])
====
