---- MODULE File ----
(* Uploaded files: how handlers make them from chunks, and how they read back. *)
EXTENDS Names

(* Lines end at LF, CR LF or CR. *)
IsEnd(s, k) == s[k] = 10 \/ (s[k] = 13 /\ (k = Len(s) \/ s[k + 1] # 10))
CutAt(s, ends) == LET e == TLCEval(<<0>> \o SortedSet(ends \cup (IF s = <<>> THEN {} ELSE {Len(s)})))
                  IN [i \in 1..(Len(e) - 1) |-> SubSeq(s, e[i] + 1, e[i + 1])]
Lines(s) == CutAt(s, {k \in 1..Len(s) : IsEnd(s, k)})
LfLines(s) == CutAt(s, {k \in 1..Len(s) : s[k] = 10})
Pieces(s, n) == CutAt(s, {k \in 1..Len(s) : k % n = 0})

(* Where the file of chunk sizes ps goes when `before` bytes were already received: the limit is on all the bytes together. *)
Total(ps) == FoldLeft(LAMBDA a, p : a + Len(p), 0, ps)
Spills(before, ps, limit) == ps # <<>> /\ before + Total(ps) > limit

(* A file: [data, pos, open, temp, size]. *)
New(d, temp) == [data |-> d, pos |-> 0, open |-> TRUE, temp |-> temp]
Left(f) == From(f.data, f.pos + 1)
ReadN(f, n) == IF n < 0 THEN Left(f) ELSE Upto(Left(f), Min2(n, Len(Left(f))))
LineN(f) == LET l == LfLines(Left(f)) IN IF l = <<>> THEN <<>> ELSE l[1]
Moved(f, d) == [f EXCEPT !.pos = Min2(@ + Len(d), Max2(@, Len(f.data)))]
AtEnd(f) == [f EXCEPT !.pos = Len(f.data)]
Multiple(f, n) == f.temp /\ Len(f.data) > n
====
