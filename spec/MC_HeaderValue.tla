---- MODULE MC_HeaderValue ----
(* Header values read one character at a time: a scanner that knows quotes and escapes and cuts at ';', and one that takes a
   parameter apart. For every short value they find what HeaderValue says (C08, C29). Blanks around parameters mean nothing,
   a parameter added at the end overrides one of the same name, names are distinct and lower-case. *)
EXTENDS HeaderValue
CONSTANTS Letters, MaxLen
VARIABLES s, sc
vars == <<s, sc>>

(* done: pieces cut off; cur: the piece being read; open: inside quotes; esc: just after a backslash *)
S0 == [done |-> <<>>, cur |-> <<>>, open |-> FALSE, esc |-> FALSE]
Scan(r, c) ==
    IF r.esc /\ c \in {34, 92} THEN [r EXCEPT !.cur = Append(@, c), !.esc = FALSE]
    ELSE IF c = 92 THEN [r EXCEPT !.cur = Append(@, c), !.esc = TRUE]
    ELSE IF c = 34 THEN [r EXCEPT !.cur = Append(@, c), !.open = ~@, !.esc = FALSE]
    ELSE IF c = 59 /\ ~r.open THEN [done |-> Append(r.done, r.cur), cur |-> <<>>, open |-> FALSE, esc |-> FALSE]
    ELSE [r EXCEPT !.cur = Append(@, c), !.esc = FALSE]
Found == Append(sc.done, sc.cur)

(* One parameter: name up to the first '=', blanks dropped, then a quoted string or anything.
   at: where the reader is; good: the value was a whole quoted string *)
P0 == [at |-> "name", name |-> <<>>, val |-> <<>>, pend |-> <<>>, raw |-> <<>>]
Read(p, c) ==
    LET q == [p EXCEPT !.raw = IF p.at = "name" THEN @ ELSE Append(@, c)] IN
    CASE p.at = "name" -> IF c = 61 THEN [q EXCEPT !.at = "lead"] ELSE [q EXCEPT !.name = Append(@, c)]
      [] p.at = "lead" -> IF c \in WsB THEN q ELSE IF c = 34 THEN [q EXCEPT !.at = "in"] ELSE [q EXCEPT !.at = "plain", !.val = <<c>>]
      [] p.at = "in" -> IF c = 34 THEN [q EXCEPT !.at = "end"] ELSE IF c = 92 THEN [q EXCEPT !.at = "esc"] ELSE [q EXCEPT !.val = Append(@, c)]
      [] p.at = "esc" -> IF c \in {34, 92} THEN [q EXCEPT !.at = "in", !.val = Append(@, c)] ELSE [q EXCEPT !.at = "in", !.val = @ \o <<92, c>>]
      [] p.at = "end" -> IF c \in WsB THEN q ELSE [q EXCEPT !.at = "odd"]
      [] p.at = "plain" -> IF c \in WsB THEN [q EXCEPT !.pend = Append(@, c)] ELSE [q EXCEPT !.val = @ \o p.pend \o <<c>>, !.pend = <<>>]
      [] OTHER -> q
Parsed(x) == FoldLeft(Read, P0, x)

Init == s = <<>> /\ sc = S0
Next == Len(s) < MaxLen /\ \E c \in Letters : s' = Append(s, c) /\ sc' = Scan(sc, c)
Spec == Init /\ [][Next]_vars

Cut == Pieces(s) = [i \in 1..Len(Found) |-> Strip(Found[i])]
Main == HeaderValue(s).main = Lower(Strip(Found[1]))
Plain(n) == ~EndsWith(n, <<42>>)
Values == LET got == HeaderValue(s).params
              ps == [i \in 1..(Len(Found) - 1) |-> Parsed(Found[i + 1])]
              last(i) == \A j \in (i + 1)..Len(ps) : ps[j].at # "name" => Lower(Strip(ps[j].name)) # Lower(Strip(ps[i].name)) /\ Plain(Strip(ps[j].name))
          IN \A i \in 1..Len(ps) : (ps[i].at \in {"lead", "end", "plain"} /\ Plain(Strip(ps[i].name)) /\ last(i)) =>
                GetParam(got, Lower(Strip(ps[i].name))) = <<ps[i].val>>
Names == LET got == HeaderValue(s).params IN
    /\ \A i, j \in 1..Len(got) : got[i][1] = got[j][1] => i = j
    /\ \A i \in 1..Len(got) : Lower(got[i][1]) = got[i][1] /\ ~Has(got[i][1], 61)
    /\ Len(got) <= Len(Found) - 1
x == <<97>>
Override == ~sc.open => GetParam(HeaderValue(s \o <<59, 65, 61, 49>>).params, x) = <<<<49>>>>
Blanks == \* "a;b" and " a ; b " are the same
    LET j == FoldLeft(LAMBDA a, p : a \o (IF a = <<>> THEN <<>> ELSE <<59>>) \o <<32>> \o p \o <<9>>, <<>>, Found) IN
    (~sc.open /\ ~sc.esc) => HeaderValue(j) = HeaderValue(s)
====
