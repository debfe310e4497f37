---- MODULE MC_Names ----
(* What the rules for file names imply, for every short name: the name is one path component of the name sent, whatever
   entities and separators it has, it fits, keeps its extension, and a name once reduced stays as it is (C12). Sent names
   in a header survive quoting (C08, C12). *)
EXTENDS Names, HeaderValue
CONSTANTS MaxLen, Letters, Lim

VARIABLES name, size
Ent == {<<38, 35, 52, 55, 59>>, <<38, 35, 120, 53, 99, 59>>, <<38, 97, 109, 112, 59>>, <<38, 113, 117, 111, 116, 59>>}   \* &#47; &#x5c; &amp; &quot;
Atoms == {<<c>> : c \in Letters} \cup Ent
Init == name = <<>> /\ size = 0
Add(a) == size < MaxLen /\ name' = name \o a /\ size' = size + 1
Next == \E a \in Atoms : Add(a)
Spec == Init /\ [][Next]_<<name, size>>

Fn(s) == ShortenTo(BaseName(s), Lim)
Sent == SentName(name)
Reduced == Fn(Sent)
NoSeparator == ~Has(Reduced, 47) /\ ~Has(Sent, 92)
Fits == Len(Reduced) <= Lim
Stable == Fn(Reduced) = Reduced
Component == LET t == UnescapeEntities(name) IN     \* made of bytes of one component
    Usable(Sent) => \E k \in 0..Len(t) : LET c == Strip(From(t, k + 1)) IN
        (k = 0 \/ t[k] \in {47, 92, 32}) /\ (c \in {Reduced, Strip(Reduced)} \/ Len(Strip(BaseName(Sent))) > Lim \/ Len(BaseName(Sent)) > Lim)
Extension == LET b == BaseName(Sent)
                 x == SplitExt(b)
             IN /\ b = x[1] \o x[2]
                /\ Len(b) > Lim => Reduced = Upto(x[1], Lim - Min2(Lim, Len(x[2]))) \o Upto(x[2], Min2(Lim, Len(x[2])))
                /\ (x[2] # <<>> /\ Len(x[2]) <= Lim) => EndsWith(Reduced, x[2])
(* quoting: \ and " are escaped, the parameter comes back *)
Quote(s) == <<34>> \o Flatten([i \in 1..Len(s) |-> IF s[i] \in {34, 92} THEN <<92, s[i]>> ELSE <<s[i]>>]) \o <<34>>
Line(s) == <<102, 59, 32, 97, 61, 49, 59, 110, 61>> \o Quote(s) \o <<59, 32, 98, 61, 50>>     \* f; a=1;n="...";  b=2
Comes == LET h == HeaderValue(Line(name)) IN
    /\ h.main = <<102>>
    /\ ParamSet(h.params) = {<<<<97>>, <<49>>>>, <<<<110>>, name>>, <<<<98>>, <<50>>>>}
====
