---- MODULE Dict ----
(* Multi-value dictionaries: a map from keys to lists of values. An object is [cls, mut, cs, map]:
   cls "mvd" (multi-value dictionary), "imvd" (immutable one), "qd" (query dictionary; cs is its charset).
   Every operation gives [errs, ret, o]: the possible errors ("" for none), what is returned, and the object after it. *)
EXTENDS Bytes

NoneV == <<-1>>
EmptyV == <<-3>>    \* an empty list instead of a value
Empty == [k \in {} |-> <<>>]
Obj(cls, mut, cs, map) == [cls |-> cls, mut |-> mut, cs |-> cs, map |-> map]
Keys(o) == DOMAIN o.map
Has1(o, k) == k \in DOMAIN o.map
List(o, k) == o.map[k]
LastOf(l) == IF l = <<>> THEN EmptyV ELSE l[Len(l)]

Put1(o, k, l) == [o EXCEPT !.map = [x \in (DOMAIN @) \cup {k} |-> IF x = k THEN l ELSE @[x]]]
Drop(o, k) == [o EXCEPT !.map = [x \in (DOMAIN @) \ {k} |-> @[x]]]

(* Query dictionaries hold text: byte strings are decoded in the dictionary's charset. *)
Conv(o, x, bytes) == IF o.cls = "qd" /\ bytes /\ x # NoneV THEN Decode(x, o.cs) ELSE x
ConvAll(o, l, bytes) == [i \in 1..Len(l) |-> Conv(o, l[i], bytes)]

Res(o, ret) == [errs |-> {""}, ret |-> ret, o |-> o]
Fail(o, e) == [errs |-> {e}, ret |-> NoneV, o |-> o]
Guard(o, r) == IF o.mut THEN r ELSE Fail(o, "AttributeError")

SetItem(o, k, v) == Guard(o, Res(Put1(o, k, <<v>>), NoneV))
DelItem(o, k) == Guard(o, IF Has1(o, k) THEN Res(Drop(o, k), NoneV) ELSE Fail(o, "KeyError"))
GetItem(o, k) == IF Has1(o, k) THEN Res(o, LastOf(List(o, k))) ELSE Fail(o, "KeyError")
Get(o, k, d) == Res(o, IF Has1(o, k) /\ List(o, k) # <<>> THEN LastOf(List(o, k)) ELSE d)
GetList(o, k, d) == Res(o, IF Has1(o, k) THEN List(o, k) ELSE d)
SetList(o, k, l) == Guard(o, Res(Put1(o, k, l), NoneV))
SetDefault(o, k, v) == Guard(o, IF Has1(o, k) THEN Res(o, LastOf(List(o, k))) ELSE Res(Put1(o, k, <<v>>), v))
SetListDefault(o, k, l) == Guard(o, IF Has1(o, k) THEN Res(o, List(o, k)) ELSE Res(Put1(o, k, l), l))
Extend(o, k, l) == Put1(o, k, (IF Has1(o, k) THEN List(o, k) ELSE <<>>) \o l)
AppendList(o, k, v) == Guard(o, Res(Extend(o, k, <<v>>), NoneV))
RECURSIVE ExtendAll(_, _)
ExtendAll(o, ps) == IF ps = <<>> THEN o ELSE ExtendAll(Extend(o, ps[1][1], ps[1][2]), Tail(ps))
Update(o, ps) == Guard(o, Res(ExtendAll(o, ps), NoneV))      \* ps: pairs of key and list
PopKey(o, k, d) == Guard(o, IF Has1(o, k) THEN Res(Drop(o, k), List(o, k))
                            ELSE IF d = <<>> THEN Fail(o, "KeyError") ELSE Res(o, d[1]))
PopItem(o, k) == Guard(o, IF Keys(o) = {} THEN Fail(o, "KeyError") ELSE Res(Drop(o, k), List(o, k)))
Clear(o) == Guard(o, Res([o EXCEPT !.map = Empty], NoneV))

(* Copies: equal, independent; a copy of a query dictionary can be changed. *)
CopyOf(o) == [o EXCEPT !.mut = (o.cls # "imvd")]
Pairs(o) == {<<k, o.map[k]>> : k \in Keys(o)}
====
