---- MODULE Tr_Dict ----
EXTENDS Dict, TrBase

Make(d) == Obj(d.cls, d.mut, d.cs, [k \in {d.map[i][1] : i \in 1..Len(d.map)} |->
                (CHOOSE p \in {d.map[i] : i \in 1..Len(d.map)} : p[1] = k)[2]])
Init == TrInit(LAMBDA k : <<>>)
Slot(i) == st[i]
A(x) == Conv(Slot(Op.s), x, Op.bytes)
AL(x) == ConvAll(Slot(Op.s), x, Op.bytes)

(* What every accessor shows of an object. *)
View(o, v) ==
    LET m == o.map
        seen == {<<v.lists[i][1], v.lists[i][2]>> : i \in 1..Len(v.lists)}
        last == {<<k, LastOf(m[k])>> : k \in DOMAIN m}
        bag(s) == {<<x, Cardinality({i \in 1..Len(s) : s[i] = x})>> : x \in {s[i] : i \in 1..Len(s)}}
    IN IF seen # Pairs(o) \/ Len(v.lists) # Cardinality(DOMAIN m) THEN {"dict.contents"}
       ELSE If(v.len # Cardinality(DOMAIN m), "dict.len")
       \cup If({<<v.acc[i].k, v.acc[i].item>> : i \in 1..Len(v.acc)} # last, "dict.last")
       \cup If(\E i \in 1..Len(v.acc) : v.acc[i].list # m[v.acc[i].k], "dict.getlist")
       \cup If(\E i \in 1..Len(v.acc) : v.acc[i].get # Get(o, v.acc[i].k, NoneV).ret, "dict.get")
       \cup If(\E i \in 1..Len(v.acc) : ~v.acc[i].in, "dict.in")
       \cup If({<<v.items[i][1], v.items[i][2]>> : i \in 1..Len(v.items)} # last \/ Len(v.items) # Cardinality(last), "dict.items")
       \cup If(bag(v.values) # bag([i \in 1..Len(v.items) |-> v.items[i][2]]), "dict.values")
       \cup If({<<v.dict[i][1], v.dict[i][2]>> : i \in 1..Len(v.dict)} # last, "dict.dict")
       \cup If(o.cls = "qd" /\ v.nontext # 0, "dict.bytes")
       \cup If(v.cls # o.cls, "dict.class")
Views(s) == UNION {View(s[i], Obs.views[i]) : i \in 1..Len(s)} \cup If(Len(Obs.views) # Len(s), "dict.slots")

Call(r) == (IF Obs.err \notin r.errs THEN {"dict.err:" \o Op.op \o ":" \o Obs.err \o " for " \o ToString(r.errs)} ELSE {})
           \cup (IF Obs.err = "" /\ Obs.err \in r.errs /\ Obs.ret # r.ret THEN {"dict.ret:" \o Op.op} ELSE {})
Judge(bad, s) == TrTake(LET b == TLCEval(bad) IN Q(b \cup (IF b = {} THEN TLCEval(Views(s)) ELSE {}), s))
On(r) == LET s1 == TLCEval([st EXCEPT ![Op.s] = r.o]) IN Judge(Call(r), s1)
New(o) == Judge(If(Obs.err # "", "dict.err:" \o Op.op \o ":" \o Obs.err), Append(st, o))

TrMake == IsOp("make") /\ New(Make(Op.obj))
TrSet == IsOp("set") /\ On(SetItem(Slot(Op.s), A(Op.k), A(Op.v)))
TrDel == IsOp("del") /\ On(DelItem(Slot(Op.s), Op.k))
TrItem == IsOp("item") /\ On(GetItem(Slot(Op.s), Op.k))
TrGet == IsOp("get") /\ On(Get(Slot(Op.s), Op.k, Op.v))
TrGetList == IsOp("getlist") /\ On(GetList(Slot(Op.s), Op.k, Op.vs))
(* Changing a list that was handed out changes nothing. *)
TrPoke == IsOp("poke") /\ On(Res(Slot(Op.s), NoneV))
TrSetList == IsOp("setlist") /\ On(SetList(Slot(Op.s), A(Op.k), AL(Op.vs)))
TrSetDefault == IsOp("setdefault") /\ On(SetDefault(Slot(Op.s), A(Op.k), A(Op.v)))
TrSetListDefault == IsOp("setlistdefault") /\ On(SetListDefault(Slot(Op.s), A(Op.k), AL(Op.vs)))
TrAppend == IsOp("append") /\ On(AppendList(Slot(Op.s), A(Op.k), A(Op.v)))
UpdPairs == IF Op.t > 0 THEN LET o == Slot(Op.t) IN [i \in 1..Cardinality(Keys(o)) |-> LET k == SetToSeq(Keys(o))[i] IN <<k, o.map[k]>>]
            ELSE [i \in 1..Len(Op.pairs) |-> <<A(Op.pairs[i][1]), <<A(Op.pairs[i][2])>>>>]
KwPairs == [i \in 1..Len(Op.kwp) |-> <<Op.kwp[i][1], <<Op.kwp[i][2]>>>>]      \* keyword arguments come last
TrUpdate == IsOp("update") /\ On(Update(Slot(Op.s), TLCEval(UpdPairs \o KwPairs)))
TrPop == IsOp("pop") /\ On(PopKey(Slot(Op.s), Op.k, Op.d))
TrPopItem == IsOp("popitem") /\ LET o == Slot(Op.s) IN
                 IF Obs.err = "" /\ o.mut /\ ~Has1(o, Obs.key) THEN Judge({"dict.ret:popitem"}, st)
                 ELSE On(PopItem(o, Obs.key))
TrClear == IsOp("clear") /\ On(Clear(Slot(Op.s)))
TrCopy == IsOp("copy") /\ New(CopyOf(Slot(Op.s)))
TrPickle == IsOp("pickle") /\ New(Slot(Op.s))
TrEnable == IsOp("enable") /\ Judge({}, [st EXCEPT ![Op.s].mut = Op.on])
TrEqual == IsOp("equal") /\ Judge(If(Obs.err # "", "dict.err:equal:" \o Obs.err) \cup If(Slot(Op.s).map = Slot(Op.t).map /\ ~Obs.eq, "dict.equal"), st)
TrContains == IsOp("in") /\ Judge(If(Obs.err # "", "dict.err:in:" \o Obs.err) \cup If(Obs.eq # Has1(Slot(Op.s), Op.k), "dict.in"), st)
TrFromKeys == IsOp("fromkeys") /\ New(ExtendAll(Obj("qd", Op.mut, Op.cs, Empty), [i \in 1..Len(Op.vs) |-> <<Op.vs[i], <<Op.v>>>>]))
(* Immutable lists: every mutator complains and changes nothing. *)
TrIList == IsOp("ilist") /\ Judge(If(Obs.err # Op.want, "ilist.err:" \o Obs.err) \cup If(Obs.ret # Op.vs, "ilist.contents"), st)

Next == TrMake \/ TrSet \/ TrDel \/ TrItem \/ TrGet \/ TrGetList \/ TrPoke \/ TrSetList \/ TrSetDefault \/ TrSetListDefault
        \/ TrAppend \/ TrUpdate \/ TrPop \/ TrPopItem \/ TrClear \/ TrCopy \/ TrPickle \/ TrEnable \/ TrEqual \/ TrContains
        \/ TrFromKeys \/ TrIList \/ TrEnd
Spec == Init /\ [][Next]_trvars
====
