---- MODULE MC_Dict ----
(* Dictionaries as the code keeps them: keys map to list objects on a heap, lists are changed in place. Checked: what can
   be seen is the map of lists of Dict (abs follows Dict's operations), no list is shared between keys or dictionaries
   (so copies are independent and lists handed out are copies), and read-only dictionaries never change. *)
EXTENDS Dict, Json
CONSTANTS Depth, Slots, Emit

ka == <<97>>
kb == <<98>>
vx == <<120>>
vy == <<121>>
KS == {ka, kb}
VS == {vx, vy}
LS == {<<>>, <<vx, vy>>}
Starts == {Obj("mvd", TRUE, "utf8", Empty), Obj("mvd", TRUE, "utf8", ka :> <<vx, vy>>), Obj("mvd", TRUE, "utf8", ka :> <<>>),
           Obj("qd", TRUE, "utf8", ka :> <<vx>>), Obj("qd", FALSE, "utf8", ka :> <<vy>>), Obj("imvd", FALSE, "utf8", ka :> <<vx>> @@ kb :> <<vy>>)}

VARIABLES objs, heap, abs, start, hist
(* objs[i]: [cls, mut, refs]; heap: list objects *)
view == <<[i \in 1..Len(abs) |-> abs[i]], [i \in 1..Len(objs) |-> [k \in DOMAIN objs[i].refs |-> heap[objs[i].refs[k]]]], start, Len(hist)>>

Alloc(m, h) ==   \* put the lists of map m on the heap: [refs, heap]
    LET ks == SetToSeq(DOMAIN m) IN
    [refs |-> [k \in DOMAIN m |-> Len(h) + (CHOOSE i \in 1..Len(ks) : ks[i] = k)], heap |-> h \o [i \in 1..Len(ks) |-> m[ks[i]]]]
Init == /\ start \in Starts
        /\ abs = <<start>>
        /\ LET a == Alloc(start.map, <<>>) IN heap = a.heap /\ objs = <<[cls |-> start.cls, mut |-> start.mut, refs |-> a.refs]>>
        /\ hist = <<>>

Log(o) == /\ hist' = Append(hist, o)
          /\ start' = start
          /\ Emit => PrintT("## " \o ToJson([cls |-> start.cls, mut |-> start.mut, map |-> [i \in 1..Cardinality(Keys(start)) |->
                             LET k == SetToSeq(Keys(start))[i] IN <<k, start.map[k]>>], ops |-> hist']))
Ref(i, k) == objs[i].refs[k]
HasR(i, k) == k \in DOMAIN objs[i].refs
SetRefs(i, refs) == objs' = [objs EXCEPT ![i].refs = refs]
With(refs, k, r) == [x \in (DOMAIN refs) \cup {k} |-> IF x = k THEN r ELSE refs[x]]
Without(refs, k) == [x \in (DOMAIN refs) \ {k} |-> refs[x]]
Abs(i, r) == abs' = [abs EXCEPT ![i] = r.o]
Same == UNCHANGED <<objs, heap>>
Mut(i) == objs[i].mut

NewList(i, k, l) == IF Mut(i) THEN heap' = Append(heap, l) /\ SetRefs(i, With(objs[i].refs, k, Len(heap) + 1)) ELSE Same
InPlace(i, k, l) ==   \* setlistdefault(k).extend(l)
    IF ~Mut(i) THEN Same
    ELSE IF HasR(i, k) THEN heap' = [heap EXCEPT ![Ref(i, k)] = @ \o l] /\ objs' = objs
    ELSE heap' = Append(heap, l) /\ SetRefs(i, With(objs[i].refs, k, Len(heap) + 1))
RECURSIVE Ext(_, _, _)
Ext(h, refs, ps) ==   \* update() with pairs of key and the reference of a list
    IF ps = <<>> THEN [h |-> h, refs |-> refs]
    ELSE LET k == ps[1][1] IN
         IF k \in DOMAIN refs THEN Ext([h EXCEPT ![refs[k]] = @ \o h[ps[1][2]]], refs, Tail(ps))
         ELSE Ext(Append(h, h[ps[1][2]]), With(refs, k, Len(h) + 1), Tail(ps))

DoSet(i, k, v) == NewList(i, k, <<v>>) /\ Abs(i, SetItem(abs[i], k, v)) /\ Log([op |-> "set", s |-> i, k |-> k, v |-> v])
DoSetList(i, k, l) == NewList(i, k, l) /\ Abs(i, SetList(abs[i], k, l)) /\ Log([op |-> "setlist", s |-> i, k |-> k, vs |-> l])
DoAppend(i, k, v) == InPlace(i, k, <<v>>) /\ Abs(i, AppendList(abs[i], k, v)) /\ Log([op |-> "append", s |-> i, k |-> k, v |-> v])
DoDefault(i, k, v) == (IF HasR(i, k) THEN Same ELSE NewList(i, k, <<v>>)) /\ Abs(i, SetDefault(abs[i], k, v)) /\ Log([op |-> "setdefault", s |-> i, k |-> k, v |-> v])
DoListDefault(i, k, l) == (IF HasR(i, k) THEN Same ELSE NewList(i, k, l)) /\ Abs(i, SetListDefault(abs[i], k, l)) /\ Log([op |-> "setlistdefault", s |-> i, k |-> k, vs |-> l])
DoDel(i, k) == (IF Mut(i) THEN SetRefs(i, Without(objs[i].refs, k)) /\ heap' = heap ELSE Same)
               /\ Abs(i, DelItem(abs[i], k)) /\ Log([op |-> "del", s |-> i, k |-> k])
DoPop(i, k, d) == (IF Mut(i) THEN SetRefs(i, Without(objs[i].refs, k)) /\ heap' = heap ELSE Same)
               /\ Abs(i, PopKey(abs[i], k, d)) /\ Log([op |-> "pop", s |-> i, k |-> k, d |-> d])
DoClear(i) == (IF Mut(i) THEN SetRefs(i, Empty) /\ heap' = heap ELSE Same) /\ Abs(i, Clear(abs[i])) /\ Log([op |-> "clear", s |-> i])
DoUpdate(i, j) ==
    LET ks == SetToSeq(Keys(abs[j]))
        ps == [n \in 1..Len(ks) |-> <<ks[n], Ref(j, ks[n])>>]
        e == Ext(heap, objs[i].refs, ps)
    IN /\ IF Mut(i) THEN heap' = e.h /\ SetRefs(i, e.refs) ELSE Same
       /\ Abs(i, Update(abs[i], [n \in 1..Len(ks) |-> <<ks[n], abs[j].map[ks[n]]>>])) /\ Log([op |-> "update", s |-> i, t |-> j])
DoCopy(i, how) ==
    LET a == Alloc([k \in DOMAIN objs[i].refs |-> heap[Ref(i, k)]], heap) IN
    /\ Len(objs) < Slots
    /\ heap' = a.heap /\ objs' = Append(objs, [cls |-> objs[i].cls, mut |-> objs[i].cls # "imvd", refs |-> a.refs])
    /\ abs' = Append(abs, CopyOf(abs[i])) /\ Log([op |-> "copy", s |-> i, how |-> how])
DoPoke(i, k) ==      \* getlist() copies: the caller changes the copy
    /\ heap' = (IF HasR(i, k) THEN Append(heap, heap[Ref(i, k)] \o <<vx>>) ELSE heap) /\ objs' = objs
    /\ abs' = abs /\ Log([op |-> "poke", s |-> i, k |-> k])

Next == /\ Len(hist) < Depth
        /\ \E i \in 1..Len(objs) :
             \/ \E k \in KS : \/ \E v \in VS : DoSet(i, k, v) \/ DoAppend(i, k, v) \/ DoDefault(i, k, v)
                              \/ \E l \in LS : DoSetList(i, k, l) \/ DoListDefault(i, k, l)
                              \/ DoDel(i, k) \/ DoPop(i, k, <<>>) \/ DoPop(i, k, <<vy>>) \/ DoPoke(i, k)
             \/ \E j \in 1..Len(objs) : DoUpdate(i, j)
             \/ \E how \in {"copy", "shallow", "deep"} : DoCopy(i, how)
             \/ DoClear(i)
Spec == Init /\ [][Next]_<<objs, heap, abs, start, hist>>

(* C17: the dictionary is the map of lists. *)
Refines == \A i \in 1..Len(objs) : abs[i].map = [k \in DOMAIN objs[i].refs |-> heap[Ref(i, k)]]
(* C17/C18: no two keys or dictionaries share a list. *)
NoSharing == \A i, j \in 1..Len(objs) : \A k \in DOMAIN objs[i].refs, m \in DOMAIN objs[j].refs :
                Ref(i, k) = Ref(j, m) => (i = j /\ k = m)
(* C18: a read-only dictionary is what it was. *)
ReadOnly == ~start.mut => abs[1].map = start.map
====
