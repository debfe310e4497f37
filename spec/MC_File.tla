---- MODULE MC_File ----
(* Line iteration over chunks, as the library does it (a piece without its end is kept until it is seen), gives the lines of
   the file whatever the chunk size; and the switch from memory to disk keeps every byte of every file. *)
EXTENDS File
CONSTANTS MaxLen, MaxChunk, MaxFiles, MaxPiece, Limits, MaxPieces
VARIABLES d, n, q, i, j, buf, has, out,  mode, limit, done, mem, disk, got, files, cur
vars == <<d, n, q, i, j, buf, has, out, mode, limit, done, mem, disk, got, files, cur>>
iter == <<d, n, q, i, j, buf, has, out>>
spill == <<mode, limit, done, mem, disk, got, files, cur>>

(* The lines of one chunk, ends kept: what splitlines gives. *)
Init == /\ d \in BoundedSeq({97, 10, 13}, MaxLen) /\ n \in 1..MaxChunk
        /\ q = Pieces(d, n) /\ i = 1 /\ j = 1 /\ buf = <<>> /\ has = FALSE /\ out = <<>>
        /\ mode = "idle" /\ limit \in Limits /\ done = 0 /\ mem = <<>> /\ disk = <<>> /\ got = 0 /\ files = <<>> /\ cur = <<>>
        /\ (d # <<>> => limit = CHOOSE x \in Limits : \A y \in Limits : x <= y)    \* one thing at a time
Cr(s) == EndsWith(s, CR1)
Line ==
    /\ i <= Len(q)
    /\ LET ls == Lines(q[i])
           line == ls[j]
           split == has /\ Cr(buf) /\ line # LF1
           whole == IF has /\ ~split THEN buf \o line ELSE line
           o1 == IF split THEN Append(out, buf) ELSE out
       IN /\ (IF EndsWith(whole, LF1) THEN out' = Append(o1, whole) /\ has' = FALSE /\ buf' = <<>>
              ELSE out' = o1 /\ has' = TRUE /\ buf' = whole)
          /\ (IF j < Len(ls) THEN j' = j + 1 /\ i' = i ELSE j' = 1 /\ i' = i + 1)
    /\ UNCHANGED <<d, n, q>> /\ UNCHANGED spill
Rest == /\ i = Len(q) + 1 /\ has /\ out' = Append(out, buf) /\ has' = FALSE /\ buf' = <<>>
        /\ UNCHANGED <<d, n, q, i, j>> /\ UNCHANGED spill
LinesAreLines == (i = Len(q) + 1 /\ ~has) => out = Lines(d)
NothingLost == Flatten(out) \o buf \o Flatten([k \in 1..(IF i > Len(q) THEN 0 ELSE Len(Lines(q[i])) - j + 1) |-> Lines(q[i])[j + k - 1]])
               \o Flatten([k \in 1..Max2(0, Len(q) - i) |-> q[i + k]]) = d

(* ---- memory or disk ---- *)
Begin == /\ d = <<>> /\ mode \in {"idle", "between"} /\ Len(files) < MaxFiles
         /\ mode' = "open" /\ cur' = <<>> /\ mem' = <<>>
         /\ disk' = IF got > limit THEN <<<<>>>> ELSE <<>>                          \* spilled once, on disk from then on
         /\ UNCHANGED <<limit, done, got, files>> /\ UNCHANGED iter
Piece == /\ mode = "open" /\ Len(cur) < MaxPieces
         /\ \E k \in 1..MaxPiece :
              LET p == [x \in 1..k |-> 10 * Len(files) + Len(cur) + x] IN
              /\ cur' = Append(cur, p) /\ got' = got + k
              /\ IF disk # <<>> THEN disk' = <<disk[1] \o p>> /\ mem' = mem
                 ELSE IF got + k > limit THEN disk' = <<mem \o p>> /\ mem' = <<>>
                 ELSE mem' = mem \o p /\ disk' = disk
         /\ UNCHANGED <<mode, limit, done, files>> /\ UNCHANGED iter
Finish == /\ mode = "open" /\ mode' = "between"
          /\ files' = Append(files, [data |-> IF disk # <<>> THEN disk[1] ELSE mem, temp |-> disk # <<>>, ps |-> cur])
          /\ UNCHANGED <<limit, done, mem, disk, got, cur>> /\ UNCHANGED iter
Lossless == \A k \in 1..Len(files) : files[k].data = Flatten(files[k].ps)
Before(k) == FoldLeft(LAMBDA a, x : a + Total(x.ps), 0, SubSeq(files, 1, k - 1))
Placed == \A k \in 1..Len(files) : files[k].temp = (Before(k) > limit \/ Spills(Before(k), files[k].ps, limit))
OnceSpilled == \A k \in 1..(Len(files) - 1) : files[k].temp => files[k + 1].temp
Next == Line \/ Rest \/ Begin \/ Piece \/ Finish
Spec == Init /\ [][Next]_vars
====
