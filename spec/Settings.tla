---- MODULE Settings ----
(* Settings: the fields an object has, and the state of an upload directory. Files are entries [p, k, t]: path, kind (dir,
   file, link, ro for a directory nobody can write), and the content or the target. "@" is the scratch directory, "%" the
   package directory, to which other paths are relative. *)
EXTENDS Bytes

Fields == {"dir", "mhs", "fum", "dum", "duf", "cs"}
sl == 47
Default(f) ==
    CASE f = "mhs" -> <<49, 54>>                                   \* 16
      [] f = "fum" -> <<51, 49, 52, 53, 55, 50, 56, 48>>           \* 31457280
      [] f = "dum" -> <<53, 50, 52, 50, 56, 56, 48>>               \* 5242880
      [] f = "duf" -> <<52, 48, 57, 54>>                           \* 4096
      [] f = "cs" -> <<73, 83, 79, 45, 56, 56, 53, 57, 45, 49>>    \* ISO-8859-1
      [] f = "dir" -> <<37, 47, 102, 105, 108, 101, 115, 47, 102, 105, 108, 101, 95, 117, 112, 108, 111, 97, 100, 115>>   \* %/files/file_uploads
Rooted(p) == p # <<>> /\ p[1] \in {64, sl}

(* ---- paths ---- *)
RECURSIVE Norm1(_, _)
Norm1(cs, acc) ==
    IF cs = <<>> THEN acc
    ELSE IF cs[1] \in {<<>>, <<46>>} THEN Norm1(Tail(cs), acc)
    ELSE IF cs[1] = <<46, 46>> THEN Norm1(Tail(cs), IF Len(acc) > 1 THEN Front(acc) ELSE acc)
    ELSE Norm1(Tail(cs), Append(acc, cs[1]))
JoinP(cs) == FoldLeft(LAMBDA a, b : a \o <<sl>> \o b, cs[1], Tail(cs))
Norm(t) == LET cs == SplitByte(t, sl) IN
           IF Rooted(t) THEN JoinP(Norm1(Tail(cs), <<cs[1]>>)) ELSE JoinP(Norm1(cs, <<<<37>>>>))
Parent(p) == Upto(p, Max2(0, RFindByte(p, sl) - 1))
BaseName(p) == From(p, RFindByte(p, sl) + 1)

(* ---- the file system ---- *)
None0 == [p |-> <<>>, k |-> "none", t |-> <<>>]
Roots == {<<64>>, <<37>>}
RECURSIVE Real(_, _, _)
At(fs, p) == IF p \in Roots THEN [p |-> p, k |-> "dir", t |-> <<>>]
             ELSE IF \E e \in fs : e.p = p THEN CHOOSE e \in fs : e.p = p ELSE None0
Real(fs, p, n) ==     \* p with its links followed; <<>> when they go in circles
    IF n = 0 THEN <<>>
    ELSE IF p \in Roots \/ Parent(p) = <<>> \/ p[1] = sl THEN p
    ELSE LET up == Real(fs, Parent(p), n - 1)
             q == up \o <<sl>> \o BaseName(p)
         IN IF up = <<>> THEN <<>>
            ELSE IF At(fs, q).k = "link" THEN Real(fs, At(fs, q).t, n - 1) ELSE q
Kind(fs, p) == LET r == Real(fs, p, 12) IN IF r = <<>> THEN "none" ELSE At(fs, r).k
IsLink(fs, p) == LET up == Real(fs, Parent(p), 12) IN up # <<>> /\ At(fs, up \o <<sl>> \o BaseName(p)).k = "link"
Creatable(fs, p) == /\ Kind(fs, p) = "none" /\ ~IsLink(fs, p)
                    /\ p[1] # sl /\ p \notin Roots
                    /\ Kind(fs, Parent(p)) = "dir"
                    /\ Len(BaseName(p)) < 256
Usable(fs, p) == Kind(fs, p) = "dir" \/ Creatable(fs, p)
Prepared(fs, p) == IF Creatable(fs, p) THEN fs \cup {[p |-> Real(fs, Parent(p), 12) \o <<sl>> \o BaseName(p), k |-> "dir", t |-> <<>>]} ELSE fs

(* ---- objects ---- *)
(* given: a function from some of the fields to values *)
Refused(fs, given) == "dir" \in DOMAIN given /\ ~Usable(fs, Norm(given["dir"]))
Built(given) == [f \in Fields |-> IF f \notin DOMAIN given THEN Default(f) ELSE IF f = "dir" THEN Norm(given["dir"]) ELSE given[f]]
After(fs, given) == IF "dir" \in DOMAIN given THEN Prepared(fs, Norm(given["dir"])) ELSE fs
Altered(o, f, v) == [o EXCEPT ![f] = v]
====
