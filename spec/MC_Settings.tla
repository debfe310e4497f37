---- MODULE MC_Settings ----
(* Threads build settings for the same or for different upload directories at the same time: each runs the check of its
   directory (is it there? make it; write a file under a name; remove it). Checked for every interleaving: a usable
   directory is never refused and a refused one never accepted, no object gets what another was given, and when nobody
   checks any more, the directories hold what they held before (plus the created directory). OneName is the design with a
   fixed name for the probe, Blind the one that does not look again when the directory cannot be made. *)
EXTENDS Settings, Json
CONSTANTS Threads, OneName, Blind

dD == <<64, 47, 100>>        \* @/d   there, with a file
dM == <<64, 47, 109>>        \* @/m   missing
dF == <<64, 47, 102>>        \* @/f   a file
dU == <<64, 47, 102, 47, 120>>   \* @/f/x below a file
dL == <<64, 47, 108>>        \* @/l   a link to d
dC == <<64, 47, 99>>         \* @/c   a link to itself
dG == <<64, 47, 103>>        \* @/g   a link to nothing
keep == <<107>>
E(p, k, t) == [p |-> p, k |-> k, t |-> t]
FS0 == {E(dD, "dir", <<>>), E(dD \o <<47, 107>>, "file", keep), E(dF, "file", keep), E(dL, "link", dD), E(dC, "link", dC), E(dG, "link", dM \o <<47, 110>>)}
Dirs == {dD, dM, dF, dU, dL, dC, dG, dD \o <<47>>, <<64, 47, 100, 47, 46, 46, 47, 109>>}
v0 == <<>>
v1 == <<49>>
Givens == {(("dir" :> d)) : d \in Dirs} \cup {("dir" :> d) @@ ("duf" :> v) : d \in {dD, dM}, v \in {v0, v1}} \cup {("duf" :> v1), ("cs" :> v0) @@ ("mhs" :> v1)}

VARIABLES fs, pc, given, obj, want
vars == <<fs, pc, given, obj, want>>
T == 1..Threads
Init == /\ fs = FS0
        /\ pc = [t \in T |-> "start"]
        /\ given \in [T -> Givens]
        /\ obj = [t \in T |-> <<>>]
        /\ want = <<>>
Dir(t) == Norm(given[t]["dir"])
Probe(t) == Real(fs, Dir(t), 12) \o <<sl, 116>> \o (IF OneName THEN <<>> ELSE <<48 + t>>)
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Keep == UNCHANGED <<given, want>>
Look(t) == /\ pc[t] = "start" /\ Keep /\ UNCHANGED <<fs, obj>>
           /\ Go(t, IF "dir" \notin DOMAIN given[t] THEN "fill" ELSE IF Kind(fs, Dir(t)) = "dir" THEN "write" ELSE "make")
Make(t) == /\ pc[t] = "make" /\ Keep /\ UNCHANGED obj
           /\ IF Creatable(fs, Dir(t)) THEN fs' = Prepared(fs, Dir(t)) /\ Go(t, "write")
              ELSE fs' = fs /\ Go(t, IF ~Blind /\ Kind(fs, Dir(t)) = "dir" THEN "write" ELSE "refused")
Write(t) == /\ pc[t] = "write" /\ Keep /\ UNCHANGED obj
            /\ fs' = {e \in fs : e.p # Probe(t)} \cup {E(Probe(t), "file", v1)} /\ Go(t, "remove")
Unlink(t) == /\ pc[t] = "remove" /\ Keep /\ UNCHANGED obj
             /\ IF At(fs, Probe(t)).k = "file" THEN fs' = {e \in fs : e.p # Probe(t)} /\ Go(t, "fill")
                ELSE fs' = fs /\ Go(t, "refused")
Fill(t) == /\ pc[t] = "fill" /\ Keep /\ fs' = fs
           /\ obj' = [obj EXCEPT ![t] = Built(given[t])] /\ Go(t, "done")
Next == \E t \in T : Look(t) \/ Make(t) \/ Write(t) \/ Unlink(t) \/ Fill(t)
Spec == Init /\ [][Next]_vars

Right == \A t \in T : /\ pc[t] = "refused" => Refused(FS0, given[t])
                      /\ pc[t] = "done" => ~Refused(FS0, given[t]) /\ obj[t] = Built(given[t])
Over(t) == pc[t] \in {"done", "refused"}
RECURSIVE AllAfter(_, _)
AllAfter(f, n) == IF n = 0 THEN f ELSE AllAfter(IF Refused(FS0, given[n]) THEN f ELSE After(f, given[n]), n - 1)
Clean == (\A t \in T : Over(t)) => fs = AllAfter(FS0, Threads)
====
