---- MODULE TrBase ----
(* Trace validation, the common part: one behaviour per recorded case. A step function gives, for one recorded call, the
   clauses it breaks (bad) and the next state of the specification (st); a case that breaks none prints DONE. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
trvars == <<c, l, st>>

TrInit(InitOf(_)) == /\ c \in 1..Len(Cases)
                     /\ l = 1
                     /\ st = InitOf(Cases[c])
Live == c > 0 /\ l <= Len(Cases[c].ops)
Op == Cases[c].ops[l]
Obs == Op.obs
IsOp(o) == Live /\ Op.op = o
Q(bad, s) == [bad |-> bad, st |-> s]
If(b, clause) == IF b THEN {clause} ELSE {}
TrTake(q) ==
    LET v == TLCEval(q) IN
    IF v.bad # {}
    THEN /\ PrintT("@@ " \o Cases[c].id \o " REJECT " \o ToString(l) \o " " \o Op.op \o " " \o ToString(v.bad))
         /\ c' = 0 - c /\ l' = l /\ st' = st
    ELSE l' = l + 1 /\ st' = v.st /\ c' = c
TrEnd == /\ c > 0 /\ l = Len(Cases[c].ops) + 1
         /\ PrintT("@@ " \o Cases[c].id \o " DONE 0 - -")
         /\ c' = 0 - c /\ l' = l + 1 /\ st' = st
====
