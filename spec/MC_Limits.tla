---- MODULE MC_Limits ----
(* The limits as the code keeps them while it reads: fields are counted before they are read, a field is read only up to what
   is left of the data limit, a raw body is read in pieces until the limit is passed. Checked for every sequence of parts,
   every body and every limit against the rules of Multipart, Params and Request (C06, C07): refused exactly when the whole
   is over, and never more than the limit (plus one piece) is held. *)
EXTENDS Multipart
CONSTANTS MaxParts, MaxData, Piece

VARIABLES mode, parts, limits, i, cnt, num, held, ph, want
vars == <<mode, parts, limits, i, cnt, num, held, ph, want>>
Field(n, d) == [type |-> "field", name |-> [k \in 1..n |-> 97], data |-> [k \in 1..d |-> 120], te |-> <<>>, ct |-> <<>>, extra |-> {}]
File(d) == [type |-> "file", name |-> <<102>>, filename |-> <<110>>, data |-> [k \in 1..d |-> 120], te |-> <<>>, ct |-> <<>>, extra |-> {}, charset |-> <<>>, clen |-> <<>>]
Raw == [type |-> "raw"]
Parts == {Field(n, d) : n \in 1..2, d \in 0..MaxData} \cup {File(2), Raw}
Lims == {-1} \cup 0..(3 * MaxData)
RECURSIVE Walk(_, _, _, _)
Walk(ps, k, m, cfg) == IF k > Len(ps) THEN m ELSE Walk(ps, k + 1, StepPart(m, ps[k], FALSE, cfg), cfg)
Cfg(l) == [charset |-> "latin1", fieldsMax |-> l[1], dataMax |-> l[2], fileMax |-> 100, mode |-> "conv", clen |-> 9]
Init == /\ i = 1 /\ cnt = 0 /\ num = 0 /\ held = 0
        /\ \/ /\ mode = "parts" /\ ph = "part"
              /\ parts \in UNION {[1..n -> Parts] : n \in 0..MaxParts}
              /\ limits \in {<<f, d>> : f \in {-1, 0, 1, 2}, d \in Lims}
              /\ want = Walk(parts, 1, M0, Cfg(limits)).err
           \/ /\ mode = "body" /\ ph = "body"
              /\ parts \in {[k \in 1..n |-> 0] : n \in 0..(3 * MaxData)}      \* a body of n bytes
              /\ limits \in {<<-1, d>> : d \in -1..(3 * MaxData)}
              /\ want = IF limits[2] >= 0 /\ Len(parts) > limits[2] THEN "TooBig" ELSE ""
           \/ /\ mode = "query" /\ ph = "split"
              /\ parts \in UNION {[1..n -> {97, 38, 59, 61}] : n \in 0..6}
              /\ limits \in {<<f, -1>> : f \in {-1, 0, 1, 2, 3}}
              /\ want = ParamsOf(parts, "latin1", limits[1]).err
Const == UNCHANGED <<mode, parts, limits, want>>
Stop(e) == ph' = IF e = "" THEN "over" ELSE e
Part1 == /\ ph = "part" /\ Const
         /\ IF i > Len(parts) THEN Stop("") /\ UNCHANGED <<i, cnt, num, held>>
            ELSE IF parts[i].type # "field" THEN i' = i + 1 /\ UNCHANGED <<cnt, num, held, ph>>
            ELSE LET c == cnt + 1
                     left == limits[2] - num
                     n == IF limits[2] < 0 THEN Len(parts[i].data) ELSE Min2(left, Len(parts[i].data))
                     t == num + n + Len(parts[i].name) + 2
                 IN IF limits[1] >= 0 /\ c > limits[1] THEN Stop("TooMany") /\ UNCHANGED <<i, cnt, num, held>>
                    ELSE /\ held' = held + n
                         /\ IF limits[2] >= 0 /\ t > limits[2] THEN Stop("TooBig") /\ UNCHANGED <<i, cnt, num>>
                            ELSE i' = i + 1 /\ cnt' = c /\ num' = t /\ ph' = ph
(* body(): pieces until the limit is passed or nothing comes *)
Body1 == /\ ph = "body" /\ Const /\ UNCHANGED <<cnt, i>>
         /\ \E n \in IF held = Len(parts) THEN {0} ELSE 1..Min2(Piece, Len(parts) - held) :
              /\ num' = num + n /\ held' = held + n
              /\ IF limits[2] >= 0 /\ num' > limits[2] THEN Stop("TooBig") ELSE IF n = 0 THEN Stop("") ELSE ph' = ph
(* a query string: cut off field by field, at most limit times *)
Split1 == /\ ph = "split" /\ Const /\ UNCHANGED <<num, held>>
          /\ LET e == FirstIdx(i, Len(parts), LAMBDA k : parts[k] \in {38, 59}) IN
             IF e # 0 /\ (limits[1] < 1 \/ cnt < limits[1]) THEN i' = e + 1 /\ cnt' = cnt + 1 /\ ph' = ph
             ELSE i' = i /\ cnt' = cnt + 1 /\ Stop(IF limits[1] >= 0 /\ parts # <<>> /\ cnt + 1 > limits[1] THEN "TooMany" ELSE "")
Next == Part1 \/ Body1 \/ Split1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exactly == ph \in {"over", "TooMany", "TooBig"} => ph = (IF want = "" THEN "over" ELSE want)
Held == limits[2] >= 0 => held <= limits[2] + Piece
Ends == <>(ph \in {"over", "TooMany", "TooBig"})
====
