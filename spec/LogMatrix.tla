------------------------------ MODULE LogMatrix ------------------------------
(* Building an interaction matrix from a log or from profiles: rows are added *)
(* one at a time; a row with an unknown user or item is dropped; repeated     *)
(* pairs add up.  An input: log of <<u, i, v>>, users, items (known ids in    *)
(* matrix order); observed cells <<row, col, v>> (v in quarter units).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Set(s) == {s[q] : q \in DOMAIN s}
VARIABLES c, k, cell
vars == <<c, k, cell>>
Index(s, x) == CHOOSE q \in DOMAIN s : s[q] = x
Init == c \in {Cases[q] : q \in DOMAIN Cases} /\ k = 1 /\ cell = << >>
Known(r) == r[1] \in Set(c.users) /\ r[2] \in Set(c.items)
Msg(cond, text) == IF cond THEN << >> ELSE <<text>>
Add == /\ k <= Len(c.log)
       /\ LET r == c.log[k] IN
            cell' = IF ~Known(r) THEN cell
                    ELSE LET p == <<Index(c.users, r[1]) - 1, Index(c.items, r[2]) - 1>>
                         IN  IF p \in DOMAIN cell THEN [cell EXCEPT ![p] = @ + r[3]] ELSE cell @@ (p :> r[3])
       /\ k' = k + 1 /\ UNCHANGED c
Want == {<<p[1], p[2], cell[p]>> : p \in {x \in DOMAIN cell : cell[x] # 0}}
Verdict == IF c.valid # (c.outcome = "ok") THEN <<"outcome " \o c.outcome>>
           ELSE IF ~c.valid THEN << >>
           ELSE Msg(Set(c.cells) = Want, "matrix cells are not the sums of the known interactions")
                \o Msg(c.shape, "shape or id lists do not match")
                \o Msg(c.kept, "the input was modified")
Finish == /\ k = Len(c.log) + 1 /\ k' = k + 1 /\ UNCHANGED <<c, cell>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> Verdict]))
Spec == Init /\ [][Add \/ Finish]_vars
\* what is in the matrix never exceeds the log
Conserved == \A p \in DOMAIN cell : p[1] < Len(c.users) /\ p[2] < Len(c.items)
=============================================================================
