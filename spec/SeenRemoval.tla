----------------------------- MODULE SeenRemoval -----------------------------
(* Seen-removing scoring: row r of the answer belongs to the r-th requested  *)
(* user; exactly that user's known items score minus infinity, every other   *)
(* cell keeps the model's own score (identified by a cell number here).      *)
(* Masking proceeds row by row.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
NINF == -1000000
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, out, r
vars == <<c, out, r>>

Set(s) == {s[q] : q \in DOMAIN s}
Cell(x, u, i) == u * x.ni + i           \* u, i from 0
Init == /\ c \in {Cases[q] : q \in DOMAIN Cases}
        /\ out = [k \in DOMAIN c.users |-> [i \in 1 .. c.ni |-> Cell(c, c.users[k], i - 1)]]
        /\ r = 1
MaskRow == /\ r <= Len(c.users)
           /\ out' = [out EXCEPT ![r] = [i \in 1 .. c.ni |->
                         IF i - 1 \in Set(c.x[c.users[r] + 1]) THEN NINF ELSE out[r][i]]]
           /\ r' = r + 1
           /\ UNCHANGED c
Emit == (r' > Len(c.users)) => PrintT("@@" \o ToJson([id |-> c.id, out |-> out']))
Next == MaskRow /\ Emit
Spec == Init /\ [][Next]_vars
\* exactly the known items of the answered rows are removed, nothing else changes
Exact == \A k \in DOMAIN c.users : \A i \in 1 .. c.ni :
            out[k][i] = IF k < r /\ i - 1 \in Set(c.x[c.users[k] + 1]) THEN NINF
                        ELSE Cell(c, c.users[k], i - 1)
=============================================================================
