----------------------------- MODULE ColdBatches -----------------------------
(* The unseen users' known interactions go to the model in order, in batches *)
(* of mb rows (the last may be shorter), each user exactly once.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, p, k, st
vars == <<c, p, k, st>>
Min(a, b) == IF a < b THEN a ELSE b
Init == c \in {Cases[q] : q \in DOMAIN Cases} /\ p = 0 /\ k = 1 /\ st = "run"
\* the only batch the protocol can send next
Due == LET n == Min(c.mb, c.nu - p) IN [r \in 1..n |-> c.hist[p + r]]
Send == /\ st = "run" /\ p < c.nu /\ k <= Len(c.got) /\ c.got[k] = Due
        /\ p' = p + Len(Due) /\ k' = k + 1 /\ UNCHANGED <<c, st>>
Stop == /\ st = "run" /\ ~(p < c.nu /\ k <= Len(c.got) /\ c.got[k] = Due)
        /\ st' = "end" /\ UNCHANGED <<c, p, k>>
        /\ LET bad == (IF p < c.nu \/ k <= Len(c.got)
                       THEN <<"after " \o ToString(k - 1) \o " batches the next one differs from the known interactions of users "
                              \o ToString(p) \o "..">> ELSE << >>)
                      \o (IF c.vals THEN << >> ELSE <<"interaction values changed">>)
                      \o (IF c.feats THEN << >> ELSE <<"feature rows changed or not offered">>)
           IN PrintT("@@" \o ToJson([id |-> c.id, bad |-> bad]))
Next == Send \/ Stop
Spec == Init /\ [][Next]_vars
InOrder == p <= c.nu
=============================================================================
