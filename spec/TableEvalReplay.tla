--------------------------- MODULE TableEvalReplay ---------------------------
EXTENDS TableEval, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Init == InitWith({Cases[q] : q \in DOMAIN Cases})
Step == Next /\ (IF phase' = "done" THEN PrintT("@@" \o ToJson([id |-> c.id, res |-> Report0])) ELSE TRUE)
Spec == Init /\ [][Step]_vars
=============================================================================
