--------------------------- MODULE EvaluatorReplay ---------------------------
(* Runs the evaluation model on the inputs in $CASES and prints what the    *)
(* real code must report for each.                                          *)
EXTENDS Evaluator, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Init == InitWith({Cases[q] : q \in DOMAIN Cases})
Emit == st' \in {"done", "rejected"} => PrintT("@@" \o ToJson(Result'))
Step == Next /\ Emit
Spec == Init /\ [][Step]_vars
=============================================================================
