---------------------------- MODULE WorkerPoolGen -----------------------------
(* All behaviours of the pool as sequences of turns: who goes on whenever the *)
(* workers stand at the cursor.  Printed, to be replayed in the real code.    *)
EXTENDS WorkerPool, Json
GNext == Next /\ (IF total' # -1 THEN PrintT("@@" \o ToJson([turns |-> turns'])) ELSE TRUE)
GSpec == Init /\ [][GNext]_vars
=============================================================================
