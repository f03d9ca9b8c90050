------------------------------ MODULE TrainState ------------------------------
(* Training state and its snapshots.  The content of a trainer is determined  *)
(* by the seed and the number of epochs that led to it; saving stores the     *)
(* content, loading brings it back, pickling copies it, and reading scores,   *)
(* fitting unseen rows or computing the loss changes nothing.                 *)
(* A case is a history of operations; the model returns, per operation, the   *)
(* content (number of epochs) of the trainer afterwards.                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, content, slots, log
vars == <<c, k, content, slots, log>>
Init == c \in {Cases[q] : q \in DOMAIN Cases} /\ k = 1 /\ content = 0 /\ slots = << >> /\ log = << >>
Op == c.ops[k]
After == CASE Op[1] = "epoch" -> content + 1
           [] Op[1] = "load"  -> slots[Op[2]]
           [] OTHER           -> content
Do == /\ k <= Len(c.ops)
      /\ content' = After /\ log' = Append(log, After)
      /\ slots' = (IF Op[1] = "save" THEN Append(slots, content) ELSE slots)
      /\ k' = k + 1 /\ UNCHANGED c
Finish == /\ k = Len(c.ops) + 1 /\ k' = k + 1 /\ UNCHANGED <<c, content, slots, log>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, log |-> log]))
Spec == Init /\ [][Do \/ Finish]_vars
SnapshotsAreReachable == \A q \in DOMAIN slots : slots[q] \in {0} \cup {log[z] : z \in DOMAIN log}
OnlyTrainingAdvances == \A q \in 2 .. Len(log) : log[q] > log[q - 1] => c.ops[q][1] \in {"epoch", "load"}
=============================================================================
