---------------------------- MODULE RecommendTrace ---------------------------
(* Observed: got = sequence of <<item, level>> (level -1: not a score of the  *)
(* model), or a rejection.                                                    *)
EXTENDS Recommend, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE done
Msg(cond, text) == IF cond THEN << >> ELSE <<text>>
Init == InitWith({Cases[q] : q \in DOMAIN Cases}) /\ done = FALSE
CanPick == IF Len(list) < Len(c.got) THEN Len(list) < c.cutoff /\ Best(c.got[Len(list) + 1][1]) ELSE FALSE
Step == ~done /\ CanPick /\ Pick(c.got[Len(list) + 1][1]) /\ UNCHANGED done
Verdict ==
    IF c.valid # (c.outcome = "ok") THEN <<IF c.valid THEN "rejected: " \o c.outcome ELSE "unknown or duplicate ids are not rejected">>
    ELSE IF ~c.valid THEN << >>
    ELSE Msg(Len(list) = Len(c.got), "item number " \o ToString(Len(list) + 1) \o " of the list is not a best remaining eligible item (or the list is too long)")
         \o Msg(Complete, "the list ends although an eligible item is left")
         \o Msg(\A q \in DOMAIN c.got : c.got[q][1] \in 0 .. c.ni - 1 => c.got[q][2] = c.score[c.got[q][1] + 1], "a reported score is not the model's score")
         \o Msg(c.kept, "the caller's scores were modified")
Finish == /\ ~done /\ ~CanPick /\ done' = TRUE /\ UNCHANGED vars
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> Verdict]))
Spec == Init /\ [][Step \/ Finish]_<<vars, done>>
=============================================================================
