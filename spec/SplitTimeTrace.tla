--------------------------- MODULE SplitTimeTrace ----------------------------
EXTENDS SplitTime, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE done
Init == InitWith({Cases[q] : q \in DOMAIN Cases}) /\ done = FALSE
Obs(u) == Set(c.test) \cap RowsOf(u)
Least(s) == CHOOSE x \in s : \A y \in s : x <= y
Step == /\ ~done /\ todo # {} /\ LatestChoice(Least(todo), Obs(Least(todo)))
        /\ HoldOut(Least(todo), Obs(Least(todo))) /\ UNCHANGED done
Verdict ==
    Msg(c.outcome = "ok", "rejected: " \o c.outcome)
    \o (IF c.outcome # "ok" THEN << >> ELSE
        Msg(Set(c.train) \cup Set(c.test) = DOMAIN c.log /\ Len(c.train) + Len(c.test) = Len(c.log),
            "the two parts are not a partition of the rows")
        \o Msg(todo = {}, "user " \o ToString(todo) \o ": held-out rows are not the promised number of latest rows")
        \o Msg(c.content, "row contents, labels or columns changed")
        \o Msg(c.kept, "the input table was modified"))
Finish == /\ ~done /\ (IF todo = {} THEN TRUE ELSE ~LatestChoice(Least(todo), Obs(Least(todo))))
          /\ done' = TRUE /\ UNCHANGED vars
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> Verdict]))
Spec == Init /\ [][Step \/ Finish]_<<vars, done>>
=============================================================================
