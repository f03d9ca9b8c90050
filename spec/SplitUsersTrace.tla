--------------------------- MODULE SplitUsersTrace ---------------------------
(* Replays an observed split: groups, then user by user.                      *)
(* Observed: train / val / test: sequences of [u, learn, held] with entries   *)
(* <<item, value id>>.                                                        *)
EXTENDS SplitUsers, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE done
Ids(g) == {g[q].u : q \in DOMAIN g}
All == c.train \o c.val \o c.test
Obs(u) == CHOOSE q \in DOMAIN All : All[q].u = u
HeldRows(u) == {q \in Rows(u) : Entry(q) \in Set(All[Obs(u)].held)}
Least(s) == CHOOSE x \in s : \A y \in s : x <= y
Init == InitWith({Cases[q] : q \in DOMAIN Cases}) /\ done = FALSE
GroupsOk == c.outcome = "ok" /\ Assignable(Ids(c.val), Ids(c.test)) /\ Len(c.val) = NVal /\ Len(c.test) = NTest
            /\ Ids(c.train) = Users \ (Ids(c.val) \cup Ids(c.test)) /\ Len(c.train) = N - NVal - NTest
UserOk(u) == LET o == All[Obs(u)] IN
               /\ HoldChoice(u, HeldRows(u))
               /\ Set(o.held) = Entries(HeldRows(u)) /\ Len(o.held) = Cardinality(HeldRows(u))
               /\ Set(o.learn) = Entries(Rows(u) \ HeldRows(u)) /\ Len(o.learn) = Cardinality(Rows(u) \ HeldRows(u))
CanHold == IF phase # "hold" \/ todo = {} THEN FALSE ELSE UserOk(Least(todo))
Step == ~done /\ UNCHANGED done /\
        IF phase = "groups" THEN IF ~Feasible THEN Refuse ELSE GroupsOk /\ Assign(Ids(c.val), Ids(c.test))
        ELSE CanHold /\ HoldOut(Least(todo), HeldRows(Least(todo)))
TrainBad == {q \in DOMAIN c.train : ~(/\ Set(c.train[q].learn) = Entries(Rows(c.train[q].u))
                                      /\ Len(c.train[q].learn) = Cardinality(Rows(c.train[q].u))
                                      /\ c.train[q].held = << >>)}
Verdict ==
    IF ~Feasible THEN Msg(c.outcome = "ValueError", "more users requested than exist, but: " \o c.outcome)
    ELSE IF c.outcome # "ok" THEN <<"rejected: " \o c.outcome>>
    ELSE IF phase = "groups" THEN <<"groups are not a division of the users with the requested sizes">>
    ELSE Msg(todo = {}, "user " \o ToString(Least(todo \cup {999999})) \o ": held-out/kept items are not the promised ones")
         \o Msg(TrainBad = {}, "a train user does not keep exactly their interactions")
         \o Msg(Set(c.items) = {c.log[q].i : q \in DOMAIN c.log} /\ Len(c.items) = Cardinality(Set(c.items)),
                "the item list is not the set of items")
         \o Msg(c.same, "the same seed gives another split")
         \o Msg(c.kept, "the input table was modified")
         \o Msg(c.frames, "df_train/df_test disagree with the matrices")
CanStep == IF phase = "groups" THEN (IF Feasible THEN GroupsOk ELSE TRUE) ELSE CanHold
Finish == /\ ~done /\ ~CanStep
          /\ done' = TRUE /\ UNCHANGED vars
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> Verdict]))
Spec == Init /\ [][Step \/ Finish]_<<vars, done>>
=============================================================================
