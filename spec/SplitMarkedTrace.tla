--------------------------- MODULE SplitMarkedTrace --------------------------
(* Observed: train / val / test: sequences of [u, learn, held], where learn   *)
(* and held are sequences of <<item, multiplicity>>.                          *)
EXTENDS SplitMarked, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE done
Init == InitWith({Cases[q] : q \in DOMAIN Cases}) /\ done = FALSE
Ids(g) == {g[q].u : q \in DOMAIN g}
GroupsOk == /\ c.outcome = "ok" /\ Assignable(Ids(c.val), Ids(c.test))
            /\ Len(c.val) = Cardinality(Ids(c.val)) /\ Len(c.test) = Cardinality(Ids(c.test))
            /\ Ids(c.train) = Users \ (Ids(c.val) \cup Ids(c.test)) /\ Len(c.train) = Cardinality(Ids(c.train))
Step == ~done /\ UNCHANGED done /\ IF ~Valid THEN Refuse ELSE GroupsOk /\ Assign(Ids(c.val), Ids(c.test))
Counted(S) == {<<i, Cardinality({q \in S : c.log[q].i = i})>> : i \in {c.log[q].i : q \in S}}
UserBad(o) == ~(/\ Set(o.learn) = Counted(Learn(o.u)) /\ Len(o.learn) = Cardinality(Set(o.learn))
                /\ Set(o.held) = Counted(Held(o.u)) /\ Len(o.held) = Cardinality(Set(o.held)))
All == c.train \o c.val \o c.test
Wrong == {All[q].u : q \in {p \in DOMAIN All : UserBad(All[p])}}
Verdict ==
    IF ~Valid THEN Msg(c.outcome = "ValueError", "ratios above one in total, but: " \o c.outcome)
    ELSE IF c.outcome # "ok" THEN <<"rejected: " \o c.outcome>>
    ELSE IF phase = "groups" THEN <<"groups are not a division of the users with the requested proportions">>
    ELSE Msg(Wrong = {}, "users " \o ToString(Wrong) \o ": learning/held-out interactions are not the promised ones")
         \o Msg(Set(c.items) = {c.log[q].i : q \in DOMAIN c.log} /\ Len(c.items) = Cardinality(Set(c.items)), "the item list is not the set of items")
         \o Msg(c.same, "the same seed gives another split") \o Msg(c.kept, "the input was modified")
         \o Msg(c.shape, "shapes of the parts are inconsistent")
CanStep == phase = "groups" /\ (IF Valid THEN GroupsOk ELSE TRUE)
Finish == /\ ~done /\ ~CanStep /\ done' = TRUE /\ UNCHANGED vars
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> Verdict]))
Spec == Init /\ [][Step \/ Finish]_<<vars, done>>
=============================================================================
