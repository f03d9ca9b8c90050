-------------------------- MODULE SplitRowwiseTrace --------------------------
(* Replays an observed split through the model: each row's held-out entries  *)
(* must be a choice the model can make, and the kept entries the rest.       *)
EXTENDS SplitRowwise, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE done
Init == InitWith({Cases[q] : q \in DOMAIN Cases}) /\ done = FALSE
Obs == IF c.outcome = "ok" /\ r < Len(c.rows) /\ Len(c.test) = Len(c.rows) THEN Set(c.test[r + 1]) ELSE {-1}
CanHold(H) == /\ r < Len(c.rows) /\ H \subseteq Entries(r + 1)
              /\ Cardinality(H) = NHeldOut(c.rule, Cardinality(Entries(r + 1)))
Step == ~done /\ RuleOk(c.rule) /\ CanHold(Obs) /\ HoldOut(Obs) /\ UNCHANGED done
Verdict ==
    IF ~RuleOk(c.rule) THEN Msg(c.outcome = "ValueError", "an invalid ratio is not rejected but gives " \o c.outcome)
    ELSE Msg(c.outcome = "ok", "rejected: " \o c.outcome)
      \o (IF c.outcome # "ok" THEN << >> ELSE
          Msg(c.shape, "the parts do not have the shape of the input")
          \o Msg(r = Len(c.rows), "row " \o ToString(r) \o ": the held-out entries are not a choice of the promised size among its entries")
          \o Msg(\A q \in 1 .. r : Set(c.train[q]) = train[q] /\ Len(c.train[q]) = Cardinality(train[q])
                                   /\ Len(c.test[q]) = Cardinality(test[q]),
                 "kept entries are not the remaining ones, or repeat")
          \o Msg(c.same, "the same seed gives another split")
          \o Msg(c.kept, "the input was modified")
          \o Msg(c.dtype, "the element type changed"))
Finish == /\ ~done /\ ~(RuleOk(c.rule) /\ CanHold(Obs))
          /\ done' = TRUE /\ UNCHANGED vars
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> Verdict]))
Spec == Init /\ [][Step \/ Finish]_<<vars, done>>
=============================================================================
