----------------------------- MODULE TuningTrace -----------------------------
(* A recorded tuning run, replayed trial by trial: what was suggested, how    *)
(* the model was built and trained, how it ended; then the returned           *)
(* parameters and the returned table.                                         *)
EXTENDS Tuning, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, T, bad, st
vars == <<c, k, T, bad, st>>
Init == c \in {Cases[n] : n \in DOMAIN Cases} /\ k = 1 /\ T = << >> /\ bad = << >> /\ st = "run"
Set(s) == {s[n] : n \in DOMAIN s}
Msg(cond, t) == IF cond THEN << >> ELSE <<t>>
Tag(n) == "trial " \o ToString(n) \o ": "
Tr == c.trials[k]
Fixed == Set(c.fixed)
Prev(n) == n <= c.before
TrialBad == IF Prev(k) THEN << >>
    ELSE Msg(Set(Tr.built) = Override(Set(Tr.given), Fixed), Tag(k) \o "built with " \o ToString(Tr.built) \o " instead of "
             \o ToString(Override(Set(Tr.given), Fixed)))
      \o Msg(Tr.data = Tr.wantdata, Tag(k) \o "trained on other data")
      \o Msg(Tr.limits = c.limits, Tag(k) \o "trained with limits " \o ToString(Tr.limits) \o " instead of " \o ToString(c.limits))
      \o Msg(Tr.ev, Tag(k) \o "not trained with the given evaluator and its own trial")
Step == /\ st = "run" /\ k <= Len(c.trials) /\ k' = k + 1 /\ UNCHANGED <<c, st>>
        /\ T' = Append(T, [sugg |-> Set(Tr.sugg), built |-> Set(Tr.built), st |-> IF Tr.pruned THEN "PRUNED" ELSE "COMPLETE",
                           level |-> Tr.level, learnt |-> Set(Tr.learnt)])
        /\ bad' = bad \o TrialBad
RowBad(n) == LET r == c.rows[n] t == T[n] IN
    Msg(r.number = n - 1, Tag(n) \o "row is numbered " \o ToString(r.number))
    \o Msg(t.sugg \ t.learnt \subseteq Set(r.cells) \/ t.sugg \subseteq Set(r.cells), Tag(n) \o "row lacks parameters of " \o ToString(t.sugg) \o ", has " \o ToString(r.cells))
    \o Msg(t.st = "PRUNED" \/ t.learnt \subseteq Set(r.cells), Tag(n) \o "row lacks the learnt " \o ToString(t.learnt))
    \o Msg(r.state = t.st, Tag(n) \o "row says " \o r.state)
    \o Msg(r.metrics = (IF t.st = "COMPLETE" THEN c.trials[n].metrics ELSE 0), Tag(n) \o "row holds other metrics")
    \o Msg(t.st = "PRUNED" \/ r.value = t.level, Tag(n) \o "objective is not the negated target metric")
RECURSIVE AllRows(_)
AllRows(n) == IF n > Len(c.rows) THEN << >> ELSE RowBad(n) \o AllRows(n + 1)
Final == Msg(Len(c.trials) = c.before + c.n, "ran " \o ToString(Len(c.trials) - c.before) \o " trials instead of " \o ToString(c.n) \o " " \o c.err)
         \o IF ~c.ok THEN Msg(CompleteOf(T) = {}, "tuning failed: " \o c.err)
         ELSE Msg(\E b \in BestOf(T) : Set(c.best) = Returned(T[b], Fixed),
                  "returned " \o ToString(c.best) \o ", should be " \o ToString({Returned(T[b], Fixed) : b \in BestOf(T)}))
           \o Msg(Len(c.rows) = Len(c.trials), "table has " \o ToString(Len(c.rows)) \o " rows for " \o ToString(Len(c.trials)) \o " trials")
           \o (IF Len(c.rows) = Len(c.trials) THEN AllRows(1) ELSE << >>)
           \o Msg(c.kept, "the fixed parameters given by the caller were modified")
Finish == /\ st = "run" /\ k > Len(c.trials) /\ st' = "end" /\ UNCHANGED <<c, k, T, bad>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> bad \o Final]))
Spec == Init /\ [][Step \/ Finish]_vars
BestComplete == \A b \in BestOf(T) : T[b].st = "COMPLETE"
=============================================================================
