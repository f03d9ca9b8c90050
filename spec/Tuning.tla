------------------------------- MODULE Tuning -------------------------------
(* A tuning study.  Workers share the study: each repeatedly asks for a trial *)
(* (suggested parameters), builds the model from the suggestion overridden by *)
(* the fixed parameters, trains it (or is pruned), scores it, records the     *)
(* metrics with the trial, and tells the study the result.                    *)
EXTENDS Integers, Sequences, FiniteSets
\* parameters are sets of <<name, value>>
Names(P) == {p[1] : p \in P}
Override(P, Q) == {p \in P : p[1] \notin Names(Q)} \cup Q
Better(a, b) == a > b                       \* higher target metric = smaller objective
CompleteOf(T) == {k \in DOMAIN T : T[k].st = "COMPLETE"}
BestOf(T) == {k \in CompleteOf(T) : \A j \in CompleteOf(T) : ~Better(T[j].level, T[k].level)}
\* what is handed back for trial t: what it suggested and learnt, not the fixed ones
Returned(t, fixed) == Override({p \in t.sugg : p[1] \notin Names(fixed)}, t.learnt)
=============================================================================
