------------------------------ MODULE Doubling ------------------------------
(* Dimension-doubling search: one study per dimension init, 2 init, 4 init,   *)
(* ... not beyond max; n1 trials in the first, n2 in each later one; a later  *)
(* study searches around the best trial of the one before it; the overall     *)
(* best trial (with its dimension) is returned.                               *)
EXTENDS Integers, Sequences, FiniteSets
Complete(S) == {k \in DOMAIN S.trials : ~S.trials[k].pruned}
BestIn(S) == {k \in Complete(S) : \A j \in Complete(S) : S.trials[j].level <= S.trials[k].level}
All(SS) == {<<d, k>> : d \in DOMAIN SS, k \in 1 .. 99} \cap {<<d, k>> \in (DOMAIN SS) \X (1 .. 99) : k \in DOMAIN SS[d].trials}
Lev(SS, p) == SS[p[1]].trials[p[2]].level
Cand(SS) == {p \in All(SS) : ~SS[p[1]].trials[p[2]].pruned}
BestAll(SS) == {p \in Cand(SS) : \A o \in Cand(SS) : Lev(SS, o) <= Lev(SS, p)}
(* a trial that reports worse than all before it is to be pruned as soon as    *)
(* the start-up number of trials (and at least one) has completed              *)
Worst(S, t, startup) == LET done == Cardinality({j \in Complete(S) : j < t}) IN done >= 1 /\ done >= startup
RECURSIVE Dims(_, _)
Dims(d, max) == IF d > max THEN << >> ELSE <<d>> \o Dims(2 * d, max)
=============================================================================
