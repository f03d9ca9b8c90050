------------------------------ MODULE SplitTime ------------------------------
(* Temporal holdout of a log.  Users are processed one after another; from  *)
(* each user's rows the promised number of latest ones is held out, ties    *)
(* broken arbitrarily.  A log is a sequence of [u, t] rows (row number =    *)
(* identity of the row).                                                    *)
EXTENDS SplitBase
VARIABLES c, todo, test
vars == <<c, todo, test>>
RowsOf(u) == {q \in DOMAIN c.log : c.log[q].u = u}
Users == {c.log[q].u : q \in DOMAIN c.log}
LatestChoice(u, H) ==
    /\ H \subseteq RowsOf(u)
    /\ Cardinality(H) = NHeldOut(c.rule, Cardinality(RowsOf(u)))
    /\ \A h \in H, k \in RowsOf(u) \ H : c.log[h].t >= c.log[k].t
InitWith(cases) == c \in cases /\ todo = {c.log[q].u : q \in DOMAIN c.log} /\ test = {}
HoldOut(u, H) == /\ u \in todo /\ LatestChoice(u, H)
                 /\ test' = test \cup H /\ todo' = todo \ {u} /\ UNCHANGED c
Next == \E u \in todo : \E H \in SUBSET RowsOf(u) : HoldOut(u, H)
\* no held-out row is older than a kept row of the same user, for any progress
NoLeak == \A h \in test, k \in DOMAIN c.log \ test :
             c.log[h].u = c.log[k].u /\ c.log[h].u \notin todo => c.log[h].t >= c.log[k].t
Sizes == \A u \in Users \ todo : Cardinality(test \cap RowsOf(u)) = NHeldOut(c.rule, Cardinality(RowsOf(u)))
=============================================================================
