----------------------------- MODULE SplitMarked -----------------------------
(* Holdout of marked interactions.  Users with a marked interaction are        *)
(* divided into train / val / test (any division of the promised sizes); users *)
(* without one train.  Val and test users hold out exactly their marked rows.  *)
(* An input: log rows [u, i, m] (m: marked), ratios rv, rt over den.           *)
EXTENDS SplitBase
VARIABLES c, phase, val, test
vars == <<c, phase, val, test>>
Users == {c.log[q].u : q \in DOMAIN c.log}
Markable == {c.log[q].u : q \in {p \in DOMAIN c.log : c.log[p].m}}
M == Cardinality(Markable)
NTrain == ((c.den - c.rv - c.rt) * M) \div c.den
NVal == IF c.rv + c.rt = 0 THEN 0 ELSE ((M - NTrain) * c.rv) \div (c.rv + c.rt)
NTest == M - NTrain - NVal
Valid == c.rv + c.rt <= c.den
Rows(u) == {q \in DOMAIN c.log : c.log[q].u = u}
Learn(u) == {q \in Rows(u) : u \notin val \cup test \/ ~c.log[q].m}
Held(u) == {q \in Rows(u) : u \in val \cup test /\ c.log[q].m}
InitWith(cases) == c \in cases /\ phase = "groups" /\ val = {} /\ test = {}
Assignable(V, T) == /\ Valid /\ V \subseteq Markable /\ T \subseteq Markable /\ V \cap T = {}
                    /\ Cardinality(V) = NVal /\ Cardinality(T) = (IF c.rv + c.rt = 0 THEN 0 ELSE NTest)
Assign(V, T) == /\ phase = "groups" /\ Assignable(V, T) /\ val' = V /\ test' = T /\ phase' = "done" /\ UNCHANGED c
Refuse == phase = "groups" /\ ~Valid /\ phase' = "refused" /\ UNCHANGED <<c, val, test>>
Next == Refuse \/ \E V, T \in SUBSET Markable : Assign(V, T)
\* no marked interaction of a validation or test user is available for learning
NoLeak == \A u \in val \cup test : \A q \in Learn(u) : ~c.log[q].m
Complete == \A u \in Users : Learn(u) \cup Held(u) = Rows(u) /\ Learn(u) \cap Held(u) = {}
EveryHolds == \A u \in val \cup test : Held(u) # {}
=============================================================================
