------------------------------ MODULE Recommend ------------------------------
(* A recommendation list is built one item at a time: each step takes some   *)
(* best remaining eligible item (ties arbitrary) until the cutoff or the     *)
(* eligible items are exhausted.                                             *)
(* An input: ni items 0..ni-1, score (level per item, NINF = never), seen,   *)
(* hasallow/allow, forbid, cutoff.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NINF == -1000000
Set(s) == {s[q] : q \in DOMAIN s}
VARIABLES c, list
vars == <<c, list>>
Eligible == {i \in 0 .. c.ni - 1 : /\ c.score[i + 1] # NINF
                                   /\ i \notin Set(c.seen)
                                   /\ (c.hasallow => i \in Set(c.allow))
                                   /\ i \notin Set(c.forbid)}
Left == Eligible \ Set(list)
Best(i) == i \in Left /\ \A j \in Left : c.score[j + 1] <= c.score[i + 1]
InitWith(cases) == c \in cases /\ list = << >>
Pick(i) == Len(list) < c.cutoff /\ Best(i) /\ list' = Append(list, i) /\ UNCHANGED c
Next == \E i \in 0 .. c.ni - 1 : Pick(i)
Complete == Len(list) = c.cutoff \/ Left = {}
Sorted == \A a, b \in DOMAIN list : a < b => c.score[list[a] + 1] >= c.score[list[b] + 1]
NoBetterLeft == \A a \in DOMAIN list : \A j \in Left : c.score[list[a] + 1] >= c.score[j + 1]
Distinct == Cardinality(Set(list)) = Len(list)
OnlyEligible == Set(list) \subseteq Eligible /\ Len(list) <= c.cutoff
=============================================================================
