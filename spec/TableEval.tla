------------------------------ MODULE TableEval ------------------------------
(* Evaluating a recommendation table against a ground-truth table.  The rows *)
(* of the two tables arrive one at a time, in any interleaving of users; a   *)
(* row of a user that the other table never mentions has no effect.  An      *)
(* input: rec and truth are sequences of <<user, item>>.                     *)
EXTENDS Ranking
VARIABLES c, k, phase, list, rel
vars == <<c, k, phase, list, rel>>
Users(t) == {t[q][1] : q \in DOMAIN t}
Both(x) == Users(x.rec) \cap Users(x.truth)
Items(x) == {x.rec[q][2] : q \in {r \in DOMAIN x.rec : x.rec[r][1] \in Both(x)}}
            \cup {x.truth[q][2] : q \in {r \in DOMAIN x.truth : x.truth[r][1] \in Both(x)}}
InitWith(cases) == /\ c \in cases /\ k = 1 /\ phase = "rec"
                   /\ list = [u \in Both(c) |-> << >>] /\ rel = [u \in Both(c) |-> {}]
ReadRec == /\ phase = "rec" /\ k <= Len(c.rec)
           /\ list' = IF c.rec[k][1] \in Both(c) THEN [list EXCEPT ![c.rec[k][1]] = Append(@, c.rec[k][2])] ELSE list
           /\ k' = k + 1 /\ UNCHANGED <<c, phase, rel>>
Switch == phase = "rec" /\ k > Len(c.rec) /\ phase' = "truth" /\ k' = 1 /\ UNCHANGED <<c, list, rel>>
ReadTruth == /\ phase = "truth" /\ k <= Len(c.truth)
             /\ rel' = IF c.truth[k][1] \in Both(c) THEN [rel EXCEPT ![c.truth[k][1]] = @ \cup {c.truth[k][2]}] ELSE rel
             /\ k' = k + 1 /\ UNCHANGED <<c, phase, list>>
RECURSIVE AddAll(_, _)
\* item identities do not matter for the sums: histogram over the used items
Hist(x) == SetToSeq(Items(x))
Rank(x, i) == (CHOOSE q \in DOMAIN Hist(x) : Hist(x)[q] = i) - 1
Mapped(x, l) == [q \in DOMAIN l |-> Rank(x, l[q])]
AddAll(us, a) == IF us = {} THEN a
                 ELSE LET u == CHOOSE v \in us : TRUE
                      IN  AddAll(us \ {u}, AddUser(a, Mapped(c, list[u]), {Rank(c, i) : i \in rel[u]}, FALSE))
Report0 == Report(AddAll(Both(c), EmptyAcc(Cardinality(Items(c)))), Cardinality(Items(c)))
Finish == phase = "truth" /\ k > Len(c.truth) /\ phase' = "done" /\ UNCHANGED <<c, k, list, rel>>
Next == ReadRec \/ Switch \/ ReadTruth \/ Finish
\* only users of both tables count, each item in table order, nothing else enters
OnlyCommon == DOMAIN list = Both(c) /\ DOMAIN rel = Both(c)
InOrder == \A u \in DOMAIN list :
             LET rows == SelectSeq(c.rec, LAMBDA r : r[1] = u)
             IN  \A q \in DOMAIN list[u] : rows[q][2] = list[u][q]
=============================================================================
