---------------------------- MODULE SplitRowwise -----------------------------
(* Row-wise random holdout of a sparse matrix.  The matrix is processed row *)
(* by row; from each row some set of stored entries of exactly the promised *)
(* size is held out, whichever the generator happens to choose.             *)
(* An input: rows (per row: sequence of <<column, value id>>), rule.        *)
EXTENDS SplitBase
VARIABLES c, r, train, test
vars == <<c, r, train, test>>

RuleOk(rule) == rule.kind = "n" \/ RatioOk(rule)
InitWith(cases) == /\ c \in cases /\ r = 0
                   /\ train = [q \in DOMAIN c.rows |-> {}]
                   /\ test = [q \in DOMAIN c.rows |-> {}]
Entries(q) == Set(c.rows[q])
\* hold out the entries H of the next row
HoldOut(H) ==
    /\ r < Len(c.rows)
    /\ H \subseteq Entries(r + 1)
    /\ Cardinality(H) = NHeldOut(c.rule, Cardinality(Entries(r + 1)))
    /\ test' = [test EXCEPT ![r + 1] = H]
    /\ train' = [train EXCEPT ![r + 1] = Entries(r + 1) \ H]
    /\ r' = r + 1
    /\ UNCHANGED c
Next == r < Len(c.rows) /\ \E H \in SUBSET Entries(r + 1) : HoldOut(H)

Partition == \A q \in DOMAIN c.rows : q <= r =>
                /\ train[q] \cap test[q] = {}
                /\ train[q] \cup test[q] = Entries(q)
Monotone == \A q, p \in 1 .. r : Cardinality(Entries(q)) <= Cardinality(Entries(p))
                => Cardinality(test[q]) <= Cardinality(test[p])
Extremes == \A q \in 1 .. r :
                /\ (c.rule.num = 0 /\ Eps(c.rule) = 0 => test[q] = {})
                /\ (c.rule.kind # "n" /\ c.rule.num = c.rule.den /\ Eps(c.rule) = 0 => train[q] = {})
=============================================================================
