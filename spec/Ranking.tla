------------------------------- MODULE Ranking -------------------------------
(***************************************************************************)
(* Definition of irspack's top-K evaluation for ONE user and of how the    *)
(* per-user results are summed.  Every metric is a symbolic term that is   *)
(* exact: rationals are <<num, den>> pairs, ndcg is given by the positions *)
(* of the hits and the length of the ideal list (discount of position p is *)
(* 1/log2(p+1)), entropy/gini by the item histogram.                       *)
(*                                                                         *)
(* Items are 0-based indices; score rows are sequences, score of item i is *)
(* row[i+1]; NINF encodes minus infinity ("cannot be recommended").        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NINF == -1000000

Min2(a, b) == IF a < b THEN a ELSE b
Set(s) == {s[k] : k \in DOMAIN s}

\* Items that may be shown to the user: allowed, not masked, scoreable.
Candidates(row, allowed, masked) ==
    {i \in allowed : i \notin masked /\ row[i + 1] # NINF}

\* Best first; equal scores: the lower item index first.
Better(row, a, b) == \/ row[a + 1] > row[b + 1]
                     \/ row[a + 1] = row[b + 1] /\ a < b

Ranked(row, cands) == SetToSortSeq(cands, LAMBDA a, b : Better(row, a, b))

TopK(row, allowed, masked, cutoff) ==
    LET r == Ranked(row, Candidates(row, allowed, masked))
    IN  SubSeq(r, 1, Min2(cutoff, Len(r)))

\* Positions (1-based) of relevant items in a recommendation list.
HitPositions(recs, truth) == SelectSeq([k \in 1..Len(recs) |-> k],
                                       LAMBDA k : recs[k] \in truth)

(* One user's contribution.  `truth` is already restricted to the items the *)
(* evaluation may recommend; a user with empty truth is counted only in     *)
(* total; a user with no candidate counts as valid and contributes zeros.   *)
UserTerms(recs, truth, recallWithCutoff) ==
    LET pos  == HitPositions(recs, truth)
        h    == Len(pos)
        n    == Len(recs)
        g    == Cardinality(truth)
    IN  IF n = 0
        THEN [hit |-> 0, recall |-> <<0, 1>>, precision |-> <<0, 1>>,
              ap |-> << >>, pos |-> << >>, ideal |-> 0, n |-> 0, g |-> g]
        ELSE [hit |-> IF h > 0 THEN 1 ELSE 0,
              recall |-> <<h, IF recallWithCutoff THEN Min2(g, n) ELSE g>>,
              precision |-> <<h, n>>,
              ap |-> [k \in 1..h |-> <<k, pos[k] * g>>],
              pos |-> pos, ideal |-> Min2(g, n), n |-> n, g |-> g]

EmptyAcc(nitems) ==
    [total |-> 0, valid |-> 0, hit |-> 0, recall |-> << >>, precision |-> << >>,
     ap |-> << >>, ndcg |-> << >>, cnt |-> [k \in 1..nitems |-> 0]]

\* Sum in one more user.
AddUser(acc, recs, truth, recallWithCutoff) ==
    IF truth = {}
    THEN [acc EXCEPT !.total = @ + 1]
    ELSE LET t == UserTerms(recs, truth, recallWithCutoff)
             seen == Set(recs)
         IN  [total |-> acc.total + 1,
              valid |-> acc.valid + 1,
              hit |-> acc.hit + t.hit,
              recall |-> IF t.recall[1] = 0 THEN acc.recall ELSE Append(acc.recall, t.recall),
              precision |-> IF t.precision[1] = 0 THEN acc.precision ELSE Append(acc.precision, t.precision),
              ap |-> acc.ap \o t.ap,
              ndcg |-> IF t.pos = << >> THEN acc.ndcg ELSE Append(acc.ndcg, [pos |-> t.pos, ideal |-> t.ideal]),
              cnt |-> [k \in DOMAIN acc.cnt |->
                         acc.cnt[k] + Cardinality({q \in DOMAIN recs : recs[q] = k - 1})]]

\* Diversity of the recommended items.
Appeared(acc) == Cardinality({k \in DOMAIN acc.cnt : acc.cnt[k] > 0})
Shown(acc) == FoldFunction(LAMBDA a, b : a + b, 0, acc.cnt)
\* Gini over ALL items: sum_i (2 i - n + 1) c_(i) / (n * total), c ascending, i from 0.
Gini(acc) ==
    LET c == SortSeq(acc.cnt, LAMBDA a, b : a < b)
        n == Len(c)
        RECURSIVE S(_)
        S(k) == IF k = 0 THEN 0 ELSE (2 * (k - 1) - n + 1) * c[k] + S(k - 1)
    IN  IF Shown(acc) = 0 THEN <<0, 1>> ELSE <<S(n), n * Shown(acc)>>

\* What the user sees for one cutoff (metrics as terms).
Report(acc, nrecommendable) ==
    [total |-> acc.total, valid |-> acc.valid, hit |-> acc.hit,
     recall |-> acc.recall, precision |-> acc.precision, ap |-> acc.ap,
     ndcg |-> acc.ndcg, cnt |-> acc.cnt, shown |-> Shown(acc),
     gini |-> Gini(acc), appeared |-> Appeared(acc),
     coverage |-> <<Appeared(acc), nrecommendable>>]
=============================================================================
