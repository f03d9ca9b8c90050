----------------------------- MODULE EvaluatorMC -----------------------------
(* Exhaustive small universe: one or two users, three items, every score    *)
(* pattern over {-inf, 0, 1}, every ground truth, every restriction.        *)
EXTENDS Evaluator, Json, IOUtils

Universe == IOEnv.UNIVERSE
Sub == SUBSET {0, 1, 2}
Seqd == [s \in Sub |-> SetToSortSeq(s, LAMBDA a, b : a < b)]
Rows == [1..3 -> {NINF, 0, 1}]
RowSeq(r) == <<r[1], r[2], r[3]>>

Mk(nu, gt, sc, path, train, hm, mask, reck, rec, cuts, rwc, blocks) ==
    [id |-> "", nu |-> nu, ni |-> 3, gt |-> gt, sc |-> sc, path |-> path, off |-> 0,
     train |-> train, hasmask |-> hm, mask |-> mask, reck |-> reck, rec |-> rec,
     ncold |-> 0, cold |-> "none", cuts |-> cuts, rwc |-> rwc, blocks |-> blocks]
Blk(n) == [rows |-> n, cols |-> 3, kind |-> "ok"]

\* one user, no mask, all restrictions, all cutoffs
One == {Mk(1, <<Seqd[g]>>, <<RowSeq(r)>>, "matrix", << >>, FALSE, << >>, rk[1], rk[2], <<1, 2, 3>>, w, <<Blk(1)>>) :
          g \in Sub, r \in Rows, w \in BOOLEAN,
          rk \in {<<"all", << >>>>} \cup {<<"global", <<Seqd[s]>>>> : s \in Sub}}
\* one user, masks
OneMask == {Mk(1, <<Seqd[g]>>, <<RowSeq(r)>>, p, <<Seqd[t]>>, hm, IF hm THEN <<Seqd[m]>> ELSE << >>, "all", << >>, <<2>>, FALSE, <<Blk(1)>>) :
          g \in Sub \ {{}}, r \in {x \in Rows : \A j \in 1..3 : x[j] # NINF},
          p \in {"matrix", "model", "cold"}, t \in Sub, hm \in BOOLEAN, m \in Sub}
\* two users: every way of delivering two rows, per-user restriction
Two == {Mk(2, <<Seqd[g1], Seqd[g2]>>, <<RowSeq(r1), RowSeq(r2)>>, "matrix", << >>, FALSE, << >>, "user",
           <<Seqd[a1], Seqd[a2]>>, <<1, 3>>, TRUE, b) :
          g1 \in {{0}, {1, 2}}, g2 \in {{}, {2}, {0, 1, 2}},
          r1 \in {x \in Rows : x[1] = 1}, r2 \in {x \in Rows : x[3] # NINF},
          a1 \in {{0, 1, 2}, {1}}, a2 \in {{0, 2}, {}},
          b \in {<<Blk(2)>>, <<Blk(1), Blk(1)>>, <<Blk(0), Blk(2)>>, <<Blk(1), Blk(0), Blk(1)>>,
                 <<Blk(1)>>, <<Blk(3)>>, <<Blk(2), Blk(1)>>, << >>}}

\* unseen users: two warm items and one feature-only item, every history,
\* mask (either width), capability of the model and score pattern
MkC(g, row, h, hm, m, cap) ==
    [Mk(1, <<Seqd[g]>>, <<row>>, "cold", <<Seqd[h]>>, hm, IF hm THEN <<Seqd[m]>> ELSE << >>, "all", << >>, <<1, 3>>, FALSE, <<Blk(1)>>)
        EXCEPT !.ncold = 1, !.cold = cap]
ColdU == {MkC(g, IF cap = "yes" THEN RowSeq(r) ELSE SubSeq(RowSeq(r), 1, 2), h, hm, IF hm THEN m ELSE {}, cap) :
            g \in Sub \ {{}}, r \in Rows, h \in SUBSET {0, 1}, hm \in BOOLEAN, m \in Sub, cap \in {"yes", "none"}}

Cases == CASE Universe = "cold" -> ColdU [] Universe = "one" -> One [] Universe = "mask" -> OneMask [] Universe = "two" -> Two
Init == InitWith(Cases)
Show(r) == PrintT("@@" \o ToJson([c |-> c, ok |-> r.ok, res |-> r.res]))
Emit == st' \in {"done", "rejected"} => Show(Result')
Step == Next /\ Emit
Spec == Init /\ [][Step]_vars
=============================================================================
