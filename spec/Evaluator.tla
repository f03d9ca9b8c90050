------------------------------ MODULE Evaluator ------------------------------
(***************************************************************************)
(* The evaluation run: score row-blocks arrive one after another, each is  *)
(* checked, masked, ranked and added to the running sums; the run ends     *)
(* with a report or with a rejection of the stream.                        *)
(*                                                                         *)
(* A run's input `c` is a record                                           *)
(*   nu, ni        rows / columns of the ground truth                      *)
(*   gt            per evaluated user: list of relevant items              *)
(*   sc            score rows handed over / produced by the model          *)
(*                 (for a model: one row per MODEL user)                   *)
(*   path          "matrix"  scores are handed over, rows = evaluated users*)
(*                 "model"   rows offset+1 .. offset+nu of a trained model *)
(*                 "cold"    model scores of the users' known interactions *)
(*                 "coldmat" scores handed over for such users             *)
(*   off           first evaluated model user (only "model")               *)
(*   train         "model": training rows; "cold*": known interactions     *)
(*   hasmask, mask explicit mask rows (or hasmask = FALSE)                 *)
(*   reck, rec     "all" | "global" (rec[1]) | "user" (rec[u])             *)
(*   ncold         number of feature-only item columns (cold paths)        *)
(*   cold          "none" | "yes": the model scores feature-only items     *)
(*   cuts, rwc     cutoffs, recall denominator flag                        *)
(*   sh            (optional) the shapes actually handed over: input rows  *)
(*                 and columns (inr, inc), whether features are given and  *)
(*                 their rows (feat, fr), mask rows and columns (mr, mc),  *)
(*                 users and items of the model (mu, mi)                   *)
(*   blocks        the stream: [rows, cols, kind]; kind "ok" or a defect   *)
(***************************************************************************)
EXTENDS Ranking

VARIABLES c,      \* the input of this run
          k,      \* next block
          pos,    \* rows consumed so far
          acc,    \* running sums, one per cutoff
          st      \* "run" | "done" | "rejected"
vars == <<c, k, pos, acc, st>>

AllItems(x) == 0 .. x.ni - 1
Allowed(x, u) == CASE x.reck = "all" -> AllItems(x)
                   [] x.reck = "global" -> Set(x.rec[1])
                   [] x.reck = "user" -> Set(x.rec[u])
NRecommendable(x) ==
    CASE x.reck = "all" -> x.ni
      [] x.reck = "global" -> Cardinality(Set(x.rec[1]))
      [] x.reck = "user" -> Cardinality(UNION {Set(x.rec[q]) : q \in DOMAIN x.rec})

\* What is removed from user u's ranking.
Masked(x, u) ==
    IF x.hasmask THEN Set(x.mask[u])
    ELSE CASE x.path = "matrix" -> {}
           [] x.path = "model" -> Set(x.train[x.off + u])
           [] x.path \in {"cold", "coldmat"} -> Set(x.train[u])

\* The score row of evaluated user u, widened by unscoreable feature-only items
\* when the model cannot score them.
ScoreRow(x, u) ==
    LET row == IF x.path = "model" THEN x.sc[x.off + u] ELSE x.sc[u]
    IN  IF Len(row) < x.ni THEN row \o [q \in 1..(x.ni - Len(row)) |-> NINF] ELSE row

Truth(x, u) == Set(x.gt[u]) \cap Allowed(x, u)
Recs(x, u, cutoff) == TopK(ScoreRow(x, u), Allowed(x, u), Masked(x, u), cutoff)

RECURSIVE AddRows(_, _, _, _, _)
AddRows(x, a, from, to, cutoff) ==
    IF from > to THEN a
    ELSE AddRows(x, AddUser(a, IF Truth(x, from) = {} THEN << >> ELSE Recs(x, from, cutoff),
                            Truth(x, from), x.rwc),
                 from + 1, to, cutoff)

\* Declarative result over the first n users, for comparison with the run.
Direct(x, n, cutoff) == AddRows(x, EmptyAcc(x.ni), 1, n, cutoff)

\* What must fit together before anything is evaluated.
Distinct(l) == Cardinality(Set(l)) = Len(l)
RestrictionOk(x) ==
    CASE x.reck = "all" -> TRUE
      [] x.reck = "global" -> Distinct(x.rec[1]) /\ Set(x.rec[1]) \subseteq AllItems(x)
      [] x.reck = "user" -> /\ Len(x.rec) = x.nu
                            /\ \A u \in DOMAIN x.rec : Distinct(x.rec[u]) /\ Set(x.rec[u]) \subseteq AllItems(x)
ShapesOk(x) ==
    IF "sh" \notin DOMAIN x THEN TRUE ELSE
    LET s == x.sh
        coldpath == x.path \in {"cold", "coldmat"}
    IN  /\ coldpath => s.inr = x.nu
        /\ coldpath => x.ni = s.inc + (IF s.feat THEN s.fr ELSE 0)
        /\ x.hasmask => \/ s.mr = x.nu /\ s.mc = x.ni
                        \/ coldpath /\ s.feat /\ s.mr = s.inr /\ s.mc = s.inc
        /\ x.path = "model" => x.off + x.nu <= s.mu /\ s.mi = x.ni
        /\ x.path = "cold" => s.mi = s.inc
SetupOk(x) == RestrictionOk(x) /\ ShapesOk(x)

InitWith(cases) ==
    /\ c \in cases
    /\ k = 1 /\ pos = 0 /\ st = "run"
    /\ acc = [q \in 1..Len(c.cuts) |-> EmptyAcc(c.ni)]

CutoffOk(x) == \A q \in DOMAIN x.cuts : x.cuts[q] >= 1 /\ x.cuts[q] <= x.ni

BlockOk(b) == b.kind = "ok" /\ b.cols = c.ni /\ pos + b.rows <= c.nu

Feed == /\ st = "run" /\ k <= Len(c.blocks) /\ SetupOk(c)
        /\ BlockOk(c.blocks[k])
        /\ (c.blocks[k].rows = 0 \/ CutoffOk(c))
        /\ acc' = [q \in DOMAIN acc |->
                     AddRows(c, acc[q], pos + 1, pos + c.blocks[k].rows, c.cuts[q])]
        /\ pos' = pos + c.blocks[k].rows
        /\ k' = k + 1
        /\ UNCHANGED <<c, st>>

Reject == /\ st = "run"
          /\ \/ ~SetupOk(c)
             \/ k <= Len(c.blocks) /\ ~BlockOk(c.blocks[k])
             \/ k <= Len(c.blocks) /\ BlockOk(c.blocks[k]) /\ c.blocks[k].rows > 0 /\ ~CutoffOk(c)
             \/ k > Len(c.blocks) /\ pos < c.nu
          /\ st' = "rejected"
          /\ UNCHANGED <<c, k, pos, acc>>

Finish == /\ st = "run" /\ k > Len(c.blocks) /\ pos = c.nu /\ SetupOk(c)
          /\ st' = "done"
          /\ UNCHANGED <<c, k, pos, acc>>

Next == Feed \/ Reject \/ Finish

Result == IF st = "done"
          THEN [id |-> c.id, ok |-> TRUE,
                res |-> [q \in DOMAIN acc |-> Report(acc[q], NRecommendable(c))]]
          ELSE [id |-> c.id, ok |-> FALSE, res |-> << >>]

-----------------------------------------------------------------------------
(* Properties of the design *)
\* However the rows are cut into blocks, the sums equal the direct definition.
BlockInvariance == \A q \in DOMAIN acc :
                       acc[q] = Direct(c, pos, c.cuts[q])
\* Nothing masked, unscoreable, or outside the allowed set is ever counted.
OnlyRecommendable ==
    \A q \in DOMAIN acc : \A i \in AllItems(c) :
        acc[q].cnt[i + 1] <= Cardinality({u \in 1..pos :
            /\ i \in Allowed(c, u) /\ i \notin Masked(c, u)
            /\ ScoreRow(c, u)[i + 1] # NINF /\ Truth(c, u) # {}})
\* At most `cutoff` items per valid user; every metric stays in [0,1].
Bounded ==
    \A q \in DOMAIN acc :
        /\ Shown(acc[q]) <= c.cuts[q] * acc[q].valid
        /\ acc[q].hit <= acc[q].valid /\ acc[q].valid <= acc[q].total
        /\ acc[q].total = pos
        /\ \A t \in Set(acc[q].recall) \cup Set(acc[q].precision) : t[1] <= t[2]
        /\ \A t \in Set(acc[q].ndcg) : Len(t.pos) <= t.ideal
\* Growing the cutoff never loses a hit.
MonotoneHits ==
    \A q, r \in DOMAIN acc : c.cuts[q] <= c.cuts[r] =>
        acc[q].hit <= acc[r].hit
=============================================================================
