------------------------------ MODULE EarlyStop ------------------------------
(* Iterative training of one model object, possibly several times.  A         *)
(* training runs epochs; every V-th epoch is validated when there is an       *)
(* evaluator; a strictly better score saves the state; D validations in a row *)
(* without improvement end it, as do the epoch limit and the pruner; finally  *)
(* the saved state is restored.  A state is <<training number, epochs run>>.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxE, MaxV, MaxD, Levels, Trainings, Prunable
VARIABLES n, cfg, ep, hist, best, degr, saved, model, learnt, pc, done
vars == <<n, cfg, ep, hist, best, degr, saved, model, learnt, pc, done>>
None == <<0, 0>>
Cfgs == [E : 0 .. MaxE, V : 1 .. MaxV, D : 1 .. MaxD, val : BOOLEAN]
\* what a training without explicit limits uses
DefaultCfgs == {[E |-> MaxE, V |-> MaxV, D |-> MaxD, val |-> v] : v \in BOOLEAN}
Fresh == ep = 0 /\ hist = << >> /\ best = [score |-> 0, at |-> 0] /\ degr = 0
Init == n = 0 /\ cfg = [E |-> 0, V |-> 1, D |-> 1, val |-> FALSE] /\ Fresh /\ saved = None /\ model = None /\ learnt = 0
        /\ pc = "idle" /\ done = << >>
\* a new training forgets everything the previous one saved or learnt
Start == /\ pc = "idle" /\ n < Trainings /\ n' = n + 1
         /\ cfg' \in Cfgs
         /\ (~cfg'.val /\ Cfgs # DefaultCfgs => cfg'.V = 1 /\ cfg'.D = 1)
         /\ ep' = 0 /\ hist' = << >> /\ best' = [score |-> 0, at |-> 0] /\ degr' = 0
         /\ saved' = None /\ learnt' = 0 /\ model' = <<n + 1, 0>> /\ pc' = "epoch" /\ UNCHANGED done
Epoch == /\ pc = "epoch" /\ ep < cfg.E /\ ep' = ep + 1 /\ model' = <<n, ep + 1>>
         /\ pc' = IF cfg.val /\ (ep + 1) % cfg.V = 0 THEN "validate" ELSE "epoch"
         /\ UNCHANGED <<n, cfg, hist, best, degr, saved, learnt, done>>
Validate == /\ pc = "validate"
            /\ \E s \in Levels :
                 /\ hist' = Append(hist, s)
                 /\ IF s > best.score
                    THEN best' = [score |-> s, at |-> ep] /\ saved' = model /\ learnt' = ep /\ degr' = 0 /\ pc' = "prune"
                    ELSE /\ degr' = degr + 1 /\ UNCHANGED <<best, saved, learnt>>
                         /\ pc' = IF degr + 1 >= cfg.D THEN "end" ELSE "prune"
            /\ UNCHANGED <<n, cfg, ep, model, done>>
Pruner == /\ pc = "prune" /\ (pc' = "epoch" \/ (Prunable /\ pc' = "pruned"))
          /\ UNCHANGED <<n, cfg, ep, hist, best, degr, saved, model, learnt, done>>
LimitReached == /\ pc = "epoch" /\ ep = cfg.E /\ pc' = "end"
                /\ UNCHANGED <<n, cfg, ep, hist, best, degr, saved, model, learnt, done>>
Kind == IF pc = "pruned" THEN "pruned" ELSE IF cfg.val /\ hist = << >> THEN "unvalidated" ELSE "ok"
Close == /\ pc \in {"end", "pruned"}
         /\ model' = IF pc = "end" /\ saved # None THEN saved ELSE model
         /\ done' = Append(done, [cfg |-> cfg, hist |-> hist, epochs |-> ep, kind |-> Kind,
                                  state |-> IF pc = "end" /\ saved # None THEN saved ELSE model, learnt |-> learnt])
         /\ pc' = "idle" /\ UNCHANGED <<n, cfg, ep, hist, best, degr, saved, learnt>>
Report == /\ pc = "idle" /\ n = Trainings /\ pc' = "reported" /\ PrintT("@@" \o ToJson([runs |-> done]))
          /\ UNCHANGED <<n, cfg, ep, hist, best, degr, saved, model, learnt, done>>
Next == Start \/ Epoch \/ Validate \/ Pruner \/ LimitReached \/ Close \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Epoch \/ Validate \/ Pruner \/ LimitReached \/ Close)
\* long trainings in which nothing but the lowest level interrupts the improvements
Quiet == pc = "validate" /\ best.score > 0 =>
             LET s == hist'[Len(hist')] IN s = 1 \/ s > best.score
\* ---- meaning
FirstBest(h) == CHOOSE k \in DOMAIN h : (\A j \in DOMAIN h : h[j] <= h[k]) /\ \A j \in 1 .. k - 1 : h[j] < h[k]
EndsAtBest == \A t \in DOMAIN done : LET d == done[t] IN d.kind = "ok" =>
    IF d.cfg.val THEN d.state = <<t, FirstBest(d.hist) * d.cfg.V>> /\ d.learnt = FirstBest(d.hist) * d.cfg.V
    ELSE d.state = <<t, d.cfg.E>> /\ d.learnt = 0
NeverFromEarlier == \A t \in DOMAIN done : done[t].state[1] = t
\* patience: a window of D validations without a new maximum exists only at the very end
Stale(h, k, D) == k >= D /\ \A j \in k - D + 1 .. k : \E i \in 1 .. j - 1 : h[i] >= h[j]
Patience == \A t \in DOMAIN done : LET d == done[t] IN
    /\ \A k \in DOMAIN d.hist : Stale(d.hist, k, d.cfg.D) => k = Len(d.hist)
    /\ d.kind = "ok" /\ d.epochs < d.cfg.E => d.cfg.val /\ Stale(d.hist, Len(d.hist), d.cfg.D)
Validated == \A t \in DOMAIN done : done[t].cfg.val => Len(done[t].hist) = done[t].epochs \div done[t].cfg.V
Terminates == [](pc = "epoch" => <>(pc \in {"idle", "reported"}))
=============================================================================
