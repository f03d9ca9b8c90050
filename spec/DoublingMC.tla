----------------------------- MODULE DoublingMC -----------------------------
EXTENDS Doubling, TLC, Json, IOUtils
CONSTANTS Inits, Maxes, Counts, Levels
VARIABLES c, dim, SS, pc
vars == <<c, dim, SS, pc>>
Init == /\ c \in [init : Inits, max : Maxes, n1 : Counts, n2 : Counts] /\ c.init <= c.max
        /\ dim = c.init /\ SS = << >> /\ pc = "open"
Open == pc = "open" /\ dim <= c.max /\ SS' = Append(SS, [dim |-> dim, trials |-> << >>]) /\ pc' = "trial" /\ UNCHANGED <<c, dim>>
Want == IF Len(SS) = 1 THEN c.n1 ELSE c.n2
Cur == SS[Len(SS)]
Trial == /\ pc = "trial" /\ Len(Cur.trials) < Want
         /\ \E l \in Levels, p \in BOOLEAN :
              /\ (p => Len(Cur.trials) + 1 < Want \/ Complete(Cur) # {})        \* some trial of every study completes
              /\ SS' = [SS EXCEPT ![Len(SS)].trials = Append(@, [level |-> l, pruned |-> p])]
         /\ UNCHANGED <<c, dim, pc>>
Double == pc = "trial" /\ Len(Cur.trials) = Want /\ dim' = 2 * dim /\ pc' = "open" /\ UNCHANGED <<c, SS>>
Finish == pc = "open" /\ dim > c.max /\ pc' = "end" /\ UNCHANGED <<c, dim, SS>> /\ PrintT("@@" \o ToJson([c |-> c, SS |-> SS]))
Next == Open \/ Trial \/ Double \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Visited == pc = "end" => [k \in DOMAIN SS |-> SS[k].dim] = Dims(c.init, c.max)
Powers == \A k \in DOMAIN SS : SS[k].dim = c.init * 2 ^ (k - 1) /\ SS[k].dim <= c.max
NoneLeft == pc = "end" => 2 * SS[Len(SS)].dim > c.max /\ SS[1].dim = c.init
SomeBest == pc = "end" => BestAll(SS) # {} /\ \A k \in DOMAIN SS : BestIn(SS[k]) # {}
BestOfBests == pc = "end" => \A p \in BestAll(SS) : p[2] \in BestIn(SS[p[1]])
Halts == <>(pc = "end")
=============================================================================
