---------------------------- MODULE DoublingTrace ----------------------------
EXTENDS Doubling, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, bad, st
vars == <<c, k, bad, st>>
Init == c \in {Cases[n] : n \in DOMAIN Cases} /\ k = 1 /\ bad = << >> /\ st = "run"
Msg(cond, t) == IF cond THEN << >> ELSE <<t>>
Set(s) == {s[n] : n \in DOMAIN s}
S == c.SS[k]
Tag == "dimension " \o ToString(S.dim) \o ": "
Study == /\ st = "run" /\ k <= Len(c.SS) /\ k' = k + 1 /\ UNCHANGED <<c, st>>
         /\ bad' = bad \o Msg(Len(S.trials) = (IF k = 1 THEN c.n1 ELSE c.n2), Tag \o "ran " \o ToString(Len(S.trials)) \o " trials")
             \o Msg(\A t \in DOMAIN S.trials : S.trials[t].built = S.dim, Tag \o "models were built with another dimension")
             \o Msg(\A t \in DOMAIN S.trials : S.trials[t].limits, Tag \o "models were trained with other limits")
             \o Msg(k = 1 \/ \A t \in DOMAIN S.trials : \E b \in BestIn(c.SS[k - 1]) : S.trials[t].near[b],
                    Tag \o "does not search the neighbourhood of the previous best parameters")
             \o Msg(\A t \in DOMAIN S.trials : S.trials[t].prune = Worst(S, t, IF k = 1 THEN c.s1 ELSE c.s2),
                    Tag \o "pruning does not begin after the configured number of completed trials")
Row(p) == c.SS[p[1]].trials[p[2]]
Final == IF ~c.ok THEN <<"search failed: " \o c.err>>
         ELSE Msg([n \in DOMAIN c.SS |-> c.SS[n].dim] = Dims(c.init, c.max), "visited dimensions " \o ToString([n \in DOMAIN c.SS |-> c.SS[n].dim])
                  \o " instead of " \o ToString(Dims(c.init, c.max)))
           \o Msg(\E p \in BestAll(c.SS) : Set(c.best) = Set(Row(p).result) \cup {<<"n_components", c.SS[p[1]].dimid>>},
                  "returned " \o ToString(c.best) \o ", should be one of "
                  \o ToString({Set(Row(p).result) \cup {<<"n_components", c.SS[p[1]].dimid>>} : p \in BestAll(c.SS)}))
           \o Msg(c.rows = [n \in DOMAIN c.SS |-> [dim |-> c.SS[n].dim, n |-> Len(c.SS[n].trials)]], "history holds " \o ToString(c.rows))
           \o Msg(c.twin, "another search with the same seed suggested other parameters")
           \o Msg(c.values, "history holds other parameters or scores than the trials had")
Finish == /\ st = "run" /\ k > Len(c.SS) /\ st' = "end" /\ UNCHANGED <<c, k, bad>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> bad \o Final]))
Spec == Init /\ [][Study \/ Finish]_vars
=============================================================================
