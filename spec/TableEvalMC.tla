----------------------------- MODULE TableEvalMC -----------------------------
(* every pair of small tables: 2 users, 2 items, up to 3 + 2 rows, no item    *)
(* recommended twice to a user                                                *)
EXTENDS TableEval, Json
Row == {1, 2, 3} \X {1, 2}
Tab(n) == UNION {[1 .. m -> Row] : m \in 0 .. n}
NoRepeat(t) == \A a, b \in DOMAIN t : a # b => t[a] # t[b]
Init == InitWith({[id |-> ToString(<<r, t>>), rec |-> r, truth |-> t] : r \in {x \in Tab(3) : NoRepeat(x)},
                                                                    t \in {x \in Tab(2) : \A q \in DOMAIN x : x[q][1] # 3}})
Step == Next /\ (IF phase' = "done" THEN PrintT("@@" \o ToJson([id |-> c.id, rec |-> c.rec, truth |-> c.truth, res |-> Report0])) ELSE TRUE)
Spec == Init /\ [][Step]_vars
=============================================================================
