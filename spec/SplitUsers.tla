------------------------------ MODULE SplitUsers -----------------------------
(* Partial-user holdout.  Users are divided into train / val / test groups of *)
(* the requested sizes (any choice), then every val and test user holds out   *)
(* the promised number of their distinct items (any choice, or any choice of  *)
(* the latest ones when time counts); train users keep everything.            *)
(* An input: log rows [u, i, v, t], gv / gt group-size requests, hv / ht      *)
(* holdout rules, time (BOOLEAN), rated (BOOLEAN).                            *)
EXTENDS SplitBase
VARIABLES c, phase, val, test, todo, held
vars == <<c, phase, val, test, todo, held>>

Users == {c.log[q].u : q \in DOMAIN c.log}
N == Cardinality(Users)
Want(g, n) == IF g.kind = "n" THEN g.num ELSE (g.num * n) \div g.den
NVal == Want(c.gv, N)
NTest == Want(c.gt, N)
Feasible == NVal + NTest <= N
\* a repeated user-item pair counts once, as first seen in the log
Firsts == {q \in DOMAIN c.log : \A p \in 1 .. q - 1 : c.log[p].u # c.log[q].u \/ c.log[p].i # c.log[q].i}
Rows(u) == {q \in Firsts : c.log[q].u = u}
Entry(q) == <<c.log[q].i, IF c.rated THEN c.log[q].v ELSE 0>>
Entries(S) == {Entry(q) : q \in S}
Rule(u) == IF u \in val THEN c.hv ELSE c.ht
HoldChoice(u, H) ==
    /\ H \subseteq Rows(u)
    /\ Cardinality(H) = NHeldOut(Rule(u), Cardinality(Rows(u)))
    /\ c.time => \A h \in H, k \in Rows(u) \ H : c.log[h].t >= c.log[k].t
InitWith(cases) == /\ c \in cases /\ phase = "groups" /\ val = {} /\ test = {} /\ todo = {} /\ held = {}
Assignable(V, T) == /\ Feasible /\ V \subseteq Users /\ T \subseteq Users /\ V \cap T = {}
                    /\ Cardinality(V) = NVal /\ Cardinality(T) = NTest
Assign(V, T) == /\ phase = "groups" /\ Assignable(V, T)
                /\ val' = V /\ test' = T /\ todo' = V \cup T /\ phase' = "hold"
                /\ UNCHANGED <<c, held>>
Refuse == phase = "groups" /\ ~Feasible /\ phase' = "refused" /\ UNCHANGED <<c, val, test, todo, held>>
HoldOut(u, H) == /\ phase = "hold" /\ u \in todo /\ HoldChoice(u, H)
                 /\ held' = held \cup H /\ todo' = todo \ {u} /\ UNCHANGED <<c, phase, val, test>>
Next == \/ Refuse
        \/ \E V, T \in SUBSET Users : Assign(V, T)
        \/ \E u \in todo : \E H \in SUBSET Rows(u) : HoldOut(u, H)
Train == Users \ (val \cup test)
Disjoint == val \cap test = {}
TrainComplete == \A q \in held : c.log[q].u \notin Train
NoLeak == c.time => \A h \in held, k \in Firsts \ held :
             (c.log[h].u = c.log[k].u /\ c.log[h].u \notin todo) => c.log[h].t >= c.log[k].t
=============================================================================
