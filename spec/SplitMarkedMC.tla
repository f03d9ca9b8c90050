---------------------------- MODULE SplitMarkedMC ----------------------------
EXTENDS SplitMarked
RowU == {[u |-> a, i |-> b, m |-> k] : a \in 1 .. 3, b \in 1 .. 1, k \in BOOLEAN}
Logs == UNION {[1 .. n -> RowU] : n \in 1 .. 3}
Init == InitWith({[id |-> "", log |-> l, rv |-> a, rt |-> b, den |-> 4] : l \in Logs, a \in 0 .. 4, b \in 0 .. 4})
Spec == Init /\ [][Next]_vars
=============================================================================
