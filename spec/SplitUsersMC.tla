----------------------------- MODULE SplitUsersMC ----------------------------
EXTENDS SplitUsers
R(a, b, t) == [u |-> a, i |-> b, v |-> 1, t |-> t]
Logs == {<<R(1, 1, 1)>>, <<R(1, 1, 1), R(2, 1, 1)>>, <<R(1, 1, 2), R(1, 2, 1), R(2, 1, 1), R(3, 3, 1)>>,
         <<R(1, 1, 2), R(1, 1, 3), R(1, 2, 1), R(2, 1, 1), R(2, 2, 1), R(2, 3, 2)>>}
G == {[kind |-> "n", num |-> n, den |-> 1] : n \in 0 .. 3} \cup {[kind |-> "ratio", num |-> n, den |-> 4] : n \in {0, 1, 2, 3}}
H == {[kind |-> "n", num |-> 1, den |-> 1], [kind |-> "floor", num |-> 1, den |-> 2], [kind |-> "ceil", num |-> 1, den |-> 2]}
Init == InitWith({[id |-> "", log |-> l, gv |-> a, gt |-> b, hv |-> x, ht |-> y, time |-> tm, rated |-> FALSE] :
                    l \in Logs, a \in G, b \in G, x \in H, y \in H, tm \in BOOLEAN})
Spec == Init /\ [][Next]_vars
=============================================================================
