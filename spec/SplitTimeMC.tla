----------------------------- MODULE SplitTimeMC -----------------------------
EXTENDS SplitTime
Logs == UNION {[1 .. n -> {[u |-> a, t |-> b] : a \in 1 .. 2, b \in 1 .. 2}] : n \in 1 .. 4}
Rules == {[kind |-> k, num |-> n, den |-> 4] : k \in {"floor", "ceil"}, n \in 0 .. 4}
         \cup {[kind |-> "n", num |-> n, den |-> 1] : n \in 0 .. 3}
Init == InitWith({[id |-> "", log |-> l, rule |-> u] : l \in Logs, u \in Rules})
Spec == Init /\ [][Next]_vars
=============================================================================
