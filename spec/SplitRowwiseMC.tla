--------------------------- MODULE SplitRowwiseMC ----------------------------
EXTENDS SplitRowwise
RowsU == {<< >>, <<<<0, 1>>>>, <<<<0, 1>>, <<2, 1>>>>, <<<<0, 1>>, <<1, 2>>, <<2, 1>>>>,
          <<<<0, 1>>, <<1, 2>>, <<2, 1>>, <<3, 3>>>>}
Rules == {[kind |-> k, num |-> n, den |-> 4] : k \in {"floor", "ceil"}, n \in 0 .. 4}
         \cup {[kind |-> k, num |-> n, den |-> 4, eps |-> e] : k \in {"floor", "ceil"}, n \in 1 .. 3, e \in {-1, 1}}
         \cup {[kind |-> "n", num |-> n, den |-> 1] : n \in 0 .. 5}
Init == InitWith({[id |-> "", rows |-> <<a, b>>, rule |-> u] : a \in RowsU, b \in RowsU, u \in Rules})
Spec == Init /\ [][Next]_vars
=============================================================================
