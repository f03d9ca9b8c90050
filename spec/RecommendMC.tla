----------------------------- MODULE RecommendMC -----------------------------
EXTENDS Recommend
Sub == {<< >>, <<0>>, <<2, 1>>, <<0, 1, 2, 3>>}
Init == InitWith({[id |-> "", ni |-> 4, score |-> <<s[1], s[2], s[3], s[4]>>, seen |-> x, hasallow |-> h, allow |-> a, forbid |-> f, cutoff |-> k] :
                    s \in [1 .. 4 -> {NINF, 0, 1}], x \in {<< >>, <<3>>}, h \in BOOLEAN, a \in Sub, f \in {<< >>, <<1>>}, k \in 0 .. 3})
Spec == Init /\ [][Next]_vars
=============================================================================
