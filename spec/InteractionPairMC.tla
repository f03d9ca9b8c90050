-------------------------- MODULE InteractionPairMC --------------------------
(* Every history of up to Depth operations over a few requests; each is       *)
(* printed for replay.                                                        *)
EXTENDS InteractionPair, Json
CONSTANT Depth
VARIABLE hist
Req(id, us, sh, tr, ht, ts, te, hi, it) ==
    [id |-> id, users |-> us, shape |-> sh, train |-> tr, hastest |-> ht, tshape |-> ts, test |-> te, hasitems |-> hi, items |-> it]
Requests == {
    Req("full", <<7, 3>>, <<2, 2>>, {<<0, 0, 1>>, <<1, 1, 2>>}, TRUE, <<2, 2>>, {<<0, 1, 3>>}, TRUE, <<50, 40>>),
    Req("notest", <<1>>, <<1, 2>>, {<<0, 1, 5>>}, FALSE, <<1, 2>>, {}, FALSE, << >>),
    Req("nousers", << >>, <<0, 2>>, {}, TRUE, <<0, 2>>, {}, TRUE, <<50, 40>>),
    Req("three", <<9, 8, 7>>, <<3, 3>>, {<<2, 2, 1>>, <<0, 0, 4>>}, TRUE, <<3, 3>>, {<<1, 0, 1>>, <<2, 0, 2>>}, TRUE, <<1, 2, 3>>),
    Req("users", <<7>>, <<2, 2>>, {<<0, 0, 1>>}, FALSE, <<2, 2>>, {}, FALSE, << >>),
    Req("rows", <<7, 3>>, <<2, 2>>, {<<0, 0, 1>>}, TRUE, <<3, 2>>, {}, FALSE, << >>),
    Req("cols", <<7, 3>>, <<2, 2>>, {<<0, 0, 1>>}, TRUE, <<2, 3>>, {<<1, 2, 1>>}, FALSE, << >>),
    Req("items", <<7, 3>>, <<2, 2>>, {<<0, 0, 1>>}, TRUE, <<2, 2>>, {}, TRUE, <<50>>),
    Req("items3", <<7, 3>>, <<2, 2>>, {<<0, 0, 1>>}, TRUE, <<2, 2>>, {}, TRUE, <<50, 40, 30>>) }
InitMC == Init /\ hist = << >>
Ops == {[op |-> "make", r |-> r] : r \in Requests}
       \cup {[op |-> "concat", a |-> a, b |-> b] : a, b \in DOMAIN pairs}
       \cup {[op |-> "view", a |-> a] : a \in DOMAIN pairs}
Do(o) == CASE o.op = "make" -> Make(o.r) [] o.op = "concat" -> Concat(o.a, o.b) [] o.op = "view" -> View(o.a)
Next == Len(hist) < Depth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o)
        /\ IF Len(hist') = Depth THEN PrintT("@@" \o ToJson([ops |-> hist'])) ELSE TRUE
Spec == InitMC /\ [][Next]_<<pvars, hist>>
\* concatenation neither loses nor invents an interaction or a user
Kept == [][ \A q \in DOMAIN pairs : pairs'[q] = pairs[q] ]_pvars
Conserved == \A q \in DOMAIN hist :
    hist[q].op = "concat" /\ last = "ok" /\ q = Len(hist) /\ pairs[hist[q].a].ni = pairs[hist[q].b].ni =>
        /\ Cardinality(pairs[Len(pairs)].train) = Cardinality(pairs[hist[q].a].train) + Cardinality(pairs[hist[q].b].train)
        /\ Cardinality(pairs[Len(pairs)].test) = Cardinality(pairs[hist[q].a].test) + Cardinality(pairs[hist[q].b].test)
=============================================================================
