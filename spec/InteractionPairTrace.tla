------------------------- MODULE InteractionPairTrace -------------------------
(* Replays an observed history of operations on pairs.  Each operation        *)
(* carries what was observed: obs = [outcome, users, nu, ni, train, test, all, *)
(* hasitems, items, tabtrain, tabtest, n (tables' lengths), kept].             *)
EXTENDS InteractionPair, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, at, bad
tvars == <<pvars, c, at, bad>>
Req(r) == [r EXCEPT !.train = Set(@), !.test = Set(@)]
Msg(cond, text) == IF cond THEN << >> ELSE <<text>>
InitT == Init /\ c \in {Cases[q] : q \in DOMAIN Cases} /\ at = 1 /\ bad = << >>
Do(o) == CASE o.op = "make" -> Make(Req(o.r)) [] o.op = "concat" -> Concat(o.a, o.b) [] o.op = "view" -> View(o.a)
\* judged against the state after the step
Same(o, p, joined) ==
    LET b == o.obs IN
    Msg(b.users = p.users /\ b.nu = Len(p.users) /\ b.ni = p.ni, "users or sizes")
    \o Msg(Set(b.train) = p.train /\ Len(b.train) = Cardinality(p.train), "learning part")
    \o Msg(Set(b.test) = p.test /\ Len(b.test) = Cardinality(p.test), "held-out part")
    \o Msg(Set(b.all) = All(p), "the sum of both parts")
    \o Msg(b.shapes, "shapes of the matrices")
    \o Msg(joined \/ (b.hasitems = p.hasitems /\ b.items = p.items), "item ids")
Viewed(o, p) ==
    IF ~p.hasitems THEN << >> ELSE
    Msg(Set(o.obs.tabtrain) = Table(p, p.train) /\ Len(o.obs.tabtrain) = Cardinality(p.train), "table of the learning part")
    \o Msg(Set(o.obs.tabtest) = Table(p, p.test) /\ Len(o.obs.tabtest) = Cardinality(p.test), "table of the held-out part")
Judge(o) ==
    IF o.obs.outcome # last' THEN <<o.op \o ": " \o o.obs.outcome \o " instead of " \o last'>>
    ELSE IF last' # "ok" THEN << >>
    ELSE (IF o.op = "view" THEN Viewed(o, pairs[o.a]) ELSE Same(o, pairs'[Len(pairs')], o.op = "concat"))
         \o Msg(o.obs.kept, "an argument or an earlier pair was modified")
Step == /\ at <= Len(c.ops) /\ bad = << >>
        /\ Do(c.ops[at]) /\ bad' = Judge(c.ops[at])
        /\ at' = at + 1 /\ UNCHANGED c
Finish == /\ (at = Len(c.ops) + 1 \/ (bad # << >> /\ at <= Len(c.ops))) /\ at' = Len(c.ops) + 2 /\ UNCHANGED <<pvars, c, bad>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> bad]))
Spec == InitT /\ [][Step \/ Finish]_tvars
=============================================================================
