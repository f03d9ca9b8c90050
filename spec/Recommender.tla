----------------------------- MODULE Recommender -----------------------------
(* The scoring interface every recommender offers.  A recommender is built,   *)
(* trained (any number of times), copied, and asked for scores; the answer to *)
(* every request is determined by the training and the users asked for:       *)
(*   a row <<t, u>> is "the scores of user u after training t" (t is always 1 *)
(*   for a model whose training is deterministic), a masked row has -inf      *)
(*   exactly at the items the user has seen;                                  *)
(* requests before the first training, and kinds of request the model does    *)
(* not offer, are refused.  For the models with integer scores the rows       *)
(* themselves are defined: popularity, unnormalised item- and user-cosine.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Depth
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, hist, trained, outs
vars == <<c, hist, trained, outs>>
Users == 1 .. Len(c.X)
Items == 1 .. c.ni
Seen(u) == {i \in Items : c.X[u][i] # 0}
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN << >> ELSE LET m == CHOOSE m \in s : \A z \in s : m <= z IN <<m>> \o SetSeq(s \ {m})
T == IF c.det THEN 1 ELSE trained
Range(b, e) == [z \in 1 .. (e - b) |-> b + z]            \* block [b, e) of 0-based users, as 1-based users
Rows(us, mask, own) == [z \in DOMAIN us |-> [t |-> T, u |-> us[z], own |-> own, mask |-> IF mask THEN SetSeq(Seen(us[z])) ELSE << >>]]
Refused == [kind |-> "refused", rows |-> << >>]
Answer(us, mask, own) == [kind |-> "rows", rows |-> Rows(us, mask, own)]
\* an operation: <<name, users (1-based), begin, end>>
Out(op) ==
    CASE op[1] \in {"learn", "copy"} -> [kind |-> "done", rows |-> << >>]
      [] op[1] \in {"score", "score_seen"} -> IF trained = 0 THEN Refused ELSE Answer(op[2], op[1] = "score_seen", TRUE)
      [] op[1] \in {"block", "block_seen"} -> IF trained = 0 \/ ~c.block THEN Refused ELSE Answer(Range(op[3], op[4]), op[1] = "block_seen", TRUE)
      [] op[1] \in {"cold", "cold_seen"}   -> IF trained = 0 \/ ~c.cold THEN Refused ELSE Answer(op[2], op[1] = "cold_seen", c.agree)
Step(op) == /\ outs' = Append(outs, Out(op))
            /\ trained' = (IF op[1] = "learn" THEN trained + 1 ELSE trained)
            /\ hist' = Append(hist, op) /\ UNCHANGED c
\* --- exact scores of the integer models
RECURSIVE Sum(_, _)
Sum(f(_), s) == IF s = {} THEN 0 ELSE LET m == CHOOSE m \in s : TRUE IN f(m) + Sum(f, s \ {m})
ItemSim(i, j) == IF i = j THEN 0 ELSE Sum(LAMBDA u : c.X[u][i] * c.X[u][j], Users)
UserSim(u, v) == IF u = v THEN 0 ELSE Sum(LAMBDA i : c.X[u][i] * c.X[v][i], Items)
Score(u, i) == CASE c.model = "popularity" -> Sum(LAMBDA v : c.X[v][i], Users)
                 [] c.model = "item"       -> Sum(LAMBDA j : c.X[u][j] * ItemSim(j, i), Items)
                 [] c.model = "user"       -> Sum(LAMBDA v : UserSim(u, v) * c.X[v][i], Users)
Table == IF c.model = "other" THEN << >> ELSE [u \in Users |-> [i \in Items |-> Score(u, i)]]
Report == PrintT("@@" \o ToJson([id |-> c.id, hist |-> hist, outs |-> outs, table |-> Table]))
\* --- replay of given histories
Init == c \in {Cases[q] : q \in DOMAIN Cases} /\ hist = << >> /\ outs = << >> /\ trained = 0
Next == IF Len(hist) < Len(c.ops) THEN Step(c.ops[Len(hist) + 1])
        ELSE /\ Len(hist) = Len(c.ops) /\ Report /\ hist' = Append(hist, <<"end", << >>, 0, 0>>) /\ UNCHANGED <<c, outs, trained>>
Spec == Init /\ [][Next]_vars
\* --- all histories of a tiny model
Subsets == {<< >>, <<1>>, <<2>>, <<2, 1>>, <<1, 1>>}
Blocks == {<<0, 0>>, <<0, 1>>, <<1, 2>>, <<0, 2>>}
AllOps == {<<"learn", << >>, 0, 0>>, <<"copy", << >>, 0, 0>>}
     \cup {<<k, us, 0, 0>> : k \in {"score", "score_seen", "cold", "cold_seen"}, us \in Subsets}
     \cup {<<k, << >>, b[1], b[2]>> : k \in {"block", "block_seen"}, b \in Blocks}
InitMC == /\ c \in {[id |-> "mc", X |-> << <<1, 0, 2>>, <<0, 1, 1>> >>, ni |-> 3, det |-> d, block |-> b, cold |-> k, agree |-> TRUE, model |-> "other", ops |-> << >>]
                    : d \in BOOLEAN, b \in BOOLEAN, k \in BOOLEAN}
          /\ hist = << >> /\ outs = << >> /\ trained = 0
NextMC == Len(hist) < Depth /\ \E op \in AllOps : Step(op)
SpecMC == InitMC /\ [][NextMC]_vars
\* --- properties
NothingBeforeTraining == \A z \in DOMAIN outs : outs[z].kind = "rows" => \E y \in 1 .. (z - 1) : hist[y][1] = "learn"
Shape == \A z \in DOMAIN outs : outs[z].kind = "rows" =>
    Len(outs[z].rows) = (IF hist[z][1] \in {"block", "block_seen"} THEN hist[z][4] - hist[z][3] ELSE Len(hist[z][2]))
Agree == \A z, y \in DOMAIN outs : \A a \in DOMAIN outs[z].rows : \A b \in DOMAIN outs[y].rows :
    (c.det /\ outs[z].rows[a].u = outs[y].rows[b].u /\ outs[z].rows[a].mask = outs[y].rows[b].mask) => outs[z].rows[a] = outs[y].rows[b]
ExactMask == \A z \in DOMAIN outs : \A a \in DOMAIN outs[z].rows :
    LET r == outs[z].rows[a] IN r.mask = << >> \/ {r.mask[q] : q \in DOMAIN r.mask} = Seen(r.u)
===============================================================================
