----------------------------- MODULE FeatureALS -----------------------------
(* Feature-aware implicit ALS.  The model owns four blocks: user and item     *)
(* factors U, V and the linear maps A, B from profiles to factors.  Numbers   *)
(* are abstracted into versions: every assignment creates a new version of    *)
(* its block, and the plan records which function of which versions it is:    *)
(*   fit    : rows solving the least-squares problem against the other side,  *)
(*            drawn towards features * map (or towards 0 when map is "none")  *)
(*   ridge  : the map that best explains the factors from the features        *)
(*   start  : the initial value (maps start at 0)                             *)
(* An epoch is fit U, ridge A, fit V, ridge B, in this order, each from the   *)
(* newest versions; maps are neither used nor learnt on a side without        *)
(* features nor during the first warm epochs.  Saving remembers the versions, *)
(* loading brings them back, everything else leaves them alone.  A question   *)
(* about new users or items is answered from the current versions.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Length, MaxWarm
VARIABLES sides, warm, ep, cur, next, plan, slots, ops, asks
vars == <<sides, warm, ep, cur, next, plan, slots, ops, asks>>
Blocks == {"U", "V", "A", "B"}
Start == [U |-> 1, V |-> 2, A |-> 3, B |-> 4]
Init == /\ sides \in {{"u"}, {"i"}, {"u", "i"}, {}} /\ warm \in 0 .. MaxWarm /\ ep = 0
        /\ cur = Start /\ next = 5 /\ slots = << >> /\ ops = << >> /\ asks = << >>
        /\ plan = <<[f |-> "start", b |-> "U"], [f |-> "start", b |-> "V"], [f |-> "start", b |-> "A"], [f |-> "start", b |-> "B"]>>
On(s) == s \in sides /\ ep >= warm
Fit(b, o, m) == [f |-> "fit", b |-> b, other |-> o, map |-> m]
Ridge(b, x) == [f |-> "ridge", b |-> b, of |-> x]
Epoch == LET u == next
             a == IF On("u") THEN next + 1 ELSE cur.A
             v == IF On("u") THEN next + 2 ELSE next + 1
             b == IF On("i") THEN v + 1 ELSE cur.B
         IN /\ plan' = plan \o <<Fit("U", cur.V, IF On("u") THEN cur.A ELSE 0)>>
                            \o (IF On("u") THEN <<Ridge("A", u)>> ELSE << >>)
                            \o <<Fit("V", u, IF On("i") THEN cur.B ELSE 0)>>
                            \o (IF On("i") THEN <<Ridge("B", v)>> ELSE << >>)
            /\ cur' = [U |-> u, A |-> a, V |-> v, B |-> b]
            /\ next' = (IF On("i") THEN b ELSE v) + 1
            /\ ep' = ep + 1 /\ UNCHANGED <<slots, asks>>
Save == slots' = Append(slots, cur) /\ UNCHANGED <<ep, cur, next, plan, asks>>
(* the number of epochs is not part of a snapshot: loading is specified where *)
(* it makes no difference                                                     *)
Load(n) == warm = 0 /\ cur' = slots[n] /\ UNCHANGED <<ep, next, plan, slots, asks>>
Ask == asks' = Append(asks, cur) /\ UNCHANGED <<ep, cur, next, plan, slots>>
Copy == UNCHANGED <<ep, cur, next, plan, slots, asks>>      \* go on with a pickled copy's answers
Do(o, n, act) == Len(ops) < Length /\ act /\ ops' = Append(ops, [op |-> o, arg |-> n, after |-> cur']) /\ UNCHANGED <<sides, warm>>
Next == \/ Do("epoch", 0, Epoch)
        \/ Do("save", 0, Save)
        \/ \E n \in DOMAIN slots : Do("load", n, Load(n))
        \/ Do("ask", 0, Ask)
        \/ Do("copy", 0, Copy)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Def(n) == plan[n]
WellFormed == /\ Len(plan) = next - 1
              /\ \A b \in Blocks : Def(cur[b]).b = b
WarmUpIsOrdinary == ep <= warm => Def(cur.A).f = "start" /\ Def(cur.B).f = "start"
                                  /\ \A n \in DOMAIN plan : plan[n].f = "fit" => plan[n].map = 0
PlainSidesStayPlain == /\ ("u" \notin sides => cur.A = Start.A) /\ ("i" \notin sides => cur.B = Start.B)
                       /\ \A n \in DOMAIN plan : plan[n].f = "fit" /\ plan[n].map # 0 =>
                              (IF plan[n].b = "U" THEN "u" ELSE "i") \in sides
(* a learnt map always explains the factors it is held together with          *)
MapsMatchFactors == /\ Def(cur.A).f = "ridge" => Def(cur.A).of = cur.U
                    /\ Def(cur.B).f = "ridge" => Def(cur.B).of = cur.V
ItemsFollowUsers == Def(cur.V).f = "fit" => Def(cur.V).other = cur.U
SnapshotsConsistent == \A n \in DOMAIN slots : Def(slots[n].A).f = "ridge" => Def(slots[n].A).of = slots[n].U
=============================================================================
