------------------------------ MODULE TuningMC ------------------------------
(* All histories of a small study with two workers: every suggestion, score,  *)
(* pruning decision and interleaving of the workers' steps.                   *)
EXTENDS Tuning, TLC, IOUtils
CONSTANTS Workers, MaxTrials, Levels, Shared    \* Shared: metrics kept in one list that is read, extended, written back
VARIABLES T, w, list, told
vars == <<T, w, list, told>>
Fixed == {<<"b", 9>>}
Sugg == {{<<"a", x>>, <<"b", 1>>} : x \in 1 .. 2}
Idle == [pc |-> "idle", k |-> 0, copy |-> {}]
Init == T = << >> /\ w = [i \in Workers |-> Idle] /\ list = {} /\ told = << >>
Ask(i) == /\ w[i].pc = "idle" /\ Len(T) < MaxTrials
          /\ \E s \in Sugg : T' = Append(T, [sugg |-> s, built |-> Override(s, Fixed), st |-> "RUNNING", level |-> 0, learnt |-> {}])
          /\ w' = [w EXCEPT ![i] = [Idle EXCEPT !.pc = "train", !.k = Len(T) + 1]]
          /\ UNCHANGED <<list, told>>
Train(i) == /\ w[i].pc = "train"
            /\ \/ \E l \in Levels : /\ T' = [T EXCEPT ![w[i].k].level = l, ![w[i].k].learnt = {<<"epochs", l>>}]
                                    /\ w' = [w EXCEPT ![i].pc = IF Shared THEN "read" ELSE "record"]
               \/ T' = [T EXCEPT ![w[i].k].st = "PRUNED"] /\ w' = [w EXCEPT ![i] = Idle]
            /\ UNCHANGED <<list, told>>
Read(i) == w[i].pc = "read" /\ w' = [w EXCEPT ![i].pc = "write", ![i].copy = list] /\ UNCHANGED <<T, list, told>>
Write(i) == /\ w[i].pc = "write" /\ list' = w[i].copy \cup {<<w[i].k, T[w[i].k].level>>}
            /\ w' = [w EXCEPT ![i].pc = "tell"] /\ UNCHANGED <<T, told>>
Record(i) == /\ w[i].pc = "record" /\ list' = list \cup {<<w[i].k, T[w[i].k].level>>}
             /\ w' = [w EXCEPT ![i].pc = "tell"] /\ UNCHANGED <<T, told>>
Tell(i) == /\ w[i].pc = "tell" /\ T' = [T EXCEPT ![w[i].k].st = "COMPLETE"] /\ w' = [w EXCEPT ![i] = Idle]
           /\ told' = Append(told, w[i].k) /\ UNCHANGED list
Next == \E i \in Workers : Ask(i) \/ Train(i) \/ Read(i) \/ Write(i) \/ Record(i) \/ Tell(i)
Spec == Init /\ [][Next]_vars /\ \A i \in Workers : WF_vars(Train(i) \/ Read(i) \/ Write(i) \/ Record(i) \/ Tell(i))
\* every completed trial has its own metrics in the table
MetricsKept == \A k \in CompleteOf(T) : \E r \in list : r = <<k, T[k].level>>
BestIsBest == \A k \in BestOf(T) : T[k].st = "COMPLETE" /\ \A j \in CompleteOf(T) : T[j].level <= T[k].level
SomeBest == CompleteOf(T) # {} => BestOf(T) # {}
FixedWins == \A k \in DOMAIN T : Fixed \subseteq T[k].built /\ \A p \in T[k].sugg : p[1] \in Names(Fixed) \/ p \in T[k].built
NoFixedReturned == \A k \in CompleteOf(T) : Names(Returned(T[k], Fixed)) \cap Names(Fixed) = {} /\ <<"epochs", T[k].level>> \in Returned(T[k], Fixed)
Ended(k) == k \in DOMAIN T /\ T[k].st \in {"COMPLETE", "PRUNED"}
AllFinish == \A k \in 1 .. MaxTrials : (k \in DOMAIN T) ~> Ended(k)
=============================================================================
