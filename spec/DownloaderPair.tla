---------------------------- MODULE DownloaderPair ----------------------------
(* Several openings of one dataset at the same time (processes, or threads of  *)
(* one process).  Every opening that finds the archive absent assembles its P  *)
(* parts in a place of its own and publishes them in one step; it can lose its *)
(* connection or be killed in the middle of any part.  The destination shows   *)
(* either nothing or a complete archive at every moment, an opening succeeds   *)
(* unless it was itself disturbed, and one that finds the archive fetches      *)
(* nothing.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS P, Who, Kill      \* Kill: may an opening be killed? (not a thread)
VARIABLES dest, at, hist    \* at[w]: -1 not begun, 1..P in the middle of that part, "..." over
vars == <<dest, at, hist>>
NotBegun == [phase |-> "none", part |-> 0]
Mid(k) == [phase |-> "mid", part |-> k]
Over(o) == [phase |-> o, part |-> 0]
Init == dest = "absent" /\ at = [w \in Who |-> NotBegun] /\ hist = << >>
Note(w, do, d, o) == hist' = Append(hist, [who |-> w, do |-> do, dest |-> d, out |-> o])
Start(w) == /\ at[w].phase = "none" /\ \A v \in Who : v < w => at[v].phase # "none"
            /\ IF dest = "complete" THEN at' = [at EXCEPT ![w] = Over("ok")] /\ Note(w, "start", dest, "ok")
               ELSE at' = [at EXCEPT ![w] = Mid(1)] /\ Note(w, "start", dest, "mid")
            /\ UNCHANGED dest
Go(w) == /\ at[w].phase = "mid"
         /\ IF at[w].part = P THEN at' = [at EXCEPT ![w] = Over("ok")] /\ dest' = "complete" /\ Note(w, "go", "complete", "ok")
            ELSE at' = [at EXCEPT ![w] = Mid(at[w].part + 1)] /\ UNCHANGED dest /\ Note(w, "go", dest, "mid")
Lose(w) == /\ at[w].phase = "mid" /\ at' = [at EXCEPT ![w] = Over("error")] /\ UNCHANGED dest /\ Note(w, "drop", dest, "error")
Die(w) == /\ Kill /\ at[w].phase = "mid" /\ at' = [at EXCEPT ![w] = Over("killed")] /\ UNCHANGED dest /\ Note(w, "kill", dest, "killed")
Next == \E w \in Who : Start(w) \/ Go(w) \/ Lose(w) \/ Die(w)
Spec == Init /\ [][Next]_vars
Done == \A w \in Who : at[w].phase \notin {"none", "mid"}
(* ------------------------------ properties ------------------------------- *)
CompleteIffSomeoneFinished == (dest = "complete") = \E w \in Who : at[w].phase = "ok"
OnlyDisturbedFail == \A k \in DOMAIN hist : hist[k].out = "error" <=> hist[k].do = "drop"
NeverWithdrawn == [][dest = "complete" => dest' = "complete"]_vars
Emit == Done => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
