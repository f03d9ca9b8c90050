------------------------------ MODULE Downloader -----------------------------
(* Opening a dataset, over a history of attempts.  An archive is assembled    *)
(* from P downloaded parts into a private place and only then becomes visible *)
(* at the destination, in one step.  Any part may fail (refused, connection   *)
(* dropped, body too short, interrupted) and the process may be killed at any *)
(* moment.                                                                    *)
(*   consent  "force" | "yes" | "no"                                          *)
(*   fault    [part, kind]: part 0 = none                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P, MaxAttempts, Kinds
VARIABLES dest,     \* "absent" | "foreign" (was there before) | "complete"
          priv,     \* parts held privately, -1 = no private file
          phase,    \* "idle" | "asking" | "fetch" | "ready" | "open" | "failed" | "refused" | "dead"
          env,      \* the current attempt's consent and fault
          hist      \* attempts so far: [consent, fault, prompted, nreq, outcome, dest]
vars == <<dest, priv, phase, env, hist>>
NoFault == [part |-> 0, kind |-> "none"]
Faults == {NoFault} \cup [part : 1 .. P, kind : Kinds]
NoEnv == [consent |-> "force", fault |-> NoFault, prompted |-> FALSE, nreq |-> 0]
Init == dest \in {"absent", "foreign"} /\ priv = -1 /\ phase = "idle" /\ env = NoEnv /\ hist = << >>
End(outcome, d) == hist' = Append(hist, [consent |-> env.consent, fault |-> env.fault, prompted |-> env'.prompted,
                                         nreq |-> env'.nreq, outcome |-> outcome, dest |-> d])
Begin == /\ phase \in {"idle"} /\ Len(hist) < MaxAttempts
         /\ \E c \in {"force", "yes", "no"}, f \in Faults :
              /\ (dest # "absent" \/ c = "no") => f = NoFault    \* a fault needs a transfer
              /\ env' = [consent |-> c, fault |-> f, prompted |-> FALSE, nreq |-> 0]
         /\ phase' = "start" /\ UNCHANGED <<dest, priv, hist>>
Look == /\ phase = "start"
        /\ IF dest # "absent" THEN phase' = "open" /\ UNCHANGED <<env, priv>>
           ELSE IF env.consent = "force" THEN phase' = "fetch" /\ priv' = 0 /\ UNCHANGED env
           ELSE phase' = "asking" /\ env' = [env EXCEPT !.prompted = TRUE] /\ UNCHANGED priv
        /\ UNCHANGED <<dest, hist>>
Answer == /\ phase = "asking"
          /\ IF env.consent = "yes" THEN phase' = "fetch" /\ priv' = 0 ELSE phase' = "refused" /\ UNCHANGED priv
          /\ UNCHANGED <<dest, env, hist>>
Fetch == /\ phase = "fetch" /\ priv < P /\ env.fault.part # priv + 1
         /\ priv' = priv + 1 /\ env' = [env EXCEPT !.nreq = @ + 1]
         /\ UNCHANGED <<dest, phase, hist>>
Fail == /\ phase = "fetch" /\ priv < P /\ env.fault.part = priv + 1 /\ env.fault.kind # "kill"
        /\ priv' = -1 /\ phase' = "failed" /\ env' = [env EXCEPT !.nreq = @ + 1]
        /\ UNCHANGED <<dest, hist>>
Killed == /\ phase = "fetch" /\ priv < P /\ env.fault.part = priv + 1 /\ env.fault.kind = "kill"
          /\ phase' = "dead" /\ env' = [env EXCEPT !.nreq = @ + 1] /\ UNCHANGED <<dest, priv, hist>>
Publish == /\ phase = "fetch" /\ priv = P /\ dest' = "complete" /\ priv' = -1 /\ phase' = "open"
           /\ UNCHANGED <<env, hist>>
Return == /\ phase \in {"open", "failed", "refused", "dead"}
          /\ env' = env
          /\ End(CASE phase = "open" -> "ok" [] phase = "failed" -> "error"
                   [] phase = "refused" -> "refused" [] phase = "dead" -> "killed", dest)
          /\ phase' = "idle" /\ priv' = -1 /\ UNCHANGED dest
Next == Begin \/ Look \/ Answer \/ Fetch \/ Fail \/ Killed \/ Publish \/ Return
(* ------------------------------ properties ------------------------------- *)
CompleteOrAbsent == dest \in {"absent", "foreign", "complete"}
ForeignKept == \A k \in DOMAIN hist : hist[k].dest = "foreign" => \A j \in 1 .. k : hist[j].dest = "foreign"
NeverRefetched == \A k \in 2 .. Len(hist) : hist[k - 1].dest # "absent" => hist[k].nreq = 0 /\ ~hist[k].prompted
RefusalTouchesNothing == \A k \in DOMAIN hist : hist[k].outcome = "refused" => hist[k].nreq = 0 /\ hist[k].dest = "absent"
RetryWorks == \A k \in 2 .. Len(hist) :
    hist[k - 1].outcome \in {"error", "killed"} /\ hist[k].consent # "no" /\ hist[k].fault = NoFault
        => hist[k].outcome = "ok" /\ hist[k].nreq = P
(* What one attempt may look like from outside; "any" faults strike at an      *)
(* arbitrary moment, even before the transfer or after publication.            *)
AnyTime == {"kill-any", "interrupt-any"}
AttemptOk(before, o, p) ==
    IF before # "absent"
    THEN /\ o.dest = before /\ o.nreq = 0 /\ ~o.prompted
         /\ o.outcome = IF o.fault.kind = "corrupt" THEN "error" ELSE "ok"
    ELSE /\ o.dest \in {"absent", "complete"}
         /\ (o.fault.kind \in AnyTime \/ o.prompted = (o.consent # "force"))
         /\ (o.consent = "no") => o.outcome = "refused"
         /\ o.outcome = "refused" => o.consent = "no" /\ o.nreq = 0 /\ o.dest = "absent"
         /\ o.outcome = "ok" => o.dest = "complete" /\ o.nreq = p
         /\ (o.outcome \in {"error", "killed"} /\ o.fault.kind \notin AnyTime) => o.dest = "absent"
         /\ (o.fault.kind = "none" /\ o.consent # "no") => o.outcome = "ok"
         /\ (o.fault.kind \notin AnyTime \cup {"none"}) => o.outcome # "ok"
HistoryOk(first, h, p) == \A k \in DOMAIN h : AttemptOk(IF k = 1 THEN first ELSE h[k - 1].dest, h[k], p)
ModelConforms == Len(hist) > 0 => HistoryOk(IF hist[1].dest = "foreign" THEN "foreign" ELSE "absent", hist, P)
=============================================================================
