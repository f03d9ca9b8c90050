------------------------------ MODULE MindFetch ------------------------------
(* Opening the news dataset: two archives, two sources, consent, tokens and   *)
(* per-archive faults.  One opening is a run                                  *)
(*   look -> (ask) -> for each missing archive: request, receive into a       *)
(*   private file, publish -> open                                            *)
(* Input c: have (archives present), consent, source, size, explicit / env1 / *)
(* env2 (is that token given?), fault = [train, dev] kinds, redirect.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Splits == <<"train", "dev">>
VARIABLES c, k, phase, state, reqs, priv, outcome, prompted
vars == <<c, k, phase, state, reqs, priv, outcome, prompted>>
Missing(x) == SelectSeq(Splits, LAMBDA s : s \notin x.have)
Token(x) == IF x.source # "huggingface" THEN "none"
            ELSE IF x.explicit THEN "explicit" ELSE IF x.env1 THEN "env1" ELSE IF x.env2 THEN "env2" ELSE "none"
InitWith(cs) == /\ c \in cs /\ k = 1 /\ phase = "look" /\ reqs = << >> /\ priv = 0 /\ outcome = "" /\ prompted = FALSE
                /\ state = [s \in {"train", "dev"} |-> IF s \in c.have THEN "kept" ELSE "absent"]
Valid(x) == x.size \in {"small", "large"} /\ x.source \in {"huggingface", "azure"}
Stop(o) == outcome' = o /\ phase' = "end"
Look == /\ phase = "look"
        /\ IF ~Valid(c) THEN Stop("invalid") /\ UNCHANGED prompted
           ELSE IF Missing(c) = << >> THEN Stop("ok") /\ UNCHANGED prompted
           ELSE IF c.consent = "force" THEN phase' = "request" /\ UNCHANGED <<outcome, prompted>>
           ELSE prompted' = TRUE /\ (IF c.consent = "yes" THEN phase' = "request" /\ UNCHANGED outcome ELSE Stop("refused"))
        /\ UNCHANGED <<c, k, state, reqs, priv>>
Now == Missing(c)[k]
Fault == c.fault[Now]
Request == /\ phase = "request"
           /\ reqs' = Append(reqs, [split |-> Now, token |-> Token(c)])
           /\ phase' = "receive" /\ UNCHANGED <<c, k, state, priv, outcome, prompted>>
Receive == /\ phase = "receive"
           /\ CASE Fault = "none" -> phase' = "publish" /\ priv' = 1 /\ UNCHANGED outcome
                [] Fault \in {"401", "403"} -> Stop("gated") /\ UNCHANGED priv
                [] Fault = "409" -> Stop("storage") /\ UNCHANGED priv
                [] Fault \in {"404", "500"} -> Stop("http" \o Fault) /\ UNCHANGED priv
                [] Fault \in {"drop", "short", "mute", "interrupt"} -> Stop("passed-on") /\ UNCHANGED priv
                [] Fault = "kill" -> Stop("killed") /\ priv' = 1
           /\ UNCHANGED <<c, k, state, reqs, prompted>>
Publish == /\ phase = "publish" /\ state' = [state EXCEPT ![Now] = "complete"] /\ priv' = 0
           /\ IF k = Len(Missing(c)) THEN Stop("ok") /\ UNCHANGED k ELSE k' = k + 1 /\ phase' = "request" /\ UNCHANGED outcome
           /\ UNCHANGED <<c, reqs, prompted>>
Next == Look \/ Request \/ Receive \/ Publish
Done == phase = "end"
Result == [id |-> c.id, outcome |-> outcome, state |-> state, reqs |-> reqs, prompted |-> prompted, left |-> priv]
(* ------------------------------ properties ------------------------------- *)
KeptStaysKept == \A s \in c.have : state[s] = "kept" /\ \A q \in DOMAIN reqs : reqs[q].split # s
OnlyMirrorSeesToken == c.source # "huggingface" => \A q \in DOMAIN reqs : reqs[q].token = "none"
NoPartial == \A s \in DOMAIN state : state[s] \in {"absent", "kept", "complete"}
NothingLeftBehind == (Done /\ outcome # "killed") => priv = 0
AskedFirst == reqs # << >> => c.consent = "force" \/ prompted
=============================================================================
