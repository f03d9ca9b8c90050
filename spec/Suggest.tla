------------------------------- MODULE Suggest -------------------------------
(* A model's default suggestions: its tunable parameters are asked for one at *)
(* a time, the fixed ones are skipped.  A case carries what one trial saw.    *)
EXTENDS Ranges, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, asked, st
vars == <<c, k, asked, st>>
Init == c \in {Cases[n] : n \in DOMAIN Cases} /\ k = 1 /\ asked = {} /\ st = "run"
Has(seq, x) == \E z \in DOMAIN seq : seq[z] = x
Consider == /\ st = "run" /\ k <= Len(c.range) /\ k' = k + 1 /\ UNCHANGED <<c, st>>
            /\ asked' = IF Has(c.fixed, c.range[k]) THEN asked ELSE asked \cup {c.range[k]}
Set(seq) == {seq[z] : z \in DOMAIN seq}
Msg(cond, t) == IF cond THEN << >> ELSE <<t>>
Verdict == IF ~c.ok THEN <<"suggesting failed: " \o c.err>>
           ELSE Msg(Set(c.returned) = asked, "suggested " \o ToString(c.returned) \o " instead of " \o ToString(asked))
             \o Msg(Set(c.trial) = asked, "the trial was asked for " \o ToString(c.trial) \o " instead of " \o ToString(asked))
             \o Msg(c.values, "a returned value is not the one suggested by the trial or lies outside its range")
             \o Msg(c.accepted, "the model does not accept its own suggestions")
Finish == /\ st = "run" /\ k > Len(c.range) /\ st' = "end" /\ UNCHANGED <<c, k, asked>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> Verdict]))
Spec == Init /\ [][Consider \/ Finish]_vars
NoFixed == \A x \in asked : ~Has(c.fixed, x)
=============================================================================
