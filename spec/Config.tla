-------------------------------- MODULE Config --------------------------------
(* Configuration objects.  A model has settings with defaults; a             *)
(* configuration of model m given some settings is refused if it names an     *)
(* unknown setting, otherwise it carries every setting, given or default;     *)
(* building model n from it is refused unless n = m, otherwise it is building *)
(* n with exactly those settings.  Values are opaque.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, config, built
vars == <<c, phase, config, built>>
Refused == [refused |-> TRUE, settings |-> << >>]
Names == {c.defaults[z][1] : z \in DOMAIN c.defaults}
Given(n) == {c.given[z][2] : z \in {z \in DOMAIN c.given : c.given[z][1] = n}}
Value(z) == LET n == c.defaults[z][1] IN IF Given(n) = {} THEN c.defaults[z][2] ELSE CHOOSE v \in Given(n) : TRUE
Init == c \in {Cases[q] : q \in DOMAIN Cases} /\ phase = "new" /\ config = Refused /\ built = Refused
Configure == /\ phase = "new" /\ phase' = "configured" /\ UNCHANGED <<c, built>>
             /\ config' = IF \A z \in DOMAIN c.given : c.given[z][1] \in Names
                          THEN [refused |-> FALSE, settings |-> [z \in DOMAIN c.defaults |-> <<c.defaults[z][1], Value(z)>>]] ELSE Refused
Build == /\ phase = "configured" /\ phase' = "built" /\ UNCHANGED <<c, config>>
         /\ built' = IF config.refused \/ c.config_of # c.model THEN Refused ELSE config
Finish == /\ phase = "built" /\ phase' = "end" /\ UNCHANGED <<c, config, built>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, config |-> config, built |-> built]))
Spec == Init /\ [][Configure \/ Build \/ Finish]_vars
NeverMixed == ~built.refused => c.config_of = c.model
Complete == ~built.refused => {built.settings[z][1] : z \in DOMAIN built.settings} = Names
===============================================================================
