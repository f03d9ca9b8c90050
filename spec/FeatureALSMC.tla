---------------------------- MODULE FeatureALSMC ----------------------------
(* all histories; complete ones are printed for replay *)
EXTENDS FeatureALS, TLC, Json
Report == IF Len(ops) = Length
          THEN PrintT("@@" \o ToJson([sides |-> [u |-> "u" \in sides, i |-> "i" \in sides], warm |-> warm, plan |-> plan, ops |-> ops, asks |-> asks]))
          ELSE TRUE
=============================================================================
