----------------------------- MODULE MindFetchMC -----------------------------
EXTENDS MindFetch, Json
FK == {"none", "401", "403", "404", "409", "500", "drop", "short", "mute", "interrupt", "kill"}
Univ == {[id |-> ToString(<<h, co, so, si, t, f>>), have |-> h, consent |-> co, source |-> so, size |-> si,
          explicit |-> t[1], env1 |-> t[2], env2 |-> t[3], fault |-> f] :
          h \in SUBSET {"train", "dev"}, co \in {"force", "yes", "no"}, so \in {"huggingface", "azure"}, si \in {"small", "large"},
          t \in BOOLEAN \X BOOLEAN \X BOOLEAN, f \in {g \in [train : FK, dev : FK] : g.train = "none" \/ g.dev = "none"}}
Init == InitWith({x \in Univ : /\ (x.consent = "no" \/ x.have = {"train", "dev"}) => x.fault = [train |-> "none", dev |-> "none"]
                               /\ \A s \in x.have : x.fault[s] = "none"})
Spec == Init /\ [][Next /\ (IF phase' = "end" THEN PrintT("@@" \o ToJson([case |-> c, res |-> Result'])) ELSE TRUE)]_vars
=============================================================================
