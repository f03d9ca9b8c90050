------------------------------ MODULE RangesMC ------------------------------
EXTENDS Ranges, TLC, Json, IOUtils
VARIABLES fam, s, q, r, st
vars == <<fam, s, q, r, st>>
NoRange == [kind |-> "none", low |-> 0, high |-> 0, step |-> 1]
NoEnv == [set |-> FALSE, ok |-> TRUE, n |-> 0]
Envs == {NoEnv} \cup {[set |-> TRUE, ok |-> TRUE, n |-> k] : k \in {1, 2, 5, 64}} \cup {[set |-> TRUE, ok |-> FALSE, n |-> 0]}
Ranges == {[kind |-> k, low |-> l, high |-> h, step |-> 1] : k \in {"ufloat", "uint"}, l \in -3 .. 4, h \in -3 .. 4}
    \cup {[kind |-> "uint", low |-> l, high |-> h, step |-> t] : l \in {-2, 0, 3}, h \in {3, 7, 11, 40}, t \in {2, 3, 5}}
    \cup {[kind |-> "uint", low |-> l, high |-> h, step |-> t] : l \in {0, 7}, h \in {100, 1000}, t \in {17, 32, 50}}
    \cup {[kind |-> k, low |-> l, high |-> h, step |-> 1] : k \in {"lfloat", "lint"}, l \in {1, 2, 5}, h \in {1, 2, 5, 100}}
MaxLen == 5
Init == \/ fam = "name" /\ s = << >> /\ q = NameStart /\ r = NoRange /\ st = "run"
        \/ fam = "range" /\ s = << >> /\ q = "" /\ r \in Ranges /\ st = "run"
        \/ fam = "thread" /\ s = << >> /\ q = "" /\ r \in {[arg |-> a, env |-> e] : a \in {-1, 0, 1, 3, 12}, e \in Envs} /\ st = "run"
Feed == /\ fam = "name" /\ Len(s) < MaxLen /\ st = "run"
        /\ \E ch \in Class : s' = Append(s, ch) /\ q' = NameStep(q, ch)
        /\ UNCHANGED <<fam, r, st>>
Build == /\ fam = "range" /\ st = "run" /\ st' = Built(r) /\ UNCHANGED <<fam, s, q, r>>
Out == CASE fam = "name" -> [fam |-> fam, s |-> s, ok |-> q = "good"]
         [] fam = "range" -> IF st = "reject" THEN [fam |-> fam, r |-> r, ok |-> FALSE]
                             ELSE [fam |-> fam, r |-> r, ok |-> TRUE, req |-> Request(r)]
         [] OTHER -> [fam |-> fam, arg |-> r.arg, env |-> r.env, out |-> Threads(r.arg, r.env, 0)]
Ask == /\ \/ fam = "range" /\ st \in {"built", "reject"}
          \/ fam # "range" /\ st = "run"
       /\ st' = "end" /\ UNCHANGED <<fam, s, q, r>>
       /\ PrintT("@@" \o ToJson(Out))
Next == Feed \/ Build \/ Ask
Spec == Init /\ [][Next]_vars
\* the automaton accepts exactly: starts with a letter or digit, nothing but letters, digits, dashes
NameMeaning == fam = "name" => (q = "good") = (Len(s) > 0 /\ s[1] = "a" /\ \A k \in DOMAIN s : s[k] # "o")
RunAgrees == fam = "name" => ValidName(s) = (q = "good")
InBounds == fam = "range" /\ st = "built" =>
    /\ Request(r).low = r.low /\ Request(r).high <= r.high
    /\ IsInt(r) => /\ \A v \in Values(r) : v >= r.low /\ v <= Request(r).high
                   /\ Request(r).high + r.step > r.high
Explicit == fam = "thread" /\ r.arg # -1 => Threads(r.arg, r.env, 0) = [ok |-> TRUE, n |-> r.arg]
=============================================================================
