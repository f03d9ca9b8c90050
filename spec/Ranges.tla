------------------------------- MODULE Ranges -------------------------------
(* Tuning ranges and thread settings.  A name is fed to an automaton one      *)
(* character class at a time ("a" letter or digit, "d" dash or underscore,    *)
(* "o" anything else); a range is built, then asked for a value under a       *)
(* prefix; a thread setting is resolved from argument, environment, machine.  *)
EXTENDS Integers, Sequences, FiniteSets
\* ---- names
Class == {"a", "d", "o"}
NameStart == "empty"
NameStep(q, ch) == CASE q = "bad" -> "bad"
                     [] ch = "o" -> "bad"
                     [] q = "empty" -> IF ch = "a" THEN "good" ELSE "bad"
                     [] OTHER -> q
RECURSIVE RunName(_, _, _)
RunName(q, s, k) == IF k > Len(s) THEN q ELSE RunName(NameStep(q, s[k]), s, k + 1)
ValidName(s) == RunName(NameStart, s, 1) = "good"
\* ---- ranges:  [kind, low, high, step]; kinds ufloat, lfloat, uint, lint
Built(r) == IF r.low > r.high THEN "reject" ELSE "built"
OnStep(r, v) == v >= r.low /\ v <= r.high /\ (r.kind = "uint" => (v - r.low) % r.step = 0)
Values(r) == {v \in r.low .. r.high : OnStep(r, v)}          \* integer kinds
Largest(r) == CHOOSE v \in Values(r) : \A w \in Values(r) : w <= v
IsInt(r) == r.kind \in {"uint", "lint"}
IsLog(r) == r.kind \in {"lfloat", "lint"}
\* what a trial is asked for
Request(r) == [type |-> IF IsInt(r) THEN "int" ELSE "float", low |-> r.low,
               high |-> IF IsInt(r) THEN Largest(r) ELSE r.high, log |-> IsLog(r),
               step |-> IF r.kind = "uint" THEN r.step ELSE IF r.kind = "lint" THEN 1 ELSE 0]
\* ---- threads: arg = -1 means not given, env is [set, ok, n]
Threads(arg, env, cpus) == IF arg # -1 THEN [ok |-> TRUE, n |-> arg]
                           ELSE IF env.set THEN (IF env.ok THEN [ok |-> TRUE, n |-> env.n] ELSE [ok |-> FALSE, n |-> 0])
                           ELSE [ok |-> TRUE, n |-> cpus]
=============================================================================
