------------------------------ MODULE SplitBase ------------------------------
(* Notions shared by all splitters.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Set(s) == {s[q] : q \in DOMAIN s}
Min(a, b) == IF a < b THEN a ELSE b
\* A holdout rule: kind "n" (at most num entries), "floor"/"ceil" of a ratio which is num/den,
\* or more (eps = 1) or less (eps = -1) than that by an arbitrarily small amount.
Eps(rule) == IF "eps" \in DOMAIN rule THEN rule.eps ELSE 0
NHeldOut(rule, n) ==
    LET whole == n > 0 /\ (rule.num * n) % rule.den = 0 IN
    CASE rule.kind = "n" -> Min(rule.num, n)
      [] rule.kind = "floor" -> ((rule.num * n) \div rule.den) - (IF whole /\ Eps(rule) < 0 THEN 1 ELSE 0)
      [] rule.kind = "ceil" -> (-((-(rule.num * n)) \div rule.den)) + (IF whole /\ Eps(rule) > 0 THEN 1 ELSE 0)
\* a ratio lies within [0, 1]
RatioOk(rule) == rule.num >= 0 /\ rule.num <= rule.den /\ ~(rule.num = 0 /\ Eps(rule) < 0) /\ ~(rule.num = rule.den /\ Eps(rule) > 0)
\* multiset view of a sequence
CountIn(s, x) == Cardinality({q \in DOMAIN s : s[q] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Set(s) : CountIn(s, x) = CountIn(t, x)
Msg(cond, text) == IF cond THEN << >> ELSE <<text>>
=============================================================================
