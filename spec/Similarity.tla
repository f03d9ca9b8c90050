------------------------------ MODULE Similarity ------------------------------
(* Neighbourhood computation: the target rows are processed one at a time; in *)
(* each, every candidate row sharing a feature gets its similarity and only   *)
(* the k largest are kept (ties towards the lower index).                     *)
(*                                                                            *)
(* A similarity is the exact number n / (sqrt(q) + r/4 [+ e]) with integers   *)
(* n, q, r; e is the fixed tiny constant of the code, the same for every pair *)
(* (so it decides between values that are otherwise equal: larger n first).   *)
(*   dot      n = t.x                            q = 0, r = 4 (no e)          *)
(*   cosine   n = t.x     sqrt(|t|^2 |x|^2) + s                               *)
(*   asym     n = t.x     |t|^(2 al) |x|^(2 (1-al)) + s,  al in {0, 1/2, 1}   *)
(*   jaccard  n = |t&x|   |t or x| + s                                        *)
(*   tversky  n = |t&x|   |t&x| + al |t\x| + be |x\t| + s                     *)
(*   walk     sum_u (x_u^al / sum x^al) (t_u^al / sum_t' t'_u^al) / pop(t)^be *)
(*   given    values supplied (scaled integers, +-2 apart counts as equal)    *)
(* al, be, s are quarters (walk: plain integers).                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, row, kept, table, bad
vars == <<c, row, kept, table, bad>>

RECURSIVE SumTo(_, _)
SumTo(f(_), z) == IF z = 0 THEN 0 ELSE f(z) + SumTo(f, z - 1)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE (a \div Gcd(a, b)) * b
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(q, z) == IF (z + 1) * (z + 1) > q THEN z ELSE ISqrtFrom(q, z + 1)
ISqrt(q) == ISqrtFrom(q, 0)
Square(q) == LET z == ISqrt(q) IN z * z = q
PowZ(v, e) == IF v = 0 THEN 0 ELSE Pow(v, e)

Dot(t, x) == SumTo(LAMBDA u : t[u] * x[u], c.nf)
Sq(t) == Dot(t, t)
Supp(t) == {u \in 1 .. c.nf : t[u] # 0}
Com(t, x) == Cardinality(Supp(t) \cap Supp(x))
\* random walk
UserNorm(u) == SumTo(LAMBDA z : PowZ(c.T[z][u], c.al), Len(c.T))
RECURSIVE LcmTo(_)
LcmTo(z) == IF z = 0 THEN 1 ELSE Lcm(UserNorm(z), LcmTo(z - 1))
WalkN(t, x) == LET L == LcmTo(c.nf) IN
    SumTo(LAMBDA u : IF t[u] = 0 \/ x[u] = 0 THEN 0 ELSE PowZ(x[u], c.al) * PowZ(t[u], c.al) * (L \div UserNorm(u)), c.nf)
ItemNorm(x) == SumTo(LAMBDA u : PowZ(x[u], c.al), c.nf)
Popularity(t) == SumTo(LAMBDA u : t[u], c.nf)

Sim(t, x) ==
    CASE c.kind = "dot"     -> <<Dot(t, x), 0, 4>>
      [] c.kind = "cosine"  -> <<Dot(t, x), Sq(t) * Sq(x), c.s>>
      [] c.kind = "asym"    -> <<Dot(t, x), CASE c.al = 0 -> Sq(x) * Sq(x) [] c.al = 2 -> Sq(t) * Sq(x) [] c.al = 4 -> Sq(t) * Sq(t), c.s>>
      [] c.kind = "jaccard" -> <<Com(t, x), 0, 4 * Cardinality(Supp(t) \cup Supp(x)) + c.s>>
      [] c.kind = "tversky" -> <<Com(t, x), 0, 4 * Com(t, x) + c.al * Cardinality(Supp(t) \ Supp(x)) + c.be * Cardinality(Supp(x) \ Supp(t)) + c.s>>
      [] c.kind = "walk"    -> <<WalkN(t, x), 0, ItemNorm(x) * LcmTo(c.nf) * Pow(Popularity(t), c.be)>>
HasE == c.kind \notin {"dot", "walk"}
Cands(i) == IF c.kind = "given" THEN {j \in DOMAIN c.V[i] : c.V[i][j] # -1}
            ELSE {j \in DOMAIN c.X : Supp(c.T[i]) \cap Supp(c.X[j]) # {}}
Values(i) == IF c.kind = "given" THEN [j \in Cands(i) |-> <<c.V[i][j], 0, 1>>] ELSE [j \in Cands(i) |-> Sim(c.T[i], c.X[j])]

\* a > b, a = b as real numbers
Rational(V) == \A j \in DOMAIN V : Square(V[j][2])
Den(a) == 4 * ISqrt(a[2]) + a[3]
Gt(V, a, b) == IF c.kind = "given" THEN a[1] > b[1] + 2
               ELSE IF Rational(V) THEN a[1] * Den(b) > b[1] * Den(a)
               ELSE a[1] * a[1] * b[2] > b[1] * b[1] * a[2]
Eq(V, a, b) == ~Gt(V, a, b) /\ ~Gt(V, b, a)
Before(V, i, j) == \/ Gt(V, V[i], V[j])
                   \/ Eq(V, V[i], V[j]) /\ (IF HasE /\ V[i][1] # V[j][1] THEN V[i][1] > V[j][1] ELSE i < j)
Top(V) == {i \in DOMAIN V : Cardinality({j \in DOMAIN V : j # i /\ Before(V, j, i)}) < c.k}
Min(a, b) == IF a < b THEN a ELSE b

Msg(cond, t) == IF cond THEN << >> ELSE <<t>>
Obs(i) == {c.obs[i][q] : q \in DOMAIN c.obs[i]}
Self(i) == IF c.noself THEN {i} ELSE {}
RowBad(V, i) ==
    IF c.ties /\ c.kind # "given"
    THEN Msg(Obs(i) = Top(V) \ Self(i), "row " \o ToString(i) \o " keeps " \o ToString(Obs(i)) \o " instead of " \o ToString(Top(V) \ Self(i)))
    ELSE \* values equal in the model may differ by rounding in the code
       LET full == Obs(i) \cup (IF c.noself /\ i \in DOMAIN V /\ Cardinality(Obs(i)) < Min(c.k, Cardinality(DOMAIN V)) THEN {i} ELSE {}) IN
       Msg(Obs(i) \subseteq DOMAIN V, "row " \o ToString(i) \o " holds a pair without common interactions") \o
       Msg(Cardinality(full) = Min(c.k, Cardinality(DOMAIN V)), "row " \o ToString(i) \o " keeps " \o ToString(Cardinality(full)) \o " values") \o
       Msg(\A a \in full \cap DOMAIN V : \A b \in DOMAIN V \ full : ~Gt(V, V[b], V[a]), "row " \o ToString(i) \o " drops a larger value") \o
       Msg(Obs(i) \cap Self(i) = {}, "row " \o ToString(i) \o " holds itself")

Init == c \in {Cases[q] : q \in DOMAIN Cases} /\ row = 1 /\ kept = << >> /\ table = << >> /\ bad = << >>
NRows == IF c.kind = "given" THEN Len(c.V) ELSE Len(c.T)
Row == /\ row <= NRows
       /\ LET V == Values(row) IN
          /\ kept' = Append(kept, Top(V))
          /\ table' = Append(table, IF c.kind = "given" THEN {} ELSE {<<j, V[j][1], V[j][2], V[j][3]>> : j \in DOMAIN V})
          /\ bad' = bad \o RowBad(V, row)
       /\ row' = row + 1 /\ UNCHANGED c
Finish == /\ row = NRows + 1 /\ row' = row + 1 /\ UNCHANGED <<c, kept, table, bad>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> bad, table |-> table]))
Spec == Init /\ [][Row \/ Finish]_vars

RightCount == c.kind # "given" => \A i \in DOMAIN kept : Cardinality(kept[i]) = Min(c.k, Cardinality(Cands(i)))
OnlyCandidates == \A i \in DOMAIN kept : kept[i] \subseteq Cands(i)
=============================================================================
