----------------------------- MODULE LinearModels -----------------------------
(* Item-item linear models, judged column by column through the conditions    *)
(* that characterise their solution (G = X'X, column j of B solves its own    *)
(* problem; B is in units of 1/S, so each condition holds up to the rounding  *)
(* of B and the stated convergence):                                          *)
(*   slim    minimise |x_j - X b|^2/2 + l2 |b|^2/2 + l1 |b|_1 with b_j = 0,   *)
(*           b >= 0 if c.pos.  With g = G b - G_j + l2 b:                     *)
(*              b_i > 0 : g_i = -l1      b_i < 0 : g_i = l1                   *)
(*              b_i = 0 : -l1 <= g_i (and g_i <= l1 unless c.pos)             *)
(*   closed  (G + D)(I - B) is diagonal and B has a zero diagonal, where D is *)
(*           the diagonal regularisation (quarters)                           *)
(*   topk    every column keeps exactly its k largest nonzero weights of the  *)
(*           unlimited solution (c.rank: order of the values, 0 = no weight)  *)
(* l1, l2 are in units of 1/100.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, col, bad
vars == <<c, col, bad>>
RECURSIVE SumTo(_, _)
SumTo(f(_), z) == IF z = 0 THEN 0 ELSE f(z) + SumTo(f, z - 1)
Abs(z) == IF z < 0 THEN -z ELSE z
Min(a, b) == IF a < b THEN a ELSE b
I == 1 .. c.ni
S == 10000
G(i, j) == SumTo(LAMBDA u : c.X[u][i] * c.X[u][j], Len(c.X))
Init == c \in {Cases[q] : q \in DOMAIN Cases} /\ col = 1 /\ bad = << >>
Msg(cond, t) == IF cond THEN << >> ELSE <<t>>
At(i, t) == "entry " \o ToString(i) \o "," \o ToString(col) \o ": " \o t

\* --- slim, in units of 1/(100 S)
Slack(i) == c.tol * (100 * SumTo(LAMBDA z : G(i, z), c.ni) + c.l2 + 100)
Grad(i) == 100 * (SumTo(LAMBDA z : G(i, z) * c.B[z][col], c.ni) - S * G(i, col)) + c.l2 * c.B[i][col]
SlimEntry(i) ==
    IF i = col THEN Msg(c.B[i][col] = 0, At(i, "diagonal weight"))
    ELSE LET g == Grad(i) l == c.l1 * S b == c.B[i][col] w == Slack(i) IN
         CASE b > 0 -> Msg(Abs(g + l) <= w, At(i, "positive weight is not optimal"))
           [] b < 0 -> Msg(~c.pos, At(i, "negative weight")) \o Msg(c.pos \/ Abs(g - l) <= w, At(i, "negative weight is not optimal"))
           [] OTHER -> Msg(g + l >= -w, At(i, "a missing weight would improve the fit")) \o
                       Msg(c.pos \/ g - l <= w, At(i, "a missing negative weight would improve the fit"))
\* --- closed form, in units of 1/(4 S)
M(i, j) == 4 * G(i, j) + (IF i = j THEN c.D[i] ELSE 0)
IB(z) == (IF z = col THEN S ELSE 0) - c.B[z][col]
ClosedEntry(i) ==
    IF i = col THEN Msg(c.B[i][col] = 0, At(i, "diagonal weight"))
    ELSE Msg(Abs(SumTo(LAMBDA z : M(i, z) * IB(z), c.ni)) <= c.tol * SumTo(LAMBDA z : M(i, z), c.ni), At(i, "not the closed-form solution"))
\* --- top k
Nz == {i \in I : c.rank[i][col] > 0}
Kept == {i \in I : c.kept[i][col] = 1}
TopkCol == Msg(Kept \subseteq Nz, "column " \o ToString(col) \o " keeps a weight the unlimited solution does not have") \o
           Msg(Cardinality(Kept) = Min(c.k, Cardinality(Nz)), "column " \o ToString(col) \o " keeps " \o ToString(Cardinality(Kept)) \o " of " \o ToString(Cardinality(Nz)) \o " weights for k=" \o ToString(c.k)) \o
           Msg(\A a \in Kept \cap Nz : \A b \in Nz \ Kept : c.rank[a][col] >= c.rank[b][col], "column " \o ToString(col) \o " drops a larger weight")
RECURSIVE AllEntries(_, _)
AllEntries(F(_), z) == IF z > c.ni THEN << >> ELSE F(z) \o AllEntries(F, z + 1)
Column == /\ col <= c.ni
          /\ bad' = bad \o (CASE c.kind = "slim" -> AllEntries(SlimEntry, 1)
                              [] c.kind = "closed" -> AllEntries(ClosedEntry, 1)
                              [] OTHER -> TopkCol)
          /\ col' = col + 1 /\ UNCHANGED c
Finish == /\ col = c.ni + 1 /\ col' = col + 1 /\ UNCHANGED <<c, bad>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> bad]))
Spec == Init /\ [][Column \/ Finish]_vars
Symmetric == c.kind # "topk" => \A i, j \in I : G(i, j) = G(j, i)
=============================================================================
