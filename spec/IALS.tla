--------------------------------- MODULE IALS ---------------------------------
(* Implicit ALS.  One half-epoch fits every row of one side given the other   *)
(* side's factors (integers here, so every number is an exact fraction):      *)
(*    (a0 V'V + sum_i x_i v_i v_i' + R I) y = sum_i (x_i + w) v_i + R p       *)
(*    R = reg (a0 m + n)^nu,  w = a0 for the ORIGINAL loss, else 0            *)
(* m rows on the other side, n of them observed, p the feature prior.         *)
(* a0 is in quarters, reg in tenths, nu in 0..2; everything times 160.        *)
(*   solve   the minimiser, by Cramer's rule (K <= 3); a row without          *)
(*           observations and prior is zero                                   *)
(*   sweep   K = 2, one coordinate sweep from zero (first then second)        *)
(*   step    one conjugate-gradient step from the given start (S)             *)
(*   loss    twice the objective, times 160, per user, per item and per       *)
(*           feature weight row (with features the factor is shrunk to its    *)
(*           prior instead of zero)                                           *)
(*   score   predicted scores of every user                                   *)
(*   descent judged: the objective after each epoch never exceeds the last    *)
(*   ridge   judged: the feature weights solve (F'RF + lam) W = F'R Y         *)
(*           (Y and W in units of 1/1000)                                     *)
(*   scale   the regularisation scale sum (n_u + a0 I)^nu + sum (n_i + a0 U)^nu *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, row, out, bad
vars == <<c, row, out, bad>>
RECURSIVE SumTo(_, _)
SumTo(f(_), z) == IF z = 0 THEN 0 ELSE f(z) + SumTo(f, z - 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(z) == IF z < 0 THEN -z ELSE z
RECURSIVE GcdSeq(_, _)
GcdSeq(s, z) == IF z > Len(s) THEN 0 ELSE Gcd(Abs(s[z]), GcdSeq(s, z + 1))
M == Len(c.V)
NObs(x) == Cardinality({i \in DOMAIN x : x[i] # 0})
R160(x) == LET t == c.a4 * M + 4 * NObs(x) IN
           CASE c.nu = 0 -> 16 * c.r10 [] c.nu = 1 -> 4 * c.r10 * t [] c.nu = 2 -> c.r10 * t * t
W160 == IF c.orig THEN 40 * c.a4 ELSE 0
Mat(x) == [a \in 1 .. c.K |-> [b \in 1 .. c.K |->
    SumTo(LAMBDA i : (40 * c.a4 + 160 * x[i]) * c.V[i][a] * c.V[i][b], M) + (IF a = b THEN R160(x) ELSE 0)]]
Rhs(x, p) == [a \in 1 .. c.K |-> SumTo(LAMBDA i : IF x[i] = 0 THEN 0 ELSE (160 * x[i] + W160) * c.V[i][a], M) + R160(x) * p[a]]
\* divide the system by its common factor
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Flat(Tail(s))
Common(A, b) == LET g == GcdSeq(Flat(A) \o b, 1) IN IF g = 0 THEN 1 ELSE g
Det(A) == CASE c.K = 1 -> A[1][1]
            [] c.K = 2 -> A[1][1] * A[2][2] - A[1][2] * A[2][1]
            [] c.K = 3 -> A[1][1] * (A[2][2] * A[3][3] - A[2][3] * A[3][2]) - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1])
                          + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
Column(A, b, k) == [r \in 1 .. c.K |-> [A[r] EXCEPT ![k] = b[r]]]
Dot(v, w) == SumTo(LAMBDA k : v[k] * w[k], c.K)
\* s + (r.r / r.Ar) r for r = b - A s
FirstStep(A, b, s) ==
    LET r0 == [k \in 1 .. c.K |-> b[k] - Dot(A[k], s)]  h == Common(<<r0>>, << >>)
        r == [k \in 1 .. c.K |-> r0[k] \div h]  q == Dot(r, [k \in 1 .. c.K |-> Dot(A[k], r)]) IN
    IF \A k \in 1 .. c.K : r0[k] = 0 THEN [k \in 1 .. c.K |-> <<s[k], 1>>]
    ELSE [k \in 1 .. c.K |-> <<s[k] * q + Dot(r, r) * h * r[k], q>>]
Solve(x, p) ==
    LET A0 == Mat(x) b0 == Rhs(x, p) g == Common(A0, b0)
        A == [r \in 1 .. c.K |-> [s \in 1 .. c.K |-> A0[r][s] \div g]]  b == [r \in 1 .. c.K |-> b0[r] \div g] IN
    IF ~c.prior /\ NObs(x) = 0 THEN [k \in 1 .. c.K |-> <<0, 1>>]
    ELSE CASE c.kind = "sweep" -> << <<b[1], A[1][1]>>, <<b[2] * A[1][1] - A[2][1] * b[1], A[1][1] * A[2][2]>> >>
           [] c.kind = "step" -> FirstStep(A, b, c.S[row])
           [] OTHER -> [k \in 1 .. c.K |-> <<Det(Column(A, b, k)), Det(A)>>]
\* --- objective
Pred(u, i) == SumTo(LAMBDA k : c.U[u][k] * c.V[i][k], c.K)
Obs(u, i) == LET x == c.X[u][i] p == Pred(u, i) IN
    IF x = 0 THEN 40 * c.a4 * p * p
    ELSE IF c.orig THEN (160 * x + 40 * c.a4) * (p - 1) * (p - 1)
    ELSE 160 * x * (p - 1) * (p - 1) + 40 * c.a4 * p * p
RegOf(n, size) == LET t == c.a4 * size + 4 * n IN CASE c.nu = 0 -> 16 * c.r10 [] c.nu = 1 -> 4 * c.r10 * t [] c.nu = 2 -> c.r10 * t * t
Norm2(v) == SumTo(LAMBDA k : v[k] * v[k], c.K)
Minus(v, p) == [k \in 1 .. c.K |-> v[k] - p[k]]
ColN(i) == Cardinality({u \in DOMAIN c.X : c.X[u][i] # 0})
UserLoss(u) == SumTo(LAMBDA i : Obs(u, i), M) + RegOf(NObs(c.X[u]), M) * Norm2(Minus(c.U[u], c.PU[u]))
ItemLoss(i) == RegOf(ColN(i), Len(c.U)) * Norm2(Minus(c.V[i], c.PV[i]))
WeightLoss(f) == c.W[f][1] * Norm2(c.W[f][2])        \* W: <<160 lambda, weights>> per feature
\* --- ridge
RidgeAt(f, k) == SumTo(LAMBDA r : c.F[r][f] * c.R[r] * (c.Y[r][k] - SumTo(LAMBDA g : c.F[r][g] * c.W[g][k], Len(c.W))), Len(c.F)) - c.lam160 * c.W[f][k]
RidgeTol(f) == SumTo(LAMBDA r : Abs(c.F[r][f]) * c.R[r] * (1 + SumTo(LAMBDA g : Abs(c.F[r][g]), Len(c.W))), Len(c.F)) + c.lam160
RidgeBad == {<<f, k>> \in (DOMAIN c.W) \X (1 .. c.K) : Abs(RidgeAt(f, k)) > 2 * RidgeTol(f)}
\* --- regularisation scale, times 4^nu
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
ScaleOf(nu) == SumTo(LAMBDA u : Pow(4 * NObs(c.X[u]) + c.a4 * c.ni, nu), Len(c.X))
             + SumTo(LAMBDA i : Pow(4 * ColN(i) + c.a4 * Len(c.X), nu), c.ni)

NRows == CASE c.kind \in {"solve", "sweep", "step"} -> Len(c.X)
           [] c.kind = "loss" -> Len(c.U) + Len(c.V) + Len(c.W)
           [] c.kind = "score" -> Len(c.U)
           [] OTHER -> 1
Init == c \in {Cases[q] : q \in DOMAIN Cases} /\ row = 1 /\ out = << >> /\ bad = << >>
Row == /\ row <= NRows
       /\ CASE c.kind \in {"solve", "sweep", "step"} -> out' = Append(out, Solve(c.X[row], IF c.prior THEN c.P[row] ELSE [k \in 1 .. c.K |-> 0])) /\ UNCHANGED bad
            [] c.kind = "loss" -> out' = Append(out, IF row <= Len(c.U) THEN UserLoss(row)
                       ELSE IF row <= Len(c.U) + M THEN ItemLoss(row - Len(c.U)) ELSE WeightLoss(row - Len(c.U) - M)) /\ UNCHANGED bad
            [] c.kind = "score" -> out' = Append(out, [i \in 1 .. M |-> Pred(row, i)]) /\ UNCHANGED bad
            [] c.kind = "descent" -> bad' = (IF \A z \in 2 .. Len(c.L) : c.L[z] <= c.L[z - 1] + c.tol THEN << >> ELSE <<"the loss increased: " \o ToString(c.L)>>) /\ UNCHANGED out
            [] c.kind = "ridge" -> bad' = (IF RidgeBad = {} THEN << >> ELSE <<"feature weights do not solve their ridge problem at " \o ToString(RidgeBad)>>) /\ UNCHANGED out
            [] c.kind = "scale" -> out' = << <<ScaleOf(c.nustar), Pow(4, c.nustar)>>, <<ScaleOf(c.nu), Pow(4, c.nu)>> >> /\ UNCHANGED bad
       /\ row' = row + 1 /\ UNCHANGED c
Finish == /\ row = NRows + 1 /\ row' = row + 1 /\ UNCHANGED <<c, out, bad>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, out |-> out, bad |-> bad]))
Spec == Init /\ [][Row \/ Finish]_vars
\* the solution is a minimiser: the system is positive definite
Definite == c.kind \in {"solve", "sweep", "step"} /\ row <= NRows => \A k \in 1 .. c.K : Mat(c.X[row])[k][k] >= 0
=============================================================================
