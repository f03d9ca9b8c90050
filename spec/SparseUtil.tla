------------------------------ MODULE SparseUtil ------------------------------
(* Matrix utilities.  A matrix is consumed one row at a time; per kind:       *)
(*   mm      row of the product A.B                                           *)
(*   diag    the row without its diagonal entry                               *)
(*   l1      the row and its sum (every entry is divided by it)               *)
(*   weight  document frequencies df and row lengths dl (the weights are      *)
(*           functions of the entry, its df, its dl, the number of rows and   *)
(*           the total length)                                                *)
(* Entries are integers.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, row, out, df, total
vars == <<c, row, out, df, total>>
RECURSIVE SumTo(_, _)
SumTo(f(_), z) == IF z = 0 THEN 0 ELSE f(z) + SumTo(f, z - 1)
Init == /\ c \in {Cases[q] : q \in DOMAIN Cases} /\ row = 1 /\ out = << >> /\ total = 0
        /\ df = [j \in 1 .. c.nc |-> 0]
R == c.A[row]
RowSum(r) == SumTo(LAMBDA j : r[j], Len(r))
Row == /\ row <= Len(c.A)
       /\ CASE c.kind = "mm"   -> out' = Append(out, [j \in 1 .. c.nb |-> SumTo(LAMBDA z : R[z] * c.B[z][j], c.nc)])
            [] c.kind = "diag" -> out' = Append(out, [R EXCEPT ![row] = 0])
            [] OTHER           -> out' = Append(out, <<RowSum(R)>>)
       /\ df' = [j \in 1 .. c.nc |-> df[j] + (IF R[j] # 0 THEN 1 ELSE 0)]
       /\ total' = total + RowSum(R)
       /\ row' = row + 1 /\ UNCHANGED c
Finish == /\ row = Len(c.A) + 1 /\ row' = row + 1 /\ UNCHANGED <<c, out, df, total>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, out |-> out, df |-> df, total |-> total]))
Spec == Init /\ [][Row \/ Finish]_vars
Frequencies == \A j \in DOMAIN df : df[j] <= row - 1
NoDiagonal == c.kind = "diag" => \A i \in DOMAIN out : out[i][i] = 0
=============================================================================
