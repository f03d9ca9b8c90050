------------------------------ MODULE WorkerPool ------------------------------
(* Workers that share the rows of one computation.  Either they take blocks  *)
(* of rows from a shared cursor (one indivisible "return the old value and    *)
(* advance"), or every worker owns a fixed part.  A worker owns the rows of   *)
(* the block it took, writes their results and adds their contribution to a  *)
(* sum of its own; the main thread combines the sums once all workers ended. *)
(*                                                                            *)
(* Atomic = FALSE is the faulty pool whose cursor is read and written in two *)
(* steps; it is there to see that the invariants tell the difference.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, W, Chunk, Mode, Atomic, Eager
Rows == 0 .. N - 1
Workers == 0 .. W - 1
VARIABLES pc, cursor, seen, own, times, part, total, turns
vars == <<pc, cursor, seen, own, times, part, total, turns>>

Min(a, b) == IF a < b THEN a ELSE b
\* the fixed part of worker w: N \div W rows, one more for the first N % W
PartLo(w) == w * (N \div W) + Min(w, N % W)
PartOf(w) == PartLo(w) .. PartLo(w + 1) - 1
RowSum(s) == LET R[t \in SUBSET Rows] == IF t = {} THEN 0 ELSE LET x == CHOOSE y \in t : TRUE IN x + 1 + R[t \ {x}]
             IN R[s]

Init == /\ pc = [w \in Workers |-> "new"]
        /\ cursor = 0
        /\ seen = [w \in Workers |-> 0]
        /\ own = [w \in Workers |-> {}]
        /\ times = [r \in Rows |-> 0]
        /\ part = [w \in Workers |-> 0]
        /\ total = -1
        /\ turns = << >>

\* when Eager, nobody else moves while a worker is in the middle of its block
Free(w) == Eager => \A v \in Workers \ {w} : pc[v] # "work"

Start(w) == /\ pc[w] = "new" /\ Free(w)
            /\ pc' = [pc EXCEPT ![w] = IF Mode = "cursor" THEN "take" ELSE "work"]
            /\ own' = [own EXCEPT ![w] = IF Mode = "cursor" THEN {} ELSE PartOf(w)]
            /\ turns' = Append(turns, w)
            /\ UNCHANGED <<cursor, seen, times, part, total>>

Got(w, v) == /\ own' = [own EXCEPT ![w] = IF v >= N THEN {} ELSE v .. Min(v + Chunk, N) - 1]
             /\ pc' = [pc EXCEPT ![w] = IF v >= N THEN "ended" ELSE "work"]

Take(w) == /\ Atomic /\ Mode = "cursor" /\ pc[w] = "take" /\ Free(w)
           /\ Got(w, cursor)
           /\ cursor' = cursor + Chunk
           /\ turns' = Append(turns, w)
           /\ UNCHANGED <<seen, times, part, total>>

\* the faulty cursor
Look(w) == /\ ~Atomic /\ pc[w] = "take" /\ Free(w)
           /\ seen' = [seen EXCEPT ![w] = cursor]
           /\ pc' = [pc EXCEPT ![w] = "look"]
           /\ turns' = Append(turns, w)
           /\ UNCHANGED <<cursor, own, times, part, total>>
Put(w) == /\ ~Atomic /\ pc[w] = "look" /\ Free(w)
          /\ cursor' = seen[w] + Chunk
          /\ Got(w, seen[w])
          /\ turns' = Append(turns, w)
          /\ UNCHANGED <<seen, times, part, total>>

\* one row of the block
Work(w) == /\ pc[w] = "work"
           /\ IF own[w] = {}
              THEN /\ pc' = [pc EXCEPT ![w] = IF Mode = "cursor" THEN "take" ELSE "ended"]
                   /\ UNCHANGED <<own, times, part>>
              ELSE LET r == CHOOSE x \in own[w] : \A y \in own[w] : x <= y
                   IN /\ times' = [times EXCEPT ![r] = @ + 1]
                      /\ part' = [part EXCEPT ![w] = @ + r + 1]
                      /\ own' = [own EXCEPT ![w] = @ \ {r}]
                      /\ UNCHANGED pc
           /\ UNCHANGED <<cursor, seen, total, turns>>

SumOf == LET S[k \in 0 .. W] == IF k = 0 THEN 0 ELSE S[k - 1] + part[k - 1] IN S[W]
AllEnded == \A w \in Workers : pc[w] = "ended"
Combine == /\ AllEnded /\ total = -1
           /\ total' = SumOf
           /\ UNCHANGED <<pc, cursor, seen, own, times, part, turns>>

Next == Combine \/ \E w \in Workers : Start(w) \/ Take(w) \/ Look(w) \/ Put(w) \/ Work(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* no row is processed twice, none is owned by two workers
Once == \A r \in Rows : times[r] <= 1
Disjoint == \A v, w \in Workers : v # w => own[v] \cap own[w] = {}
Untouched == \A w \in Workers : \A r \in own[w] : times[r] = 0
\* at the end every row was processed and the combined sum is the sequential one
Complete == total # -1 => (\A r \in Rows : times[r] = 1) /\ total = RowSum(Rows)
Ends == <>(total # -1)
Inv == Once /\ Disjoint /\ Untouched /\ Complete
=============================================================================
