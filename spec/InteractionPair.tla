--------------------------- MODULE InteractionPair ---------------------------
(* The container of users' learning and held-out interactions.               *)
(* A pair has users (ids), a number of items, two sets of cells              *)
(* <<row, column, value>> (rows and columns from 0) and possibly item ids.    *)
(* Pairs are made, concatenated and viewed as tables; existing pairs never    *)
(* change.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pairs,     \* the pairs made so far
          last       \* outcome of the last operation
pvars == <<pairs, last>>

Set(s) == {s[q] : q \in DOMAIN s}
\* a request: [users, shape, train, hastest, tshape, test, hasitems, items]
Consistent(r) ==
    /\ Len(r.users) = r.shape[1]
    /\ r.hastest => r.tshape = r.shape
    /\ r.hasitems => Len(r.items) = r.shape[2]
Made(r) == [users |-> r.users, ni |-> r.shape[2], train |-> r.train,
            test |-> IF r.hastest THEN r.test ELSE {},
            hasitems |-> r.hasitems, items |-> IF r.hasitems THEN r.items ELSE << >>]
Shift(cells, n) == {<<x[1] + n, x[2], x[3]>> : x \in cells}
\* the item ids of a concatenation are those of the first part, or left out
Joined(a, b) == [users |-> a.users \o b.users, ni |-> a.ni,
                 train |-> a.train \cup Shift(b.train, Len(a.users)),
                 test |-> a.test \cup Shift(b.test, Len(a.users)),
                 hasitems |-> FALSE, items |-> << >>]
\* the sum of both parts, cell by cell
Val(cells, u, i) == LET s == {x \in cells : x[1] = u /\ x[2] = i} IN IF s = {} THEN 0 ELSE (CHOOSE x \in s : TRUE)[3]
All(p) == {<<u, i, Val(p.train, u, i) + Val(p.test, u, i)>> :
             <<u, i>> \in {<<x[1], x[2]>> : x \in p.train \cup p.test}} \ {<<u, i, 0>> : <<u, i>> \in {<<x[1], x[2]>> : x \in p.train \cup p.test}}
Table(p, part) == {<<p.users[x[1] + 1], p.items[x[2] + 1], x[3]>> : x \in part}

Init == pairs = << >> /\ last = "ok"
Make(r) == IF Consistent(r) THEN pairs' = Append(pairs, Made(r)) /\ last' = "ok"
           ELSE last' = "ValueError" /\ UNCHANGED pairs
Concat(a, b) == IF pairs[a].ni = pairs[b].ni THEN pairs' = Append(pairs, Joined(pairs[a], pairs[b])) /\ last' = "ok"
                ELSE last' = "ValueError" /\ UNCHANGED pairs
View(a) == last' = (IF pairs[a].hasitems THEN "ok" ELSE "RuntimeError") /\ UNCHANGED pairs

Aligned == \A q \in DOMAIN pairs : \A x \in pairs[q].train \cup pairs[q].test :
             x[1] \in 0 .. Len(pairs[q].users) - 1 /\ x[2] \in 0 .. pairs[q].ni - 1
OneValue == \A q \in DOMAIN pairs : \A x, y \in pairs[q].train : x[1] = y[1] /\ x[2] = y[2] => x = y
=============================================================================
