----------------------------- MODULE WorkerTrace ------------------------------
(* Judges a recorded parallel region.  An event is <<worker, kind, place>>:   *)
(* "a" an atomic operation, "l"/"u" a lock taken and released, "r"/"w" a plain *)
(* read or write.  In the pool of WorkerPool a row's data is touched only by   *)
(* its owner, so no place may be written by one worker and touched by another *)
(* unless atomic operations or locks put the two accesses in order; the order *)
(* is the usual one of vector clocks.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, n, clock, sync, wrote, read, bad
vars == <<c, n, clock, sync, wrote, read, bad>>
Workers(x) == 0 .. x.workers - 1
Places(x) == {x.events[q][3] : q \in DOMAIN x.events}
Zero(x) == [w \in Workers(x) |-> 0]
Join(f, g) == [w \in DOMAIN f |-> IF f[w] > g[w] THEN f[w] ELSE g[w]]
Tick(f, w) == [f EXCEPT ![w] = @ + 1]

Init == /\ c \in {Cases[q] : q \in DOMAIN Cases}
        /\ n = 1
        /\ clock = [w \in Workers(c) |-> [Zero(c) EXCEPT ![w] = 1]]
        /\ sync = [p \in Places(c) |-> Zero(c)]
        /\ wrote = [p \in Places(c) |-> Zero(c)]
        /\ read = [p \in Places(c) |-> Zero(c)]
        /\ bad = {}

Step ==
    /\ n <= Len(c.events)
    /\ n' = n + 1
    /\ UNCHANGED c
    /\ LET w == c.events[n][1]  k == c.events[n][2]  p == c.events[n][3]
           clash(f) == {v \in Workers(c) \ {w} : f[p][v] > clock[w][v]}
       IN CASE k = "a" -> LET j == Join(clock[w], sync[p])
                          IN /\ sync' = [sync EXCEPT ![p] = j]
                             /\ clock' = [clock EXCEPT ![w] = Tick(j, w)]
                             /\ UNCHANGED <<wrote, read, bad>>
            [] k = "l" -> /\ clock' = [clock EXCEPT ![w] = Join(@, sync[p])]
                          /\ UNCHANGED <<sync, wrote, read, bad>>
            [] k = "u" -> /\ sync' = [sync EXCEPT ![p] = Join(@, clock[w])]
                          /\ clock' = [clock EXCEPT ![w] = Tick(@, w)]
                          /\ UNCHANGED <<wrote, read, bad>>
            [] k = "r" -> /\ bad' = bad \cup {<<v, w, p>> : v \in clash(wrote)}
                          /\ read' = [read EXCEPT ![p][w] = clock[w][w]]
                          /\ UNCHANGED <<sync, clock, wrote>>
            [] k = "w" -> /\ bad' = bad \cup {<<v, w, p>> : v \in clash(wrote) \cup clash(read)}
                          /\ wrote' = [wrote EXCEPT ![p][w] = clock[w][w]]
                          /\ UNCHANGED <<sync, clock, read>>
Finish == /\ n = Len(c.events) + 1
          /\ n' = n + 1
          /\ UNCHANGED <<c, clock, sync, wrote, read, bad>>
          /\ PrintT("@@" \o ToJson([id |-> c.id,
                 bad |-> IF bad = {} THEN << >>
                         ELSE LET b == CHOOSE x \in bad : TRUE
                              IN <<"workers " \o ToString(b[1]) \o " and " \o ToString(b[2]) \o " touch the same memory without order">>]))
Spec == Init /\ [][Step \/ Finish]_vars
\* clocks never know more of a worker than the worker itself
Sane == \A v, w \in Workers(c) : clock[v][w] <= clock[w][w]
=============================================================================
