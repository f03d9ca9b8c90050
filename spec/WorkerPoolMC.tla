----------------------------- MODULE WorkerPoolMC -----------------------------
\* every interleaving; the history of turns is not part of the state
EXTENDS WorkerPool
NoTurns == <<pc, cursor, seen, own, times, part, total>>
=============================================================================
