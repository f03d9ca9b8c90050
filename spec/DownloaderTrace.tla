--------------------------- MODULE DownloaderTrace ---------------------------
(* Observed histories of attempts against the real downloaders.               *)
EXTENDS Downloader, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, bad
tvars == <<c, k, bad>>
TInit == c \in {Cases[q] : q \in DOMAIN Cases} /\ k = 1 /\ bad = << >> /\ Init /\ dest = "absent"
Before == IF k = 1 THEN c.first ELSE c.hist[k - 1].dest
Look1 == /\ k <= Len(c.hist)
         /\ bad' = IF AttemptOk(Before, c.hist[k], c.p) THEN bad
                   ELSE Append(bad, "attempt " \o ToString(k) \o " from " \o Before \o ": " \o ToString(c.hist[k]))
         /\ k' = k + 1 /\ UNCHANGED <<c, vars>>
Finish == /\ k = Len(c.hist) + 1 /\ k' = k + 1 /\ UNCHANGED <<c, bad, vars>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> bad]))
TSpec == TInit /\ [][Look1 \/ Finish]_<<tvars, vars>>
=============================================================================
