---------------------------- MODULE DownloaderMC -----------------------------
(* prints every history of MaxAttempts attempts, to be replayed              *)
EXTENDS Downloader, Json
Emit == IF phase # "idle" /\ phase' = "idle" /\ Len(hist') = MaxAttempts
        THEN PrintT("@@" \o ToJson([p |-> P, hist |-> hist', first |-> IF hist'[1].dest = "foreign" THEN "foreign" ELSE "absent"]))
        ELSE TRUE
Spec == Init /\ [][Next /\ Emit]_vars
=============================================================================
