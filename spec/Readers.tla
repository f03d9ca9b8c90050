------------------------------- MODULE Readers -------------------------------
(* Dataset readers: the source file is consumed one record at a time and each *)
(* record contributes exactly its rows, in order.  Field texts are interned.  *)
(*   flat    a record is one row                                              *)
(*   list    record = <<count, items>>; rows <<line number, item>>; a wrong   *)
(*           count makes the file invalid                                     *)
(*   flags   record = <<key, flags>>; rows <<key, position of a set flag>>    *)
(*   onevs   record = <<user, positive, negatives>>; rows <<user, item,       *)
(*           is-positive>>, an item at most once per user, positive first     *)
(*   script  record = <<row>> or <<>> (content that asks to be executed: the  *)
(*           file must be refused and nothing executed)                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, rows, valid
vars == <<c, k, rows, valid>>
Init == c \in {Cases[q] : q \in DOMAIN Cases} /\ k = 1 /\ rows = << >> /\ valid = TRUE
RECURSIVE AddFlags(_, _, _, _)
AddFlags(out, key, flags, q) == IF q > Len(flags) THEN out
    ELSE AddFlags(IF flags[q] = 1 THEN Append(out, <<key, q>>) ELSE out, key, flags, q + 1)
RECURSIVE AddOnce(_, _, _, _)
AddOnce(out, u, items, q) == IF q > Len(items) THEN out
    ELSE AddOnce(IF \E z \in DOMAIN out : out[z][1] = u /\ out[z][2] = items[q] THEN out
                 ELSE Append(out, <<u, items[q], 0>>), u, items, q + 1)
AddPos(out, u, i) == IF \E z \in DOMAIN out : out[z][1] = u /\ out[z][2] = i THEN out ELSE Append(out, <<u, i, 1>>)
Rec == c.recs[k]
Read == /\ k <= Len(c.recs)
        /\ CASE c.kind = "flat" -> rows' = Append(rows, Rec) /\ UNCHANGED valid
             [] c.kind = "list" -> /\ rows' = rows \o [q \in DOMAIN Rec[2] |-> <<k - 1, Rec[2][q]>>]
                                   /\ valid' = (valid /\ Rec[1] = Len(Rec[2]))
             [] c.kind = "flags" -> rows' = AddFlags(rows, Rec[1], Rec[2], 1) /\ UNCHANGED valid
             [] c.kind = "onevs" -> rows' = AddOnce(AddPos(rows, Rec[1], Rec[2]), Rec[1], Rec[3], 1) /\ UNCHANGED valid
             [] c.kind = "script" -> IF Rec = << >> THEN valid' = FALSE /\ UNCHANGED rows ELSE rows' = Append(rows, Rec) /\ UNCHANGED valid
        /\ k' = k + 1 /\ UNCHANGED c
Msg(cond, t) == IF cond THEN << >> ELSE <<t>>
FirstDiff == LET D == {q \in 1 .. Len(rows) : q > Len(c.got) \/ (q <= Len(c.got) /\ c.got[q] # rows[q])}
             IN IF D = {} THEN "extra rows" ELSE LET m == CHOOSE q \in D : \A z \in D : q <= z
                IN "row " \o ToString(m) \o " should be " \o ToString(rows[m])
Verdict == IF c.ok # valid THEN <<IF valid THEN "reading failed: " \o c.err ELSE "an invalid file was accepted">>
           ELSE IF ~valid THEN Msg(c.other = "", c.other)
           ELSE Msg(c.got = rows, "rows differ from the file: " \o (IF c.got = rows THEN "" ELSE FirstDiff)) \o Msg(c.other = "", c.other)
Finish == /\ k = Len(c.recs) + 1 /\ k' = k + 1 /\ UNCHANGED <<c, rows, valid>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> Verdict]))
Spec == Init /\ [][Read \/ Finish]_vars
OncePerUser == c.kind = "onevs" => \A a, b \in DOMAIN rows : a # b => <<rows[a][1], rows[a][2]>> # <<rows[b][1], rows[b][2]>>
FlatKeepsAll == c.kind = "flat" => Len(rows) = k - 1 \/ k > Len(c.recs)
=============================================================================
