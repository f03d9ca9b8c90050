------------------------------ MODULE MindRead -------------------------------
(* Reading the news dataset.  The archives are scanned split by split: every  *)
(* behaviour row is emitted once; its candidates are emitted one at a time    *)
(* with their position and label; an article is emitted when its id is met    *)
(* for the first time.  Texts are interned: equal numbers = equal texts.      *)
(* Input c.splits[s] = [name, rows, news]; rows <<imp, user, time, hist, text, cands>>, cands a     *)
(* sequence of <<item, label>>; news = sequence of <<item, fields...>>.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, s, r, k, beh, long, news, n
vars == <<c, s, r, k, beh, long, news, n>>
Init == /\ c \in {Cases[q] : q \in DOMAIN Cases} /\ s = 1 /\ r = 1 /\ k = 1 /\ n = 1
        /\ beh = << >> /\ long = << >> /\ news = << >>
More == s <= Len(c.splits)
Rows == c.splits[s].rows
Cands == Rows[r][6]
\* one behaviour row, then its candidates
Row == /\ More /\ r <= Len(Rows) /\ k = 1
       /\ beh' = Append(beh, <<Rows[r][1], Rows[r][2], Rows[r][3], Rows[r][4], Rows[r][5]>>)
       /\ IF Cands = << >> THEN r' = r + 1 /\ UNCHANGED <<k, long>>
          ELSE /\ long' = Append(long, <<Rows[r][1], Rows[r][2], Rows[r][3], Cands[1][1], Cands[1][2], 0, c.splits[s].name>>)
               /\ IF Len(Cands) = 1 THEN r' = r + 1 /\ k' = 1 ELSE k' = 2 /\ UNCHANGED r
       /\ UNCHANGED <<c, s, news, n>>
Candidate == /\ More /\ r <= Len(Rows) /\ k > 1
             /\ long' = Append(long, <<Rows[r][1], Rows[r][2], Rows[r][3], Cands[k][1], Cands[k][2], k - 1, c.splits[s].name>>)
             /\ IF k = Len(Cands) THEN r' = r + 1 /\ k' = 1 ELSE k' = k + 1 /\ UNCHANGED r
             /\ UNCHANGED <<c, s, beh, news, n>>
Article == /\ More /\ r > Len(Rows) /\ n <= Len(c.splits[s].news)
           /\ LET a == c.splits[s].news[n]
              IN  news' = IF \E q \in DOMAIN news : news[q][1] = a[1] THEN news ELSE Append(news, a)
           /\ n' = n + 1 /\ UNCHANGED <<c, s, r, k, beh, long>>
NextSplit == /\ More /\ r > Len(Rows) /\ n > Len(c.splits[s].news)
             /\ s' = s + 1 /\ r' = 1 /\ k' = 1 /\ n' = 1 /\ UNCHANGED <<c, beh, long, news>>
Clicked == SelectSeq(long, LAMBDA x : x[5] = 1)
Inter == [q \in DOMAIN Clicked |-> <<Clicked[q][1], Clicked[q][2], Clicked[q][3], Clicked[q][4], Clicked[q][7]>>]
Msg(cond, t) == IF cond THEN << >> ELSE <<t>>
Verdict == Msg(c.obs.beh = beh, "behaviour rows differ from the log")
           \o Msg(c.obs.long = long, "the long form is not every candidate once, in order, with position and label")
           \o Msg(c.obs.clicked = Clicked, "clicked-only impressions differ")
           \o Msg(c.obs.inter = Inter, "interactions are not exactly the clicked candidates")
           \o Msg(c.obs.news = news, "articles differ (first occurrence, exact text)")
           \o Msg(c.obs.other = "", c.obs.other)
Finish == /\ s = Len(c.splits) + 1 /\ s' = s + 1 /\ UNCHANGED <<c, r, k, beh, long, news, n>>
          /\ PrintT("@@" \o ToJson([id |-> c.id, bad |-> Verdict]))
Spec == Init /\ [][Row \/ Candidate \/ Article \/ NextSplit \/ Finish]_vars
OnceEach == \A a, b \in DOMAIN news : a # b => news[a][1] # news[b][1]
PositionsFollow == \A a \in DOMAIN long : long[a][6] > 0 => a > 1 /\ long[a - 1][6] = long[a][6] - 1 /\ long[a - 1][1] = long[a][1]
=============================================================================
