------------------------------- MODULE TraceCsv -------------------------------
EXTENDS CsvText, TraceLib
VARIABLES x, head          \* the table at hand, as recorded
TInit == l = 1 /\ x = Bad /\ head = FALSE
Code(e) == CASE e = "end" -> {2} [] e = "ragged" -> {3} [] OTHER -> 1..3
\* a file gets what the string gets, behind what it already holds, and a failed write never passes for a written document
Files == Ev.disk /\ Ev.own /\ Ev.lost = 0
Ok == \/ Ev.op \in {"seg", "build"}
      \/ Ev.op = "parse" /\ Ev.live = 0 /\ LET r == TLCEval(ParseCsv(Ev.t, Ev.d, Ev.head)) IN IF r.ok THEN Ev.err = 0 /\ SameTable(r, Ev.x, Ev.head) ELSE Ev.err \in Code(r.err)
      \/ /\ Ev.op = "write" /\ Files /\ Ev.live = 0 /\ Ev.err = 0
         /\ LET r == TLCEval(ParseCsv(Ev.t, Ev.d, head)) IN r.ok /\ KeptTable(x, r, head) /\ SameTable(r, Ev.x, head)
      \/ Ev.op = "free" /\ Ev.live = 0
TNext == More /\ LET ok == TLCEval(Ok) IN IF ok THEN Advance /\ (IF Ev.op \in {"parse", "build"} THEN head' = Ev.head /\ x' = (IF "x" \in DOMAIN Ev THEN Ev.x ELSE Bad) ELSE UNCHANGED <<x, head>>)
                                          ELSE Reject /\ UNCHANGED <<x, head>>
TSpec == TInit /\ [][TNext]_<<l, x, head>>
=============================================================================
