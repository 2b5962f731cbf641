------------------------------- MODULE TraceUri -------------------------------
EXTENDS UriText, TraceLib
VARIABLES x          \* the fields at hand, as recorded
TInit == l = 1 /\ x = Bad
\* a file gets what the string gets, behind what it already holds, and a failed write never passes for a written document
Files == Ev.disk /\ Ev.own /\ Ev.lost = 0
Ok == \/ Ev.op \in {"seg", "build"}
      \/ Ev.op = "parse" /\ Ev.err = 0 /\ LET r == TLCEval(ParseUri(Ev.t)) IN r.lx \/ SameFields(r, Ev.x)
      \/ Ev.op = "write" /\ Files /\ Ev.err = 0 /\ Ev.live = 0 /\ LET r == TLCEval(ParseUri(Ev.t)) IN ~r.lx /\ KeptFields(x, r) /\ SameFields(r, Ev.x)
      \/ Ev.op = "free" /\ Ev.live = 0
TNext == More /\ LET ok == TLCEval(Ok) IN IF ok THEN Advance /\ (IF Ev.op \in {"parse", "build"} THEN x' = Ev.x ELSE UNCHANGED x) ELSE Reject /\ UNCHANGED x
TSpec == TInit /\ [][TNext]_<<l, x>>
=============================================================================
