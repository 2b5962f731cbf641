------------------------------- MODULE TraceJson -------------------------------
EXTENDS JsonText, TraceLib
VARIABLES x          \* the document at hand, as recorded
TInit == l = 1 /\ x = Bad
OutOfMemory == 8
Parsed(r) == r.ok /\ Ev.links /\ Same(r.x, Ev.x)
\* a number at the front of a text that is not part of a document; digits with two dots are no number
NumOf(t) == LET r == NumberAt(t, 1, NoName)
                exp == r.ok /\ \E k \in 1..r.p - 1 : t[k] \in {101, 69}
                hex == r.ok /\ \E k \in 1..r.p - 1 : t[k] \in {120, 88}
            IN IF ~r.ok THEN Bad ELSE IF At(t, r.p) = 46 /\ ~hex THEN (IF exp THEN [r EXCEPT !.lx = TRUE] ELSE Bad) ELSE r
Whole(t) == LET r == NumOf(t) IN IF r.ok /\ r.p = Len(t) + 1 THEN r ELSE Bad
Text(t, n) == [Node("str", n) EXCEPT !.s = t]
\* a file gets what the string gets, behind what it already holds, and a failed write never passes for a written document
Files == Ev.disk /\ Ev.own /\ Ev.lost = 0
Ok == \/ Ev.op = "seg"
      \/ /\ Ev.op = "num"
         /\ LET r == TLCEval(IF Ev.strict THEN Whole(Ev.t) ELSE NumOf(Ev.t)) IN
            IF r.ok THEN r.lx \/ (Ev.num /\ Ev.ret = r.p - 1 /\ Same(r.x, Ev.x)) ELSE ~Ev.num /\ (Ev.strict => Ev.ret = 0)
      \* a text node becomes the number it holds, a text that is none stays; its name stays; a number or a container is refused
      \/ /\ Ev.op = "conv" /\ Ev.links /\ Ev.err = 0 /\ Ev.other = 3
         /\ LET r == TLCEval(IF Ev.strict THEN Whole(Ev.t) ELSE NumOf(Ev.t)) IN
            IF r.ok THEN r.lx \/ (Ev.again = 2 /\ Same([r.x EXCEPT !.n = Ev.n], Ev.x)) ELSE Ev.again = 0 /\ Same(Text(Ev.t, Ev.n), Ev.x)
      \/ /\ Ev.op = "parse"
         /\ LET r == TLCEval(Parse(Ev.t)) IN (Ev.err = 0 /\ Parsed(r)) \/ (Ev.err \notin {0, OutOfMemory} /\ (~r.ok \/ r.lx))
         /\ Ev.live = 0
      \/ Ev.op = "oom" /\ Ev.ok /\ Parsed(TLCEval(Parse(Ev.t)))          \* whatever failed before, the text was left fit to be parsed
      \/ Ev.op = "build" /\ Ev.links
      \/ /\ Ev.op = "write" /\ Files /\ Ev.ok /\ Ev.live = 0
         /\ LET r == TLCEval(Parse(Ev.t)) IN r.ok /\ ~r.lx /\ Kept(x, r.x, FALSE) /\ Ev.err = 0 /\ Same(r.x, Ev.x) /\ Ev.links
         /\ Ev.same
      \/ Ev.op = "free" /\ Ev.live = 0
Next2 == IF Ev.op = "seg" THEN Bad ELSE IF Ev.op \in {"parse", "oom", "build"} THEN (IF "x" \in DOMAIN Ev THEN Ev.x ELSE Bad) ELSE x
TNext == More /\ LET ok == TLCEval(Ok) IN IF ok THEN Advance /\ x' = Next2 ELSE Reject /\ UNCHANGED x
TSpec == TInit /\ [][TNext]_<<l, x>>
=============================================================================
