---------------------------- MODULE TraceRandom ----------------------------
EXTENDS Random, TraceLib
VARIABLES memo
TInit == l = 1 /\ memo = <<>>
Step == \/ Ev.op = "seg" /\ memo' = <<>>
        \/ /\ Ev.op = "gen"                               \* one call from an explicit state
           /\ LET k == <<Ev.kind, Ev.args, Ev.s0>> r == <<Ev.v, Ev.s1>> IN Agrees(memo, k, r) /\ memo' = Learn(memo, k, r)
           /\ Ev.s1 # Ev.s0
           /\ Ev.kind \in {"i64", "isize"} => InRange(Ev.args[1], Ev.args[2], Ev.v)
           /\ Ev.kind = "f64" => InRangeF(Ev.args[1], Ev.args[2], Ev.v)
        \/ /\ Ev.op = "many" /\ UNCHANGED memo            \* many calls from one state on
           /\ Ev.kind \in {"i64", "isize"} => \A k \in 1..Len(Ev.v) : InRange(Ev.args[1], Ev.args[2], Ev.v[k])
           /\ Ev.kind = "f64" => \A k \in 1..Len(Ev.v) : InRangeF(Ev.args[1], Ev.args[2], Ev.v[k])
           /\ Ev.width > 0 => Distinct(Ev.v) = Ev.width   \* every value of a small range comes up
           /\ Ev.width = 0 => Distinct(Ev.v) + 3 >= Len(Ev.v)
        \/ Ev.op = "unique" /\ Ev.dups = 0 /\ UNCHANGED memo
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED memo
TSpec == TInit /\ [][TNext]_<<l, memo>>
=============================================================================
