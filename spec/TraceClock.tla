----------------------------- MODULE TraceClock -----------------------------
EXTENDS Clock, TraceLib
VARIABLES now, mono, zone
\* now: UTC since 1970; mono: the clock that only runs forward
Zero == At(0, 0)
Fix0 == [std |-> 0, dst |-> 0, has |-> FALSE, from |-> [m |-> 1, w |-> 1, wd |-> 0, t |-> 0], to |-> [m |-> 1, w |-> 1, wd |-> 0, t |-> 0]]
SInit == l = 1 /\ now = Zero /\ mono = Zero /\ zone = Fix0
T == At(Ev.d, Ev.ms)
Stay == <<now, mono, zone>>
Slept == At(Ev.d, Ev.ms)
Do == CASE Ev.op = "seg" -> <<TRUE, Zero, Zero, Fix0>>
        [] Ev.op = "now" -> <<TRUE, T, mono, zone>>
        [] Ev.op = "mono" -> <<TRUE, now, T, zone>>
        [] Ev.op = "zone" -> <<TRUE, now, mono, [std |-> Ev.std, dst |-> Ev.dst, has |-> Ev.has, from |-> Ev.from, to |-> Ev.to]>>
        [] Ev.op = "utc" -> <<T = ToWin(now) /\ Ev.ok, now, mono, zone>>
        [] Ev.op = "tz" -> <<T = ToWin(Local(zone, now)) /\ Ev.ok, now, mono, zone>>
        [] Ev.op = "rel" -> <<T = Minus(mono, At(Ev.sd, Ev.sms)) /\ Ev.ok, now, mono, zone>>
        [] Ev.op = "win" -> <<At(Ev.rd, Ev.rms) = ToWin(T) /\ Ev.ok, now, mono, zone>>
        \* both clocks went on by what was asked for (less than a millisecond more is no matter)
        [] Ev.op = "sleep" -> <<Slept = At(Ev.wd, Ev.wms) /\ Ev.ok, Plus(now, Slept), Plus(mono, Slept), zone>>
        [] OTHER -> <<FALSE, now, mono, zone>>
SNext == More /\ LET o == TLCEval(Do) IN IF o[1] THEN now' = o[2] /\ mono' = o[3] /\ zone' = o[4] /\ Advance ELSE Reject /\ UNCHANGED <<now, mono, zone>>
TSpec == SInit /\ [][SNext]_<<l, now, mono, zone>>
=============================================================================
