------------------------------ MODULE MCClock ------------------------------
EXTENDS Clock, TLC, Json
CONSTANTS Years, Longest
VARIABLES zn, t, changes, want, left, slept, pc, hist
vars == <<zn, t, changes, want, left, slept, pc, hist>>
R(m, w, wd, s) == [m |-> m, w |-> w, wd |-> wd, t |-> s]
Zone(std, dst, f, e) == [std |-> std, dst |-> dst, has |-> TRUE, from |-> f, to |-> e]
Fixed(std) == [std |-> std, dst |-> std, has |-> FALSE, from |-> R(1, 1, 0, 0), to |-> R(1, 1, 0, 0)]
H == 3600
Zones == <<Fixed(0), Fixed((5 * H) + 2700), Fixed(0 - (9 * H) - 1800), Fixed(14 * H),
           Zone(0 - (5 * H), 0 - (4 * H), R(3, 2, 0, 2 * H), R(11, 1, 0, 2 * H)),            \* New York
           Zone(H, 2 * H, R(3, 5, 0, 2 * H), R(10, 5, 0, 3 * H)),                            \* Paris
           Zone(10 * H, 11 * H, R(10, 1, 0, 2 * H), R(4, 1, 0, 3 * H)),                      \* Sydney
           Zone((10 * H) + 1800, 11 * H, R(10, 1, 0, 2 * H), R(4, 1, 0, 2 * H)),             \* Lord Howe: half an hour
           Zone(H, 0, R(10, 5, 0, 2 * H), R(3, 5, 0, H)),                                    \* Dublin: the special time is the one of the winter
           Zone(0, 2 * H, R(3, 5, 0, H), R(10, 5, 0, 3 * H)),                                \* Troll: two hours
           Zone(0 - (3 * H) - 1800, 0 - (2 * H) - 1800, R(3, 2, 0, 60), R(11, 1, 0, 60))>>   \* St John's, 00:01
\* --- the walk through the years, hour by hour: the offset changes twice a year, on the days the rules name, by the difference of the two offsets
InitZ == /\ zn \in 1..Len(Zones) /\ \E y \in Years : t = [d |-> Days(y, 1, 1), ms |-> 0]
         /\ changes = 0 /\ want = 0 /\ left = 0 /\ slept = 0 /\ pc = "walk" /\ hist = <<>>
Z == Zones[zn]
NextZ == LET u == Later(t, H)
             c == Offset(Z, u) # Offset(Z, t)
         IN /\ YearOf(u.d) = YearOf(t.d) /\ t' = u /\ changes' = (IF c THEN changes + 1 ELSE changes) /\ UNCHANGED <<zn, want, left, slept, pc, hist>>
SpecZ == InitZ /\ [][NextZ]_vars
Twice == changes <= (IF Z.has THEN 2 ELSE 0)
OneOfTwo == Offset(Z, t) \in {Z.std, Z.dst}
InvZ == Twice /\ OneOfTwo /\ ToUnix(ToWin(t)) = t /\ Minus(Local(Z, t), t) = At(0, Offset(Z, t) * 1000)
AllSeen == (YearOf(Later(t, H).d) # YearOf(t.d)) => changes = (IF Z.has THEN 2 ELSE 0)
\* emitted: every change with the seconds around it, and one hour in a few
EmitZ == /\ (Offset(Z, t') # Offset(Z, t)) => PrintT(<<"VP-HIST", ToJson(<<Z, t'>>)>>)
         /\ (t'.d % 17 = zn /\ t'.ms \div 3600000 = (t'.d \div 17) % 24) => PrintT(<<"VP-HIST", ToJson(<<Z, t'>>)>>)
\* --- sleeping: the system's sleep may be cut short by a signal; what is left is slept then
InitS == want \in 0..Longest /\ left = want /\ slept = 0 /\ pc = "call" /\ hist = <<>> /\ zn = 1 /\ t = At(0, 0) /\ changes = 0
NextS == /\ pc = "call"
         /\ \/ /\ slept' = slept + left /\ left' = 0 /\ pc' = "done" /\ UNCHANGED hist
            \/ \E k \in 0..left - 1 : Len(hist) < 3 /\ slept' = slept + k /\ left' = left - k /\ hist' = Append(hist, k) /\ UNCHANGED pc
         /\ UNCHANGED <<zn, t, changes, want>>
SpecS == InitS /\ [][NextS]_vars
InvS == slept + left = want /\ (pc = "done" => slept = want)
EmitS == pc' = "done" => PrintT(<<"VP-HIST", ToJson([want |-> want, cuts |-> hist'])>>)
=============================================================================
