------------------------------- MODULE Clock -------------------------------
(* Clocks. An instant is [d, ms]: whole days and the milliseconds of the day. A zone is a row of offsets east of Greenwich in seconds with the two days of the year   *)
(* on which daylight saving time begins and ends (POSIX: month, week, weekday and time of day).                                                                   *)
EXTENDS Integers, Sequences
DayMs == 86400000
At(d, ms) == [d |-> d + (ms \div DayMs), ms |-> ms % DayMs]
Less(a, b) == a.d < b.d \/ (a.d = b.d /\ a.ms < b.ms)
Plus(a, b) == At(a.d + b.d, a.ms + b.ms)
Minus(a, b) == At(a.d - b.d, a.ms - b.ms)
Later(t, s) == At(t.d, t.ms + (s * 1000))
\* 1601-01-01 to 1970-01-01
EpochDays == 134774
ToWin(t) == [t EXCEPT !.d = @ + EpochDays]
ToUnix(t) == [t EXCEPT !.d = @ - EpochDays]
\* the calendar: days since 1970-01-01
Days(y, m, d) == LET yy == IF m <= 2 THEN y - 1 ELSE y
                     era == yy \div 400
                     yoe == yy % 400
                     mp == IF m > 2 THEN m - 3 ELSE m + 9
                     doy == (((153 * mp) + 2) \div 5) + d - 1
                 IN (era * 146097) + (yoe * 365) + (yoe \div 4) - (yoe \div 100) + doy - 719468
YearOf(d) == CHOOSE y \in (1970 + (d \div 366))..(1970 + (d \div 365)) : Days(y, 1, 1) <= d /\ d < Days(y + 1, 1, 1)
MonthEnd(y, m) == IF m = 12 THEN Days(y + 1, 1, 1) ELSE Days(y, m + 1, 1)
Weekday(d) == (d + 4) % 7
\* the w-th weekday wd of a month; the fifth is the last
RuleDay(y, r) == LET first == Days(y, r.m, 1)
                     d == first + ((r.wd - Weekday(first)) % 7) + (7 * (r.w - 1))
                 IN IF d >= MonthEnd(y, r.m) THEN d - 7 ELSE d
\* the instants at which the clocks change: the rules name them in the local time that is in force until then
Begins(z, y) == Later([d |-> RuleDay(y, z.from), ms |-> 0], z.from.t - z.std)
Ends(z, y) == Later([d |-> RuleDay(y, z.to), ms |-> 0], z.to.t - z.dst)
Summer(z, t) == LET y == YearOf(t.d)
                    b == Begins(z, y)
                    e == Ends(z, y)
                IN IF Less(b, e) THEN ~Less(t, b) /\ Less(t, e) ELSE ~(~Less(t, e) /\ Less(t, b))
Offset(z, t) == IF z.has /\ Summer(z, t) THEN z.dst ELSE z.std
Local(z, t) == Later(t, Offset(z, t))
=============================================================================
