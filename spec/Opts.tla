-------------------------------- MODULE Opts --------------------------------
(* Command-line options: the argument list is consumed left to right by a state machine over the registered options.
   An option is [n |-> short name, ln |-> long name, d |-> description, t |-> type]; an absent name is None.
   Names, arguments and values are byte sequences. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
STR == 0  FLT == 1  FLAG == 2  INT == 3
E_VALUE == 0  E_OPTION == 1  E_EXTRA == 2  E_MISSING == 3
None == <<0>>                    \* never a name: no argument contains a zero byte
Dash == 45
White == {32, 9, 10, 11, 12, 13}
NameChar(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = Dash \/ c = 95
From(s, k) == SubSeq(s, k, Len(s))
RECURSIVE Trim(_), NameLen(_, _)
Trim(s) == IF s # <<>> /\ s[1] \in White THEN Trim(Tail(s)) ELSE s
NameLen(s, k) == IF k <= Len(s) /\ NameChar(s[k]) THEN 1 + NameLen(s, k + 1) ELSE 0
\* the first option registered under a name; 0: none
Find(os, name, long) == LET h == {k \in 1..Len(os) : (IF long THEN os[k].ln ELSE os[k].n) = name}
                        IN IF h = {} THEN 0 ELSE CHOOSE k \in h : \A j \in h : k <= j
\* val: given values by option (<<>>: not met; a flag is met with <<>> inside)
Fresh(os, pos) == [val |-> [k \in 1..Len(os) |-> <<>>], pos |-> pos, err |-> <<>>, open |-> {}]
Drop(pos, k) == LET h == {j \in 1..Len(pos) : pos[j] = k}
                IN IF h = {} THEN pos ELSE LET j == CHOOSE j \in h : \A i \in h : i <= j IN SubSeq(pos, 1, j - 1) \o From(pos, j + 1)
Give(st, k, v) == [st EXCEPT !.val[k] = <<v>>, !.pos = Drop(st.pos, k)]
Err(st, ty, v) == [st EXCEPT !.err = Append(@, [t |-> ty, v |-> v])]
\* one argument; next = the argument after it, <<>> in a sequence of none.  Result: state, arguments consumed
Arg(os, st, arg, next) ==
    LET p == Trim(arg) IN
    IF arg = <<>> THEN [s |-> st, used |-> 1]
    ELSE IF p = <<>> \/ p[1] # Dash THEN
        [s |-> IF st.pos # <<>> THEN [st EXCEPT !.val[st.pos[1]] = <<p>>, !.pos = Drop(Tail(st.pos), st.pos[1])] ELSE Err(st, E_VALUE, p), used |-> 1]
    ELSE LET long == Len(p) >= 2 /\ p[2] = Dash
             b == IF long THEN From(p, 3) ELSE Tail(p)
             n == NameLen(b, 1)
             name == SubSeq(b, 1, n) rest == From(b, n + 1)
             k == Find(os, name, long)
         IN IF k = 0 THEN [s |-> Err(st, E_OPTION, b), used |-> 1]
            ELSE LET flag == os[k].t = FLAG IN
            IF rest # <<>> /\ rest[1] = 61 THEN [s |-> IF flag THEN [Err(st, E_EXTRA, name) EXCEPT !.open = @ \union {k}] ELSE Give(st, k, Tail(rest)), used |-> 1]
            ELSE IF rest # <<>> THEN [s |-> Give(st, k, rest), used |-> 1]
            ELSE LET value == next # <<>> /\ (next[1] = <<>> \/ next[1][1] # Dash) IN
            IF flag THEN (IF value /\ st.pos = <<>> THEN [s |-> [Err(st, E_EXTRA, name) EXCEPT !.open = @ \union {k}], used |-> 1]
                          ELSE [s |-> [st EXCEPT !.val[k] = <<<<>>>>], used |-> 1])
            ELSE IF value THEN [s |-> Give(st, k, next[1]), used |-> 2]
            ELSE [s |-> Err(st, E_MISSING, name), used |-> 1]
RECURSIVE Run(_, _, _)
Run(os, st, args) == IF args = <<>> THEN st
                     ELSE LET r == TLCEval(Arg(os, st, Head(args), IF Len(args) > 1 THEN <<args[2]>> ELSE <<>>)) IN Run(os, r.s, From(args, r.used + 1))
------------------------------------------------------------------------------
(* numbers *)
RECURSIVE Digits(_, _, _)
Digits(s, k, acc) == IF k > Len(s) THEN acc ELSE Digits(s, k + 1, acc * 10 + s[k] - 48)
Plain(s) == s # <<>> /\ \A k \in 1..Len(s) : s[k] \in 48..57
Neg(s) == s # <<>> /\ s[1] = Dash
Abs(s) == IF Neg(s) THEN Tail(s) ELSE s
IsInt(s) == Plain(Abs(s)) /\ Len(s) <= 9
IntOf(s) == (IF Neg(s) THEN -1 ELSE 1) * Digits(Abs(s), 1, 0)
\* a decimal with at most three places, in thousandths
Dot(s) == IF \E k \in 1..Len(s) : s[k] = 46 THEN CHOOSE k \in 1..Len(s) : s[k] = 46 ELSE Len(s) + 1
IsDec(s) == LET a == Abs(s) d == Dot(a) IN Plain(SubSeq(a, 1, d - 1)) /\ d <= 6 /\ (d <= Len(a) => Plain(From(a, d + 1)) /\ Len(a) - d <= 3)
DecOf(s) == LET a == Abs(s) d == Dot(a) w == Digits(SubSeq(a, 1, d - 1), 1, 0) f == IF d < Len(a) THEN From(a, d + 1) ELSE <<>>
            IN (IF Neg(s) THEN -1 ELSE 1) * (w * 1000 + Digits(SubSeq(f \o <<48, 48, 48>>, 1, 3), 1, 0))
------------------------------------------------------------------------------
(* the printed screens *)
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))
ErrText(e) == <<69, 82, 82, 79, 82, 58, 32>> \o        \* "ERROR: "
    (CASE e.t = E_OPTION -> <<73, 110, 118, 97, 108, 105, 100, 32, 111, 112, 116, 105, 111, 110>>
       [] e.t = E_VALUE -> <<73, 110, 118, 97, 108, 105, 100, 32, 118, 97, 108, 117, 101>>
       [] e.t = E_MISSING -> <<77, 105, 115, 115, 105, 110, 103, 32, 118, 97, 108, 117, 101, 32, 102, 111, 114, 32, 111, 112, 116, 105, 111, 110>>
       [] OTHER -> <<69, 120, 116, 114, 97, 32, 118, 97, 108, 117, 101, 32, 102, 111, 114, 32, 111, 112, 116, 105, 111, 110>>) \o <<32, 34>> \o e.v \o <<34, 10>>
ErrorScreen(es) == Join([k \in 1..Len(es) |-> ErrText(es[k])])
Usage == <<85, 83, 65, 71, 69, 58, 32>>
OptionsLine == <<10, 79, 80, 84, 73, 79, 78, 83, 58, 10>>
OptLine(o) == <<9>> \o (IF o.n # None THEN <<Dash>> \o o.n ELSE <<>>) \o (IF o.n # None /\ o.ln # None THEN <<44, 32>> ELSE <<>>)
              \o (IF o.ln # None THEN <<Dash, Dash>> \o o.ln ELSE <<>>) \o <<58, 32>> \o o.d \o <<10>>
\* pos: the positional options in the order shown
HelpScreen(app, os, pos) == Usage \o app \o Join([k \in 1..Len(pos) |-> <<32, 91>> \o os[pos[k]].ln \o <<93>>]) \o OptionsLine \o Join([k \in 1..Len(os) |-> OptLine(os[k])])
=============================================================================
