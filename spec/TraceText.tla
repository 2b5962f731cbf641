------------------------------ MODULE TraceText ------------------------------
EXTENDS Text, TraceLib
TInit == l = 1
E == Ev
B(s, n) == s \o [k \in 1..n - Len(s) |-> 170]           \* untouched rest of a buffer filled with 170
Step == \/ E.op = "seg"
        \/ E.op = "char" /\ E.lower = Lower(E.c) /\ E.upper = Upper(E.c) /\ E.space = IsSpace(E.c) /\ E.digit = IsDigit(E.c) /\ E.hex = IsHex(E.c)
             /\ E.alpha = IsAlpha(E.c) /\ E.alnum = (IsAlpha(E.c) \/ IsDigit(E.c)) /\ E.h2i = HexVal(E.c) /\ E.c2h = (IF IsHex(E.c) THEN HexVal(E.c) ELSE 0)
             /\ (IsDigit(E.c) \/ Between(E.c, 97, 122) => E.d2i = IF IsDigit(E.c) THEN E.c - 48 ELSE E.c - 87) /\ (E.c # 0 => E.ctl = IsControl(E.c))
        \/ E.op = "one" /\ E.len = Len(E.s) /\ E.lower = Map(Lower, E.s) /\ E.upper = Map(Upper, E.s) /\ E.rev = Rev(E.s)
             /\ E.trim0 = TrimPos(E.s, FALSE) /\ E.trim1 = TrimPos(E.s, TRUE)
        \/ E.op = "lines" /\ E.ls = Lines(E.s, E.strip)
        \/ E.op = "withc" /\ E.first = FirstPos(E.s, E.c) /\ E.last = LastPos(E.s, E.c) /\ E.skip = SkipTo(E.s, E.c) /\ E.lit = SkipLiteral(E.s, E.c) /\ E.ctl = ControlSkip(E.s, E.c)
        \/ E.op = "withn" /\ E.nlen = TMin(E.n, Len(E.s)) /\ E.ncpy = NCpy(E.s, E.n) /\ E.lcpy = LCpy(E.s, E.n)
             /\ E.lret = TMin(Len(E.s), IF E.n = 0 THEN 0 ELSE E.n - 1) /\ E.dup = Prefix(E.s, E.n)
        \/ E.op = "two" /\ E.cmp = Cmp(E.s, E.t) /\ E.pre = HasPrefix(E.s, E.t) /\ E.suf = HasSuffix(E.s, E.t) /\ E.any = SkipAny(E.s, E.t)
             /\ E.cpy = B(Append(E.t, 0), E.n) /\ E.cat = B(E.s \o E.t \o <<0>>, E.n) /\ E.con = B(E.s \o E.t \o <<0>>, E.n)
        \/ E.op = "ncmp" /\ E.ret = NCmp(E.s, E.t, E.n)
        \/ E.op = "tok" /\ E.out = Append(Tok(E.s, E.d), 0) /\ E.nxt = TokNext(E.s, E.d)
        \/ E.op = "ntok" /\ E.out = NTok(E.s, E.n, E.d) /\ E.nxt = NTokNext(E.s, E.n, E.d)
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject
TSpec == TInit /\ [][TNext]_l
=============================================================================
