---------------------------- MODULE AtomicsImpl ----------------------------
(* The algorithms behind the atomics, one memory access at a time, watched by Atomics: fetch-and/or and    *)
(* the fetch operations without a machine instruction of their own are compare-and-swap loops; the spin    *)
(* lock tries a compare-and-swap, then up to `time_out` more.                                              *)
EXTENDS Atomics, Json, IOUtils
CONSTANTS N, Len3, Kind, Broken, Emit
VARIABLES prog, pc, loc, cell, bad, inside, most
ivars == <<prog, pc, loc, cell, bad, inside, most>>
A(f, a, b) == [f |-> f, a |-> a, b |-> b]
S(x) == <<x, 0>>
F == 65535
OpsOf == CASE Kind = "ops"  -> {A("+", S(1), S(0)), A("&", <<1, F>>, S(0)), A("|", S(2), S(0)), A("c", S(1), S(5)), A("x", S(1), S(0)), A("s", S(0), S(0)), A("l", S(0), S(0))}
           [] Kind = "opsq" -> {A("+", S(1), S(0)), A("&", <<1, F>>, S(0)), A("c", S(1), S(5)), A("x", S(1), S(0)), A("l", S(0), S(0))}
           [] Kind = "lock" -> {A("k", S(0), S(0)), A("k", S(1), S(0)), A("t", S(0), S(0))}     \* a lock call with that many retries, a try
Progs == [1..N -> [1..Len3 -> OpsOf]]
Init == /\ prog \in Progs /\ pc = [t \in 1..N |-> <<1, "idle">>] /\ loc = [t \in 1..N |-> <<>>] /\ cell = IF Kind # "lock" THEN S(1) ELSE S(0)
        /\ bad = FALSE /\ inside = {} /\ most = 0 /\ Fresh(cell)
        /\ (Emit => PrintT(<<"VP-HIST", ToJson(<<prog>>)>>))
Vis(X) == IF ENABLED X THEN X /\ bad' = bad ELSE bad' = TRUE /\ UNCHANGED avars
Op(t) == prog[t][pc[t][1]]
Busy(t) == pc[t][1] <= Len3
At(t, w) == Busy(t) /\ pc[t][2] = w
Go(t, w) == pc' = [pc EXCEPT ![t][2] = w]
Set(t, v) == loc' = [loc EXCEPT ![t] = v]
Seen(f) == IF f = "k" THEN "t" ELSE f
\* for the lock, a call that fails after several tries still took effect as one try that found it taken
Begin(t) == At(t, "idle") /\ Vis(Call(t, Seen(Op(t).f), Op(t).a, Op(t).b))
            /\ Go(t, CASE Op(t).f \in {"&", "|"} \/ (Op(t).f = "+" /\ Kind # "lock") -> "read" [] Op(t).f \in {"k", "t"} -> "try" [] OTHER -> "act")
            /\ Set(t, IF Op(t).f = "k" THEN Op(t).a ELSE S(0)) /\ UNCHANGED <<prog, cell, inside, most>>
Read(t) == At(t, "read") /\ Set(t, cell) /\ Go(t, "swap") /\ UNCHANGED <<prog, cell, bad, inside, most, avars>>
New(t, v) == Do(Op(t).f, v, Op(t).a, Op(t).b)[1]
Swap(t) == At(t, "swap") /\ UNCHANGED <<prog, bad, inside, most, avars, loc>>
           /\ IF cell = loc[t] \/ Broken = "blindswap" THEN cell' = New(t, loc[t]) /\ Go(t, "ret") ELSE cell' = cell /\ Go(t, "read")
Act(t) == At(t, "act") /\ LET d == Do(Op(t).f, cell, Op(t).a, Op(t).b) IN cell' = d[1] /\ Set(t, d[2]) /\ Go(t, "ret") /\ UNCHANGED <<prog, bad, inside, most, avars>>
\* the lock: compare-and-swap 0 -> 1, retried while retries are left
Try(t) == At(t, "try") /\ UNCHANGED <<prog, bad, inside, most, avars>>
          /\ IF Broken = "splittry" THEN Go(t, "trywrite") /\ Set(t, <<loc[t][1], cell[1]>>) /\ UNCHANGED cell
             ELSE IF cell = S(0) THEN cell' = S(1) /\ Set(t, S(1)) /\ Go(t, "ret")
             ELSE /\ cell' = cell
                  /\ IF loc[t][1] > 0 THEN Set(t, S(loc[t][1] - 1)) /\ Go(t, "try") ELSE Set(t, S(0)) /\ Go(t, "ret")
TryWrite(t) == At(t, "trywrite") /\ UNCHANGED <<prog, bad, inside, most, avars>>
          /\ IF loc[t][2] = 0 THEN cell' = S(1) /\ Set(t, S(1)) /\ Go(t, "ret") ELSE cell' = cell /\ Set(t, S(0)) /\ Go(t, "ret")
Ret(t) == /\ At(t, "ret") /\ Vis(Return(t, loc[t])) /\ UNCHANGED <<prog, loc, cell>>
          /\ IF Op(t).f \in {"k", "t"} /\ loc[t] = S(1)
             THEN inside' = inside \cup {t} /\ pc' = [pc EXCEPT ![t][2] = "held"]
             ELSE inside' = inside /\ pc' = [pc EXCEPT ![t] = <<pc[t][1] + 1, "idle">>]
          /\ most' = IF Cardinality(inside') > most THEN Cardinality(inside') ELSE most
Leave(t) == At(t, "held") /\ Vis(Call(t, "u", S(0), S(0))) /\ inside' = inside \ {t} /\ Go(t, "clear") /\ UNCHANGED <<prog, loc, cell, most>>
Clear(t) == At(t, "clear") /\ cell' = S(0) /\ Go(t, "left") /\ UNCHANGED <<prog, loc, bad, inside, most, avars>>
Left(t) == At(t, "left") /\ Vis(Return(t, <<>>)) /\ pc' = [pc EXCEPT ![t] = <<pc[t][1] + 1, "idle">>] /\ UNCHANGED <<prog, loc, cell, inside, most>>
Next == \E t \in 1..N : Begin(t) \/ Read(t) \/ Swap(t) \/ Act(t) \/ Try(t) \/ TryWrite(t) \/ Ret(t) \/ Leave(t) \/ Clear(t) \/ Left(t)
Spec == Init /\ [][Next]_<<ivars, avars>> /\ \A t \in 1..N : WF_<<ivars, avars>>(Begin(t) \/ Read(t) \/ Swap(t) \/ Act(t) \/ Try(t) \/ TryWrite(t) \/ Ret(t) \/ Leave(t) \/ Clear(t) \/ Left(t))
NeverBad == ~bad
OneHolder == most <= 1
RealIsPossible == \E s \in Close({}, poss) : s.v = cell
AllDone == \A t \in 1..N : ~Busy(t)
RestOK == AllDone => \E s \in poss : s.v = cell
Finishes == <>AllDone
=============================================================================
