-------------------------------- MODULE MCStr --------------------------------
EXTENDS Str, Json
CONSTANTS MaxOps
VARIABLE hist
Init == \E c \in 0..2 : st = [i \in {0} |-> [t |-> <<>>, cap |-> c]] /\ hist = <<<<"reserve", 0, c>>>>
T == st[0].t
C(n) == IF n <= st[0].cap THEN st[0].cap ELSE n
Log(op) == hist' = Append(hist, op)
Next == \/ AppendT(0, <<97>>, C(Len(T) + 1)) /\ Log(<<"appendc", 0, "x61">>)
        \/ AppendT(0, <<32, 98, 32>>, C(Len(T) + 3)) /\ Log(<<"appendc", 0, "x206220">>)
        \/ AppendT(0, T, C(2 * Len(T))) /\ Log(<<"appendself", 0>>)
        \/ SetT(0, <<32, 99>>, C(2)) /\ Log(<<"set", 0, "x2063">>)
        \/ SetT(0, <<>>, C(0)) /\ Log(<<"set", 0, "x">>)
        \/ SetT(0, <<97, 97, 32, 97>>, C(4)) /\ Log(<<"set", 0, "x61612061">>)
        \/ ClearT(0, C(0)) /\ Log(<<"clear", 0>>)
        \/ TrimT(0, Spaces, C(0)) /\ Log(<<"trimspace", 0>>)
        \/ TrimT(0, <<97>>, C(0)) /\ Log(<<"trim", 0, "x61">>)
        \/ SpaceFor(0, 2, C(Len(T) + 2)) /\ Log(<<"space", 0, 2>>)
        \/ AppendT(0, Enc(8364), C(Len(T) + 3)) /\ Log(<<"rune", 0, 8364>>)
Bound == Len(hist) <= MaxOps
Emit == Len(hist') = MaxOps => PrintT(<<"VP-HIST", ToJson(hist')>>)
TrimIdem == Trim(Trim(T, Spaces), Spaces) = Trim(T, Spaces) /\ Len(Trim(T, Spaces)) <= Len(T)
=============================================================================
