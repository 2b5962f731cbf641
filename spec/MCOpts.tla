------------------------------- MODULE MCOpts -------------------------------
(* Every argument list up to a length over a token alphabet, against every registration in a set: consumed completely, an option is met only
   if it was given, the value of an option is one that was given for it, positional options fill in order, errors exactly when something was wrong. *)
EXTENDS Opts, Json
CONSTANT MaxArgs
VARIABLES reg, args
B(c) == <<c>>
O(n, ln, t) == [n |-> n, ln |-> ln, d |-> <<100>>, t |-> t]
F == O(<<102>>, <<102, 108>>, FLAG)      \* f  fl
S == O(<<115>>, <<115, 116>>, STR)       \* s  st
I == O(<<105>>, <<105, 110>>, INT)       \* i  in
G == O(<<103>>, None, STR)               \* g, short only
L == O(None, <<102>>, FLT)               \* long name equal to F's short name
Regs == {[os |-> <<F, S>>, pos |-> <<>>], [os |-> <<F, S, I>>, pos |-> <<2>>], [os |-> <<S, I, F, G>>, pos |-> <<2, 1>>], [os |-> <<F, L, S>>, pos |-> <<3, 2>>]}
Tok == {<<45, 102>>, <<45, 45, 102, 108>>, <<45, 102, 61, 49>>, <<45, 115>>, <<45, 45, 115, 116, 61, 55>>, <<45, 45, 115>>, <<45, 45, 102>>, <<45, 105, 61, 52>>, <<45, 103>>, <<55>>, <<45, 53>>, <<45>>, <<>>, <<32, 45, 102>>}
Init == reg \in Regs /\ args = <<>>
Next == Len(args) < MaxArgs /\ \E t \in Tok : args' = Append(args, t) /\ UNCHANGED reg
Spec == Init /\ [][Next]_<<reg, args>>
Emit == PrintT(<<"VP-HIST", ToJson(<<reg'.os, reg'.pos, args'>>)>>)
Range(s) == {s[k] : k \in 1..Len(s)}
Suffixes == {From(a, k) : a \in Range(args), k \in 1..8}
Ok == LET st == Run(reg.os, Fresh(reg.os, reg.pos), args)
          plain == {a \in Range(args) : a = <<>> \/ Trim(a) = <<>> \/ Trim(a)[1] # Dash}
      IN /\ \A k \in 1..Len(reg.os) : st.val[k] # <<>> => reg.os[k].t = FLAG \/ st.val[k][1] \in Suffixes \union plain
         /\ (\A a \in Range(args) : a \in plain /\ a # <<>>) =>        \* only positional arguments
               /\ \A j \in 1..Len(reg.pos) : (st.val[reg.pos[j]] # <<>>) <=> j <= Len(args)
               /\ Len(st.err) = (IF Len(args) > Len(reg.pos) THEN Len(args) - Len(reg.pos) ELSE 0)
         /\ \A j \in 1..Len(st.pos) : st.pos[j] \in Range(reg.pos)
         /\ \A j \in 1..Len(reg.pos) : reg.pos[j] \in Range(st.pos) => st.val[reg.pos[j]] = <<>> \/ reg.os[reg.pos[j]].t = FLAG
         /\ Len(st.err) <= Len(args) /\ (st.err = <<>> => st.open = {})
         /\ args = <<>> => st = Fresh(reg.os, reg.pos)
\* one more argument never takes back what was already decided, except that it may serve as the value of a last dangling option
Mono == LET a == Run(reg.os, Fresh(reg.os, reg.pos), args) IN
        \A t \in Tok : LET b == Run(reg.os, Fresh(reg.os, reg.pos), Append(args, t)) IN
            /\ \A k \in 1..Len(reg.os) : a.val[k] # <<>> => b.val[k] # <<>> \/ reg.os[k].t = FLAG
            /\ Len(b.err) >= Len(a.err) - 1
=============================================================================
