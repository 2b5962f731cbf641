------------------------------- MODULE MCTar -------------------------------
(* Laws of the format (round trip, every truncation and every single damaged header byte    *)
(* is noticed, hostile names stay inside) and archives for the real code.                   *)
EXTENDS Tar, TLC, Json
CONSTANTS MaxFiles
VARIABLES es, mut
Names == {<<97>>, <<97, 47, 98>>, <<46, 46, 47, 120>>, <<97, 47, 46, 46, 47, 46, 46, 47, 120>>, <<47, 97>>, <<46, 46, 120>>, <<97, 47>>, [i \in 1..99 |-> 113]}
Datas == {<<>>, <<7>>, [i \in 1..512 |-> 9], [i \in 1..513 |-> i % 256]}
Muts == {<<"none">>, <<"cut", 0>>, <<"cut", 100>>, <<"cut", 512>>, <<"cut", 513>>, <<"cut", 1024>>, <<"cut", 1100>>, <<"noend">>, <<"half">>} \cup {<<"flip", k>> : k \in {0, 99, 100, 124, 130, 148, 150, 155, 156, 511, 512, 1024}}
Arch == LET a == Encode(es) IN
        (CASE mut[1] = "none" -> a
          [] mut[1] = "cut" -> SubSeq(a, 1, IF mut[2] < Len(a) THEN mut[2] ELSE Len(a))
          [] mut[1] = "noend" -> SubSeq(a, 1, Len(a) - 2 * B)
          [] mut[1] = "half" -> SubSeq(a, 1, Len(a) - B)
          [] mut[1] = "flip" -> IF mut[2] < Len(a) THEN [a EXCEPT ![mut[2] + 1] = (@ + 1) % 256] ELSE a)
Init == es = <<>> /\ mut = <<"none">>
Next == \/ Len(es) < MaxFiles /\ mut = <<"none">> /\ (\E n \in Names, d \in Datas : (Len(d) > 1 => n = <<97>> \/ n = <<97, 47, 98>>) /\ es' = Append(es, [name |-> n, data |-> d])) /\ UNCHANGED mut
        \/ mut = <<"none">> /\ mut' \in Muts \ {mut} /\ UNCHANGED es
W == Walk(Arch, 0)
RoundTrip == mut[1] \in {"none", "half"} => /\ W.how = "end" /\ Len(W.recs) = Len(es)
                           /\ \A i \in 1..Len(es) : W.recs[i].path = es[i].name /\ Data(Arch, W.recs[i]) = es[i].data
CutSeen == (mut[1] = "noend" \/ (mut[1] = "cut" /\ mut[2] < Len(Encode(es)) - B)) => W.how = "cut"
FlipSeen == mut[1] = "flip" /\ mut[2] < B /\ mut[2] # 155 /\ es # <<>> => W.how # "end"
Contained == LET t0 == {[p |-> <<<<120>>>>, t |-> "f", c |-> <<1>>]} dest == <<<<111>>>> r == PutAll(t0, dest, Arch, W.recs) IN
             {n \in r.t : n.p[1] # <<111>>} = t0
Emit == PrintT(<<"VP-HIST", ToJson([a |-> Arch'])>>)
=============================================================================
