-------------------------------- MODULE MCJson --------------------------------
(* Every sequence of tokens up to a length: a comment is as good as a space, and no text that opens a brace is a document before the brace that
   closes it.  (MCJsonDoc covers the other direction: what is printed in any layout denotes what was printed.) *)
EXTENDS JsonText, Json
CONSTANT MaxToks
VARIABLES toks
Tok == {<<123>>, <<125>>, <<91>>, <<93>>, <<44>>, <<58>>, <<97>>, <<34, 98, 34>>, <<49>>, <<46, 53>>, <<10>>, <<116, 114, 117, 101>>, <<124>>, <<61>>, <<96, 96>>}
Init == toks = <<>>
Next == Len(toks) < MaxToks /\ \E t \in Tok : toks' = Append(toks, t)
Spec == Init /\ [][Next]_toks
RECURSIVE Join(_, _)
Join(s, w) == IF s = <<>> THEN <<>> ELSE Head(s) \o w \o Join(Tail(s), w)
Emit == Len(toks') = MaxToks => PrintT(<<"VP-HIST", ToJson(<<Join(toks', <<>>)>>)>>)
Comment == <<47, 42, 42, 42, 47>>
Trail(t) == {k \in 1..Len(t) : \A j \in k..Len(t) : IsSpace(t[j])}
Ok == LET t == Join(toks, <<>>) sp == Parse(Join(toks, <<32>>)) cm == Parse(Join(toks, Comment)) p == Parse(t) q == Ws(t, 1, FALSE)
      IN /\ sp.ok = cm.ok /\ (sp.ok => sp.x = cm.x)
         /\ (p.ok /\ At(t, q) \in {123, 91}) => \A k \in q..Len(t) - 1 : Parse(SubSeq(t, 1, k)).ok => k + 1 \in Trail(t)
         /\ (p.ok /\ ~p.lx) => Same(p.x, p.x) /\ Kept(p.x, p.x, FALSE)
=============================================================================
