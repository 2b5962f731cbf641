-------------------------------- MODULE MCUri --------------------------------
(* Every sequence of tokens up to a length: a text is its origin and its fields put together again, and escaping the bytes of a key or a value
   changes nothing.  Every short list of fields, in every way to escape it, denotes itself. *)
EXTENDS UriText, Json
CONSTANT MaxToks
VARIABLES toks
Tok == {<<97>>, <<49>>, <<63>>, <<38>>, <<61>>, <<37>>, <<37, 52, 49>>, <<43>>, <<37, 50, 54>>, <<45>>, <<32>>, <<37, 67>>, <<195>>}
Init == toks = <<>>
Next == Len(toks) < MaxToks /\ \E t \in Tok : toks' = Append(toks, t)
Spec == Init /\ [][Next]_toks
RECURSIVE Join(_), Glue(_, _)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))
Emit == Len(toks') = MaxToks => PrintT(<<"VP-HIST", ToJson(<<Join(toks')>>)>>)
Hex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Free(c) == IsAlnum(c) \/ c \in {45, 95, 46, 126}
RECURSIVE Enc(_, _)
Enc(s, all) == IF s = <<>> THEN <<>> ELSE (IF s[1] = 32 /\ ~all THEN <<43>> ELSE IF Free(s[1]) /\ ~all THEN <<s[1]>> ELSE <<37, Hex(s[1] \div 16), Hex(s[1] % 16)>>) \o Enc(Tail(s), all)
One(f, all) == Enc(f.n, all) \o (IF f.v = NoText THEN <<>> ELSE <<61>> \o Enc(f.v, all))
Glue(fs, all) == IF fs = <<>> THEN <<>> ELSE One(fs[1], all) \o (IF Len(fs) = 1 THEN <<>> ELSE <<38>>) \o Glue(Tail(fs), all)
Text(r, all) == (IF r.origin = NoText THEN <<>> ELSE r.origin) \o <<63>> \o Glue(r.f, all)
Ok == LET t == Join(toks) r == ParseUri(t) IN
      (~r.lx /\ (r.f = <<>> \/ r.f[Len(r.f)].v # NoText \/ r.f[Len(r.f)].n # <<>>)) => ParseUri(Text(r, FALSE)) = r /\ ParseUri(Text(r, TRUE)) = r /\ ParseUri(<<32>> \o t \o <<10>>) = r
=============================================================================
