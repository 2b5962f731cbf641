------------------------------ MODULE TraceTar ------------------------------
EXTENDS Tar, TraceLib
VARIABLES tree, arch
tv == <<tree, arch>>
TInit == l = 1 /\ tree = {} /\ arch = <<>>
TreeOf == {Ev.tree[i] : i \in 1..Len(Ev.tree)}
Obs == tree' = TreeOf
FilesUnder(p) == {n \in tree : n.t = "f" /\ Len(n.p) > Len(p) /\ SubSeq(n.p, 1, Len(p)) = p}
Cont(p) == (CHOOSE n \in tree : n.p = p /\ n.t = "f").c
RECURSIVE Join(_)
Join(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<47>> \o Join(Tail(p))
\* the archive written for these files, in this order
Holds(a, paths) ==
  LET w == Walk(a, 0) IN
  /\ w.how = "end" /\ Len(w.recs) = Len(paths)
  /\ \A i \in 1..Len(paths) : LET p == Plain(Split(paths[i])) IN
       /\ w.recs[i].path = paths[i] /\ w.recs[i].type = 48 /\ w.recs[i].len = Len(Cont(p)) /\ Data(a, w.recs[i]) = Cont(p)
       /\ \A k \in (w.recs[i].off + w.recs[i].len + 1)..(w.recs[i].off + Up512(w.recs[i].len)) : a[k] = 0
  /\ Len(a) % B = 0 /\ Len(a) >= 2 * B /\ AllZero(SubSeq(a, Len(a) - 2 * B + 1, Len(a)))
Rec(e) == [path |-> e.path, off |-> e.off, len |-> e.len, type |-> e.type]
Good(evs) == SelectSeq(evs, LAMBDA e : e.err = 0)
\* the records handed to the callback; one more may be announced where the reading fails
Seen(evs, w) ==
  LET n == Len(w.recs) IN
  /\ Len(evs) >= n /\ \A i \in 1..n : evs[i].err = 0 /\ Rec(evs[i]) = w.recs[i]
  /\ (w.how = "end" => Len(evs) = n) /\ Len(evs) <= n + 1
  /\ (w.how = "sum" /\ Len(evs) = n + 1 => evs[n + 1].err = 3)
Failure(w, ret) == IF w.how = "end" THEN ret = 0 ELSE IF w.how = "sum" THEN ret = -3 ELSE ret < 0
Step ==
  \/ Ev.op = "seg" /\ tree' = {} /\ arch' = <<>>
  \/ Ev.op = "wr" /\ arch' = arch /\ Obs         \* set up by the harness itself
  \/ Ev.op = "pack" /\ Obs /\ tree' = tree /\ arch' = Ev.a /\
       (IF \A i \in 1..Len(Ev.paths) : Len(Ev.paths[i]) < 100 /\ HasFile(tree, Plain(Split(Ev.paths[i])))
        THEN (IF Ev.lim THEN (Ev.ret = -2 \/ (Ev.ret = 0 /\ Holds(Ev.a, Ev.paths))) ELSE Ev.ret = 0 /\ Holds(Ev.a, Ev.paths))
        ELSE Ev.ret < 0 /\ (LET bad == {i \in 1..Len(Ev.paths) : Len(Ev.paths[i]) >= 100 \/ HasDir(tree, Plain(Split(Ev.paths[i])))} IN bad = {} => Ev.ret = -4))
  \/ Ev.op = "packdir" /\ Obs /\ tree' = tree /\ arch' = Ev.a /\
       LET d == Plain(Split(Ev.dir))  fs == FilesUnder(d)  w == Walk(Ev.a, 0)
           names == [i \in 1..Len(w.recs) |-> w.recs[i].path] IN
       IF \E n \in fs : Len(Join(n.p)) > 98 THEN Ev.ret < 0 ELSE
       /\ Ev.ret = 0 /\ Len(names) = Cardinality(fs) /\ {Plain(Split(names[i])) : i \in 1..Len(names)} = {n.p : n \in fs} /\ Holds(Ev.a, names)
  \/ Ev.op = "load" /\ arch' = Ev.a /\ tree' = tree
  \/ Ev.op = "unpack" /\ UNCHANGED tv /\
       LET w == Walk(arch, 0) IN
       IF Ev.stop > 0 /\ Ev.stop <= Len(w.recs)
       THEN Ev.ret = -1 /\ Len(Ev.evs) = Ev.stop /\ \A i \in 1..Ev.stop : Ev.evs[i].err = 0 /\ Rec(Ev.evs[i]) = w.recs[i] /\ Ev.evs[i].data = Data(arch, w.recs[i])
       ELSE Seen(Ev.evs, w) /\ (Failure(w, Ev.ret) \/ (Ev.stop = Len(w.recs) + 1 /\ Ev.ret = -1 /\ w.how # "end")) /\ \A i \in 1..Len(w.recs) : Ev.evs[i].data = Data(arch, w.recs[i])
  \/ Ev.op = "unpackdir" /\ arch' = arch /\ Obs /\
       LET w == Walk(arch, 0)  r == PutAll(tree, Plain(Split(Ev.dest)), arch, w.recs) IN
       IF r.ok
       THEN /\ Failure(w, Ev.ret) \/ (w.how # "end" /\ Ev.ret < 0)
            \* where bytes are missing, what arrived of the last file may be left below dest
            /\ IF w.how = "cut" THEN r.t \subseteq TreeOf \cup {n \in r.t : \E m \in TreeOf : m.p = n.p} /\ \A n \in TreeOf \ r.t : SubSeq(n.p, 1, Len(Plain(Split(Ev.dest)))) = Plain(Split(Ev.dest))
               ELSE TreeOf = r.t
       ELSE Ev.ret < 0 /\ TreeOf = r.t
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED tv
TSpec == TInit /\ [][TNext]_<<l, tree, arch>>
=============================================================================
