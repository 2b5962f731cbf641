------------------------------ MODULE TraceFs ------------------------------
EXTENDS Fs, TraceLib
TInit == l = 1 /\ FInit
\* the whole tree as an independent walk saw it after the call
Obs == tree' = {Ev.tree[i] : i \in 1..Len(Ev.tree)} /\ Ev.fds = 0
Step ==
  \/ Ev.op = "seg" /\ tree' = {}
  \/ Ev.op = "wr" /\ FWrite(Ev.p, Ev.d) /\ Obs
  \/ Ev.op = "mkdir" /\ FMkdir(Ev.p, Ev.err) /\ Obs
  \/ Ev.op = "mkdirr" /\ FMkdirR(Ev.p, Ev.ok) /\ Obs
  \/ Ev.op = "rmdir" /\ FRmdir(Ev.p, Ev.err) /\ Obs
  \/ Ev.op = "rm" /\ FRemove(Ev.p, Ev.ok) /\ Obs
  \/ Ev.op = "cp" /\ FCopy(Ev.p, Ev.q, Ev.excl, Ev.lim, Ev.ok) /\ Obs
  \/ Ev.op = "mv" /\ FMove(Ev.p, Ev.q, Ev.ok) /\ Obs
  \/ Ev.op = "exists" /\ FExists(Ev.p, Ev.ok) /\ Obs
  \/ Ev.op = "type" /\ FType(Ev.p, Ev.t) /\ Obs
  \/ Ev.op = "list" /\ FList(Ev.p, Ev.rec, Ev.items) /\ Obs
  \/ Ev.op = "info" /\ FInfo(Ev.p, Ev.ents) /\ Obs
  \/ Ev.op = "refresh" /\ Same /\ {Ev.items[i] : i \in 1..Len(Ev.items)} = {n.p : n \in Kids(Up(Ev.p))} /\ Len(Ev.items) = Cardinality(Kids(Up(Ev.p))) /\ Obs
  \/ Ev.op = "special" /\ Same /\ Ev.fifo = 0 /\ Ev.sock = 0 /\ Obs
  \/ Ev.op = "toolong" /\ Same /\ Ev.mk = 8 /\ Ev.rm = 8 /\ Ev.mkr # 0 /\ Obs
  \/ Ev.op = "full" /\ Same /\ (IF Has(Ev.p) THEN Ev.kind = "abs" /\ Ev.got = Ev.p ELSE Ev.kind = "same") /\ Obs
  \/ Ev.op = "times" /\ Same /\ (IF Has(Ev.p) THEN Ev.lwt = Ev.ts ELSE \A i \in 1..Len(Ev.lwt) : Ev.lwt[i] = 0) /\ (File(Ev.p) => Ev.looks = Looks(0, Ev.ts)) /\ Obs
  \/ Ev.op = "path" /\ Same /\ Ev.base = BaseName(Ev.s) /\ Ev.has = HasExt(Ev.s) /\ (Ev.has => Ev.ext = Ext(Ev.s)) /\ Ev.abs = IsAbs(Ev.s) /\ Ev.rel = ~IsAbs(Ev.s) /\ Ev.root = IsRoot(Ev.s)
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED tree
TSpec == TInit /\ [][TNext]_<<l, tree>>
=============================================================================
