----------------------------- MODULE TraceDisk -----------------------------
EXTENDS Disk, Text, TraceLib
VARIABLE pp
P == INSTANCE Pipe
tv == <<disk, hs, pp>>
TPaths == {"a", "b"}
THandles == {"h0", "h1", "h2"}
TInit == l = 1 /\ DInit /\ pp = P!NoPipe
RECURSIVE UpToNul(_)
UpToNul(s) == IF s = <<>> \/ s[1] = 0 THEN <<>> ELSE <<s[1]>> \o UpToNul(Tail(s))
\* after every operation: what both paths hold on disk, and what the handle says of itself
Files == Ev.a = disk'["a"] /\ Ev.b = disk'["b"]
Hand == Ev.tell = hs'[Ev.h].cur /\ Ev.size = Len(disk'[hs'[Ev.h].p])
Obs == Files /\ Hand
H == Ev.h
OnDisk ==
  \/ Ev.op = "seg" /\ disk' = [k \in Keys |-> NoFile] /\ hs' = [h \in Handles |-> Closed]
  \/ Ev.op = "open" /\ ~IsOpen(H) /\ DOpen(H, Ev.p, Ev.m, Ev.err) /\ Files /\ (Ev.err = 0 => Hand /\ Ev.name = Ev.p)
  \/ Ev.op = "openu" /\ ~IsOpen(H) /\ DOpenUser(H, Ev.p, Ev.m, Ev.err) /\ Files /\ (Ev.err = 0 => Hand)
  \/ Ev.op = "openbad" /\ Ev.err = Ev.want /\ UNCHANGED tv /\ Files
  \/ Ev.op = "temp" /\ ~IsOpen(H) /\ Ev.err = 0 /\ DTemp(H) /\ Obs
  \/ Ev.op = "close" /\ Ev.err = (IF IsOpen(H) THEN 0 ELSE EInvalid) /\ DClose(H) /\ Files /\ Ev.fds = Cardinality({h \in Handles : hs'[h] # Closed})
  \/ Ev.op = "write" /\ DWrite(H, Ev.d, Ev.lim, Ev.ok, Ev.tell) /\ Obs
  \/ Ev.op = "writeat" /\ DWriteAt(H, Ev.off, Ev.d, Ev.lim, Ev.ok, Ev.n, Ev.tell) /\ Obs
  \/ Ev.op = "read" /\ DRead(H, Ev.n, Ev.ok, Ev.got) /\ Obs
  \/ Ev.op = "readat" /\ DReadAt(H, Ev.off, Ev.n, Ev.ok, Ev.got) /\ Obs
  \/ Ev.op = "seek" /\ DSeek(H, Ev.off) /\ (Ev.off >= 0 => Ev.ret = Ev.off) /\ Obs
  \/ Ev.op = "skip" /\ DSeek(H, hs[H].cur + Ev.off) /\ (hs[H].cur + Ev.off >= 0 => Ev.ret = hs'[H].cur) /\ Obs
  \/ Ev.op = "end" /\ DSeek(H, Len(Cont(H))) /\ Ev.ret = hs'[H].cur /\ Obs
  \/ Ev.op = "trunc" /\ DTruncate(H, Ev.n, Ev.lim, Ev.err) /\ Obs
  \/ Ev.op = "wcont" /\ DWriteContents(Ev.p, Ev.d, Ev.lim, Ev.ok, Ev.err) /\ Files
  \/ Ev.op = "rcont" /\ DReadContents(Ev.p, Ev.got) /\ Ev.zt /\ Files
  \/ Ev.op = "lines" /\ UNCHANGED tv /\ Ev.got = Bytes(Ev.p) /\ Ev.ls = Lines(UpToNul(Bytes(Ev.p)), Ev.strip) /\ Files
OnPipe ==
  \/ Ev.op = "pipe" /\ P!PNew
  \/ Ev.op = "pwrite" /\ P!PWrite(Ev.d, Ev.ok, Ev.n)
  \/ Ev.op = "pread" /\ P!PRead(Ev.n, Ev.ok, Ev.got)
  \/ Ev.op = "pend" /\ P!PClose
Step == \/ OnDisk /\ pp' = (IF Ev.op = "seg" THEN P!NoPipe ELSE pp)
        \/ OnPipe /\ UNCHANGED <<disk, hs>> /\ Files
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED tv
TSpec == TInit /\ [][TNext]_<<l, disk, hs, pp>>
=============================================================================
