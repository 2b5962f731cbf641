---------------------------- MODULE TraceStream ----------------------------
EXTENDS Stream, TraceLib
TInit == l = 1 /\ SInit
\* after every operation: tell, size, the reported buffer and the caller's buffer
Obs == Ev.tell = cur' /\ Ev.size = Len(buf') /\ Ev.buf = buf' /\ Ev.orig = orig'
Step ==
  \/ Ev.op = "seg" /\ buf' = <<>> /\ cur' = 0 /\ kind' = "none" /\ orig' = <<>>
  \/ Ev.op = "open" /\ Ev.ok /\ SOpen(Ev.kind, Ev.b) /\ Obs
  \/ Ev.op = "write" /\ SWrite(Ev.d, Ev.ok) /\ Obs
  \/ Ev.op = "writeat" /\ SWriteAt(Ev.off, Ev.d, Ev.ok, Ev.n) /\ Obs
  \/ Ev.op = "read" /\ SRead(Ev.n, Ev.ok, Ev.got) /\ Obs
  \/ Ev.op = "readat" /\ SReadAt(Ev.off, Ev.n, Ev.ok, Ev.got) /\ Obs
  \/ Ev.op = "seek" /\ SSeek(Ev.off) /\ Ev.ret = cur' /\ Obs
  \/ Ev.op = "skip" /\ SSeek(cur + Ev.off) /\ Ev.ret = cur' /\ Obs
  \/ Ev.op = "end" /\ SSeek(Len(buf)) /\ Ev.ret = cur' /\ Obs
  \* closing gives every block back and leaves the caller's buffer as the history left it
  \/ Ev.op = "close" /\ Ev.err = 0 /\ Ev.live = 0 /\ Ev.orig = orig /\ SClose
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED svars
TSpec == TInit /\ [][TNext]_<<l, svars>>
=============================================================================
