-------------------------------- MODULE Disk --------------------------------
(* Files on disk and the handles open on them.  disk[p] is a sequence of bytes or NoFile;   *)
(* a handle is Closed or [p, m, cur] with m one of "r" "w" "a" "r+" "w+" "a+"; temporary    *)
(* files live under the handle's own name.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES disk, hs
dvars == <<disk, hs>>
CONSTANTS Paths, Handles
NoFile == <<-1>>
Closed == [p |-> "", m |-> "", cur |-> 0]
Keys == Paths \cup Handles
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Slice(s, off, n) == IF off >= Len(s) \/ n <= 0 THEN <<>> ELSE SubSeq(s, off + 1, Min2(Len(s), off + n))
Over(s, off, d) ==
  IF d = <<>> THEN s ELSE
  [i \in 1..Max2(Len(s), off + Len(d)) |->
     IF i > off /\ i <= off + Len(d) THEN d[i - off] ELSE IF i <= Len(s) THEN s[i] ELSE 0]
Cut(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
CanRead(m) == m \in {"r", "r+", "w+", "a+"}
CanWrite(m) == m \in {"w", "a", "r+", "w+", "a+"}
Appends(m) == m \in {"a", "a+"}
Exists(p) == disk[p] # NoFile
ENone == 0  EInvalid == 1  ENotExists == 4  EPerm == 5  ETrunc == 6

DInit == disk = [k \in Keys |-> NoFile] /\ hs = [h \in Handles |-> Closed]
IsOpen(h) == hs[h] # Closed
Cont(h) == disk[hs[h].p]
Opened(p, m) == [p |-> p, m |-> m, cur |-> 0]
\* opening: "r" and "r+" need the file, "w" and "w+" start empty, "a" and "a+" keep what is there
DOpen(h, p, m, err) ==
  IF m \in {"r", "r+"} /\ ~Exists(p)
  THEN err = ENotExists /\ UNCHANGED dvars
  ELSE /\ err = ENone /\ hs' = [hs EXCEPT ![h] = Opened(p, m)]
       /\ disk' = [disk EXCEPT ![p] = IF m \in {"w", "w+"} \/ ~Exists(p) THEN <<>> ELSE @]
\* the same by a user who may read the files but neither write nor create any
DOpenUser(h, p, m, err) ==
  IF m = "r" THEN DOpen(h, p, m, err)
  ELSE /\ UNCHANGED dvars /\ err = (IF m = "r+" /\ ~Exists(p) THEN ENotExists ELSE EPerm)
DTemp(h) == hs' = [hs EXCEPT ![h] = Opened(h, "w+")] /\ disk' = [disk EXCEPT ![h] = <<>>]
DClose(h) == /\ hs' = [hs EXCEPT ![h] = Closed] /\ disk' = [disk EXCEPT ![h] = NoFile]
\* lim: the file size the system allows (-1 for none); n bytes of d are stored
Room(off, d, lim) == IF lim < 0 THEN Len(d) ELSE Max2(0, Min2(Len(d), lim - off))
Pos(h, off) == IF Appends(hs[h].m) THEN Len(Cont(h)) ELSE off
Put(h, off, d, n) == disk' = [disk EXCEPT ![hs[h].p] = Over(@, off, SubSeq(d, 1, n))]
\* where the cursor stands after an appending write differs between systems: the data's end or cur + n
DWriteAt(h, off, d, lim, ok, n, c) ==
  IF ~CanWrite(hs[h].m) \/ off < 0
  THEN ~ok /\ n = 0 /\ c = hs[h].cur /\ UNCHANGED dvars
  ELSE LET at == Pos(h, off) IN
       /\ n = Room(at, d, lim) /\ ok = (n = Len(d)) /\ Put(h, at, d, n)
       \* a positioned write may move the cursor to its end (Windows does), or leave it
       /\ c \in {hs[h].cur, at + n, off + n} /\ hs' = [hs EXCEPT ![h].cur = c]
DWrite(h, d, lim, ok, c) ==
  IF ~CanWrite(hs[h].m) THEN ~ok /\ c = hs[h].cur /\ UNCHANGED dvars
  ELSE LET at == Pos(h, hs[h].cur)  n == Room(at, d, lim) IN
       /\ ok = (n = Len(d)) /\ Put(h, at, d, n)
       /\ c \in (IF Appends(hs[h].m) THEN {hs[h].cur + n, at + n} ELSE {at + n})
       /\ hs' = [hs EXCEPT ![h].cur = c]
DReadAt(h, off, n, ok, got) ==
  /\ UNCHANGED dvars
  /\ IF ~CanRead(hs[h].m) \/ off < 0 THEN ~ok /\ got = <<>> ELSE ok /\ got = Slice(Cont(h), off, n)
DRead(h, n, ok, got) ==
  IF ~CanRead(hs[h].m) THEN ~ok /\ got = <<>> /\ UNCHANGED dvars
  ELSE /\ ok /\ got = Slice(Cont(h), hs[h].cur, n)
       /\ hs' = [hs EXCEPT ![h].cur = @ + Len(got)] /\ UNCHANGED disk
\* the cursor may stand behind the end, never before the start
DSeek(h, to) == hs' = [hs EXCEPT ![h].cur = IF to < 0 THEN @ ELSE to] /\ UNCHANGED disk
DTruncate(h, n, lim, err) ==
  IF ~CanWrite(hs[h].m) \/ n < 0 \/ (lim >= 0 /\ n > lim /\ n > Len(Cont(h)))
  THEN err = ETrunc /\ UNCHANGED dvars
  ELSE err = ENone /\ disk' = [disk EXCEPT ![hs[h].p] = Cut(@, n)] /\ UNCHANGED hs
DWriteContents(p, d, lim, ok, err) ==
  LET n == Room(0, d, lim) IN
  /\ ok = (n = Len(d)) /\ (ok <=> err = ENone)
  /\ disk' = [disk EXCEPT ![p] = SubSeq(d, 1, n)] /\ UNCHANGED hs
DReadContents(p, got) == UNCHANGED dvars /\ got = (IF Exists(p) THEN disk[p] ELSE <<>>)
Bytes(p) == IF Exists(p) THEN disk[p] ELSE <<>>

OpenExists == \A h \in Handles : IsOpen(h) => Exists(hs[h].p) /\ hs[h].cur >= 0
\* only an open handle with write permission, or the whole-file writer, changes a file
Quiet == [][\A p \in Paths : disk'[p] # disk[p] =>
              \/ \E h \in Handles : hs'[h].p = p /\ CanWrite(hs'[h].m)
              \/ \E d \in {disk'[p]} : hs' = hs]_dvars
=============================================================================
