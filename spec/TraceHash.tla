----------------------------- MODULE TraceHash -----------------------------
EXTENDS Hash, TraceLib
TInit == l = 1
Def(op, s, seed) == CASE op = "adler32" -> Adler(s) [] op = "crc32" -> Crc32(s) [] op = "crc64" -> Crc64(s)
                      [] op = "fnv32" -> Fnv(s, Prime32, Basis32) [] op = "fnv32a" -> Fnva(s, Prime32, Basis32)
                      [] op = "fnv64" -> Fnv(s, Prime64, Basis64) [] op = "fnv64a" -> Fnva(s, Prime64, Basis64)
                      [] op = "murmur32s" -> Murmur3(s, seed) [] op = "murmur64s" -> Murmur2A(s, seed)
                      [] op = "murmur32" -> Murmur3(s, DefSeed32) [] op = "murmur64" -> Murmur2A(s, DefSeed64)
Tolerated(op, s, seed) == CASE op = "murmur64s" -> Murmur2AHead(s, seed) [] op = "murmur64" -> Murmur2AHead(s, DefSeed64) [] OTHER -> <<>>
Step == \/ Ev.op = "seg"
        \/ Ev.op = "hash" /\ Ev.out \in {Def(Ev.fn, Ev.in, Ev.seed), IF Ev.tol THEN Tolerated(Ev.fn, Ev.in, Ev.seed) ELSE <<>>}
        \/ Ev.op = "enc" /\ IF Ev.in = <<>> THEN Ev.null ELSE ~Ev.null /\ Ev.out = Enc64(Ev.in) /\ Ev.leak = 1
        \/ Ev.op = "dec" /\ IF Valid64(Ev.in) THEN ~Ev.null /\ Ev.out = Dec64(Ev.in) /\ Ev.term = 0 /\ Ev.leak = 1
                            ELSE Ev.null /\ Ev.leak = 0
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject
TSpec == TInit /\ [][TNext]_l
=============================================================================
