#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, the properties' titles, the findings file and the planted bugs."""
import json, os, re, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
F = [l.strip() for l in open(os.path.join(R, "known_findings.txt")) if l[:1] not in "#\n"]
B = {}
for d in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); B.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m["needs"]))
HEAD = """# Deciding the semantic properties of zpl with TLA+

Generated by `tools/mkdesign.py` (the per-property text lives there) from the properties, the findings file and the planted bugs.

## Language and tools
TLA+ checked with TLC.  Reasons: (1) conformance is trace validation, and TLC with the CommunityModules (`Json`, `IOUtils`, `Bitwise`)
reads ndjson traces and environment variables directly; (2) one specification serves exhaustive checking (breadth first, small
constants), test generation (explored histories are printed as command scripts) and trace acceptance (the same operators bound to
logged arguments and results).  Quint would need Apalache or its simulator for the first and has no file input for the last.

## Shape of every check (`tools/check.py <ID>` runs `checks/<id>.py`)
1. `spec/<M>.tla`: the part's state and actions, or for functions of their arguments the defining operators: what a user may observe,
   written from the documentation and the standards the code names (RFC 4648, printf, UTF-8, ustar, MurmurHash3, IEEE half, ...), not from the code.
2. `spec/MC<M>.tla` (or `<M>Impl.tla` where the *algorithm* is modelled step by step and must refine `<M>`): TLC checks invariants and laws
   exhaustively for small constants; the explored histories or cases are printed and become test scripts.
3. `harness/<m>.c` includes `/repo/code/zpl.h` from the working tree, runs scripts through the public API and logs one event per call:
   arguments, results and the observable state after it.  Variants per check: AddressSanitizer + UBSan builds, -O2 builds, C++ builds,
   builds under the controlled scheduler (`harness/ctl.c`: pthread calls and atomics are redirected, one thread runs at a time, schedules are
   random, priority based (PCT) or replayed).
4. `spec/Trace<M>.tla`: TLC replays the log through the specification's operators.  An event nothing explains, a crash, a sanitizer report, a failed
   assertion or a hang of the real code is a rejected event.  Scripts are cut into segments which start from a reset, so that one rejected
   segment does not hide others.
5. A rejected segment is run again alone; only when it is rejected again `VIOLATION property=<id> replay=<path>` is printed.  A segment listed in
   `known_findings.txt` as `known:` prints `KNOWN-FINDING` instead.
Scripts come from three sources: the histories TLC explored, seeded random generators with larger constants (VERIF_SEED), and hand-made corners.
Quick tier: 15-60 s per check.  Thorough tier: larger constants and 10-30 times the scripts.

Why this reaches what the tests do not: the unit tests sample a handful of calls each; here the oracle is a specification that judges *any*
history, so histories can be generated without writing expected results, including interleavings, partial failures and hostile inputs.
What it does not give: a proof for the code.  The model checking is exhaustive for the specification at its constants; for the code the
assurance is that of the executions explored.

Soundness against alarms: the checks judge observable results only (through the public API, including public struct fields that users are
told to read), never the code's text; what the documentation leaves open is left open in the specification (the list below), and time limits
are generous (hangs are tens of seconds).

## Per property
"""
# id: (specification & model, conformance, oracle/limits)
D = {
"C01": ("Arena.tla: a region, a fill level, nested snapshots and sub-arenas. MCArena: all histories over a few base residues, capacities, sizes and alignments; invariants: blocks disjoint, aligned, inside, fill level exact, rollback restores.", "arena.c (ASAN): histories of MCArena plus random ones with nested arenas, snapshots, failing allocations; pointers logged as offsets.", ""),
"C02": ("Pool.tla: n fixed blocks, live set. MCPool: all alloc/free/free-all orders for several n, block sizes and alignments.", "pool.c: those and random histories; every live block's contents are checked for being untouched by other blocks.", ""),
"C03": ("Stack.tla / Scratch.tla: LIFO blocks with growth; ring-style scratch memory with out-of-order frees. MCStack, MCScratch exhaustive for small capacities.", "stackscratch.c: contents of every live block are compared after each call, growth through a counting backing allocator, which must see one release; is-in-use for every live block and just outside the region.", ""),
"C04": ("Heap.tla: set of live blocks, counters. MCHeap: all alloc/resize/free histories over a few sizes and alignments.", "heap.c with the analysis build and without: alignment, contents kept over resize, zeroing, totals.", ""),
"C05": ("Mem.tla: memory as a sequence of bytes. MCMem: every operation on every range of a small memory and the laws between them.", "mem.c: set, copy, move, swap, compare, search over all lengths up to some 80 bytes, misalignments and overlaps (sampled in quick), and around word and block sizes; ASAN and -O3 builds.", ""),
"C06": ("Seq.tla: array or buffer = sequence plus capacity. MCSeq: all histories over two arrays.", "seq.c: zpl_array_* and zpl_buffer_* macros with several element sizes, header fields read back.", ""),
"C07": ("Table.tla: finite map; TableImpl.tla: bucket heads and chained entries refine it, exhaustively for few keys and colliding hashes.", "table.c: histories with keys chosen to collide, iteration, map/map_mut, growth, removal.", ""),
"C08": ("Ring.tla: bounded FIFO; MCRing: the head/tail representation refines it for every capacity <= 4.", "ring.c: every capacity and fill offset, batch appends, get_array of any size.", ""),
"C09": ("List.tla: chains; MCList: link surgery refines them.", "list.c: after each call all links are walked both ways from every node.", ""),
"C10": ("Str.tla: text plus capacity, UTF-8 helpers. MCStr: histories over a few texts.", "str.c: content, length, capacity, terminator after every call; ASAN for overruns.", ""),
"C11": ("Text.tla: meaning of each helper on byte sequences. MCText: every short text over an alphabet of special characters, laws.", "text.c: all of those and random longer texts against the real helpers in exactly sized allocations.", ""),
"C12": ("Num.tla: 64-bit numbers as limbs, text in a base, decimal text against binary floating point (interval arithmetic on limbs). MCNum: every value of a small word in every base.", "num.c: boundaries of every base and random values, random decimal texts with exponents; json.c: texts in nodes, judged by the numbers of JsonText.tla.", ""),
"C13": ("UtfEnc.tla: UTF-8/16 encoding and decoding. MCUtf: every code point around each boundary and every short byte string over critical bytes.", "utf.c: code points in steps and around every boundary, all 1 and 2 byte strings and 3-4 byte strings over critical bytes, random text conversions in exactly sized buffers.", ""),
"C14": ("Print.tla: parses the format text and renders every directive on 64-bit limbs and exact decimal expansions. MCPrint: all flags x widths x precisions x sizes x values.", "print.c: each directive through snprintf (all buffer sizes), fprintf, sprintf-alloc, string append variants, and twice in a row on the standard output and error laid onto a file, a pipe and an appended file; results must be equal everywhere.", ""),
"C15": ("Stream.tla: byte file with a cursor over growable, fixed or read-only memory. MCStream: all histories of reads, writes, seeks.", "stream.c: those and random histories; the buffer, size and cursor are logged after each call.", ""),
"C16": ("Disk.tla: files, handles and modes of stdio. MCDisk: histories over two files and two handles. Pipe.tla, MCPipe: a bounded queue of bytes with a writing end that closes.", "disk.c in a scratch directory: modes, seeks, positioned reads and writes, whole-file helpers; writes that fail or stop half way by a file-size limit (RLIMIT_FSIZE), refused permissions by a dropped fsuid; descriptors counted. Pipes connected by zpl_file_connect_handle or laid under the standard streams, written to the brim and drained.", ""),
"C17": ("Fs.tla: tree of names. MCFs: histories of create, copy, move, remove, mkdir, list.", "fs.c in a scratch directory: after every call an independent walk of the directory is logged; open descriptors are counted; path helpers by Text.", ""),
"C18": ("Tar.tla: ustar blocks. MCTar: laws (round trip, every truncation and damaged header byte noticed, hostile names stay inside).", "tar.c in a scratch tree, as an unprivileged user: packing, unpacking, damaged archives, hostile names; the tree outside the target is watched.", ""),
"C19": ("Sort.tla: sorted permutation, stable radix order, search results as relations. SortImpl.tla: the explicit-stack quick sort one comparison at a time (bounds, stack depth, termination).", "sort.c: every key type, offsets, sizes around the insertion threshold, many-duplicate and adversarial orders, shuffles and reverses.", ""),
"C20": ("Random.tla: a deterministic machine; MCRandom: the permutation construction at a small word size never repeats.", "random.c: equal seeds give equal streams; ranges stay inside for extreme bounds; unique generators do not repeat.", ""),
"C21": ("Hash.tla: published definitions on byte words. MCHash: check values and cross laws.", "hash.c: every length 0..70 and random data, encodings and malformed base64 in exactly sized buffers.", ""),
"C22": ("Regex.tla: parses the pattern text; matching as the ordered list of ways to match. MCRegex: every short pattern x every short text: a match exists iff the language says so.", "regex.c: those, random long patterns, every escape and set, caller supplied buffers of every size, match_all.", ""),
"C23": ("Opts.tla: the argument list consumed by a state machine. MCOpts: every list up to a length x a set of registrations.", "opts.c: those and random ones; errors, values, help screens (as text), frees.", ""),
"C24": ("Adt.tla: nodes at paths, edits, lookups. MCAdt: every edit history to a depth on small trees.", "adt.c: whole tree with parent links after each edit; find/query/numbers.", ""),
"C25": ("JsonText.tla: the dialect's grammar parses the text in the specification. MCJson: every token sequence up to a length; MCJsonDoc: every small document in every layout.", "json.c: those, random documents in random layouts, every truncation, byte mutations; leaks by a counting allocator. A sample of the segments of C24, C25, C26 and C28 also runs in a build with ZPL_PARSER_DISABLE_ANALYSIS.", "C27 and, in C26, texts with fractions or exponents are not run in the build without layout information: it writes reals with six decimals and CSV text unquoted, by design."),
"C26": ("JsonText.tla on the written text; MCJsonDoc.", "json.c: parsed and built documents written in every style, read back by the specification and by the real parser, written again, written to a disk file and to a file of our own whose k-th write fails, for every k up to 12 and the last ones (C27, C28 alike).", ""),
"C27": ("CsvText.tla; MCCsv, MCCsvDoc.", "csv.c: all delimiters, headers, quoted and unquoted, built tables, cuts and mutations.", ""),
"C28": ("UriText.tla; MCUri.", "uri.c: token sequences in every encoding, random fields, cuts and mutations, written and decoded again.", ""),
"C29": ("Jobs.tla: user's view (queues, hidden hand-out, running set). JobsImpl.tla: every memory access of enqueue, process, worker and free, in lock step with Jobs. MCJobs: histories of calls.", "jobs.c under the controlled scheduler: random and PCT schedules with a point at each shared access, and on real threads.", ""),
"C30": ("JobsImpl with fairness: freeing returns, accepted jobs start; Dispatch.tla: bounded waiting against an adversary.", "jobs.c: free at every moment, saturated rounds (TraceDispatch), drain to done.", ""),
"C31": ("ThreadsImpl: the barrier's two mutexes, semaphore and counters step by step, 2-4 threads, 2-3 rounds, against Threads.tla.", "sync.c: explored and random programs under the scheduler and on real threads.", ""),
"C32": ("Threads.tla: intervals of calls on mutexes, semaphores, threads. ThreadsImpl: every small program of 2-3 threads.", "sync.c: those and random programs with injected EINTR and failing creation.", ""),
"C33": ("Atomics.tla: linearizability observer; AtomicsImpl: CAS loops and spin lock per access.", "atomic.c: x86 assembly, generic (compiler builtins) and C++ builds; sequential, scheduled and hammered.", ""),
"C34": ("LinAlg.tla: vectors, matrices, quaternions, rectangles in exact integers over a denominator. MCMath: laws (associativity, inverses, rotations) on every small case.", "math.c: C, C++ operators, no-math.h builds; only cases whose exact result is representable are judged, others to a thousandth.", ""),
"C35": ("Oom.tla: six objects (arrays, strings, growing streams, document trees); an operation happens as a whole or reports failure with nothing changed, and calls that keep nothing are compared with the same call under plenty. MCOom: operations as requests that are granted or refused one by one, with block accounting (what no object holds is not kept).", "oom.c: the explored histories with their refused requests; random histories in which every request of every operation is refused in turn, alone and with all later ones; parsers, writers (tokens at every distance from the end of the space), file helpers, encoders, patterns and the heap (with and without ZPL_HEAP_ANALYSIS) likewise. Contents, live blocks and open descriptors are compared after each.", ""),
"C36": ("Scalar.tla: rounding, remainders, angles, tabulated elementary functions, half floats. MCMath: every half class.", "math.c: all 65536 halves, generated scalars.", ""),
"C37": ("Sockets.tla: handles, connections (two byte queues), datagram queues, readiness. MCSockets: every short history of two connections over a listener and three datagram sockets.", "sock.c over loopback (127.0.0.1, ::1 where there is one, and no host): explored and random histories, whole transfers between threads, blocked receivers; descriptors counted after each call. Anything expected is awaited with a readiness call of three seconds, so slow delivery raises no alarm.", ""),
"C39": ("VirtMem.tla: regions as rows of numbered pages. MCVirtMem: the same over a small address space mapped and unmapped range by range; what is mapped is what the regions hold, with the content expected.", "vm.c: mmap, munmap and madvise are made for real and recorded page by page; each page of each region and every mapped page compared after every call; the system made to refuse at random points.", ""),
"C40": ("Clock.tla: instants, the calendar, POSIX zone rules. MCClock: a walk through whole years in eleven zones (two changes a year, on the days named) and the sleep that signals cut short.", "clock.c: the system's clocks and sleep are the script's; every change of every zone with the instants around it, random zones, uptimes to 50 days and more, sleeps to 2^32-1 ms with interruptions at every place.", ""),
"C41": ("Host.tla: the environment as a map, output into a buffer, reference-counted libraries. MCHost: the environment as a row of texts, libraries as images.", "host.c: the real environment, `cat` of scratch files through the real shell, two small libraries built by the check and loaded from its folder; children and descriptors counted.", ""),
"C42": ("Bits.tla: words as rows of bits. MCBits: a register beside the set of bits that are on; smearing and swapping checked in every state.", "bits.c: explored and random histories, sampled (thorough: every) 16-bit words, the neighbours of every power of two, random words.", ""),
"C43": ("Modules.tla: the selected set and what a module is written with. MCModules: the preprocessor's switches one after the other against the set, for all distributions with up to three (thorough: four) overrides.", "modules.py + modules_probe.c: selections the model emits, and random custom ones, are compiled from the sources with gcc, clang, g++, clang++ in several standards and optimisation levels, linked as one unit, two units, C beside C++, static, ZPL_STATIC_LIB and shared, with ZPL_HEAP_ANALYSIS, ZPL_NO_MATH_H and ZPL_PARSER_DISABLE_ANALYSIS; the probe runs each module on fixed inputs; declared functions are looked up in the object.", "Other compilers and systems; selections that lack what their modules are written with (pico with parser, say) are not required to build."),
}
TAIL = """
## Left open or out of reach (no alarm can come from these)
- C14: `%zd`, `+`/space/`#` on integers, `%g`/`%a`, precision 0 of zero, width 0 with a `0` flag or `*`, `%c` of NUL, floats from 2^63, float zero prints "0". C12: exponents beyond +-308.
- C15: truncating memory streams; partial writes to fixed ones. C16: opening a directory for reading; the cursor after appends and positioned writes; zpl_file_connect_handle.
- C17: names with line ends; moving directories may be refused. C21: encoding an empty input returns NULL; known finding `seg=murmur64-tail` (an existing test pins the wrong value).
- C22: trailing backslash, operands above 255 may be refused as too long, captures that take no part are {NULL,0}, match_all is successive matches on the remainder, a caller's buffer of 5*len+8 must do.
- C23: badly typed values are not reported by design; `-f:x` joined by other characters; a flag given a value. C24: `[value]` on an object asserts; indexes in moves within a container count places before removal; deep find skips arrays; moving a node below itself.
- C25/C26: recursion depth, a missing delimiter between members, empty text, integers outside 64 bits, negative hex, escapes in names other than JSON's, `$` in unquoted names, reals from 2^63, strings keep source escapes, the second writing equals up to spacing, unnamed members inside objects, exponents beyond +-300.
- C27: delimiters that are quotes, line ends or number characters; integers beyond 18 characters stay text; reals to six decimals; ragged built tables. C28: white space in the text, `%00`, a bare empty last key, a parameter named `__zpl_origin__`.
- C29/C30: the jobs API is called from one thread; thread creation failing in zpl_jobs_init. Weak-memory reorderings are not modelled (schedules are sequentially consistent, the machine is x86). C31: destroying while others wait, target 0. C32: recursive locking, joining a thread never started, stack sizes too small for TLS. C33: the 32-bit x86 and MSVC branches (cannot be built here), ARM fences, ordering between different cells.
- C34/C36: inverse in place, results without an exact representation beyond a thousandth, view boxes that straddle corners with none inside, multi-axis Euler extraction, smoother step outside the unit span, cuts of negative size, normalising a zero vector, floor/ceil/round beyond the integer range, ties of remainders and halves, division by zero, the MSVC branch without math.h.
- C35: operations without a failure result; which of several failure codes a parser reports beyond out of memory for JSON; reading the lines of a missing file (an empty text, as before).
- C37: rebinding a port just closed, results after a connection was cut (RST), ICMP errors on datagrams, names beyond numeric addresses, queue overflow, progress of a non-blocking connect, host names of addresses where no resolver answers.
- C39: sizes that are not whole pages, the Windows branch. C40: instants before 1970, fractions of a millisecond, leap seconds, a machine asked in its very first millisecond. C41: asking for a name with an equals sign, zpl_affinity_set (it does nothing on Linux), commands that fail to start. C42: the next power of two of numbers below 1 or above 2^30.
- C38 is not applicable: the process module is a stub outside Windows.

## Alarms that were the check's fault, and what was done
- Connected datagram sockets whose peer filters them see ICMP errors: the specification now allows the error when *no matching* socket exists (C37). Bytes of two sends may be delivered apart: receivers are given the amount they expect and loop (C37).
- The environment of the C library answers a *question* for a name with an equals sign from the text of another variable: such questions are not asked any more (C41). Two harness binaries of one check wrote the same script file when each was run in parts: file names now carry the binary's number (C35, C39).
- Earlier ones met while building became entries of the list above: each is a place where the documentation does not settle the result, and the specification was opened there.

## Hooks
No hooks were added to /repo: harnesses include the header and redirect calls with their own preprocessor definitions (see MANIFEST.json).

## Defects found in the original tree
Each was shown on the real code by a rejected trace, repaired by a `fix:` commit in /repo (or listed as known) and stays covered by the check.
"""
out = [HEAD]
for p in P:
    i = p["id"]; d = D.get(i)
    out.append("### %s %s\n" % (i, p["title"]))
    built = os.path.exists(os.path.join(R, "checks", i.lower() + ".py"))
    if d and built: out.append("- Specified and model checked: %s\n- Bound to the code: %s\n" % (d[0], d[1]))
    elif d: out.append("- Planned: %s %s\n" % (d[0], d[1]))
    else: out.append("- Not applicable: the process module has no implementation on this platform (stubs only).\n")
    if i in B: out.append("- Planted bugs caught: " + "; ".join("`%s` (%s)" % x for x in B[i]) + "\n")
    out.append("\n")
out.append(TAIL)
for l in F:
    k, rest = l.split(": ", 1)
    out.append("- %s %s\n" % (k, rest))
open(os.path.join(R, "DESIGN.md"), "w").write("".join(out))
