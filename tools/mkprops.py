#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as a script so that ids, anchors and wording stay consistent)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
I,H,S,F,C,X=("inputs",),("histories",),("schedules",),("fault_sequences",),("configurations",),("crash_points",)

# ---------------------------------------------------------------- memory
p("C01","Arena allocations are disjoint, aligned, in bounds; snapshots roll back",
  "Every block an arena hands out is aligned as requested, lies wholly inside the arena's memory, is zeroed, and overlaps no other live block; a request that does not fit yields null and changes nothing. Resizing keeps the old contents, ending a snapshot gives back exactly the memory taken since it began and no more, and freeing everything makes the whole arena available again.",
  ["histories","inputs"],"all sequences of allocate/resize/free/free-all/snapshot/sub-arena operations, all sizes and power-of-two alignments, any start address and capacity",
  "Existing tests never touch the arena except as a JSON backing store in an example; overlap or overflow needs particular mixes of sizes, alignments and fill levels.",
  ["code/source/essentials/memory_custom.c","code/header/essentials/memory_custom.h"],
  [("bump pointer with alignment","zpl_arena_allocator_proc"),("snapshot begin/end","zpl_arena_snapshot_begin/end")],
  [("total_allocated","bytes handed out including padding","zpl_arena"),("temp_count","open snapshots","zpl_arena")],["zpl_alloc_align","zpl_resize_align","zpl_free_all","zpl_arena_size_remaining"])
p("C02","Pool blocks are distinct and recycled, with exact accounting",
  "A pool of N blocks hands out at most N simultaneously live blocks, each aligned, inside the pool's memory, zeroed and disjoint from every other live block. A freed block becomes available again and is never handed out twice at once; the reported used size always equals the number of live blocks times the block size, and freeing everything makes all N blocks available.",
  ["histories","configurations"],"all alloc/free/free-all histories, block counts, sizes and alignments",
  "The existing pool tests perform one short scripted history with two or three blocks.",
  ["code/source/essentials/memory_custom.c"],[("intrusive free list","zpl_pool_allocator_proc"),("free list construction","zpl_pool_init_align")],
  [("free_list","head of the list of free blocks","zpl_pool"),("total_size","bytes in use","zpl_pool")],["zpl_alloc_align","zpl_free","zpl_free_all"])
p("C03","Stack and scratch allocators never hand out memory that is in use",
  "Blocks obtained from a stack or a ring-style scratch allocator are aligned, in bounds and disjoint from all blocks still in use, and their contents are never disturbed by later operations. Freeing in the allocator's order (last-in-first-out for the stack, any order for the scratch ring) returns the space, a stack that grows keeps the contents of all live blocks, and a scratch request that cannot be satisfied yields null. Releasing a stack gives its memory back once, and both tell truly whether an address is in use.",
  ["histories","inputs"],"all alloc/free/free-all histories allowed by the allocator's discipline, all sizes and alignments, wrap-around and growth included",
  "No existing test uses either allocator.",
  ["code/source/essentials/memory_custom.c","code/header/essentials/memory_custom.h"],
  [("stack header with previous offset","zpl_stack_allocator_proc"),("ring with block headers","zpl_scratch_allocator_proc")],
  [("allocated","stack top","zpl_stack_memory"),("alloc_point/free_point","ring ends","zpl_scratch_memory")],["zpl_alloc_align","zpl_free"])
p("C04","Heap allocation, resize and leak accounting are faithful",
  "Heap blocks are aligned, zeroed and disjoint, resizing preserves the leading bytes and never shrinks a block's usable contents, and duplicating a byte range or a string yields an equal, terminated copy. With heap analysis on, the reported live block count and byte total always equal those of the blocks allocated and not yet freed.",
  ["histories","inputs","configurations"],"all allocate/resize/duplicate/free histories, sizes and alignments, with heap analysis on and off",
  "The test suite only checks that the totals return to zero at exit; per-step accounting and alignment under analysis are never looked at.",
  ["code/source/essentials/memory_custom.c","code/header/essentials/memory_custom.h"],[("heap proc and analysis header","zpl_heap_allocator_proc"),("default resize","zpl_default_resize_align")],
  [("used_memory/alloc_count","live totals","zpl__heap_stats_info")],["zpl_alloc_align","zpl_resize_align","zpl_heap_stats_used_memory"])
p("C05","Raw memory primitives do exactly what they say for all lengths and overlaps",
  "Copying, moving (including overlapping ranges), filling, swapping, comparing and searching raw memory affect exactly the requested bytes and no byte outside them, for every length, offset and alignment. Comparison has the sign of the first differing bytes, search finds the first or last occurrence, and alignment helpers round up to the next multiple.",
  ["inputs"],"all lengths, relative offsets, alignments and byte values",
  "Tests copy a couple of fixed strings; word-at-a-time and overlap paths depend on length, alignment and distance.",
  ["code/source/essentials/memory.c","code/header/essentials/memory.h"],[("word-wise move/set","zpl_memmove, zpl_memset"),("search","zpl_memchr, zpl_memrchr"),("swap","zpl_memswap")],(),["return values and buffers"])
# ---------------------------------------------------------------- containers
p("C06","Dynamic arrays and buffers behave as sequences",
  "A dynamic array behaves as a sequence: append, insert-at, multi-append, pop, remove, fill, clear, resize and copy produce exactly the elements of the corresponding sequence operation, in order, and capacity is never below the count. Growth never loses or alters elements already stored, and a fixed-capacity buffer holds exactly what was appended and not removed.",
  ["histories"],"all operation histories, element sizes, positions and growth boundaries",
  "No test exercises arrays beyond appends inside the JSON code; index arithmetic errors show only at particular positions and growth boundaries.",
  ["code/header/essentials/collections/array.h","code/header/essentials/collections/buffer.h"],[("grow/append/insert helpers","array.h"),("buffer macros","buffer.h")],[("count/capacity","array header","zpl_array_header")],["zpl_array_* and zpl_buffer_* macros"])
p("C07","Hash table is a finite map through any history of operations",
  "At every point a table maps exactly the keys set and not since removed (or cleared) to their most recently set values: lookups find those and nothing else, removal removes exactly one key, iteration and in-place mapping visit each live entry once. Rehashing or growing at any size changes no mapping.",
  ["histories"],"all set/get/remove/map/clear/rehash/grow histories, all 64-bit keys including colliding and extreme ones, and all sizes",
  "Tests insert a handful of keys; chain surgery on removal, slot reuse, and growth with colliding keys are not reached.",
  ["code/header/essentials/collections/hashtable.h"],[("chained buckets in two arrays","ZPL_TABLE_DEFINE")],[("hashes","bucket heads","table"),("entries","key,value,next","table")],["NAME_get/set/remove/slot/map/..."])
p("C08","Ring buffer is a bounded FIFO that overwrites the oldest when full",
  "A ring of capacity N always holds the most recent min(N, appended and not yet taken) elements in order of appending: taking returns the oldest, appending to a full ring drops the oldest. Fullness and emptiness are reported correctly and batch operations equal the same single operations in sequence.",
  ["histories"],"all append/get/append-array/get-array/clear histories and capacities",
  "No test exercises the ring buffer.",
  ["code/header/essentials/collections/ring.h"],[("head/tail arithmetic","ZPL_RING_DEFINE")],[("head,tail,capacity","ring ends","ring")],["ring_append/get/full/empty"])
p("C09","Doubly linked list links stay mutually consistent",
  "After any sequence of insertions and removals, walking a list forward from its head visits exactly the nodes inserted and not removed, in insertion-position order, and walking back from any node along the previous links visits the same nodes in reverse.",
  ["histories"],"all insert-after/remove/head/tail histories","No test exercises the list.",
  ["code/header/essentials/collections/list.h"],[("link surgery","zpl_list_add/zpl_list_remove")],[("next/prev","links","zpl_list")],["zpl_list_* functions"])
# ---------------------------------------------------------------- text
p("C10","Growable strings keep content, length, capacity and terminator consistent",
  "Each operation on a growable string (make, append of any kind, set, duplicate, clear, reserve, pad, trim, join, compare, append formatted or rune) leaves exactly the text of the corresponding sequence operation, with reported length equal to that text's length, capacity at least the length, and a terminating zero byte. Growth never alters text already stored.",
  ["histories","inputs"],"all operation histories, texts and growth boundaries",
  "Tests exercise a couple of appends and trims on short literals.",
  ["code/source/core/string.c","code/header/core/string.h"],[("make space / append","zpl_string_make_space_for, zpl_string_append_length")],[("length/capacity","string header","zpl_string_header")],["zpl_string_* functions"])
p("C11","C-string and character helpers follow their sequence meaning",
  "Character classification and case conversion, length, comparison, search, copy, concatenate, reverse, tokenise, skip, trim and line-splitting helpers give the result their names promise for every input text, stay within the given buffers, and always terminate what they produce.",
  ["inputs"],"all byte texts, lengths, delimiters and buffer sizes","Tests cover a few literals for a few helpers.",
  ["code/header/core/string.h","code/source/core/stringlib.c","code/header/core/stringlib.h","code/source/core/string.c"],[("inline helpers","string.h"),("str_* helpers","stringlib")],(),["return values and buffers"])
p("C12","Numbers and text convert back and forth without loss",
  "Formatting any 64-bit signed or unsigned integer in any base from 2 to 36 and parsing the text back yields the original value, and parsing accepts a minus sign (signed) and a 0x prefix (base 16 or detected base), stops at the first non-digit and reports where. Decimal text (exponents up to 308) converts to the floating-point value it denotes to within rounding, with exact results for integers that fit. A text in a document node becomes the number at its front (or, strictly, the number that is all of it), and is left alone when there is none.",
  ["inputs"],"all 64-bit values, bases, and numeric texts","Tests convert a few decimal literals.",
  ["code/source/core/string.c","code/source/adt.c"],[("numbers in nodes","zpl_adt_parse_number*, zpl_adt_str_to_number*"),("integer formatting/parsing","zpl_i64_to_str, zpl_u64_to_str, zpl_str_to_i64/u64"),("float parsing","zpl_str_to_f64")],(),["return values"])
p("C13","UTF-8 decoding and encoding are inverse and reject malformed input",
  "Encoding any Unicode scalar value and decoding the bytes yields the same value and length; decoding arbitrary bytes reports the replacement character with width one for malformed, overlong, surrogate or truncated sequences and never reads past the given length. Converting valid text to UCS-2 and back yields the same text, and length and validity functions agree with the decoder.",
  ["inputs"],"all code points and all byte sequences","Tests convert one or two literals.",
  ["code/source/core/string.c","code/header/core/string.h"],[("accept tables","zpl_utf8_decode"),("ucs2 conversion","zpl_utf8_to_ucs2, zpl_ucs2_to_utf8")],(),["return values and buffers"])
p("C14","Formatted printing is bounded and renders each directive as documented",
  "Formatted printing into a buffer never writes beyond the given size and terminates the text; it returns the text's length plus one, or -1 when the text does not fit, leaving a prefix of it. Integer, string, character, pointer, repeat and percent directives with their length modifiers, '-' and '0' flags, widths and precisions render exactly the text C's printf would for that subset, and fixed-precision ones the value's digits to within one unit of the last place. Printing to memory, to a string, to a file, to the standard output and to the standard error produce the same text, on that target only.",
  ["inputs"],"all format strings over the supported directives, all argument values, all buffer sizes","Two or three fixed formats are printed by tests; flags, widths and truncation interact.",
  ["code/source/core/print.c","code/header/core/print.h"],[("format state machine","zpl_snprintf_va"),("integer/float rendering","zpl__print_i64, zpl__print_f64")],(),["zpl_snprintf, zpl_bprintf, zpl_asprintf, zpl_fprintf"])
# ---------------------------------------------------------------- files
p("C15","Memory stream behaves as a file over a byte buffer",
  "A memory stream behaves as a byte file: reads return exactly the bytes at the cursor bounded by the stream's size, writes replace bytes at the cursor and extend writable-growing streams, seek and tell agree, and the reported size and contents are what the history of writes implies. Read-only streams reject writes and never alter the caller's buffer, fixed-size streams never write beyond it, and cloned streams never touch the original.",
  ["histories","configurations"],"all open/read/write/seek/truncate histories over every stream mode and size","Tests do one write-then-read of a literal.",
  ["code/source/core/file_stream.c","code/header/core/file_stream.h"],[("memory file ops","zpl__memory_file_read/write/seek")],[("cursor,cap","stream position and size","zpl__memory_fd")],["zpl_file_* on a stream"])
p("C16","On-disk files read back what the history of operations wrote",
  "For each open mode, an on-disk file behaves as a byte sequence with a cursor: modes create, truncate, append and permit reading or writing as documented, reads return what earlier writes left, seek, tell, size and truncation agree with them, and whole-file read, write and line helpers round-trip any contents. Failures are reported by the documented error and leave the file unchanged. On a pipe, and on the standard input and output, bytes arrive once and in the order they were written.",
  ["histories","inputs"],"all open/read/write/seek/truncate/close histories in every mode, and all file contents","Tests never operate on on-disk files.",
  ["code/source/core/file.c","code/header/core/file.h"],[("default file ops","zpl__posix_file_*"),("helpers","zpl_file_read_contents, zpl_file_write_contents, zpl_file_read_lines")],(),["zpl_file_* on a path"])
p("C17","Filesystem helpers change exactly the paths they name",
  "Existence and type queries, copy, move, remove, directory creation (recursive too) and directory listing reflect and change the filesystem as named: a copy equals its source byte for byte and honours fail-if-exists, a move preserves contents and removes the source, a listing names exactly the entries present, and a failing call reports failure and leaves other paths untouched. Path helpers split any path into the parts that reassemble it.",
  ["histories","inputs"],"all sequences of operations over small trees of files and directories","Tests never touch these helpers.",
  ["code/source/core/file_misc.c","code/header/core/file_misc.h"],[("fs wrappers","zpl_fs_*"),("listing","zpl_path_dirlist, zpl_dirinfo_*"),("path splitting","zpl_path_*")],(),["zpl_fs_*, zpl_path_*"])
p("C18","TAR archives round-trip and unpacking stays inside the target",
  "Packing any set of files and unpacking the archive yields the same names, sizes and contents, in order, and a directory packed and unpacked elsewhere reproduces the tree. Reading an archive that is truncated or corrupt reports an error, and unpacking never creates or writes a path outside the destination directory whatever names the archive holds.",
  ["inputs","fault_sequences"],"all sets of names and contents, all truncations and corruptions, all hostile entry names","No test exercises TAR.",
  ["code/source/core/file_tar.c","code/header/core/file_tar.h"],[("header format","zpl_tar_pack"),("walk and checksum","zpl_tar_unpack"),("directory target","zpl_tar_default_unpack_file")],(),["zpl_tar_pack, zpl_tar_unpack*"])
# ---------------------------------------------------------------- algorithms
p("C19","Sorting, searching, reversing and shuffling preserve elements",
  "Every sort (comparison and radix, all widths) returns a permutation of its input in non-decreasing order of the given key, binary search returns the index of a matching element exactly when one exists, reversing yields the mirror image, and shuffling yields a permutation; none touches memory outside the range.",
  ["inputs"],"all element counts, sizes, value distributions (duplicates, extremes) and comparators","No test exercises sorting.",
  ["code/source/core/sort.c","code/header/core/sort.h"],[("quick/insertion sort","zpl_sort"),("radix sort","ZPL_RADIX_SORT_PROC_GEN"),("search","zpl_binary_search")],(),["arrays before/after"])
p("C20","Random generation is reproducible and stays in range",
  "Two generators in the same state produce the same sequence, integer ranges return only values within the inclusive bounds and can reach both ends, floating ranges stay within their bounds, per-call state advances so successive values differ, and the unique generator repeats no value within its period.",
  ["inputs","histories"],"all generator states and ranges","No test exercises random.",
  ["code/source/core/random.c","code/header/core/random.h"],[("noise based generator","zpl_random_gen_*"),("range mapping","zpl_random_range_*")],[("offsets/value","generator state","zpl_random")],["zpl_random_*"])
p("C21","Checksums and hashes match their published definitions; base64 round-trips",
  "Adler-32, CRC-32, CRC-64, FNV-1/1a (32 and 64 bit) and Murmur (32 and 64 bit) return the value of their published definition for every input of every length. Base64 encoding yields the standard padded text, decoding it gives back the original bytes, and malformed text is refused without touching memory outside the text.",
  ["inputs"],"all byte strings and lengths (block boundaries and tails included) and seeds","Tests hash one literal per function.",
  ["code/source/hashing.c","code/header/hashing.h"],[("hash loops and tails","hashing.c"),("base64","zpl_base64_encode/decode")],(),["return values"])
p("C22","Regular expressions match exactly the language of the pattern",
  "A compiled pattern finds a match in a text exactly when some substring belongs to the pattern's language (literals, any, sets, escapes, anchors, groups, alternation, greedy and lazy repetition of a single character, set or escape) and reports the leftmost preferred one (first alternative, longest greedy and shortest lazy repetition) with its captures inside it. Invalid patterns are reported as errors and matching never reads outside the text.",
  ["inputs"],"all patterns over the supported operators and all texts","No test exercises regular expressions.",
  ["code/source/regex.c","code/header/regex.h"],[("compile to op list","zpl_re__parse"),("backtracking execution","zpl_re__exec")],(),["zpl_re_compile, zpl_re_match"])
p("C23","Command-line options parse to the values given",
  "Parsing an argument list sets exactly the options present, with the values given (flag, string, integer, float; separated or joined by '='), fills positional arguments in order, and reports every unknown option, missing value, surplus value and flag given a value in the error list, in order. Options not present keep their fallback.",
  ["inputs","histories"],"all registered option sets and all argument lists","No test exercises options.",
  ["code/source/opts.c","code/header/opts.h"],[("argument scan","zpl_opts_compile"),("lookup","zpl__opts_find")],[("entries/positioned/errors","parser state","zpl_opts")],["zpl_opts_*"])
# ---------------------------------------------------------------- documents
p("C24","Document tree stays a well-formed tree under every edit",
  "After any sequence of node insertions, appends, moves, swaps, removals, and typed setters, the document is a tree: children appear in the order the edits imply, every child's parent link names the node that contains it, and no node is lost, shared or duplicated. Lookup by name, alias, index and path query finds exactly the node the document holds at that place.",
  ["histories"],"all edit histories over bounded trees, all sibling positions and all query paths","Tests build one tree and query a few paths.",
  ["code/source/adt.c","code/header/adt.h"],[("node arrays and parent links","zpl_adt_alloc_at, zpl_adt_move_node_at, zpl_adt_remove_node"),("query","zpl_adt_query")],[("nodes,parent,name,type","tree","zpl_adt_node")],["zpl_adt_*"])
p("C25","JSON text parses to the document it denotes",
  "Any document in the supported JSON dialect (comments, unquoted, single-quoted and multi-line names and strings, bare top-level objects) parses to the tree it denotes, with numbers, strings, names, constants and nesting intact, regardless of whitespace and layout. Malformed text is reported with an error code rather than accepted or read past its end, and nothing is leaked.",
  ["inputs"],"all documents in the dialect and all truncations and mutations of them","Tests parse a few dozen literals.",
  ["code/source/parsers/json.c","code/source/adt.c"],[("recursive descent","zpl__json_parse_object, zpl__json_parse_value"),("numbers","zpl_adt_parse_number")],(),["zpl_json_parse result tree and error"])
p("C26","Writing a document as JSON and parsing it back gives the same document",
  "For any document that was parsed from JSON, or built from typed setters with representable values, writing it and parsing the text yields a document with the same structure, names, types and values (real numbers to six decimals), and writing that one again yields the same text up to spacing. Writing to a file puts the same text behind what the file holds, and a failed write is reported.",
  ["inputs","histories"],"all documents of bounded shape, all value kinds, number forms, string contents and writing styles","Tests compare one or two literals.",
  ["code/source/parsers/json.c","code/source/adt.c"],[("writer","zpl_json_write, zpl__json_write_value"),("number printing","zpl_adt_print_number")],(),["zpl_json_write, zpl_json_write_string"])
p("C27","CSV text and tables round-trip",
  "A CSV text parses to one column per field position with every field's text intact (quoted fields may hold delimiters, quotes and newlines), rows of unequal length are reported as errors, and with a header row the first record names the columns. Writing a parsed table and parsing it again yields the same table. Writing to a file gives the same text, and a failed write is reported.",
  ["inputs"],"all tables of bounded shape, all field contents, delimiters and line endings","Tests parse about ten literals.",
  ["code/source/parsers/csv.c","code/header/parsers/csv.h"],[("field scanner","zpl_csv_parse_delimiter"),("writer","zpl_csv_write_delimiter")],(),["zpl_csv_*"])
p("C28","URI queries decode to the fields they encode",
  "A query text decodes to its origin and its key/value fields in order, with percent-escapes and plus signs decoded and bare keys kept, and writing the fields back and decoding again yields the same origin and fields. Writing to a file gives the same text, and a failed write is reported. Malformed escapes are handled without reading outside the text.",
  ["inputs"],"all field lists and byte contents, all malformed queries","Tests decode about eight literals.",
  ["code/source/parsers/uri.c","code/header/parsers/uri.h"],[("decoder","zpl_uri_parse"),("encoder","zpl_uri_write")],(),["zpl_uri_parse, zpl_uri_write"])
# ---------------------------------------------------------------- concurrency
p("C29","Every queued job runs exactly once, on one worker, in priority-queue order",
  "Each job accepted into the job system is executed exactly once with its own data, a full queue refuses a job without running it, and jobs of one priority are handed to the workers in the order they were enqueued. A worker runs one job at a time, and the done, empty and full queries tell the truth: done means no accepted job is still waiting or running.",
  ["schedules","histories"],"all interleavings of the main thread and workers, all enqueue/process/query histories, worker counts, queue sizes and priorities","No test exercises jobs; the example runs one free schedule.",
  ["code/source/jobs.c","code/header/jobs.h"],[("worker status hand-off","zpl__jobs_entry, zpl_jobs_process"),("bounded ring queues per priority","zpl_jobs_enqueue_with_priority")],[("workers[].status","hand-off state","zpl_jobs_system"),("queues","pending jobs","zpl_jobs_system")],["job callbacks, zpl_jobs_done/empty/full"],"interposed scheduling points in the harness build; none in the source")
p("C30","Job system always makes progress and shuts down",
  "If processing is called repeatedly and jobs terminate, every accepted job of every priority is eventually started, whatever mix of priorities is waiting, and the system becomes done. Freeing the job system at any moment lets running jobs end, stops all workers and returns.",
  ["schedules","histories"],"all fair schedules, all initial queue contents, dispatch-counter values and worker states","Progress over all schedules cannot be sampled by running once; no test exercises jobs.",
  ["code/source/jobs.c"],[("priority counter and chance","zpl_jobs_process"),("termination flag","zpl_jobs_free")],[("counter","dispatch rounds","zpl_jobs_system")],["return of zpl_jobs_free, zpl_jobs_done"],"interposed scheduling points in the harness build; none in the source")
p("C31","Barrier releases nobody before everyone has arrived",
  "No participant passes a barrier round before all participants of that round have reached it, and once all have reached it every one of them passes; this holds for any number of consecutive rounds on the same barrier.",
  ["schedules"],"all interleavings, participant counts and rounds","No test exercises the barrier.",
  ["code/source/threading/sync.c","code/header/threading/sync.h"],[("reach and wait, release","zpl_sync_reach, zpl_sync_reach_and_wait, zpl_sync_release")],[("current,waiting,target","round state","zpl_sync")],["order of arrivals and departures"],"interposed scheduling points in the harness build")
p("C32","Mutexes exclude, semaphores count, threads run once and join",
  "At most one thread holds a mutex, try-lock never blocks and succeeds only when the lock is available; a semaphore lets exactly as many waits through as were posted. A started thread runs its function exactly once with its data, reports running until it ends, and joining returns only after it has ended with its return value available.",
  ["schedules"],"all interleavings of lock/unlock/try/post/wait/start/join by several threads","No test exercises threads.",
  ["code/source/threading/mutex.c","code/source/threading/sem.c","code/source/threading/thread.c"],[("pthread/posix wrappers","threading/*.c")],[("is_running,return_value","thread state","zpl_thread")],["order of enter/leave events"],"interposed scheduling points in the harness build")
p("C33","Atomic operations are indivisible and return the previous value",
  "Loads, stores, exchanges, compare-exchanges, fetch-add/and/or and spin locks on 32- and 64-bit and pointer cells act as indivisible steps with the documented return value: concurrent histories are linearizable, no update is lost, and a spin lock admits one holder at a time.",
  ["schedules","inputs"],"all concurrent histories of a few threads and all operand values","No test exercises atomics.",
  ["code/source/threading/atomic.c","code/header/threading/atomic.h"],[("inline assembly / intrinsics","zpl_atomic*_*")],[("value","cell","zpl_atomic32/64/ptr")],["return values of concurrent calls"])
# ---------------------------------------------------------------- misc
p("C34","Linear algebra gives the mathematical result",
  "On inputs small enough to be exact in floating point, vector, matrix, quaternion, rectangle and interpolation operations give exactly the mathematical result in every calling form (fresh or aliased destination, in-place forms, C++ operators), and write nothing beyond it: sums, scalings, dot and cross products, column-major products with (A*B)*v = A*(B*v), transpose, determinant, inverse with A*inverse(A) = I, rotation by quaternions and their matrices, reflection, Hermite and linear interpolation, containment, intersection and partition of rectangles and boxes. Lengths, normalisation, rotations, refraction, slerp, Euler angles, look-at, projections and view-volume tests agree with their geometric definition up to rounding.",
  ["inputs"],"all small integer vectors, matrices, quaternions and rectangles, aliased or not; rotations by any angle about any axis","No test exercises math.",
  ["code/source/math.c","code/header/math.h"],[("component formulas","math.c")],(),["returned components"])
p("C35","Running out of memory fails cleanly",
  "When an allocation is refused at any point inside an operation that documents a failure result - array and string operations, memory streams, document nodes and look-ups, parsing and writing of documents, whole-file reads and path helpers, directory listing and packing, text encoders, duplicated and formatted text, pattern compilation, the heap itself - the call either succeeds with its full result or reports failure by that result; it never crashes, after a failure everything it was given holds what it held before, and nothing it took (blocks or descriptors) is kept. Operations without a failure result (hash tables, rings, buffers, option sets, pools, job queues) are not covered.",
  ["fault_sequences"],"every refused request, alone or with all later ones, in every covered operation history","No test injects allocation failure.",
  ["code/header/essentials/collections/array.h","code/source/core/stringlib.c","code/source/core/file_stream.c","code/source/core/file_misc.c","code/source/adt.c","code/source/parsers/json.c","code/source/parsers/csv.c","code/source/parsers/uri.c","code/source/regex.c","code/source/core/memory.c"],[("checked growth","zpl__array_set_capacity, zpl_string_make_space_for, zpl__memory_file_write"),("error codes","zpl_json_parse, zpl_csv_parse_delimiter, zpl_uri_parse, zpl_re_compile")],(),["results, contents and live blocks under a refusing allocator and a refusing malloc"])
p("C36","Scalar mathematics rounds, wraps and converts correctly",
  "floor, ceil and round (32- and 64-bit) give the nearest whole number in their direction for every finite number that fits the conversion, remainder and mod leave the mathematically determined rest with the sign they document, angle differences lie in half a turn either way, sign, clamp, min, max and interval tests agree with the order of the numbers, elementary functions agree with their tabulated values; every half float widens to the float of the same value and back to itself, and every float narrows to a nearest half.",
  ["inputs"],"all numbers: whole, negative, tiny, large; all 65536 halves; all floats","No test exercises math.",
  ["code/source/math.c","code/header/math.h"],[("rounding","zpl_floor, zpl_ceil, zpl_round, zpl_mod"),("half floats","zpl_half_to_float, zpl_float_to_half")],(),["returned numbers"])
p("C37","Sockets deliver what was sent",
  "Over a connected stream pair the bytes received are exactly the bytes sent, in order, and each datagram arrives whole with its sender's address; bind, listen, accept, connect, readiness polling and close report success and failure truthfully.",
  ["histories"],"all open/send/receive/close histories over loopback, message sizes and modes","No test exercises sockets.",
  ["code/source/socket.c","code/header/socket.h"],[("socket wrappers","zpl_socket_*")],(),["zpl_socket_*"])
p("C38","Child processes are controlled and observed faithfully",
  "A started child process receives what is written to its input, its output is readable in full, and joining reports its exit status.",
  ["histories"],"all spawn/write/read/join histories","No test exercises processes.",
  ["code/source/process.c","code/header/process.h"],[("pipes and spawn","zpl_pr_*")],(),["zpl_pr_*"])
p("C39","Virtual memory regions keep their pages and content, and give back the rest",
  "A region obtained from zpl_vm_alloc is zeroed, page aligned and shares no page with any other; trimming keeps exactly the named pages with their content and returns every other page to the system; purging leaves zeroed pages and says so; freeing returns all pages; a refused request is reported and changes nothing. No call touches pages outside the regions it names.",
  ["histories","faults"],"all histories of allocate, write, trim, purge and free over several regions, with the system refusing at any point","No test touches the virtual memory functions.",
  ["code/source/core/memory_virtual.c","code/header/core/memory_virtual.h"],[("regions","zpl_vm_alloc, zpl_vm_trim, zpl_vm_purge, zpl_vm_free")],(),["page contents, page identities, mapped pages"])
p("C40","Clocks tell the time in every zone, and sleeping lasts as long as asked",
  "zpl_time_utc_ms counts the milliseconds since 1601-01-01 UTC; zpl_time_tz_ms is that plus the offset the time zone has at that instant, through every daylight-saving rule; zpl_time_rel_ms is the time passed since the first question and never falls back; the variants in seconds agree; the two epochs convert into one another without loss; zpl_sleep_ms and zpl_sleep last at least what was asked, also when signals cut the system's sleep short, and not a millisecond longer than the system makes them.",
  ["inputs","schedules"],"all instants since 1970, all zones with rules, all uptimes, all lengths and all places where a signal may come","No test looks at the clock.",
  ["code/source/core/time.c","code/header/core/time.h"],[("clock readings and sleep","zpl_time_*, zpl_sleep_ms")],(),["returned times, time slept"])
p("C41","Environment, command output and loaded libraries are what the system has",
  "The environment is a finite map that set and unset change one name at a time, the three ways of reading agree and copies handed out stay as they were; a command's output arrives byte for byte, cut at the length of the buffer with nothing written beyond, and leaves no child and no descriptor behind; a library is found again while it is loaded, keeps its state until the last handle is given back, its own functions are the ones found, and missing libraries or functions are reported; the processor counts agree with the system.",
  ["histories","inputs"],"all histories of environment edits and of loading and unloading; all outputs and buffer lengths","No test runs these functions.",
  ["code/source/core/misc.c","code/source/dll.c","code/source/threading/affinity.c"],[("environment and commands","zpl_set_env, zpl_get_env*, zpl_system_command*"),("libraries","zpl_dll_*")],(),["values, output, addresses, children and descriptors"])
p("C42","Bit, byte-order and ordering helpers compute what their names say",
  "Setting, clearing, masking and asking for a bit concern that bit of the 32 alone; swapping the byte order reverses the bytes of a 16-, 32- or 64-bit word; counting bits counts the ones of all 64; the next power of two is the least one not below the number; min, max, clamp, between, absolute value and swap agree with the order of the numbers.",
  ["inputs","histories"],"all words, all bits, all histories of edits","No test calls them beyond a sample.",
  ["code/header/core/misc.h","code/header/essentials/helpers.h"],[("bit helpers","zpl_bit_*, zpl_endian_swap*, zpl_count_set_bits, zpl_next_pow2"),("ordering macros","zpl_min, zpl_max, zpl_clamp, zpl_is_between, ZPL_MASK_SET")],(),["returned words"])
p("C43","Every selection of modules builds, is what was asked for and behaves the same",
  "For every distribution (full, nano, pico, custom) and every set of modules switched on and off that includes what its modules are written with, the library builds as C or C++ at any optimisation, within one translation unit or beside others, static, shared, or used from C++ when built as C. It contains exactly the modules selected - jobs bring threading, removing threading removes jobs, switching off wins -, defines every function its headers declare, and each module gives the results it gives in every other selection.",
  ["configurations"],"all distributions and sets of overrides, languages and kinds of linking","The tests and examples build a handful of selections.",
  ["code/zpl.h","code/header","code/source"],[("distributions and overrides","code/zpl.h"),("declared functions","ZPL_DEF")],(),["modules defined, functions declared and defined, results of each module"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
