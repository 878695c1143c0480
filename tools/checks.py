"""The checks: programs, flavours, bounds."""
_warn = ["-w"]
_common = ["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer"] + _warn
_asan = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
FLAVOURS = {
    # address + undefined-behaviour sanitizers; automatic variables and fresh heap memory hold a pattern
    "asan": {
        "cxx": "g++",
        "lib": _common + _asan + ["-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
        "miniz": ["-fno-sanitize=alignment,shift"],
        # the library's templates are compiled with the harness
        "har": _common + _asan + ["-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
        "raw": _common,
        "link": ["-fsanitize=address,undefined", "-lz"],
    },
}
_zero = [("-ftrivial-auto-var-init=zero" if x.startswith("-ftrivial") else x) for x in FLAVOURS["asan"]["lib"]]
FLAVOURS["zero"] = dict(FLAVOURS["asan"], lib=_zero, har=_zero)
# plain optimised build, as a user has it
FLAVOURS["plain"] = {
    "cxx": "g++", "lib": ["-O2", "-g1", "-DNDEBUG"] + _warn, "har": ["-O1", "-g1"] + _warn, "raw": ["-O1"], "link": ["-lz"],
}
# instrumented for harness/common/sched.cpp, which takes the place of the sanitizer's runtime
_wrapped = ("memcpy memmove memset memcmp memchr strlen strcpy stpcpy strncpy strcat strncat strcmp strncmp strchr strrchr strstr strtol strtoul strtoll strtoull strtod atoi atol "
            "strtok_r vsnprintf vsprintf snprintf sprintf").split()
_tsan = _common + ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + ["-fno-builtin-" + f for f in _wrapped]
FLAVOURS["tsan"] = {
    "cxx": "g++", "lib": _tsan, "har": _tsan, "raw": ["-O1", "-w"],
    "link": ["-Wl," + ",".join("--wrap=" + f for f in _wrapped), "-rdynamic", "-lz", "-lpthread", "-ldl"],
}
CORE = ["common/mc.cpp", "common/alloc.cpp"]


def prog(name, *extra, **kw):
    return dict(name=name, sources=[name + ".cpp"] + CORE + list(extra), **kw)


CHECKS = {}


def check(pid, level, technique, rule, bounds, jobs, **kw):
    CHECKS[pid] = dict(level=level, technique=technique, rule=rule, bounds=bounds, jobs=jobs, **kw)


def std(name, *extra, **kw):
    return [dict(prog=prog(name, *extra), flavour="asan", **kw)]


def huge(name):  # arrays of more than 4 GiB, three at a time
    return [dict(prog=prog(name), flavour="plain", options={"part": "huge"}, shards=3, cpu_limit=600)]


_tensor_bounds = {
    "quick": "14 element types x 3 byte-order arguments x 2 memory orders x all shapes of rank 0-4 with extents 0-3; element counts 0-300, 2^k and 2^k+-1 (k<=14), "
             "65535..262145; all value-alphabet singletons and ordered pairs; all 256 values at every byte position; string lengths 0-130 and up to 100000; "
             "every dictionary length from minimal to +700, around 64 KiB and 128 KiB, up to 3 MiB; arrays of 2 GiB, 4 GiB and 24 bytes more of 13 types",
    "thorough": "as quick, with rank 0-5, extents 0-9 for rank 1-3, counts 0-1100 and 2^k (k<=21), string lengths 0-300, dictionary lengths to +4000; arrays of 4 and 8 GiB, of both byte orders, of more than 2^31 and 2^32 elements",
}
check("C01", "exploration", "bounded-exhaustive enumeration of tensors on the real code, judged by an independent strict NPY decoder",
      "every tensor of the bounded space is saved by the library and decoded by an independent NPY parser; outcomes are the distinct files produced",
      _tensor_bounds, std("c01") + huge("c01"))
check("C02", "exploration", "bounded-exhaustive enumeration of tensors and of array sequences in one stream, saved and loaded by the real code",
      "every tensor of the bounded space is saved and loaded through streams and files and compared bit for bit; every sequence of arrays from a 33-element "
      "alphabet is written to and read from one stream; outcomes are distinct tensors/streams",
      {k: v + "; sequences of 2-%d arrays in one stream over 33 arrays" % (3 if k == "quick" else 4) for k, v in _tensor_bounds.items()}, std("c02") + huge("c02"))
check("C03", "exploration", "bounded-exhaustive enumeration of NPY layouts by an independent encoder (plus files written by NumPy), read by the real code",
      "every file of the bounded layout space, and every file of a corpus written by the real NumPy, is peeked and loaded (from memory and disk) and compared bit for bit; "
      "outcomes are distinct tensors",
      {"quick": "14 types x {v1,v2} x 6 key orders x 300 whitespace layouts; all shapes of rank 0-3 with extents 0-3 x orders; every padding 0-300 at alignments "
                "1/16/64; every header length around 256, 512, 4096, 32768, 65535, 65536, 131072; headers to 48 MiB; ranks to 64; counts 0-300 and to 200000; string widths 0-200; ~1480 NumPy files",
       "thorough": "as quick with rank 0-4, padding 0-3000, ranks to 200, larger NumPy arrays"},
      std("c03", prepare={"corpus": "numpy_corpus.py"}) + huge("c03"))
check("C04", "exploration", "exhaustive enumeration of headers within a bounded number of token/byte edits of valid ones, judged by a lenient reference reader, under two memory fillings",
      "every header of the bounded space is peeked and loaded; the library must throw or report what a reference reader of the literal reads; run twice with different "
      "contents of uninitialised memory, results must agree; outcomes are distinct (accepted description / rejection) results",
      {"quick": "12 base headers: all single token edits (59 tokens, replace/insert/delete/duplicate/swap), all pairs for 2 bases, all single byte substitutions, deletions, 12-character insertions; "
                "all 65536 versions; all v1 length fields; all descriptors of length <=4 over 17 characters; all 1-2 (3) extents from 21 boundary values",
       "thorough": "as quick, with all pairs of token edits for 12 bases, pairs of byte substitutions over 18 characters, descriptors over 23 characters"},
      std("c04", digest="mem") + [dict(prog=prog("c04"), flavour="zero", digest="mem", env={"ASAN_EXTRA": "malloc_fill_byte=0"})])
check("C05", "fault_enumeration", "exhaustive enumeration of every cut point of NPY files, loaded by the real code from streams, files and archives",
      "every prefix (including the whole file) of every file of the bounded space is loaded and peeked; outcomes are distinct (file, before header end / before data end / complete)",
      {"quick": "14 types x 2 byte orders x 2 memory orders x {v1,v2} x 6 shapes, every prefix, from streams (and files, archives for rank <2); all-zero and all-one data; files to 9 KB; files of 70 KB, 300 KB and 1.2 MB cut around every power of two and multiple of a block size",
       "thorough": "as quick, all from files and archives too, and 3000-element files of every type"}, std("c05"))
check("C06", "exploration", "exhaustive enumeration of all type pairs x routes and of all short descriptor strings on the real code",
      "every (stored type, requested type, byte order, shape, order) is loaded through 9 routes; every descriptor string of the bounded space is looked up; outcomes are distinct routes/descriptors",
      {"quick": "14x14 type pairs x 2 byte orders x 8 shapes x 2 memory orders x 9 routes; all byte strings of length <=3, all length-4 strings over 23 characters, all single-byte edits of the 23 descriptors",
       "thorough": "as quick, strings of length 4-6 over 23 characters"}, std("c06"))

NOT_APPLICABLE = {
    "C24": "needs big-endian hardware or an emulator; none is installed, and executions that do not exist cannot be enumerated",
    "C25": "needs an installed system miniz; none is present and nothing can be fetched",
}
check("C07", "exploration", "exhaustive enumeration of shapes x memory orders x all indices of a box around the valid range, on the real code against NumPy's layout formula",
      "for every tensor of the bounded space every index vector of the bounded index space is tried through every access form; outcomes are distinct (tensor, counts) results",
      {"quick": "shapes of rank 0-3 with extents 0-4, rank 4 to 2, rank 5-6 to 1, long axes, 4 shapes above 2^31/2^32 elements; all indices in [-e-2, e+1] per axis ([-e-1, e] from rank 4), 12 extreme values per axis, wrong ranks; "
                "9 ways of obtaining the tensor; 14 types; tensors of all pairs of shapes and orders indexed by turns, assigned and moved in between",
       "thorough": "as quick with extents to 6 (rank 3), 3 (rank 4), 2 (rank 5-6), all [-e-2, e+1]"}, std("c07", cpu_limit=120))
check("C08", "model_checking", "stateless exploration of all operation sequences on real tensors in lockstep with a value model",
      "every sequence of enabled operations up to the depth is executed on a pool of real tensors and on the model; after each the whole pool is compared (values, shape, order, indexing, aliasing); "
      "states are distinct model states, transitions are executed last steps, traces are operation sequences replayed against the implementation",
      {"quick": "2 slots: all sequences of 5 operations for int32, 4 for wstring, boolean, complex128 (incl. save/load, long strings and copies from the tensor's own buffer), 3 for all 14 types; 3 slots: 4 (int32) and 3 (wstring) operations; all shapes of rank 1-3 over 22 boundary extents; each with and without the tensors being looked at between operations",
       "thorough": "one operation more everywhere"}, std("c08"))
check("C09", "exploration", "exhaustive enumeration of the source values of small types and of bit-pattern families of the others, on the real code against the language's own conversion",
      "every value of the bounded space is turned into a boolean in every way and compared with (v ? true : false); outcomes are distinct (type, stored bytes) results",
      {"quick": "all values of 8- and 16-bit integers; for 32/64-bit integers, float and double all patterns of <=3 set bits, their complements, and all 16-bit windows at byte shifts; enums, pointers, class types; "
                "7 ways of filling tensors x 12 starts x 5 sizes x 2 byte orders", "thorough": "as quick, and all 2^32 int32, uint32 and float values"}, [dict(prog=prog("c09", fallback=["-DMC_CORE"]))])
check("C10", "model_checking", "stateless exploration of all operation sequences on both real writers in lockstep with a model, judged by an independent strict ZIP reader",
      "every sequence of writes, rejected writes, closes and looks up to the depth is executed on both writers; at the end both archives must be identical, strictly well-formed and hold exactly the model's "
      "entries; states are distinct model states, transitions executed operations, traces histories replayed against the implementation",
      {"quick": "all sequences of <=6 of 7 operations and <=4 of 12 operations (stored), <=3 of 12 and <=4 of 7 (deflated), unknown methods; all pairs of 42 tensors; names of every length 0-300 and around 65535, all bytes; 0-300 entries",
       "thorough": "one to two operations more; 0-700 entries"}, std("c10"))
check("C11", "model_checking", "stateless exploration of all request sequences on one real reader, each answer compared with a fresh reader's and with the known contents",
      "every sequence of requests up to the depth is put to one reader of each archive (7 archives, 14 kinds of damaged entries); states are distinct (archive, open, last request, answer), "
      "transitions executed requests, traces sequences replayed against the implementation",
      {"quick": "all sequences of <=4 of ~10 requests and <=2 of ~40 requests x 7 archives x both readers; all pairs of readers used alternately",
       "thorough": "<=5 of ~10 and <=3 of ~40 requests"}, std("c11"))
check("C12", "exploration", "bounded-exhaustive enumeration of archive layouts by an independent ZIP writer (plus archives written by NumPy and zipfile), read by the real code",
      "every combination of values of up to k optional header features, every deflate setting of a grid, every directory order, and every archive of a NumPy/zipfile corpus is read; "
      "conforming archives must be read exactly, unsupported ones exactly or refused; outcomes are distinct (entry, read/refused)",
      {"quick": "15 features with 2-7 values, all combinations of 3; 10 levels x 5 strategies x 3 windows x 2 memory levels x 7 flush modes x 4 bodies; 256 methods, 16 flags; all forms of the (ZIP64) end records: extensible data, versions, disk numbers, placeholders; 0-300 entries; ~2900 NumPy/zipfile archives",
       "thorough": "all combinations of 4 features; 0-1000 entries; more than 65535 zipfile entries"},
      std("c12", prepare={"corpus": "numpy_archives.py"}))
check("C13", "fault_enumeration", "exhaustive enumeration of single-byte changes, truncations and blanked blocks of archives, read by the real code under sanitizers",
      "every damage of the bounded space is applied to every archive and every entry is read and peeked by the string reader (and, for a subset of the space, the file reader); each must be exact or refused; "
      "outcomes are distinct (archive, per-entry read/refused) results",
      {"quick": "10 archives of 400-900 bytes (library stored/deflated, ZIP64, extra fields, comments): every byte x 255 values (every second archive: 12 values), every truncation, all blanked blocks of 2-32 (12) bytes and of multiples of 32 and 25 at every position; "
                "2 archives of 10-15 KB at 512-byte block granularity; replaced contents whose checksum differs in each single bit, exchanged bytes",
       "thorough": "as quick with blocks of every length, file reader for everything, archives with seven entries and a nested archive"}, std("c13"))
check("C14", "exploration", "bounded-exhaustive enumeration of contents and of compressed streams (grammar, all short byte strings, damages) on the real code, with zlib as reference",
      "every string of the bounded space is compressed, decompressed by zlib and by the library, and checksummed; every compressed stream of the bounded space is decompressed and must give what zlib gives, or throw where zlib reports an error; "
      "outcomes are distinct contents and distinct error classes",
      {"quick": "all strings of <=12/8/6 over 2/3/4 letters, <=2 bytes; 6 kinds of contents at every size around 32 KiB, 64 KiB, 96 KiB, 1 MiB, 2 MiB; all 65793 streams of <=2 bytes; every (length, distance) symbol at every validity boundary, matches "
                "across the window boundary at every offset; 20000 dynamic-code tables, all run-length sequences of code lengths of a grammar; repetitions around the end of the window; zlib at all settings; 13 small streams: every byte x 255 values, every truncation, blanked blocks",
       "thorough": "strings of <=15/10/8 over 2/3/4 letters; all 16.8M streams of 3 bytes; larger tables; all pairs of flipped bits"}, std("c14"))
_limits = (150, 600) 
check("C15", "exploration", "bounded-exhaustive enumeration of archives around each ZIP limit (the ZIP64 switch-over lowered by a hook, and at its real value), judged by an independent strict ZIP64 reader",
      "every archive of the bounded space is written by both writers, parsed by an independent reader and read by the library; outcomes are distinct archive ends/sizes",
      {"quick": "switch-over lowered to 150 and 600 bytes: all sequences of <=3 entries with 10 (size, compressibility) combinations x methods, second offset / directory offset / directory size at every distance <=40-60 from it; "
                "65534-65537 and 65600 entries; names of 65500-131077 bytes; sparse files with entries at up to 192 GiB; one real archive of more than 4 GiB",
       "thorough": "sequences of 4 entries; up to 200000 entries; 13 real archives around 2, 2.25, 4 GiB, stored and deflated"},
      [dict(prog=prog("c15", libdefs=["-DLIBNPY_VERIF_ZIP64_LIMIT=%d" % n], defs=["-DMC_LIMIT=%d" % n]), flavour="asan") for n in _limits] +
      [dict(prog=prog("c15"), flavour="asan", cpu_limit=120), dict(prog=prog("c15"), flavour="plain", options={"part": "real"}, shards=1, cpu_limit=1200)], disk=True)
check("C16", "fault_enumeration", "exhaustive enumeration of failing, short and interrupted system calls (up to two per run) and of file size limits, injected into the real code",
      "every fault plan of the bounded space is executed for every save and archive history; a normal return must leave exactly the complete file, and must not follow a failed close; outcomes are distinct (subject, calls, reported) results",
      {"quick": "28 saves (sizes around the stream buffer's, up to 24 KB) and 8 archive histories: every single fault, every pair of faults (up to 24 calls) of ENOSPC, EIO, persistent EIO, short (1 byte, half), EINTR at every open/write/seek/close and every rename/remove/truncate/flush/stat; "
                "every file size limit near the ends and buffer boundaries, every 37th elsewhere; 6 unwritable places",
       "thorough": "pairs up to 60 calls, every file size limit, a longer archive"}, std("c16", "common/iofault.cpp"))
check("C17", "fault_enumeration", "exhaustive enumeration of failing, short and interrupted system calls (up to two per run) injected into the real code's reading histories, and of failing user streams",
      "every fault plan of the bounded space is executed for every reading history; each answer must be exact or an exception, exact when nothing failed, and every request must succeed on the same reader once the faults are gone; "
      "outcomes are distinct (history, answered/refused pattern)",
      {"quick": "27 histories of load/peek on files and streams (up to 24 KB) and 12 histories of open, reads and peeks on archives: every single fault and every pair (up to 36 calls) of EIO, persistent EIO, premature end, short (1 byte, half), EINTR at every "
                "open/read/seek/close/stat; every read cut short after any number of bytes (files beyond 520 bytes: near the ends) and the next call failing; user streams in pieces of 9 sizes that end or throw at every position, under 3 exception masks",
       "thorough": "pairs up to 70 calls, streams of every type"}, std("c17", "common/iofault.cpp"))
check("C22", "exploration", "bounded-exhaustive enumeration of inputs x all entry points of the public interface on the real code, compared with each other",
      "for every input of the bounded space all equivalent calls are made and must give the same bytes, the same tensor, or all throw; outcomes are distinct results",
      {"quick": "headers to 70 KB, arrays to 35000 elements, an archive of 700 entries; 28-36 ways of writing an array, 6-22 of writing an archive, 29 of reading and 18 of peeking, 5 of opening an archive; 14 types x 19 shapes x 2 memory orders x 3 byte orders; wrong types; every truncation and 23 values of every byte of a file "
                "of each type; every truncation and 12 values of every byte of 4 archives; 6 unusable paths; 9 path spellings; a use that does not compile is a violation",
       "thorough": "shapes to rank 4, three damaged files per type"}, [dict(prog=prog("c22", "c22_1.cpp", "c22_2.cpp", fallback=["-DMC_CORE"]))])
check("C20", "exploration", "bounded-exhaustive enumeration of custom tensor types x elements x shapes x orders, and of all 2- and 3-way splits of value buffers, on the real code",
      "every custom tensor of the bounded space is saved, archived and loaded through every route and compared with the built-in type; every split of a value buffer is transferred piecewise; outcomes are distinct files and split kinds",
      {"quick": "8 custom types (list, move-only blocks, raw bytes with virtual members, wrapper, derived, padded matrices of either order, scalar) x 8 element types x 22 shapes x 2 memory orders x 3 byte orders; members that throw at every point; "
                "all 2- and 3-way splits (with empty parts) of 9 elements of all 14 types, splits of 1000 and 5000 elements around powers of two; destinations holding strings of 0-39 elements",
       "thorough": "shapes to rank 4, 4-way splits of 14 elements"}, [dict(prog=prog("c20", "c20_1.cpp", fallback=["-DMC_CORE"]))])
check("C19", "exploration", "bounded-exhaustive enumeration of locales x operations and of stream formatting states x operations on the real code, against the results in the classic locale",
      "every operation is performed under every locale, every archive history under every triple of locales, every save/load on streams in every formatting state; results must be those of the classic locale and a fresh stream, the state unchanged; "
      "outcomes are distinct results",
      {"quick": "~32 locales (14 synthetic with grouping, separators, boolean names, character classes, number printing/parsing; 8 of the C library, as C++ and as C locale) x ~1300 operations; triples of 6 locales over an archive's life; 6 arrays x all pairs of 15 format flags, "
                "x locales x width x fill x precision x masks, x 8 masks x 15 offsets x 5 lengths of trailing data; all triples of arrays in one stream; truncated files under 8 masks",
       "thorough": "triples of all locales, triples of flags, 20 arrays, every cut point"}, std("c19", prepare={"locales": "locales.py"}))
check("C21", "fault_enumeration", "exhaustive enumeration of crash points of the real writer (processes that die at a write, every torn write, every bounded set of lost blocks), each leftover read by the real readers",
      "the real sequence of writes of every history is recorded; every leftover of the bounded space is opened and every entry read: exact or refused, and refused as a whole unless complete; traces are leftovers of processes that really died, "
      "outcomes are distinct leftovers",
      {"quick": "16 histories (0-12 entries, 22 bytes to 10 KB, stored and deflated, all-zero contents, alike entries, nested archives), some left to the destructor or over an old archive; death at every write call after 0, 1, 2, half, all but one, all of its bytes; "
                "every write torn at every byte; blocks of 32, 64, 512, 4096 bytes: every length and every set of lost blocks (<=10-12 blocks), sets of <=2 lost or kept and all ranges beyond",
       "thorough": "30 histories to 50 KB, all variants, every set of lost blocks up to 16, sets of 3 beyond, at every stage"},
      std("c21", "common/iofault.cpp") + [dict(prog=prog("c21", "common/iofault.cpp", libdefs=["-DLIBNPY_VERIF_ZIP64_LIMIT=100"]), flavour="asan")])
check("C18", "model_checking", "stateless exploration of thread interleavings of the real code under a controlled scheduler, with a happens-before race detector",
      "every set of operations of the bounded space is performed by as many threads on objects of their own, the real code switching threads only where the schedule says; no access of memory may race (vector clocks over all memory that is not a thread's own, "
      "standard streams excepted), nothing may deadlock, every answer must be the operation's answer alone; states are distinct schedules, transitions scheduling points passed, traces schedules executed on the implementation",
      {"quick": "2 threads: all ordered pairs of ~70 operations (19 of them refusals), both orders, every schedule with 1 preemption (same operation twice: 2) at a synchronisation operation on a shared object or a system call (up to 30, same operation: 400), "
                "1 preemption at each of the outermost function entries (up to 20, same operation: 800); a quarter of the pairs as 3 threads and as 2 threads with 2 operations each; the same under a global locale of the program's own, with 2 preemptions where the state of the process (locale, directory, mask, environment) changes",
       "thorough": "2 preemptions (up to 1000, same operation: 20000 schedules), 200 (4000) function entries; all pairs as 3 threads and as 2 threads with 2 operations"},
      [dict(prog=dict(name="c18", sources=["c18.cpp", "raw:common/mc.cpp", "raw:common/sched.cpp"], fallback=["-DMC_CORE"]), flavour="tsan")])
check("C23", "model_checking", "stateless exploration of all sequences and interleavings of library operations in real processes, each answer compared with a freshly executed process's",
      "every operation of the alphabet is performed alone in a freshly executed process, twice, under different clocks, environments and paths; then every history of the bounded space in a process forked from an unused one (the clock jumping between operations); "
      "states are distinct histories, transitions executed steps, traces histories replayed against the implementation",
      {"quick": "all sequences of <=3 (under the sanitizers: <=2) of 55 operations (19 of them refusals), all interleavings of the steps of every pair with at least one multi-step operation, each operation 300 times followed by every other, a walk through all pairs; each operation in 19 states of the program (errno, rounding, closed descriptors, an exception on its way, ...); uninitialised memory filled with two patterns, and left as it is",
       "thorough": "a quarter of the sequences of 4; 1100 repetitions"},
      [dict(prog=prog("c23", fallback=["-DMC_CORE"]), flavour="asan", digest="mem"), dict(prog=prog("c23", fallback=["-DMC_CORE"]), flavour="zero", digest="mem", env={"ASAN_EXTRA": "malloc_fill_byte=0"}),
       dict(prog=prog("c23", fallback=["-DMC_CORE"]), flavour="plain", options={"depth": "3"})])
