#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
H, N, Z, D, T, ZP, M = ("include/npy/npy.h", "src/npy.cpp", "src/npz.cpp", "src/dtype.cpp",
                        "src/tensor.cpp", "src/zip.cpp", "src/miniz/miniz.cpp")

p("C01", "A saved NPY file is valid and describes exactly the tensor that was saved",
  "For every supported element type, byte order, memory order and shape, the bytes produced by saving a tensor form a valid NPY file: correct magic and version, a header length field that matches the header actually present, a newline-terminated header whose end is 64-byte aligned, and a dictionary that names the tensor's descriptor, order and shape. An independent implementation of the NPY format that decodes these bytes obtains the same element type, byte order, memory order, shape and elements, bit for bit, and finds no bytes left over.",
  ["inputs"], "all 14 element types x {native, little, big} x {C, Fortran} x shapes (any rank, any extents, including empty, scalar and very long shapes) x element values",
  "The tests compare one 5x2x5 tensor per type against a golden file, little-endian except for int32; no test has a header over 128 bytes, a big-endian complex or string tensor, an empty tensor, or more elements than one I/O buffer.",
  [H, D, T], [("write_npy_header", H), ("npy::save(stream)", H), ("write_values<T> specialisations", D), ("tensor<std::wstring>::dtype", H), ("to_dtype", D)],
  observe=["bytes in the output stream / file"])

p("C02", "Saving a tensor and loading it back returns the same tensor",
  "Loading what was saved returns a tensor with the same element type, shape, memory order and bit-identical elements (strings up to the format's trailing-NUL padding), whether it goes through a stream, a file, or the tensor's own save/load members, and in whichever byte order it was saved. Loading consumes exactly the bytes of that one array, so several arrays written one after another to the same stream can be loaded one after another.",
  ["inputs", "histories"], "all element types x byte orders x memory orders x shapes x values; all sequences of arrays in one stream",
  "Tests only ever read golden files or write to be compared with golden files of one shape; no test saves several arrays to one stream, or round-trips NaN payloads, embedded NULs, empty tensors or large tensors.",
  [H, D, N, T], [("tensor<T>::load / save", H), ("read_values / write_values", D), ("read_npy_header", H)],
  observe=["tensor returned by load", "stream position after load"])

p("C03", "Every NPY file laid out as NumPy writes it is read as the format defines",
  "Given any NPY file of format version 1.0 or 2.0 with a supported descriptor, loading returns exactly the type, byte order, memory order, shape and elements that the format defines, whatever the order of the dictionary keys, the amount of whitespace and padding, the length of the header, or the byte order of the data. Peeking at the header reports the same description as loading, and does so from the header alone.",
  ["inputs"], "all valid headers (key orders, whitespace, padding, header lengths across the 1- and 2-byte length boundaries, versions 1.0/2.0) x all descriptors x shapes",
  "The golden files all come from one NumPy version: one key order, version 1.0, headers of 64 to 128 bytes. Version 2.0, other key orders and headers over 255 bytes are never read.",
  [H, N, D], [("read_npy_header", H), ("header_info(dictionary)", N), ("from_dtype", D), ("peek", N)],
  observe=["header_info returned by peek", "tensor returned by load"])

p("C04", "A malformed or unsupported NPY header is rejected, never misread",
  "If the magic, version, dictionary syntax, descriptor, order flag or shape in an NPY header is malformed, missing, unsupported or too large to represent, then loading or peeking throws an exception. Whenever a header is accepted, what is reported is what its dictionary literally says; no input makes the library read or write out of bounds, use uninitialised values, or run without end.",
  ["inputs"], "all headers within a bounded number of byte or token edits of a valid one, all short descriptors, all magic/version values, all shapes with overflowing or negative extents",
  "No existing test feeds a malformed header; the parser's own checks are assertions that the tested build compiles out.",
  [N, H, D], [("header_info(dictionary) and its token readers", N), ("read_npy_header", H), ("from_dtype", D), ("tensor<T> size computation", H)],
  observe=["exception / header_info", "sanitizer reports"])

p("C05", "A truncated NPY file is never returned as a complete tensor",
  "Whenever an NPY file or stream ends before the last byte that its header promises, at any byte position, loading it throws an exception instead of returning a tensor whose missing elements are made up. Peeking throws whenever the header itself is cut short, and a file that is cut exactly at its end loads normally.",
  ["inputs", "crash_points"], "every prefix of every NPY file (all types, byte orders, memory orders, small shapes), as a stream, a file on disk, or an entry of an archive",
  "No existing test loads a truncated file; the cut position is a quantifier over every byte.",
  [H, D, N], [("read_values end-of-stream handling", D), ("read_npy_header", H), ("tensor<T>::load", H)],
  observe=["exception vs tensor"])

p("C06", "Descriptors map one-to-one to element types and a wrong type is refused",
  "Each supported (element type, byte order) pair has exactly one NPY descriptor and converting there and back is the identity; any other descriptor is refused rather than mapped to some type. Loading a tensor of one element type from an array of another always throws, for every pair of types, byte orders and sources (file, stream, archive).",
  ["inputs"], "all 14x14 type pairs x byte orders x sources; all descriptor strings up to a bounded length",
  "Tests try one mismatching pair (float from uint8) and never an unknown descriptor.",
  [D, H, T, N], [("dtype tables / from_dtype / to_dtype", D), ("dtype check in tensor<T>::load", H), ("tensor<T>::get_dtype", T)],
  observe=["to_dtype/from_dtype results", "exception from load"])

p("C07", "Indexing follows NumPy's layout, negative-index and bounds rules",
  "For every shape, memory order and index, element access addresses exactly the buffer element NumPy would address (row-major or column-major strides, negative indices counting from the end), so distinct indices address distinct elements and together they cover the buffer. An index with the wrong number of components or any component outside [-extent, extent) throws and touches no memory.",
  ["inputs"], "all shapes up to a rank/extent bound x both orders x all index tuples in and just outside range x every access form (variadic, vector, get, set; const and mutable)",
  "Tests index one 3x4x5 Fortran tensor with in-range non-negative indices, plus one wrong-arity and one out-of-range case.",
  [H], [("ravel overloads", H), ("get_ravel_strides", H), ("operator(), get, set", H)],
  state=[("ravel strides", "per-axis strides in iteration order", H)], observe=["address/value of the accessed element", "exception"])

p("C08", "Tensors are independent values whose element count always matches their shape",
  "After any sequence of constructions, copies, moves, assignments, bulk copies and element writes, every live tensor's shape, memory order, element type and elements are those a simple value model predicts: copies never alias, and the number of elements equals the product of the extents. A bulk copy of the wrong length throws and leaves the tensor unchanged.",
  ["histories"], "all operation sequences up to a depth over several tensors, element types, shapes and orders",
  "Tests copy tensors incidentally and check only that wrong-length copies throw, not that the tensor is unchanged or that copies do not alias.",
  [H], [("copy/move constructors and assignments", H), ("copy_from / move_from", H), ("get_size", H)],
  observe=["shape/size/values/data/begin/end of every tensor"])

p("C09", "The boolean element behaves like bool and stores exactly 0 or 1",
  "Constructing or assigning the byte-sized boolean from any value gives true exactly when the language's own bool conversion of that value does, construction and assignment agree, and the stored byte is 1 or 0. Reading it back converts to that same truth value, and boolean tensors survive a save/load byte for byte.",
  ["inputs"], "all values of 8- and 16-bit integers, boundary values of wider integers, special floating-point values, enums and pointers; every stored byte",
  "Tests only build booleans from the bool results of comparisons.",
  [H, D], [("struct boolean constructors, assignment and conversion", H), ("read_values/write_values for boolean", D)],
  observe=["boolean::value", "bool conversion"])

p("C10", "Any sequence of archive writes yields a valid ZIP of exactly those arrays",
  "After any sequence of writes, rejected writes and closes, once the writer is closed or destroyed the archive is a well-formed ZIP file (consistent local headers, directory, sizes, checksums and offsets) that an independent ZIP reader opens and that contains exactly the accepted arrays, in order, under their names with '.npy' ensured, each a valid NPY file of the tensor written. Writes after close throw and change nothing, closing twice is harmless, and the in-memory and on-disk writers produce identical bytes.",
  ["histories", "inputs"], "all operation sequences up to a depth x names x tensors x {stored, deflated} x byte orders x both writers; entry counts, name lengths and sizes across their field boundaries",
  "Tests write one fixed list of three arrays and compare with one golden file; they never check a close/write/close history, a failing write, duplicate names, or many entries.",
  [Z, H, ZP], [("write_file / close", Z), ("local header, central directory and end record writers", Z), ("writer state flag", Z)],
  state=[("closed flag", "whether the directory has been written", Z), ("entry list", "entries accepted so far", Z)], observe=["archive bytes", "exceptions"])

p("C11", "An archive reader's answers depend on the archive, not on earlier requests",
  "For any archive and any sequence of requests (list keys, contains, peek, read, by full name or without '.npy', existing or missing, right or wrong type, intact or damaged entry), each request gets the answer it would get from a freshly opened reader: every intact entry reads back exactly the tensor written. Keys are the sorted names in the archive, a name is contained exactly when it is one of them, and a missing or mistyped request throws without disturbing later ones.",
  ["histories", "inputs"], "all request sequences up to a depth over archives with several entries, both readers, stored/deflated, including a damaged entry and requests after closing",
  "Tests perform each kind of request once in a fixed order; no test continues to use a reader after a failed request.",
  [Z, H], [("read_entries / read_file", Z), ("reader key list and entry map", Z), ("stream repositioning", Z)],
  state=[("input stream state", "position and error bits shared by all requests", Z)], observe=["returned tensors/headers/keys/exceptions"])

p("C12", "Archives written by NumPy and other ZIP writers are read correctly",
  "Any NPZ archive that NumPy (or a ZIP tool using stored or deflated entries of known size) writes is read with the right keys and the right array for every entry, whatever optional header content it uses: ZIP64 extra fields in local or central headers, other extra fields, entry comments, timestamps, attributes, or any valid deflate encoding. Archives using features the library does not support are refused with an exception, never read incorrectly.",
  ["inputs", "configurations"], "combinations of optional ZIP header features x compression methods x entry counts, from a reference ZIP writer and from NumPy itself",
  "Tests read two archives written by one NumPy version plus two large ones; extra fields other than NumPy's, comments and orderings never occur.",
  [Z, ZP], [("read_local_header / read_central_directory_header", Z), ("ZIP64 extra field reader", Z), ("end-of-directory reader", Z)],
  observe=["keys", "tensors read", "exceptions"])

p("C13", "A damaged archive never yields wrong data",
  "If any single byte of an archive is changed to any other value, a block of it is blanked, or the archive is cut short anywhere, then every read of an entry either returns exactly the original array or throws. No such damage makes the reader read out of bounds, allocate without bound, or run without end.",
  ["inputs", "fault_sequences"], "every byte position x all 255 other values, every truncation, every blanked block, over stored and deflated archives from several writers",
  "No existing test reads a damaged archive (one opens a non-archive).",
  [Z, ZP, M], [("CRC check and local/central cross-check", Z), ("inflate error handling", ZP)],
  observe=["tensor or exception per entry", "sanitizer reports"])

p("C14", "Compression is lossless, interoperable, and rejects corrupt streams",
  "For every byte string, compressing then decompressing returns it unchanged, the compressed form is a valid raw DEFLATE stream that an independent inflater decodes to the same bytes, and the checksum equals the standard CRC-32. Every valid DEFLATE stream (any block types, window distances and match lengths, any size) decompresses to the right bytes, and an invalid or truncated stream throws without overrunning memory or hanging.",
  ["inputs"], "all strings up to a length over a small alphabet; all (match length, distance) classes; sizes across internal buffer boundaries; streams from a reference encoder at all levels/strategies; all truncations and single-byte corruptions of small streams",
  "Tests compress three small arrays and two regular large ones, check one CRC value, and never decompress a damaged stream.",
  [ZP, M], [("npy_deflate / npy_inflate chunk loops", ZP), ("npy_crc32", ZP), ("tdefl / tinfl", M)],
  observe=["npy_deflate/npy_inflate/npy_crc32 results, also through archives"])

p("C15", "Archives beyond the classic ZIP limits are written and read correctly",
  "When an entry's size or offset, the directory's size or position, or the number of entries exceeds what the classic ZIP fields can hold, the archive switches to ZIP64 records such that an independent ZIP reader and the library itself find every entry with its right size, offset and contents. No size, offset or count is ever silently truncated; a name that cannot be represented is refused.",
  ["inputs", "configurations"], "all combinations of (uncompressed, compressed, offset) below/at/above the switch-over; entry counts around 65535; name lengths around 65535",
  "Tests never exceed 8 MB or three entries, so no ZIP64 record is ever written by the test suite.",
  [Z, ZP], [("ZIP64 extra field writer/reader and length computation", Z), ("end of central directory", Z), ("64-bit sizes through write_file and crc", Z)],
  observe=["archive bytes via an independent parser", "library reader"], hook="a define that lowers the ZIP64 switch-over so that it is reached with small archives")

p("C16", "A save that returns normally has written the complete file",
  "If a write to disk fails at any point (no space, I/O error, failure on close, or a file that could not be opened), saving to a path, or closing an archive being written to a path, throws; short or interrupted writes are continued transparently. Hence whenever these calls return normally, the file holds every byte.",
  ["fault_sequences", "inputs"], "every write/close call of a save or archive history x {ENOSPC, EIO, short write, EINTR}, up to two faults per run",
  "Tests inject no I/O faults; the only error case is a path in a missing directory.",
  [H, Z], [("npy::save(path)", H), ("npzfilewriter::close and destructor", Z)],
  observe=["file contents", "exception"])

p("C17", "Reading under I/O faults gives the right data or an exception",
  "Whatever the sequence of short, interrupted or failing reads the operating system answers with, loading an array or reading an archive from disk either returns exactly the stored data or throws; short and interrupted reads alone never change the result. After a failed read on an open archive, once the fault is gone the same request succeeds.",
  ["fault_sequences"], "every read/seek call x {EIO, premature end of file, short read of each size class, EINTR}, up to two faults per run",
  "Tests inject no read faults.",
  [H, N, Z, D], [("stream state checks after reads", D), ("archive reader stream repositioning", Z)],
  observe=["tensor/exception"])

p("C18", "Independent operations in different threads do not interfere",
  "Threads that each work on their own tensors, streams, files and archives get exactly the results they would get running alone, under every interleaving, and no two of them access the same memory without synchronisation.",
  ["schedules"], "all interleavings, at function and shared-memory-access granularity, of 2-3 threads each performing 1-2 library operations, up to a preemption bound; data-race freedom over all pairs of operations",
  "The tests are single-threaded.",
  [N, D, ZP, H, M], [("absence of shared mutable state in header parsing, descriptor lookup, compression", N), ("read-only tables", D)],
  state=[("scratch buffer / lookup tables with static storage", "must not be mutated by concurrent callers", N)], observe=["per-thread results", "race detector"])

p("C19", "Results do not depend on the process locale or on stream formatting state",
  "Files written and results read are identical under every global locale and every formatting state, exception mask or position of the caller's streams. The library leaves the caller's stream formatting, locale and exception mask as they were.",
  ["configurations", "inputs"], "combinations of locale facets (digit grouping, separators, boolean names), C locale, stream flags, width, fill, precision, exception masks and initial offsets x operations",
  "Tests run in the C locale with freshly constructed streams.",
  [H, N], [("header text generation", H), ("shape parsing", N)],
  observe=["bytes", "header_info/tensors", "stream flags"])

p("C20", "User-defined tensor types work exactly like the built-in one",
  "Any type providing the documented members can be saved, loaded and stored in archives, producing byte-identical files to a built-in tensor with the same description and elements, and its load member receives the complete header and a stream positioned at the first element. The raw value reading and writing functions can be called piecewise: transferring a buffer in any split gives the same bytes or values as in one call (for strings: as long as every piece contains a string of the greatest length, which determines the width of the items).",
  ["inputs", "programs"], "several structurally different custom tensor types x element types x byte orders x shapes; all 2- and 3-way splits of a value buffer",
  "One test writes a custom float tensor into an archive and deletes it without reading it.",
  [H, D], [("npy::save/load templates", H), ("read_values / write_values", D), ("archive write/read templates", H)],
  observe=["bytes", "calls received by the custom type"])

p("C21", "An archive left behind by a crash while writing is never misread",
  "If the process dies, or the machine stops with any subset of the written blocks missing, at any point while an archive is being written, then opening the leftover file and reading any entry either throws or returns exactly the array that was written under that name. Only once the final bytes have been written does the file open as an archive.",
  ["crash_points"], "every prefix of the sequence of writes (including torn ones) and every subset of lost blocks, for several write histories",
  "No test interrupts a writer.",
  [Z], [("directory written last", Z), ("signature, cross-header and CRC checks on read", Z)],
  observe=["reader behaviour on the leftover file"])

p("C22", "Equivalent entry points give equivalent results",
  "All ways of naming the same operation (path as string, C string or filesystem path; stream or file; free function or member; element type plus tensor template or complete tensor type; in-memory or on-disk archive; const or mutable tensor) produce the same bytes, the same tensors and the same success or failure.",
  ["programs", "inputs"], "all overloads of save/load/peek/read/write/reader/writer construction x element types",
  "Tests instantiate only some overloads; an overload that is never instantiated is not even compiled.",
  [H, Z, N], [("overload sets of save/load/peek", H), ("archive reader/writer constructors and read templates", H)],
  observe=["bytes/tensors/exceptions"])

p("C23", "Earlier operations never influence later ones in the same process",
  "The bytes or values produced by any library operation depend only on its arguments: after any sequence of other operations, successful or failed, on other objects, it produces exactly what it produces in a fresh process, and it never modifies its inputs. In particular output is reproducible: equal tensors always give equal files, whatever the time, path or history.",
  ["histories"], "all sequences up to a depth over an alphabet of library operations, including failing ones",
  "Each test runs a fixed list of operations once in one order.",
  [N, D, Z, ZP, H], [("no hidden static state", N), ("fixed timestamps in archives", Z), ("read-only descriptor tables", D)],
  observe=["results of each operation vs. a fresh process"])

p("C24", "Files are the same on big-endian hardware",
  "On a big-endian machine the library writes and reads the same files as on a little-endian one, with native byte order meaning big-endian.",
  ["configurations"], "host byte orders", "Tests run only on little-endian hosts.",
  [H, D], [("native_endian", H), ("byte-swapping in read_values/write_values", D)], observe=["bytes"])

p("C25", "Building against a system-installed miniz gives the same results",
  "When the library is built against a system-installed miniz instead of the vendored copy, every archive operation gives the same results.",
  ["configurations"], "build option on/off", "The option is off in the tested build.",
  [ZP, "CMakeLists.txt", "src/CMakeLists.txt"], [("LIBNPY_USE_SYSTEM_MINIZ include switch", ZP)], observe=["archive operations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
