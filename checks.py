CONFIGS = {
    # release, default sizes, everything on
    "rel": dict(defs=[]),
    # debug + tracking, tiny buffers/pages so that every boundary is crossed
    "dbg": dict(defs=["VT_DEBUG", "VT_TINY"]),
    # release, tiny sizes, internal builder storage
    "tiny": dict(defs=["VT_TINY", "VT_BUILDER_INTERNAL"]),
    # optimised for size (different code paths), tiny sizes
    "size": dict(defs=["VT_TINY", "MPACK_OPTIMIZE_FOR_SIZE=1"]),
    "m32": dict(defs=["VT_TINY"], m32=True),
    # no MPACK_REALLOC: the library copies by itself
    "noreall": dict(defs=["VT_TINY", "VT_NO_REALLOC"]),
}
def R(h, config, quick, **kw): return dict(harness=h, config=config, quick=quick, **kw)
CHECKS = {}
CHECKS["C01"] = dict(rule="a case is a sequence of 1-3 generated messages (or an enumerated block of 256 16-bit integers / 1100 header counts, or one documented-invalid call) written with randomly chosen equivalent calls; non-trivial: a compound message, more than 8 encoded bytes, an enumerated block or an invalid call; distinct by content hash",
    runs=[R("c01", "rel", 120000), R("c01", "dbg", 80000), R("c01", "size", 80000), R("bigw", "rel", 4000), R("bigw", "dbg", 4000), R("bigw", "size", 4000)])
CHECKS["C02"] = dict(rule="a case is 1-3 generated messages written with random equivalent calls (also builders) and decoded by five paths (reader, expect, tree, tag copy, node copy) from memory or a split stream; non-trivial: at least 3 values; distinct by content hash",
    runs=[R("c02", "rel", 120000), R("c02", "dbg", 100000), R("c02", "size", 60000)])
CONFIGS["noext"] = dict(defs=["VT_NO_EXT", "MPACK_EXTENSIONS=0", "VT_TINY"])
CHECKS["C03"] = dict(rule="a case is a generated byte string (valid, overlong, truncated, mutated, random, deep, huge claims) walked element by element in memory or from a split stream against the reference tokenizer, or an enumerated block of all second bytes for one first byte; non-trivial: at least 4 bytes or 2 elements; distinct by content hash",
    runs=[R("c03", "rel", 300000), R("c03", "dbg", 300000), R("c03", "size", 200000), R("c03", "noext", 200000)])
CHECKS["C04"] = dict(rule="a case is a generated byte string (valid, overlong, truncated, mutated, random, deep, huge claims) parsed message after message and compared node by node with the reference tokenizer and decoder, or an enumerated block of all second bytes for one first byte; non-trivial: at least 4 bytes; distinct by content hash",
    runs=[R("c04", "rel", 300000), R("c04", "dbg", 300000), R("c04", "size", 200000), R("c04", "noext", 200000), R("c04", "m32", 100000)])
CHECKS["C05"] = dict(rule="a case is a byte string and a script of reads (tags, peeks, discards, copying, chunked, allocating, in-place, utf8 and cstr reads) run once on a contiguous block and once through a fill callback with generated piece sizes, buffer size, preloaded bytes and skip callback; non-trivial: at least 2 callback calls and 2 operations; distinct by content, buffer size and skip hash",
    runs=[R("c05", "rel", 300000), R("c05", "dbg", 300000), R("c05", "size", 250000), R("bigr", "rel", 20000), R("bigr", "dbg", 10000), R("bigr", "size", 10000), R("c05", "m32", 100000)])
CHECKS["C23"] = dict(rule="a case is a byte string read with generated discards and stepwise skips from memory, a split stream (with or without skip callback), a seekable or unseekable FILE or a real file, each step compared with the reference tokenizer's extent; non-trivial: at least one skip and 4 bytes; distinct by content and source hash",
    runs=[R("c23", "rel", 250000), R("c23", "dbg", 250000), R("c23", "size", 150000), R("c23", "m32", 80000)])
CHECKS["C06"] = dict(rule="a case is 1-5 messages (possibly followed by arbitrary bytes) delivered to a streaming tree in generated pieces, parsed blocking, non-blocking or mixed, under generated size and node limits, every step compared with a reference verdict for the delivered prefix; non-trivial: a message was parsed over several reads; distinct by content and delivery hash",
    runs=[R("c06", "rel", 200000), R("c06", "dbg", 200000), R("c06", "size", 120000), R("c06", "noext", 80000), R("c06", "m32", 50000)])
CHECKS["C19"] = dict(rule="a case is a message (valid, deep, truncated or claiming far more than is there) parsed from memory, with an exact node pool or from a stream under limits at, just below and just above what it needs; or several messages on one tree with limits changed between them; verdict compared with a reference limit model and peak allocation with a linear bound; non-trivial: at least 4 bytes; distinct by content and limits hash",
    runs=[R("c19", "rel", 250000), R("c19", "dbg", 250000), R("c19", "size", 150000), R("c19", "m32", 80000), R("c19", "tiny", 150000)])
CONFIGS["par"] = dict(defs=["VT_TINY", "VT_PARALLEL"], san="thread")
CONFIGS["pardbg"] = dict(defs=["VT_TINY", "VT_DEBUG", "VT_PARALLEL"], san="thread")
CHECKS["C29"] = dict(rule="a case is 2-3 tasks on objects of their own (writers, readers, trees, printing, failing objects) run alone and then beside each other, handing over between calls, in callbacks and in the allocator in a generated order, or on parallel threads under ThreadSanitizer; non-trivial: more than 3 observations and more than 2 hand-overs (or parallel); distinct by content hash",
    runs=[R("c29", "rel", 40000), R("c29", "dbg", 40000), R("c29", "par", 8000), R("c29", "pardbg", 8000)])
CHECKS["C30"] = dict(rule="a case is one misuse the library detects (15 kinds over writers, readers and trees, in every state those can be in before, error callbacks that return or jump) or the nearest valid call; non-trivial: a misuse of an object that was not in error before or was; distinct by kind, state and content",
    runs=[R("c30", "rel", 120000), R("c30", "dbg", 120000), R("c30", "tiny", 60000), R("c30", "size", 60000), R("c30", "m32", 40000)])
CHECKS["C31"] = dict(rule="a case is a tree (memory, pool, stream, incremental) with a history of repeated queries each compared with the same query on a fresh parse, or a reader or writer working on read-only mappings; non-trivial: two or more distinct successful queries with repeats, or data on a read-only page; distinct by content hash",
    runs=[R("c31", "rel", 150000), R("c31", "dbg", 150000), R("c31", "tiny", 60000), R("c31", "size", 60000), R("c31", "m32", 40000)])
CHECKS["C32"] = dict(rule="a case writes (fixed, flushed, growable, file; declared or built containers), reads (buffered, file; copying, in place, discarding) or parses (streamed tree) a generated document of up to 60 kB (now and then over 1 MB) and compares calls to the sink or source, allocations and memory with bounds from the sizes of data and buffer; every case is non-trivial; distinct by content and mode",
    runs=[R("c32", "rel", 40000), R("c32", "dbg", 40000), R("c32", "tiny", 20000), R("c32", "size", 20000), R("c32", "m32", 20000), R("c32", "noreall", 20000)])
CHECKS["C33"] = dict(rule="a case is a task (17 kinds: writing, reading, parsing, printing, files, failing objects, with handlers, versions, limits and failing allocations) run with its objects, buffers, pools and allocated blocks in memory of zeros, then in memory of other bytes, of noise, or where other objects or the same have been and were destroyed; non-trivial: at least two observations; distinct by content and mode",
    runs=[R("c33", "rel", 100000), R("c33", "dbg", 100000), R("c33", "tiny", 50000), R("c33", "size", 50000), R("c33", "noext", 30000), R("c33", "m32", 30000), R("c33", "noreall", 30000)])
# coverage-guided search over the same harnesses, thorough tier only
CONFIGS["fuzzdbg"] = dict(CONFIGS["dbg"], fuzz=True, of="dbg")
CONFIGS["fuzzrel"] = dict(CONFIGS["tiny"], fuzz=True, of="tiny")
def F(h, config, seconds, **kw): return dict(harness=h, config=config, quick=0, fuzz=seconds, tiers=("thorough",), **kw)
TECHNIQUE = {'C33': 'metamorphic property-based testing: the same task in memory with different former contents',
 'C32': 'property-based testing of resource counts against bounds from the sizes of data and buffer',
 'C31': 'metamorphic property-based testing: query histories against the same query on a fresh parse, inputs in read-only memory',
 'C30': 'stateful property-based testing: generated histories ending in one misuse, against the documented outcome',
 'C01': 'property-based testing against a reference encoder, 16-bit values and header counts enumerated',
 'C02': 'round-trip property-based testing through every decoder',
 'C03': 'property-based testing of generated wire bytes against a reference tokenizer, two-byte prefixes enumerated',
 'C04': 'property-based testing of generated wire bytes against a reference decoder, two-byte prefixes enumerated',
 'C05': 'metamorphic property-based testing: one read script over different deliveries',
 'C06': 'stateful property-based testing of streamed parsing against a reference verdict per delivered prefix',
 'C07': 'differential property-based testing: one recorded call sequence on every sink',
 'C08': 'property-based testing of every buffer size against the reference encoding, with guard bytes and ASan',
 'C09': 'property-based testing against the reference encoder, page paddings enumerated',
 'C10': 'stateful property-based testing with injected faults and jumping error callbacks',
 'C11': 'property-based testing with injected allocation failures, first 24 failure points enumerated',
 'C12': 'property-based testing with injected source and sink failures',
 'C13': 'property-based testing against an exact arithmetic oracle, 16-bit values enumerated',
 'C14': 'property-based testing against a contract model in exact heap buffers',
 'C15': 'property-based testing against a contract model of containers, enums and key dispatch',
 'C16': 'property-based testing of every accessor against an exact arithmetic oracle',
 'C17': 'property-based testing of every data accessor against a contract model in exact heap buffers',
 'C18': 'property-based testing of lookups against a reference map',
 'C19': 'property-based testing against a reference limit model with metered allocation',
 'C20': 'enumeration of short byte strings and property-based testing against a reference UTF-8 decoder',
 'C21': 'property-based testing of algebraic laws and a reference order',
 'C22': 'property-based testing of timestamps through every write and read function against a reference',
 'C23': "property-based testing of skips against the reference tokenizer's extents", 'C24': 'stateful property-based testing of correct and mistaken call sequences against a model of open elements',
 'C25': 'property-based testing against an independent printer',
 'C26': 'differential property-based testing of 50 build configurations',
 'C27': 'fuzzing of input and call sequences under sanitizers with execution and stack bounds',
 'C28': 'differential property-based testing of file helpers against memory, with injected file faults',
 'C29': 'metamorphic property-based testing: each task alone against generated interleavings and parallel runs under ThreadSanitizer'}
NOTE = {
 "C25": "Generated-input search. Nesting in printed messages is limited to 150 levels outside the one recorded finding. ",
 "C26": "Generated-input search over 50 builds; differences between builds are only visible where two builds share the feature. Uses gcc, g++, clang and clang++. ",
 "C27": "Generated-input search; absence of hangs is judged by counted edges per call, not time. Also runs MemorySanitizer builds. ",
}
CHECKS["C07"] = dict(rule="a case is 0-5 generated messages written with one recorded sequence of calls to a growable buffer, a fixed buffer and 1-3 flush callbacks with different buffer sizes and manual flushes, and flushed many times on a growable buffer, comparing output and used-size at every step; non-trivial: more bytes than the minimum buffer; distinct by content hash",
    runs=[R("c07", "rel", 100000), R("c07", "dbg", 100000), R("c07", "tiny", 60000), R("c07", "size", 60000), R("c07", "m32", 40000), R("c07", "noreall", 40000)])
CHECKS["C08"] = dict(rule="a case is 1-3 generated messages (or an enumerated value at each length boundary) written into fixed buffers of every size up to the message size (sampled for long ones), each with exact heap bounds and with guard bytes; non-trivial: a message of more than 2 bytes; distinct by content hash and call sequence",
    runs=[R("c08", "rel", 40000), R("c08", "dbg", 40000), R("c08", "tiny", 30000), R("c08", "size", 30000), R("c08", "m32", 20000)])
CHECKS["C09"] = dict(rule="a case is a generated document whose containers are randomly automatic or declared, written to a growable, an exact fixed and two flushed sinks and compared with the reference encoding; or one of 12 enumerated shapes with every padding across builder pages; or an automatic map left with an odd number of elements, or a build whose count passes 24, 31 or 32 bits; non-trivial: at least two containers; distinct by content hash",
    runs=[R("c09", "rel", 60000), R("c09", "dbg", 60000), R("c09", "tiny", 60000), R("c09", "size", 30000), R("c09", "m32", 60000)])
CHECKS["C11"] = dict(rule="a case is a growable, flushed or file writer, a memory, streamed or file reader (plain, allocating typed reads, discard) or a memory, streamed or file tree with allocating accessors, in which the nth library allocation (and optionally all later ones) fails, with and without a jumping error callback; fixed documents with every n up to 24 are enumerated; non-trivial: an allocation failed; distinct by content, scenario and fault hash",
    runs=[R("c11", "rel", 60000), R("c11", "dbg", 60000), R("c11", "tiny", 60000), R("c11", "size", 40000), R("c11", "m32", 40000), R("c11", "noreall", 40000)])
CHECKS["C10"] = dict(rule="a case is a reader, tree or writer with generated input, sink and faults (bad data, failing callbacks, user-flagged errors, failed allocations), an error callback that is absent, counts, jumps away, destroys and jumps, or destroys and returns, and random calls before and after the error, each checked for its neutral value; non-trivial: an error occurred; distinct by content and mode hash",
    runs=[R("c10", "rel", 500000), R("c10", "dbg", 700000), R("c10", "tiny", 300000), R("c10", "size", 300000)])
CHECKS["C12"] = dict(rule="a case is a document whose source (fill callback, skip callback, FILE, real file, tree stream, tree file) ends or fails after a generated number of bytes smaller than the document, or whose sink (flush callback, FILE, /dev/full, failing close) fails after fewer bytes than were written, with generated piece sizes, buffer sizes and read or write calls; every case is non-trivial; distinct by content, kind and failure point hash",
    runs=[R("c12", "rel", 150000), R("c12", "dbg", 150000), R("c12", "tiny", 100000), R("c12", "size", 80000), R("c12", "m32", 40000)])
CONFIGS["nodbl"] = dict(defs=["VT_TINY", "MPACK_DOUBLE=0"])
CONFIGS["nofloat"] = dict(defs=["VT_TINY", "MPACK_FLOAT=0", "MPACK_DOUBLE=0"])
CHECKS["C13"] = dict(rule="a case is one encoded element (integers of every width and signedness around all boundaries, floats, doubles, other kinds, overlong, truncated) read by all 30 integer functions with generated ranges around the value, all real functions and the match functions, from memory or a one-byte-at-a-time stream; all 16-bit values in all encodings and all first bytes are enumerated; every case is non-trivial; distinct by element hash",
    runs=[R("c13", "rel", 60000), R("c13", "dbg", 40000), R("c13", "size", 40000), R("c13", "nodbl", 30000), R("c13", "nofloat", 15000)])
CHECKS["C14"] = dict(rule="a case is one encoded element (strings with ASCII, valid, nearly valid and invalid UTF-8 and NULs, binary, extensions, timestamps, other kinds; every form; whole or truncated) read by all 29 data-reading functions with limits around its length, from memory or a split stream, into exact heap buffers; every first byte is enumerated; every case is non-trivial; distinct by element hash",
    runs=[R("c14", "rel", 40000), R("c14", "dbg", 40000), R("c14", "size", 30000), R("c14", "noext", 20000), R("c14", "m32", 15000)])
CHECKS["C15"] = dict(rule="a case is one encoded element (containers, nil, booleans, others, overlong, truncated, huge counts) read by all container, constant and tag functions with counts around its own; or one element matched against a generated list of enum strings; or a generated map dispatched by string or integer keys with unknown, odd-typed, NUL-bearing and duplicate keys; from memory or a split stream; every first byte is enumerated; non-trivial: all but maps with at most one key; distinct by content hash",
    runs=[R("c15", "rel", 60000), R("c15", "dbg", 60000), R("c15", "size", 40000), R("c15", "noext", 30000), R("c15", "m32", 40000)])
CHECKS["C16"] = dict(rule="a case is one encoded element (integers of every width and signedness around all boundaries, reals, others, overlong) at the root or inside a generated array or map of a memory, pool or streamed tree, read by every scalar accessor and query, each on a fresh tree, and a missing node read the same way; all 16-bit values in all encodings and all first bytes are enumerated; every case is non-trivial; distinct by message hash",
    runs=[R("c16", "rel", 30000), R("c16", "dbg", 30000), R("c16", "size", 20000), R("c16", "nodbl", 20000), R("c16", "nofloat", 10000)])
CHECKS["C17"] = dict(rule="a case is one encoded element (strings with ASCII, valid, nearly valid and invalid UTF-8 and NULs, binary, extensions, others, overlong) at the root or inside a generated array or map of a memory, pool or streamed tree, read by every data accessor with limits around its length into exact heap buffers, each on a fresh tree; every first byte and strings of 2^32-1 bytes are enumerated; every case is non-trivial; distinct by message hash",
    runs=[R("c17", "rel", 30000), R("c17", "dbg", 30000), R("c17", "size", 20000), R("c17", "noext", 20000), R("c17", "m32", 10000)])
CHECKS["C18"] = dict(rule="a case is a generated map (keys from a small pool so that equal integers in different encodings, equal and prefix strings, NULs, other kinds and duplicates occur), array, string or other element, at the root or nested, on which every lookup by integer, string or C string (plain, optional, contains), positional access and enum lookup is done with keys and indexes around the present ones, each on a fresh tree; non-trivial: maps of two or more entries, arrays and data; distinct by message hash",
    runs=[R("c18", "rel", 60000), R("c18", "dbg", 60000), R("c18", "size", 40000), R("c18", "noext", 20000), R("c18", "m32", 15000)])
CHECKS["C20"] = dict(rule="a case is a byte string built from valid, boundary, surrogate, overlong, out-of-range, truncated and arbitrary pieces given to every UTF-8-checking and C-string write, read, expect and node function; all byte sequences up to three bytes, four-byte sequences at all boundaries, every code point in its own and overlong forms, and strings of up to 2^24+3 bytes are enumerated; non-trivial: more than one byte; distinct by content hash",
    runs=[R("c20", "rel", 60000), R("c20", "dbg", 40000), R("c20", "size", 40000)])
CHECKS["C21"] = dict(rule="a case is 3-6 tags of related values (equal, neighbouring, same bits with another kind) made by constructors or read from encodings of any form, compared pairwise and in triples against a model of value equality and order; integer boundaries are enumerated; every case is non-trivial; distinct by value hash",
    runs=[R("c21", "rel", 300000), R("c21", "dbg", 200000), R("c21", "noext", 100000), R("c21", "nofloat", 100000)])
CHECKS["C22"] = dict(rule="a case is one (seconds, nanoseconds) pair written by every timestamp function to four sinks and read by the reader, expect and node functions from each of the three formats in every ext form, whole and truncated; boundary pairs, every first byte, extension type and size are enumerated; every case is non-trivial; distinct by value",
    runs=[R("c22", "rel", 60000), R("c22", "dbg", 60000), R("c22", "size", 40000)])
CHECKS["C28"] = dict(rule="a case is 0-4 messages (sizes around buffer multiples), overlong, truncated or arbitrary bytes written through a file writer (by name, real FILE, cookie FILE with short writes; existing content, start offset, close option, injected error, jumping callback, failing close or allocation) and compared with the reference bytes; or read by a file reader in step with a memory reader; or parsed by a file tree under size limits and compared with a memory tree; or a missing file or directory; descriptors and closes are counted; every case is non-trivial; distinct by content and kind hash",
    runs=[R("c28", "rel", 60000), R("c28", "dbg", 60000), R("c28", "tiny", 40000), R("c28", "size", 40000)])
CONFIGS["dbgbig"] = dict(defs=["VT_DEBUG"])
CONFIGS["dbgnoext"] = dict(defs=["VT_DEBUG", "VT_NO_EXT", "MPACK_EXTENSIONS=0"])
CONFIGS["dbgnoflt"] = dict(defs=["VT_DEBUG", "VT_TINY", "MPACK_FLOAT=0", "MPACK_DOUBLE=0"])
CHECKS["C25"] = dict(rule="a case is a message (valid, overlong, nested up to 150 levels, truncated, mutated, arbitrary, with trailing bytes) printed to callbacks, files and buffers of sizes around the text length, through the reader and the tree, compared with an independent printer; or a tag described into buffers of all sizes; every first byte and every length boundary are enumerated; non-trivial: at least two bytes; distinct by content hash",
    runs=[R("c25", "dbg", 20000), R("c25", "dbgbig", 15000), R("c25", "dbgnoext", 8000), R("c25", "dbgnoflt", 8000)])
CONFIGS["track"] = dict(defs=["VT_TINY", "MPACK_READ_TRACKING=1", "MPACK_WRITE_TRACKING=1"])
CHECKS["C24"] = dict(rule="a case is a sequence of correct writer calls (elements, declared and automatic containers, strings, blobs, extensions in pieces, flushes) or reader calls (tags, typed and whole reads, pieces, discards, peeks) on a generated document, checked call by call for silence and for unchanged data, and in half the cases ended by one mistake of 13 kinds that a model of the open elements says is one, which must be reported at that call; every case is non-trivial; distinct by content and mistake hash",
    runs=[R("c24", "dbg", 150000), R("c24", "dbgbig", 100000), R("c24", "dbgnoext", 60000), R("c24", "track", 80000), R("c24", "dbgnoflt", 40000)])
_COV = ["-fsanitize-coverage=trace-pc-guard"]
CONFIGS["work"] = dict(defs=[], libflags=_COV)
CONFIGS["workdbg"] = dict(defs=["VT_DEBUG", "VT_TINY"], libflags=_COV)
CONFIGS["worksize"] = dict(defs=["VT_TINY", "MPACK_OPTIMIZE_FOR_SIZE=1"], libflags=_COV)
CHECKS["C27"] = dict(rule="a case is a byte string (valid, overlong, mutated, truncated, arbitrary, deeply nested) on which 1-3 readers, trees, tag walks or printers, starting at generated offsets, from memory, pool or failing split stream, run up to 40 (deep: 400) calls chosen to fit the next element or at random among 84 reader and 52 node functions; deep nesting of 7 shapes up to 200000 levels through discard and parse is enumerated; in the work configurations the library counts executed edges and stack per call; non-trivial: at least 4 bytes and 2 calls; distinct by content and call count hash",
    runs=[R("c27", "work", 60000), R("c27", "workdbg", 60000), R("c27", "worksize", 40000), R("c27", "noext", 40000), R("c27", "m32", 40000)])
CONFIGS["plain"] = dict(defs=[], san=False)
CONFIGS["fast"] = dict(defs=[], san=False, opt=["O2"])
CHECKS["C26"] = dict(rule="a case is one job (a write program to a fixed, flushed or growable sink; reads of generated input from memory or a split stream; all typed reads of one element; a tree parse with an accessor series; tag comparisons; a print) run by 50 builds of the library in different configurations whose transcripts must be identical among all builds that have the features it needs; every first byte is enumerated; every case is non-trivial; distinct by job hash",
    runs=[R("c26", "plain", 110000, probes="full")])
CHECKS["C27"]["runs"].append(R("c26", "plain", 15000, probes="msan"))
# data, counts and tables longer than 24, 31 and 32 bits can count
for _p, _r in {"C17": [("bign", "rel", 20000), ("bign", "dbg", 15000), ("bign", "size", 10000), ("bign", "m32", 10000)], "C04": [("bign", "rel", 5000)], "C18": [("bign", "rel", 5000)], "C14": [("bigr", "rel", 20000), ("bigr", "m32", 10000)], "C15": [("bigr", "rel", 20000), ("bigr", "dbg", 10000)], "C07": [("bigw", "rel", 4000), ("bigw", "m32", 2000)]}.items():
    for _h, _c, _n in _r: CHECKS[_p]["runs"].append(R(_h, _c, _n, mult=5))
CHECKS["C09"]["runs"].append(R("bigb", "fast", 2000, mult=1, cpu=300, workers=2)) # several GB each
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C14", "C15", "C17", "C18", "C19", "C22", "C23", "C24", "C27"):
    CHECKS[_p]["runs"].append(F(_p.lower(), "fuzzdbg", 150)); CHECKS[_p]["runs"].append(F(_p.lower(), "fuzzrel", 100))
