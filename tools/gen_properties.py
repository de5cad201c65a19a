import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
S='src/mpack/'
C,PL,W,R,X,N=[S+'mpack-'+x+'.c' for x in('common','platform','writer','reader','expect','node')]
CH,PH,WH,RH,XH,NH=[f[:-1]+'h' for f in(C,PL,W,R,X,N)]

p('C01','Writer emits exactly the documented shortest MessagePack encoding',
 'For every well-formed sequence of write calls (all integer widths, bool, nil, float, double, str/cstr/utf8, bin, ext, timestamp, tag, raw object bytes, array and map headers, chunked data between start and finish, and the type-generic and key-value forms) the bytes produced are exactly the shortest encoding the documentation prescribes: non-negative integers in the shortest unsigned form, negative ones in the shortest signed form, floats at their own width bit for bit, fixext/fixstr/fixarray/fixmap whenever possible. In old-spec (v4) compatibility mode str8 and the bin types are never emitted and raw data uses fixraw/raw16/raw32. A call whose value is documented as invalid (non-UTF-8 to a utf8 writer, a timestamp with more than 999999999 nanoseconds, ext data in v4 mode) flags an error instead of emitting it.',
 ['inputs','histories','configurations'],'every sequence of well-formed write calls with arbitrary values and lengths, in every build configuration and both protocol versions',
 'The unit tests write fixed literals near some thresholds; the space of values, lengths, nestings and call variants is unbounded and each width boundary has several independent code paths (inline, size-optimised, compatibility).',
 [W,WH,CH],[('mpack_write_* encoders and size thresholds',W),('mpack_start_str/bin/ext/array/map, mpack_write_tag',W),('byte-order store helpers',CH)],
 ['bytes delivered to the growable buffer / flush callback','writer error state'])
p('C02','Anything written reads back unchanged through every decoding API',
 'Any document produced by the writer, with any nesting, values, key order and data lengths, is read back by the incremental reader, by the typed expect functions and by the tree parser as the same values, in the same order and structure, with every byte of the document consumed and no error. Copying a document by feeding each decoded tag and its data back to a writer reproduces an equivalent document, byte-identical when the source was produced by the writer.',
 ['inputs','programs'],'every finite document tree with arbitrary scalars, strings, blobs, exts, timestamps and nesting, through each of the three decoders',
 'Tests round-trip a handful of hand-written documents; agreement of four independently written code paths must hold for all documents.',
 [W,R,X,N],[('tag writer/reader symmetry','mpack_write_tag / mpack_read_tag'),('tree parser',N),('expect functions',X)],
 ['decoded values vs. the generating model','bytes consumed','error states'])
p('C03','Incremental reader decodes any byte sequence exactly as the format specifies',
 'For every byte sequence, reading tags and data one by one (or peeking, which never consumes) yields exactly the type, value, length or count and extension type the MessagePack format assigns to those bytes, accepting every overlong representation, and leaves the read position just after what was read. The first position at which the bytes are truncated, use the reserved byte, or use an extension type in a build without extensions produces an error of the documented kind there and not earlier or later.',
 ['inputs','configurations'],'all byte strings, valid, truncated, corrupted or random, and all read-call mixes over them, in every build configuration',
 'Tests contain one literal per type byte and a few truncations; the guarantee quantifies over all byte strings and all truncation points.',
 [R,RH,CH],[('mpack_parse_tag switch',R),('mpack_read_tag / mpack_peek_tag',R),('mpack_reader_ensure bounds checks',RH)],
 ['tags and data returned','mpack_reader_remaining','reader error state'])
p('C04','Tree parser accepts exactly the valid messages and represents them faithfully',
 'For every byte sequence the tree parser succeeds if and only if it starts with one complete well-formed message (under the configured extension support), and then reports the exact message size and a node tree equal to the message: same types, values, lengths, data bytes, extension types, element counts and key order. Otherwise it reports an error of the documented kind, exposes only a nil root and a zero size; consecutive messages in one buffer are parsed one after another without losing or re-reading bytes.',
 ['inputs','configurations'],'all byte strings, including concatenated messages, overlong forms, truncations and corruptions, with paged, pooled and size-limited node storage',
 'Tests parse a limited set of literals; acceptance must coincide with the format grammar for every byte string and every node storage layout.',
 [N,NH],[('mpack_tree_parse_node_contents switch',N),('possible_nodes_left byte accounting',N),('page / pool allocation of children',N)],
 ['mpack_tree_error / size / root and all node accessors'])
p('C05','Buffered reading does not depend on how the source delivers its bytes',
 'Reading a given byte stream through a reader with a fill callback gives the same tags, data, discards and final outcome as reading it from one contiguous block, whatever the buffer size (from the documented minimum up), however the fill callback splits the stream, whether or not a skip callback is set, and whichever of the copying, chunked, allocating or in-place data reads are used. Data returned in place is exactly the next bytes of the stream; an in-place read fails only if it is larger than the buffer.',
 ['inputs','schedules','histories'],'all byte streams, buffer sizes, splits of the stream over fill calls and mixes of read calls',
 'Tests use a few fixed buffer sizes and whole-buffer or one-byte fills; straddle handling depends on the exact alignment of buffer end, element boundary and read size.',
 [R,RH],[('mpack_reader_ensure_straddle, mpack_read_native_straddle',R),('mpack_skip_bytes using skip/fill',R),('mpack_fill_range',R)],
 ['values and bytes returned','fill/skip calls made','reader error state'])
p('C06','Streamed tree parsing does not depend on how the stream is split',
 'Parsing a sequence of messages from a stream with the tree parser yields exactly the same messages whatever the size of each read and whether the blocking or the non-blocking call is used; the non-blocking call returns false without an error exactly while the current message is incomplete and resumes without loss, and never consumes bytes of the following message. Whether the maximum message size or node count is exceeded depends only on the message, not on how its bytes arrived.',
 ['inputs','schedules','histories'],'all message sequences, all splits into reads (including empty reads), all limits',
 'Tests feed a couple of messages in fixed step sizes; pausing can occur at any byte of any element with any parser state.',
 [N,NH],[('mpack_tree_reserve_fill',N),('mpack_tree_try_parse / mpack_tree_parse_start resumption',N),('size and node limits',N)],
 ['mpack_tree_try_parse result','nodes of each message','mpack_tree_error'])
p('C07','Writer output is independent of its buffer and sink',
 'The same sequence of write calls delivers the same bytes, in order, without loss or duplication, to a sufficiently large fixed buffer, a growable buffer, and a flush callback with any buffer size from the documented minimum up, regardless of manual flushes in between; the pre-destroy used-size queries agree with what was written. On successful destruction a growable buffer returns exactly these bytes, and every byte written has been passed to the flush callback. Flushing a growable writer between messages keeps its contents and does not make its buffer grow out of proportion to them.',
 ['inputs','histories'],'all write sequences, buffer sizes, positions of explicit flushes, and data lengths around the buffer size',
 'Tests cover specific buffer sizes and messages; flush decisions depend on the exact fill level at every write.',
 [W,WH],[('mpack_writer_flush_unchecked / mpack_writer_ensure',W),('mpack_write_native_straddle',W),('growable buffer reallocation',W)],
 ['bytes given to the flush callback or returned by the growable writer'])
p('C08','A fixed-buffer writer never overruns and reports too-big exactly when it must',
 'A writer on a caller-supplied buffer without a flush callback never modifies memory outside that buffer for any write sequence and any buffer size. It succeeds with the exact encoding when the message fits and otherwise ends in the too-big error state, and an overflow in the middle of a message is never reported as success.',
 ['inputs','histories'],'all write sequences and all buffer sizes including zero and exactly-fitting ones',
 'Tests try a few sizes for a few messages; each writing primitive has its own bounds check.',
 [W,WH],[('mpack_writer_ensure / MPACK_WRITE_ENCODED bounds checks',W),('mpack_writer_flag_error on overflow',W)],
 ['buffer contents and surrounding memory','writer error state and used size'])
p('C09','Automatic-size containers encode identically to declared-size ones',
 'A document written with maps and arrays whose sizes are determined automatically, at any nesting and in any mix with declared-size containers and any other writes, produces byte for byte the document written with the sizes declared in advance, on every kind of sink and whatever the internal page and storage sizes. A map completed with a key but no value is reported as an error. A container with more elements than a header can declare is reported as too big.',
 ['inputs','histories','configurations'],'all documents, all assignments of automatic or declared sizes to containers, all sinks, builds with and without internal builder storage and with any page size',
 'Tests use a few documents; header patching across page boundaries depends on exact byte positions of nested opens, completes and large data.',
 [W,WH],[('mpack_builder_build / complete / resolve',W),('builder pages and mpack_builder_flush',W),('deferred element counting (mpack_builder_compound_push/pop)',W)],
 ['bytes delivered to the sink','writer error state'])
p('C10','The first error is permanent, is reported once, and makes later calls harmless',
 'Once a reader, writer or tree is in an error state (from its data, its callbacks or a user-flagged error) that same error is what every later query and the destroy call returns, the error callback has been called exactly once with it, and every later call passes nothing more to the sink and returns its documented neutral value (zero, nil, false, empty string, NULL, or the range minimum). The teardown callback runs exactly once, at destruction, and all of this also holds when the error callback leaves by a non-local jump. The callback may destroy the object, then jump or return, with nothing touched or released again afterwards.',
 ['histories','fault_sequences'],'all histories of API calls before and after an error raised at any point by any cause',
 'Tests check particular functions after particular errors; the guarantee covers every call after every cause of failure.',
 [R,W,N,X,CH],[('mpack_*_flag_error first-error rule',R),('error checks at the head of each accessor',N),('safe values on error',X)],
 ['error getters and destroy result','error/teardown callback counts','return values and buffers after the error'])
p('C11','Running out of memory is reported, never corrupts, and leaks nothing',
 'If any allocation made by the library fails, the affected reader, writer or tree ends in the out-of-memory error state (or the operation completes because it did not need that allocation), no memory is accessed out of bounds or after being freed, and after destruction every block the library allocated and did not hand to the caller has been freed exactly once. A growable writer hands out a buffer only on success and otherwise leaves the caller with none.',
 ['fault_sequences','histories'],'every operation history and every choice of which allocation fails',
 'Tests sweep failures on a few fixed scenarios; each history has its own set of failure points, including builder pages, tracking stacks, stream buffers and node pages.',
 [W,N,R,X,PL,CH],[('checks after MPACK_MALLOC / mpack_realloc',W),('growable buffer ownership',W),('tree page and stack cleanup',N),('track stack growth',C)],
 ['allocator calls','error states','pointers and sizes returned'])
p('C12','A failing or short source or sink is always reported as an error',
 'If the byte source ends early or fails at any point, every read that needs the missing bytes fails with an I/O (or source-flagged) error and never yields invented data, and if the sink fails at any point the writer ends in an error and no later bytes reach the sink. In particular no message is reported as completely read, skipped or written when some of its bytes were not, including failures that only show when buffered file data is flushed or closed.',
 ['fault_sequences','histories'],'all messages, all fault positions, custom callbacks and FILE streams, short reads and short writes',
 'Tests inject failures into fixed scenarios; the fault can hit any fill, skip, flush, read, write, seek or close.',
 [R,W,N],[('mpack_fill_range return handling',R),('mpack_file_reader_fill / skip',R),('mpack_file_writer_flush / teardown',W),('mpack_tree_reserve_fill',N)],
 ['error states','bytes at the sink','data returned'])
p('C13','Typed integer and real reads return the exact value or a type error',
 'For every encoded number, each typed expect function (every width and signedness, plain, ranged, maximum and exact-match forms) returns the mathematically exact value if and only if it is representable in the requested type and lies in the requested inclusive range, whatever width and signedness it was encoded with; otherwise it flags a type error and returns the documented fallback. Lax real-number reads convert any number as the C conversion would, strict ones accept only real encodings no wider than requested, and a not-a-number value never satisfies a range.',
 ['inputs','configurations'],'all numeric encodings times all requested types and ranges, also in builds without float or double support',
 'Tests sample thresholds for some combinations; there are about thirty functions times ten encodings times the value space.',
 [X,XH,CH],[('mpack_expect_u8..i64',X),('MPACK_EXPECT_RANGE_IMPL',X),('float/double conversion incl. raw double shortening',CH)],
 ['returned value','reader error state','bytes consumed'])
p('C14','Typed reads of strings and binary data respect limits and content rules',
 'Every read of string, binary or extension data (into a caller buffer, as a C string, as UTF-8, allocated, in place, exact-size, maximum-size or match-a-given-string) returns exactly the encoded bytes when the element has the right type, fits the given limit and satisfies the content rule (no NUL for C strings, valid UTF-8 where asked), and otherwise flags an error and returns the documented empty result. It never writes outside the given buffer, C-string results are always NUL-terminated (and empty on any error), and on success exactly one element has been consumed.',
 ['inputs','histories'],'all elements, contents, limits and buffer sizes, from contiguous or streamed sources',
 'Tests use short ASCII literals; off-by-one limits, arbitrary byte values, embedded NULs and stream boundaries are unbounded.',
 [X,XH,R,RH],[('mpack_expect_str_buf / cstr / utf8 / alloc variants',X),('mpack_read_cstr / mpack_read_utf8_cstr',R),('mpack_expect_str_match',X)],
 ['buffers, pointers and lengths returned','reader error state and position'])
p('C15','Typed reads of containers, keys, enums and constants follow their contract',
 'The expect functions for maps and arrays (plain, ranged, maximum, exact, or-nil, allocating), nil, booleans, tags, enums and map-key dispatch return the count, value or index that the encoded element calls for if it meets the stated constraint, and otherwise flag an error and return the documented fallback. Key dispatch returns the matching index once per key, reports a duplicate of a known key as an error, and consumes an unknown key of any type completely while returning the not-found index.',
 ['inputs','histories'],'all encoded elements and maps, all limits, all key tables and orders of keys including unknown, duplicate and non-matching-type keys',
 'Tests use small fixed key tables and documents; order, duplication, unknown compound keys and limits combine freely.',
 [X,XH],[('mpack_expect_map/array families',X),('mpack_expect_key_cstr / key_uint',X),('mpack_expect_enum',X)],
 ['returned counts, flags and indexes','found[] flags','reader error state and position'])
p('C16','Scalar node accessors return the exact value or a type error',
 'For every node, each scalar accessor (nil, missing, bool, true, false, every integer width and signedness, float, double, strict float, strict double) returns the exact value if it is representable in the requested type regardless of the encoded width and signedness, and otherwise flags a type error and returns the documented neutral value. Node type, nil and missing queries and node tags report exactly what was encoded and never flag an error.',
 ['inputs','configurations'],'all encoded values times all accessors, also in builds without float or double support',
 'Tests sample a few values per accessor.',
 [N,NH],[('mpack_node_u8..i64, float, double, strict',N),('mpack_node_type / is_nil / is_missing / tag',N)],
 ['returned values','tree error state'])
p('C17','Node data accessors return exactly the encoded bytes within the given limits',
 'For every string, binary and extension node, the data pointer, length, extension type, copy, C-string, UTF-8 and allocating accessors give exactly the encoded bytes, or flag the documented error when the node has another type, does not fit the given buffer or limit, contains NUL where a C string is asked for, or is not valid UTF-8 where that is asked for. They never write outside the given buffer, copies are NUL-terminated where promised, and a failed C-string copy leaves an empty string.',
 ['inputs'],'all data contents, lengths, node types and limits',
 'Tests use a few short strings; limits and contents are unbounded.',
 [N,NH],[('mpack_node_copy_* / *_alloc / check_utf8*',N),('mpack_node_data_unchecked offset',N)],
 ['returned pointers, lengths, buffers','tree error state'])
p('C18','Node lookups find exactly the unique matching entry',
 'A map lookup by signed integer, unsigned integer, string or C string key returns the value of the one entry whose key equals it (integers compared by numeric value whatever their encoding, strings by bytes), flags a data error if two entries match, and when none matches flags a data error, or for the optional and contains forms returns a missing node or false without error. Positional access returns elements in encoded order, out-of-range positions are data errors, non-containers are type errors, and enum lookup returns the index of the equal string or the not-found index.',
 ['inputs'],'all maps and arrays, including duplicate, mixed-type and boundary-value keys, and all queried keys and positions',
 'Tests look up a few literals in a few maps.',
 [N,NH],[('mpack_node_map_int/uint/str impl',N),('mpack_node_array_at / map_key_at / map_value_at',N),('mpack_node_enum',N)],
 ['returned node','tree error state'])
p('C19','Tree parsing uses bounded resources and enforces its limits exactly',
 'A message parses if and only if its node count is within the configured node limit and node pool and its size within the configured size limit, whether it is streamed or lies in memory (or in the buffer already, when a limit is changed); exceeding one gives the too-big error. Memory used to parse data in memory is bounded by a small constant factor of the bytes actually present, whatever element counts or lengths the data claims, and for a stream additionally by the configured size limit, a container claiming more elements than there are bytes left is rejected at once, and nesting of any depth is parsed without recursion.',
 ['inputs','configurations'],'all messages and hostile byte sequences, all limits and pool sizes, nesting depths up to the message size',
 'Tests check a few limits and one hostile pattern.',
 [N,NH],[('node_count / max_nodes / max_size checks',N),('possible_nodes_left',N),('parse stack growth',N)],
 ['tree error state','allocator high-water mark','stack use'])
p('C20','UTF-8 checks accept exactly well-formed UTF-8',
 'Every UTF-8-checking write, read, expect and node function accepts a byte string if and only if it is well-formed UTF-8 as defined by Unicode (no overlong forms, no surrogates, nothing above U+10FFFF, no truncated sequence), and the C-string variants additionally reject exactly the strings containing a NUL byte.',
 ['inputs'],'all byte strings of any length at any position in the element',
 'Tests check a list of selected sequences.',
 [C,W,R,X,N],[('mpack_utf8_check_impl',C),('mpack_str_check_no_null',C)],
 ['acceptance or error of every UTF-8 aware function'])
p('C21','Tag comparison is a consistent total order over values',
 'Tag constructors and accessors preserve type, value, length and extension type; tag equality holds exactly for tags denoting the same value, where a non-negative integer is equal whether signed or unsigned, reals compare by bit pattern, and compound tags by type, count and extension type. Tag comparison is antisymmetric, transitive, returns zero exactly for equal tags, and orders integers numerically.',
 ['inputs'],'all pairs and triples of tags',
 'Tests compare selected pairs; order axioms quantify over all triples.',
 [C,CH],[('mpack_tag_cmp / mpack_tag_equal',C),('mpack_tag_make_*',CH)],
 ['comparison results','accessor results'])
p('C22','Timestamps are written minimally and read back exactly by every API',
 'Every timestamp with at most 999999999 nanoseconds is written in the smallest of the three standard formats that can hold it, and each of the three formats, minimal or not, is read by the reader, expect and node functions as exactly the encoded seconds and nanoseconds. A wrong size or an out-of-range nanosecond count is an invalid-data error, another extension type or non-extension is a type error, and a failed read yields a zero timestamp.',
 ['inputs'],'all seconds and nanoseconds values, all ext sizes, types and payload bytes',
 'Tests cover selected boundary values.',
 [W,R,X,N],[('mpack_write_timestamp',W),('mpack_read_timestamp',R),('mpack_node_timestamp',N),('mpack_expect_timestamp',X)],
 ['encoded bytes','timestamp values','error states'])
p('C23','Skipping consumes exactly what reading would',
 'Discarding an element, or skipping the bytes of a string, blob or extension in any number of steps, leaves the reader exactly where fully reading it would, for every element including nested containers, on contiguous, streamed and file sources with or without a seek-based skip. If the element is malformed or its bytes are not all present the reader ends in an error just as reading would.',
 ['inputs','histories'],'all elements, all truncations, all source kinds, buffer sizes and element alignments',
 'Tests discard a few literals from memory; the choice among buffered, filled and seek skipping depends on sizes and alignment.',
 [R,X],[('mpack_discard',R),('mpack_skip_bytes / mpack_skip_bytes_straddle / mpack_skip_using_fill',R),('mpack_file_reader_skip',R)],
 ['elements read after the skip','reader error state'])
p('C24','Debug tracking reports misuse and never correct use',
 'With tracking enabled, every reader or writer call sequence that opens, fills and closes each array, map, string, blob and extension correctly runs without any tracking complaint, and every sequence that puts too many or too few elements or bytes into one, closes the wrong type, closes what is not open, or ends with something still open is reported as a bug error at the offending call. Tracking never changes the data that correct use reads or writes.',
 ['histories','programs'],'all sequences of open, element, data, close and destroy calls, correct and with injected mistakes, to any nesting depth',
 'Tests make each kind of mistake once at a fixed depth.',
 [C,CH,W,R],[('mpack_track_push/pop/element/bytes/destroy',C),('tracking calls in reader and writer',R),('builder tracking',W)],
 ['break/assert hook calls','error states'])
p('C25','Debug printing is bounded, terminated and faithful',
 'Printing a message or a node in debug form never fails for any bytes, never writes outside the given buffer, always NUL-terminates it, and a smaller buffer receives exactly a prefix of the complete output that the callback form delivers. The output is the same text for a message and for its parsed tree and shows every element in order with its value, and malformed data ends the output with an error note. Every error and every type has a name of its own.',
 ['inputs'],'all byte strings, all buffer sizes, all node trees',
 'Tests compare a few documents with expected text.',
 [C,R,N],[('mpack_print_append / flush',C),('mpack_print_element',R),('mpack_node_print_element',N),('mpack_tag_debug_pseudo_json / describe',C)],
 ['printed text','memory around the buffer'])
p('C26','All build configurations behave the same on what they support',
 'Builds with different options (debug or release, size-optimised or not, with or without the C library, allocator, realloc, stdio, tracking, float, double, extensions, compatibility, builder storage; C or C++; 64- or 32-bit; separate or amalgamated) produce identical bytes for identical writes and identical results for identical input bytes, wherever the feature exists in both.',
 ['configurations','inputs'],'all pairs of supported configurations on all write programs and input bytes',
 'Each test run checks one configuration against literals; nothing compares configurations with each other on generated inputs.',
 [PH,PL,C,CH,W,R,X,N,'tools/amalgamate.sh'],[('configuration macros',PH),('non-libc memcpy/memcmp/strlen replacements',PL),('size-optimised alternative paths',R)],
 ['transcript of a behaviour program across builds'])
p('C27','Arbitrary input and call sequences never corrupt memory or hang',
 'Whatever bytes the input holds and whatever order public reader, expect, node and debug-print functions are applied to it within their documented preconditions, the library performs no out-of-bounds or use-after-free access, no undefined operation and no failed internal assertion, and every call returns after work proportional to the input. Reading, skipping or parsing deeply nested input cannot exhaust the stack.',
 ['inputs','histories'],'all byte strings times all legal call sequences',
 'Tests and the fuzz target follow one fixed decoding pattern; expect functions and mixed histories on hostile bytes are not exercised.',
 [R,X,N,C],[('bounds checks before every access',R),('error-state guards',X),('tree parsing without recursion',N)],
 ['sanitizer reports','assert hook','call completion'])
p('C28','File helpers behave like their in-memory counterparts',
 'Writing through a file writer puts exactly the message bytes into the file, and reading a file through the file reader or file tree gives exactly what reading the same bytes from memory gives, for every content and size; a missing, empty or oversized file is reported as the documented error. A supplied FILE is closed exactly when the caller asked for that, and never otherwise, in success and in error.',
 ['inputs','histories'],'all messages, file sizes around buffer multiples, start offsets, size limits and close options',
 'Tests use two or three fixed files.',
 [W,R,N],[('mpack_file_writer_*',W),('mpack_file_reader_*',R),('mpack_tree_init_stdfile / filename',N)],
 ['file contents','decoded values','descriptor state'])
p('C29','Separate objects are independent of each other',
 'Readers, writers and trees share no hidden state: working on any number of separate objects, interleaved in any order (also from inside each other\'s callbacks) or at the same time on several threads, gives for each object exactly the results, output bytes and errors it gives alone, and involves no data race.',
 ['histories','schedules'],'all interleavings of calls on separate objects',
 'Tests use one object at a time on one thread.',
 [W,R,N],[('function-local state in every module',R),('mpack_tree_parse, node pages and stack',N),('builder and buffers',W)],
 ['results per object','sanitizer'])
p('C30','Detected misuse ends in the bug error and is not acted upon',
 'A misuse the library detects in every build (flushing a message or destroying with a build open or without a flush function, too small a buffer for flush or fill, completing a build with a dangling key or an unfinished container inside, writing a missing tag, an ext or timestamp in v4 mode or out-of-range nanoseconds, zero keys or zero sizes in expect and node calls, the root of an unparsed tree, an empty node pool, a file limit above LONG_MAX) puts the object in the bug error exactly once, calls its error callback once, triggers a debug break only in debug builds, and delivers, returns and allocates nothing; an object already in error keeps that error, and the nearest valid call is accepted.',
 ['histories','inputs'],'all histories of valid calls ending in one such misuse, in every object state',
 'Tests try most misuses once, on fresh objects.',
 [W,R,X,N],[('mpack_writer_flush_message, destroy, complete, set_flush',W),('mpack_reader_set_fill',R),('cstr_alloc, key_uint',X),('mpack_tree_root, init_pool, file limits',N)],
 ['error state','callback count','delivered bytes'])
p('C31','Queries and const data have no side effects',
 'Asking a parsed tree\'s nodes anything that succeeds changes nothing: every query (values, data, lookups, enums, copies, printing) gives what it gives as the first query on a fresh parse of the same message, in any order and however often, and node handles stay valid until the next parse or destroy. Input, keys and strings handed over as const are never written to, not even temporarily, and bytes read in place from memory stay in place.',
 ['histories','inputs'],'all query histories on all message trees, all read and write histories on constant data',
 'Tests query each node once, in document order, on writable data.',
 [N,R,W],[('node accessors and map lookups',N),('mpack_read_bytes_inplace and memory readers',R),('mpack_write_native',W)],
 ['query results','memory protection'])
p('C32','Reading and writing stay buffered and take memory in proportion to the data',
 'A writer with a flush function passes on its data in pieces of about its buffer size, a reader and a streamed tree ask their source for as much as fits, so that calls to sinks and sources are bounded by data size over buffer size (logarithmic for trees). A growable writer takes memory and allocations logarithmic to linear in the output and returns a block of at most about twice the message; builders take pages in proportion to what is built and to the number of containers; fixed writers and readers without allocating functions allocate nothing.',
 ['inputs'],'all documents, buffer sizes and sinks',
 'Tests check results, not how often sinks, sources and the allocator were called; a write that flushes each time passes them all.',
 [W,R,N],[('mpack_writer_ensure, write_native_straddle, growable flush and teardown',W),('builder pages',W),('mpack_fill_range, ensure_straddle',R),('mpack_tree_reserve_fill',N)],
 ['sink and source calls','allocator calls and sizes'])
p('C33','Results do not depend on what memory held before',
 'Every init function sets up its object completely. Whatever the object\'s own memory, the buffers and node pools handed over and the blocks returned by the allocator held before (zeros, noise, or an earlier object of the same or another kind that was destroyed in any state), every call gives the same values, output bytes, callbacks and errors. A destroyed object can be initialised again for anything else.',
 ['histories','inputs'],'all histories of calls on objects, all former contents of the memory involved',
 'Tests use each object once, on memory that happens to be what it is; a field left unset mostly reads as zero there.',
 [W,R,N,C],[('mpack_writer_clear and init functions, builder pages',W),('init functions',R),('mpack_tree_init_clear, pages, parser stack',N),('mpack_track_init, push',C)],
 ['values','output bytes','callbacks','error state'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,sch)
    n=d['statement'].count('. ')+1
    if n>3: print(d['id'],'sentences',n)
print(len(P))
