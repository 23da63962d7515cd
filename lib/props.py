IN = ["inputs"]
HI = ["inputs", "histories"]

p("C01", "Byte-order codecs are exact inverses with the documented layout",
  """Storing a 16, 32 or 64 bit integer or a double in little- or big-endian order puts exactly its bytes, in that order, into exactly
  that many bytes, and reading them back yields the same value, for every value. Byte swaps reverse the bytes, are their own inverse, and
  the host/little/big/network conversions agree with them.""",
  IN, "every 16/32/64-bit value and every bit pattern of a double",
  "No test covers these headers; 2^64 values per operation cannot be sampled.",
  ["inc/fast/encdec.h", "inc/fast/swab.h", "inc/fast/byteorder.h", "inc/fast/little-endian.h"],
  [("enc_*/dec_* inline functions", "inc/fast/encdec.h"), ("__swab*, __cpu_to_*, hton* macros", "inc/fast/swab.h, inc/fast/little-endian.h")])

p("C02", "Base64 encodes per RFC 4648, round-trips and never overruns its buffers",
  """Encoding any byte string yields its standard base64 text (padded, a newline after every 72 characters and at the end), decoding that
  text yields the original bytes, and feeding the input to the streaming encoder or decoder in pieces gives the same result as in one
  piece. The decoder skips characters outside the alphabet. The buffer-to-buffer calls never touch a byte beyond the stated destination
  size: they return -ENOMEM when the result does not fit.""",
  IN, "every byte string, every destination size, every way of splitting the stream, every text given to the decoder",
  "The test round-trips a few fixed sizes in generously sized buffers.",
  ["src/b64_encode.c", "src/b64_decode.c", "inc/utils/base64.h"],
  [("streaming state machine", "src/b64_encode.c base64_encode_block"), ("decode table and state machine", "src/b64_decode.c"),
   ("destination size test", "base64_encode_buf, base64_decode_buf")])

p("C03", "Hex text decoding is exact, bounded and rejects malformed text",
  """Decoding a string of hex digits of either case produces exactly the bytes it denotes (a trailing odd digit
  is the high half of the last byte) and returns the byte count. Any other character is reported as -EINVAL, a result
  larger than the caller's buffer as -ENOMEM, and no byte outside the stated buffer is written.""",
  IN, "every string and every buffer size",
  "The test decodes a small table of strings.",
  ["src/str2hex.c"], [("nibble accumulation and bounds test", "src/str2hex.c str2hex")])

p("C04", "UUIDs format and parse as exact inverses; malformed text is rejected",
  """Every 16-byte UUID prints as its 36-character 8-4-4-4-12 hex form and parsing that text gives the same 16 bytes back; nothing is
  written outside the 16-byte value or the given string buffer. Text that is not 36 characters of exactly 32 hex digits
  and dashes is rejected with -EINVAL, and too-small buffers are refused. Generated UUIDs carry the version 4 and variant bits.""",
  IN, "every 16-byte value, every input text, every buffer size, every random source value",
  "The test prints and re-parses one generated value.",
  ["src/uuid.c", "inc/utils/uuid.h"], [("uuid_tostring / uuid_fromstring", "src/uuid.c")])

p("C05", "ULIDs format and parse as exact inverses and keep time order",
  """Every 128-bit ULID prints as its 26 Crockford base-32 digits, most significant first, so that text order equals numeric order, and
  parsing that text gives the same value back. Parsing rejects any other character, a wrong length and values that do not fit 128 bits.
  A generated ULID carries the 48-bit millisecond clock in its leading bytes.""",
  IN, "every 128-bit value, every input text, every clock value",
  "The test converts a handful of generated values, so a wrong bit group or an out-of-range first digit goes unnoticed.",
  ["src/ulid.c", "inc/utils/ulid.h"], [("base32 digit groups", "src/ulid.c ulid_tostring/ulid_fromstring"), ("timestamp bytes", "ulid_generate")])

p("C06", "Pack then Unpack returns every packed value in the documented layout",
  """For every template of the documented types, counts and byte-order marks, packing values into a buffer and unpacking that buffer with the same
  template returns the same values, and the bytes in between have the documented width and byte order. Both calls report the number of
  bytes they produced or consumed.""",
  IN, "every value of every supported type, both byte orders, scalar, fixed-count, '*' and length-prefixed forms",
  "The test packs one fixed set of values per template.",
  ["src/pack.c", "inc/utils/pack.h"], [("template interpreter", "src/pack.c Pack/Unpack"), ("per-type packers", "src/pack.c")])

p("C07", "Pack and Unpack never leave their buffers, whatever the template or data",
  """Packing or unpacking never reads or writes a byte outside the given buffer, for every template string, every buffer size and every
  content: when the buffer is too short the call fails with an error instead. An unknown type, a malformed template or an oversized count
  is reported as an error, never acted upon.""",
  IN, "every template up to the bound (any bytes), every buffer size and content, every count",
  "Tests use well-formed templates and buffers that are large enough.",
  ["src/pack.c"], [("room test before every element", "src/pack.c"), ("type lookup", "src/pack.c getpacker")])

p("C08", "IPv4 text parsing and printing are exact; malformed addresses are rejected",
  """Printing any IPv4 address and parsing the text gives the address back. Parsing accepts exactly dotted quads of decimal octets 0..255,
  with an optional /0../32 prefix length or dotted mask where a mask is allowed, and yields the denoted address and mask; prefix lengths and masks convert
  both ways for every length 0..32.""",
  IN, "every 32-bit address, every prefix length 0..32, every string up to the bound",
  "The test checks a table of strings.",
  ["src/parse-ip.c", "inc/utils/parse-ip.h"], [("octet and mask parser", "src/parse-ip.c")])

p("C09", "Splitting a string on delimiters loses and invents nothing",
  """Splitting returns exactly the fields between delimiter characters, in order: the empty ones included when separators are significant (save an empty
  one after the last separator), and only the non-empty ones when runs of delimiters are squeezed. The fixed-array form never stores past the
  caller's array and returns a negative error when there are more fields than slots; the allocating form returns all of them.""",
  IN, "every string and delimiter set up to the bound, every array size",
  "Tests check a table of strings.",
  ["src/strsplit.c", "inc/utils/strutils.h"], [("delimiter set and field scanner", "src/strsplit.c")])

p("C10", "CSV field splitting honours quotes and loses no field",
  """Splitting a CSV line returns one string per comma-separated field in order; a quoted field may contain the separator, and an unterminated quote
  is reported as an error. Empty fields are kept (save one after the last separator), and no field beyond the caller's array is stored.""",
  IN, "every line up to the bound, every array size",
  "The test checks a table of lines.",
  ["src/strsplit_csv.c"], [("quote-aware scanner", "src/strsplit_csv.c")])

p("C11", "Command-line splitting keeps every word and quoted blank exactly",
  """Splitting a command line returns its blank-separated words in order, where single or double quotes keep the blanks they
  enclose and are themselves removed, no other character being lost; unterminated quotes and too many words are reported as errors.""",
  IN, "every command line up to the bound, every array size",
  "The test checks a table of lines.",
  ["src/splitargs.c"], [("quote-aware scanner", "src/splitargs.c")])

p("C12", "String-to-integer conversion is exact and detects overflow",
  """Converting text to an unsigned 64-bit integer skips white space, takes an optional sign and, in base 0 or 16, a 0x prefix (base 0: a leading 0 means octal), then
  returns the value of the longest run of digits of the base and the position after it. A value that does not fit 64 bits is -ERANGE, never a wrapped
  number; a character that is no letter or digit, or a base above 36, is -EINVAL.""",
  IN, "every string up to the bound in every base, and long strings around 2^64 in bases 2, 8, 10, 16 and 36",
  "The test checks a table of numbers.",
  ["src/strtosize.c", "inc/utils/strutils.h"], [("digit accumulation with overflow test", "src/strtosize.c strtou64")])

p("C13", "Size strings with unit suffixes convert exactly or are refused",
  """A number with an optional unit suffix (B, k or K, M, G, T, P, E in powers of 1024, followed by an optional B for bytes or b for bits) converts to
  exactly number times unit; a product that does not fit 64 bits gives -ERANGE and any other text after the number -EINVAL, never a wrapped or truncated number.""",
  IN, "every number up to 16 hexadecimal or several decimal digits, every suffix, every string up to the bound",
  "The test binary never calls it; overflow boundaries of each unit need every value.",
  ["src/strtosize.c", "inc/utils/strutils.h"], [("multiplier overflow test", "src/strtosize.c strtosize")])

p("C14", "Human-readable sizes are the right number and unit, and stay in the buffer",
  """A size prints as the whole number of the largest binary unit below it (bytes, kB, MB, GB, TB, PB, EB), followed by its first two decimals, truncated, when it is not whole;
  the text never exceeds the given buffer and is always terminated.""",
  IN, "every 64-bit size, every buffer size",
  "No test covers it; unit boundaries and fractions need every value.",
  ["src/humanize.c"], [("unit selection and remainder", "src/humanize.c humanize_size")])

p("C15", "Bounded copy, trim, unquote and dirname are exact and stay in bounds",
  """Bounded string copy copies the whole string and returns its length, or fills and terminates the buffer and returns an error when it does not
  fit; trimming removes exactly the leading and trailing white space; unquoting removes exactly one matching pair of quotes and reports a missing one; dirname removes
  the last component of a path and the separators around it ("." or "/" when nothing is left). None of them touches a byte outside the string or the stated buffer.""",
  IN, "every string up to the bound, every buffer size",
  "Tests check tables of strings in large buffers.",
  ["src/strcopy.c", "src/strlcpy.c", "src/strtrim.c", "src/strunquote.c", "src/dirname.c"], [("length checks", "src/strcopy.c"), ("quote removal", "src/strunquote.c"), ("separator scan", "src/dirname.c")])

p("C16", "Line reading returns every line intact and never overruns the buffer",
  """Reading a stream line by line returns each line without its terminator (LF, CR or CRLF), in order, including a last line with no terminator, and
  never writes past the caller's buffer; a line longer than the buffer is -ENOSPC and a read error is -errno, never taken for the end of input.""",
  ["inputs", "fault_sequences"], "every stream content up to the bound, every buffer size, a read error at any point",
  "No test covers it.",
  ["src/freadline.c"], [("character loop with room test", "src/freadline.c freadline")])

p("C17", "Growable strings keep content, length and terminator consistent",
  """After every operation on a growable string (initialise, duplicate, append a character, string or gstr, truncate, reset, chop, trim, unquote, copy, read a line) the content is what the operation says,
  the reported length equals the content's length, the content is terminated, and the capacity covers it with real storage; a string may be appended or copied to itself, and no operation touches memory outside the string.""",
  HI, "every valid string state of capacity up to 8 with every content, and one operation with every argument: valid states are closed under the operations, so any sequence is covered inductively",
  "Only variable expansion and escaping are tested.",
  ["src/gstring.c", "inc/utils/gstring.h"], [("capacity growth", "src/gstring.c grow_if"), ("in-place edits", "src/gstring.c")])

p("C18", "Escaping then unescaping returns the original text",
  """Unescaping the escaped form of a string returns that string; escaped text contains none of the characters asked to be escaped
  except behind the escape character. In unescaping, named, octal, hexadecimal and decimal escapes denote the right byte, every other character is kept, and nothing is
  written beyond the string's storage.""",
  IN, "every string up to the bound, every escape set of two characters, every escape character that does not itself name an escape, every escape sequence",
  "The test escapes and unescapes small tables.",
  ["src/escape.c", "src/unescape.c", "src/gstring.c"], [("escape table", "src/unescape.c"), ("gstr_escape", "src/escape.c")])

p("C19", "Variable expansion replaces exactly the variable references",
  """Expanding a string replaces each $name and ${name} reference, in order, with its value from the lookup, turns an escaped \\\\$ into a plain $, and leaves all other text as it was; a
  malformed reference gives -EINVAL, an unknown variable -ENOENT, each reference is looked up exactly once under exactly its name, and nothing outside the string is touched.""",
  IN, "every template up to the bound, every lookup result among unknown, empty, one and two characters",
  "The test expands a table of templates.",
  ["src/gstring_var.c"], [("reference scanner", "src/gstring_var.c getvar, gstr_varexp")])

p("C20", "Arena allocations are aligned, disjoint, sized as asked and all freed",
  """Every block an arena hands out is suitably aligned, at least as large as requested, and disjoint from every other live block, for every sequence of
  request sizes; a request it cannot satisfy fails with an error. Freeing the arena releases every chunk exactly once.""",
  ["inputs", "histories", "fault_sequences"], "every sequence of up to k request sizes (any 64-bit size), any allocation failure",
  "The test allocates fixed sizes.",
  ["src/arena.c"], [("bump pointer with limit test", "src/arena.c arena_alloc"), ("chunk list", "src/arena.c")])

p("C21", "Memory pool blocks are disjoint, conserved and correctly sized",
  """Blocks handed out by a fixed-size pool are aligned, at least the configured size, inside the pool's memory and disjoint from every
  other live block; a freed block becomes available again and is never handed out twice. A bounded pool hands out exactly its maximum and then
  fails, and a pool over caller-supplied memory stays inside it.""",
  ["inputs", "histories", "configurations"], "every block size and limit up to the bound, every sequence of up to k get/put operations, every caller memory size",
  "The test runs one configuration.",
  ["src/mempool.c", "inc/utils/mempool.h"], [("free list", "src/mempool.c mempool_alloc/free"), ("chunk carving", "src/mempool.c new_chunk")])

p("C22", "Vectors hold exactly the elements put into them, in order",
  """After any sequence of append, push, pop, insert, copy, reserve, reset and sample operations a vector's length and elements are what the
  operations say and its capacity covers its length; no operation touches memory outside the vector's storage and every one terminates.""",
  HI, "every sequence of up to k operations with every element value",
  "The test appends a fixed sequence.",
  ["inc/fast/vect.h"], [("geometric growth", "inc/fast/vect.h VECT_RESERVE")])

p("C23", "Linked lists keep order and links through every insert and remove",
  """After any sequence of insertions at head, tail, before or after an element, removals and list joins, walking a list forwards visits
  exactly the expected elements in order, walking a doubly linked list backwards visits them in reverse, and the head, tail and emptiness queries agree. Removal
  while iterating with the safe iterator visits every element once.""",
  HI, "every sequence of up to k operations on up to n elements",
  "The test runs one fixed sequence per list type.",
  ["inc/fast/list.h", "inc/fast/llist.h"], [("SL_*/DL_* macros", "inc/fast/list.h"), ("lockless/simple list", "inc/fast/llist.h")])

p("C24", "Timer wheel and min-heap deliver in order", 
  """Elements come out of the min-heap in non-decreasing key order, each exactly once, after any sequence of inserts and removals.""",
  HI, "every sequence of up to k operations with every key",
  "No test covers it.",
  ["inc/utils/minheap.h"], [("sift up/down", "inc/utils/minheap.h")])

p("C25", "Bit vectors behave as a set of small integers",
  """Setting, clearing, testing, copying, merging and iterating a bit vector of any size agrees with a plain set of integers, and bits outside
  the vector are never touched.""",
  HI, "every vector size up to the bound, every index and every content",
  "Tests set fixed bit patterns.",
  ["inc/fast/bitset.h"], [("word/bit index computation", "inc/fast/bitset.h")])

p("C26", "The fixed-size queue is first-in first-out with exact full/empty",
  """Through any sequence of enqueue and dequeue operations, across index wrap-around, the queue returns exactly the enqueued elements in order, reports
  full exactly when it holds its capacity and empty exactly when it holds none, and its length is the number held.""",
  HI, "every sequence of up to k operations from every reachable index position, for several capacities",
  "No test covers it.",
  ["inc/fast/queue.h"], [("read/write indices modulo size", "inc/fast/queue.h")])

p("C27", "The single-producer queue loses, repeats and reorders nothing under any schedule",
  """With one producer and one consumer running concurrently, the consumer receives exactly the producer's elements in order, an enqueue fails only
  when the queue is full and a dequeue only when it is empty, and element contents are never torn, under every interleaving and across wrap-around.
  The synchronisation orders each element's write before its read and each slot's read before its reuse.""",
  ["schedules", "histories"], "every interleaving of up to k concurrent producer and consumer operations from every index position",
  "The stress test samples a few schedules on strongly ordered hardware.",
  ["inc/fast/spsc_bounded_queue.h"], [("acquire/release indices", "inc/fast/spsc_bounded_queue.h")])

p("C28", "The multi-producer queue delivers each element exactly once under any schedule",
  """With several producers and consumers running concurrently, every enqueued element is dequeued exactly once, elements of one producer come out in
  order, an enqueue fails only when the queue is full and a dequeue only when it is empty, under every interleaving and across
  wrap-around. The synchronisation orders each element's write before its read and each slot's read before its reuse.""",
  ["schedules", "histories"], "every interleaving of up to k concurrent operations from every index position",
  "The stress test samples a few schedules on strongly ordered hardware.",
  ["inc/fast/mpmc_bounded_queue.h"], [("per-slot sequence numbers and CAS", "inc/fast/mpmc_bounded_queue.h")])

p("C29", "The ring buffer moves bulk elements intact, in order, exactly once",
  """Bulk and burst enqueues and dequeues on the ring move the reported number of elements, in order and exactly once, across wrap-around; bulk
  calls are all-or-nothing, free and used counts agree with the content, and the watermark is reported as documented. This holds for the single and the multi
  producer/consumer forms under every interleaving.""",
  ["schedules", "histories"], "every sequence of up to k bulk/burst operations from every index position; every interleaving of two concurrent operations",
  "The test samples a few schedules and sizes.",
  ["inc/fast/ringbuf.h"], [("head/tail reservation", "inc/fast/ringbuf.h")])

p("C30", "The blocking queue never loses an element or a wake-up",
  """Every element put into the synchronised queue is taken out exactly once in order; a consumer waiting on an empty queue is woken by the
  next put and a producer waiting on a full queue by the next take, and neither waits while it could proceed, under every interleaving.""",
  ["schedules", "histories"], "every interleaving of up to k operations at every lock and wait point",
  "The test runs one producer/consumer schedule.",
  ["inc/fast/syncq.h"], [("mutex and two semaphores / conditions", "inc/fast/syncq.h")])

p("C31", "The job manager runs each submitted job exactly once and waits for all",
  """Each submitted job is run exactly once by some worker, waiting returns only when every submitted job has finished, and stopping leaves no worker running
  and no job half-run, under every interleaving of submission, completion and stop.""",
  ["schedules", "histories"], "every interleaving at lock/wait points of up to k jobs and n workers",
  "No test runs it.",
  ["src/posix/job.c", "inc/posix/job.h"], [("queue, counter and condition variable", "src/posix/job.c")])

p("C32", "The work manager completes every work item and reports its result",
  """Each work item added is executed exactly once, and waiting returns only when all of them have completed, under every
  interleaving of the submitter and the workers.""",
  ["schedules", "histories"], "every interleaving at lock/wait points of up to k items and n workers",
  "No test runs it.",
  ["src/posix/work.c", "inc/posix/work.h"], [("queue and completion count", "src/posix/work.c")])

p("C33", "The fast hash table is a map: no key lost, duplicated or invented",
  """After any sequence of inserts, replaces, deletes and growth steps, looking up a key returns the value last stored for it, or not found if it was never stored or
  was deleted; inserting an existing key returns the existing value, and the entry count equals the number of live keys. Colliding keys are no exception.""",
  HI, "every sequence of up to k operations over every (non-zero) 64-bit key and value, including all collisions",
  "Tests use random keys, for which fingerprint and bucket collisions are rare.",
  ["src/hashtable/fast-ht.c", "inc/utils/fast-ht.h"], [("bags with fingerprints", "src/hashtable/fast-ht.c"), ("resize", "src/hashtable/fast-ht.c")])

p("C34", "The thread-safe hash table is a map with exact counts and one owner per datum",
  """After any sequence of inserts, probes, replaces, removals and resizes, lookup returns the datum last stored for a key and only that, the node count equals the number of
  live entries, duplicates are refused or replaced as the call says, and every datum the table owns is released exactly once.""",
  HI, "every sequence of up to k operations with every key and hash value, including total collisions and resizes",
  "The test inserts and finds a word list.",
  ["src/hashtable/hashtab.c", "inc/utils/hashtab.h"], [("bucket chains of bags", "src/hashtable/hashtab.c"), ("resize", "src/hashtable/hashtab.c")])

p("C35", "Hash table iterators visit every entry exactly once",
  """Iterating a hash table, over the entries that may collide with a key, over all entries or in sorted order, visits exactly those live entries, each once, in the promised order,
  and then reports the end, also when stepped past it; no lock stays held or is taken twice, and an iterator that cannot be made for lack of memory leaves nothing behind.""",
  ["inputs", "histories", "fault_sequences"], "every table content of up to two entries with every hash value and seed",
  "The test walks one word list on a table without locks and never iterates over a bucket.",
  ["src/hashtable/hashtab_iter.c"], [("bucket and node cursors", "src/hashtable/hashtab_iter.c")])

p("C36", "Hash table operations always release the locks they take",
  """Every operation of a hash table with locks (create, insert, probe, replace, lookup, remove, conditional removal, apply, delete), whether it succeeds or fails, leaves no lock held,
  takes none twice, releases only what it holds, and deleting the table deletes every lock it made.""",
  ["histories", "fault_sequences"], "every operation after every sequence of up to k others, with memory refused at any of them",
  "The tests are single-threaded on a table without locks.",
  ["src/hashtable/hashtab.c"], [("bucket locks", "src/hashtable/hashtab.c"), ("table lock while growing", "resize in src/hashtable/hashtab.c")])

p("C37", "Bloom filters never forget an added element",
  """After any sequence of additions, every added element is reported as possibly present by the standard, quick, counting and scalable filters; an empty filter reports nothing present,
  and the reported element count is the number added.""",
  HI, "every sequence of up to k 64-bit elements, every hash coincidence, several filter sizes",
  "The test adds a fixed word list.",
  ["src/hashtable/bloom.c", "inc/utils/bloom.h"], [("k probe positions", "src/hashtable/bloom.c")])

p("C38", "Counting filter removal undoes exactly one addition",
  """Removing an added element from a counting filter undoes exactly that addition: every other added element, however it collides and however often it was added, is still
  reported present, and the filter is back to its earlier content.""",
  HI, "every sequence of up to k additions and removals including counter saturation",
  "The test never removes colliding elements.",
  ["src/hashtable/bloom.c"], [("per-slot counters", "src/hashtable/bloom.c")])

p("C39", "Saved Bloom filters load back identical; damaged files are refused safely",
  """A filter written to a file and read back answers every query as before. Loading any other file content is refused with an error, with no access outside the file and no leaked
  resource.""",
  ["inputs", "fault_sequences"], "every filter content at small sizes; every file header and length",
  "The test loads one good file.",
  ["src/hashtable/bloom_marshal.c"], [("header and checksum validation", "src/hashtable/bloom_marshal.c")])

p("C40", "Xor filters report every inserted key and build safely for every size",
  """A xor filter built from any set of keys reports every one of them present, and building it touches no memory outside its tables for every number of keys; failure to build is reported and
  leaks nothing.""",
  IN, "every key set of up to n keys, both fingerprint widths, every seed",
  "The test builds from large random key sets, so small sizes are never reached.",
  ["src/hashtable/xorfilter.c", "inc/utils/xorfilter.h"], [("peeling construction", "src/hashtable/xorfilter.c"), ("table size", "xorfilter.c")])

p("C41", "Saved xor filters load back identical; damaged files are refused safely",
  """A xor filter written to a file and read back answers every query as before. Any other file content is refused with an error, with no access outside the file.""",
  ["inputs", "fault_sequences"], "every filter content at small sizes; every file header and length",
  "The test loads one good file.",
  ["src/hashtable/xorfilter_marshal.c"], [("header and checksum validation", "src/hashtable/xorfilter_marshal.c")])

p("C42", "Hash functions compute their published value and read only their input",
  """murmur3 (32 bit, both 128 bit variants), FNV-1a (32 and 64), SuperFastHash (hsieh), fasthash (32 and 64), SipHash-2-4, xxHash (32 and 64) and CityHash (64 and 128, with and without seed) return the
  published value of their algorithm for every input, length and seed; xxHash fed piece by piece gives the value of the whole. Every hash, yorrike included, is a function of the
  input bytes, length and seed only, and reads no byte outside the input.""",
  IN, "every input of up to n bytes, every seed, every split",
  "Tests print speed, or compare a fixed table for one function.",
  ["src/hashfunc/murmur3_hash.c", "src/hashfunc/siphash24.c", "src/hashfunc/fnvhash.c", "src/hashfunc/hsieh_hash.c", "src/hashfunc/fasthash.c", "src/hashfunc/xxhash.c", "src/hashfunc/cityhash.c", "src/hashfunc/yorrike.c", "inc/utils/hashfunc.h"],
  [("block loop and tail", "src/hashfunc/*.c")])

p("C43", "Pseudo-random generators produce their published sequences",
  """From every state, splitmix64, xorshift64*, xorshift128+, xorshift1024*, xoroshiro128+ and the Romu generators return the published next value and move to the published next state;
  a given seed fixes the whole sequence (only a missing seed takes entropy), indices stay in range, and frand() returns the generator's bits as a number in [0, 1).""",
  IN, "every generator state, seed and entropy value",
  "Tests print statistics and speed.",
  ["src/prng/xorshift.c", "src/prng/xoroshiro.c", "src/prng/romu-rand.c", "src/prng/frand.c", "inc/utils/splitmix.h"], [("state update", "src/prng/*.c")])

p("C44", "The strong random generator reseeds on schedule and draws uniformly",
  """The strong generator never hands out more than its limit of output between reseeds whatever the request sizes, hands out each byte of its ChaCha20
  key stream once and in order, wipes what it handed out, replaces the key after each block, and seeds itself afresh in a new process.
  A bounded draw returns a value below the bound, each equally likely.""",
  ["inputs", "histories"], "every sequence of up to k request sizes, every entropy source value, every bound",
  "The test prints a few values.",
  ["src/arc4random.c", "src/chacha_private.h", "inc/utils/arc4random.h"], [("byte counter and reseed", "src/arc4random.c"), ("block function", "src/chacha_private.h"), ("rejection sampling", "arc4random_uniform")])

p("C45", "Hex dumps show every byte at its offset and stay in the buffer",
  """A hex dump shows every byte of a write once, in order, at its offset within that write (or its address), with its printable character, in lines of the
  documented layout; nothing outside the line buffer is touched, and a failing writer or stream stops the dump and is reported.""",
  ["inputs", "fault_sequences"], "every input up to the bound, every offset, a writer failure at any line",
  "The test prints a dump for eyeballing.",
  ["src/hexdump.c", "inc/utils/hexdump.h"], [("line formatter", "src/hexdump.c")])

p("C46", "Log rotation never loses a kept generation, whatever fails",
  """Rotating a file keeps the configured number of generations (at least one): each existing generation moves to the next number, only those beyond the limit are
  deleted and only the oldest is ever overwritten, and the newest is the former file. At every point in between, and when any rename or inquiry fails (which the call reports), every generation still wanted exists
  exactly once. No other file is touched, however long the name. Rotating by size does so exactly when the file is larger than the limit.""",
  ["inputs", "fault_sequences", "crash_points"], "every set of existing generations, every limit up to the bound, a failure at any file-system call, names up to the longest path",
  "The test rotates a few files with no failures.",
  ["src/rotatefile.c"], [("descending rename loop", "src/rotatefile.c"), ("deletion of surplus generations", "delete_old")])

p("C47", "mkdir -p creates exactly the missing directories or reports why not",
  """Creating a directory path creates each missing component once, in order, with the requested mode, succeeds when it already exists as a directory (with or without
  a trailing slash), and reports any other failure without touching anything outside the path.""",
  ["inputs", "fault_sequences"], "every path up to the bound, every file-system answer at every component",
  "The test creates one tree.",
  ["src/mkdirhier.c"], [("component walk", "src/mkdirhier.c")])

p("C48", "Option parsing follows getopt_long for every argument vector",
  """Parsing an argument vector returns each option with its argument exactly once in order: short options bundled or with attached arguments, long options with = or separate arguments
  and unambiguous abbreviations; unknown or incomplete options are reported, operands are left in order, and no access leaves the vector.""",
  IN, "every argument vector up to the bound for a fixed set of options",
  "No test covers it.",
  ["src/getopt_long.c", "inc/getopt_long.h"], [("argument permutation", "src/getopt_long.c"), ("abbreviation match", "parse_long_options")])

p("C49", "Progress output is monotone, bounded and ends at 100%",
  """For every total, count and terminal width, the progress bar shows the percentage done, rounded down, between 0 and 100, which never decreases, and a bar exactly as wide
  as the terminal allows that fills from the left; it is full, and the percentage 100, once the count reaches the total.""",
  HI, "every count so far, every next increment, totals and terminal widths from a list",
  "The test runs one fixed sequence.",
  ["src/progbar.c", "inc/utils/progbar.h"], [("percentage and bar computation", "update_total_progress")])

p("C50", "Arithmetic utilities (align, powers of two, masks, time units) are exact",
  """Align up/down, power-of-two tests and rounding, speculation-safe index masks and time-unit conversions return exactly the mathematical result for every argument of their domain.""",
  IN, "every argument of the machine type in the documented domain",
  "Tests check a few values.",
  ["inc/utils/utils.h", "inc/utils/typeutils.h", "inc/utils/nospec.h", "inc/fast/tmutils.h"], [("macros", "inc/utils/utils.h")])

p("C51", "String search finds exactly the occurrences of the pattern",
  """The string search algorithms report exactly the positions at which the pattern occurs in the text, and read nothing outside either.""",
  IN, "every text and pattern up to the bound",
  "The test searches fixed texts.",
  ["inc/utils/strmatch.h"], [("Rabin-Karp, KMP, Boyer-Moore", "inc/utils/strmatch.h")])

p("C52", "Directory traversal visits every entry exactly once",
  """Walking a file tree visits every entry below the given paths exactly once, directories before and after their contents, and reports unreadable ones.""",
  ["inputs", "fault_sequences"], "every small tree shape and every failing directory operation",
  "The test walks one tree.",
  ["src/fts.c"], [("fts_build / fts_read", "src/fts.c")])

p("C53", "The memory-manager and file-mapping helpers keep their contracts under faults",
  """A growable-buffer memory manager and the file-mapping helpers return usable memory or an error for every size and every failing system call, releasing whatever they acquired on failure.""",
  ["inputs", "fault_sequences"], "every size and offset, a failure at any system call",
  "Tests map one file.",
  ["src/memmgr.c", "src/mmap.c", "inc/utils/mmap.h"], [("system-call result checks", "src/mmap.c")])


na("C24", "The timer wheel and min-heap are C++ templates over the standard library; CBMC's C++ front end is partial and does not accept them, and no other solver-based front end for C++ is installed.")
na("C29", "Not encoded within the time available (1100 lines of macros with bulk copies at symbolic positions); the sibling queues C26, C27 and C28 are claimed.")
na("C30", "Not encoded within the time available: it needs a model of semaphores and mutexes under arbitrary interference like the one built for C27 and C28.")
na("C31", "Not encoded within the time available: worker threads blocked on semaphores are outside the interference model built for C27 and C28.")
na("C32", "Not encoded within the time available: as C31.")
na("C33", "Not encoded within the time available: slots are found by 64-bit multiplicative hashes, which SAT handles poorly with symbolic keys.")
na("C37", "Not encoded within the time available: k positions from 64-bit multiplicative hashes reduced modulo the filter size, over large bit arrays.")
na("C38", "Not encoded within the time available: as C37.")
na("C39", "Not encoded within the time available: needs a model of mmap and a 64-bit hash over the whole symbolic file.")
na("C40", "Construction retries random seeds until a peeling succeeds: the number of rounds has no bound, so no useful unrolling exists.")
na("C41", "Not encoded within the time available: as C39, on top of the xor filter of C40.")
na("C51", "The string searchers are C++ templates (inc/utils/strmatch.h); CBMC's C++ front end does not accept them.")
na("C52", "fts.c (1200 lines) walks the real directory tree through open, fchdir, readdir and stat; a file-system model with symbolic trees of useful size was not within reach.")
na("C53", "Not encoded within the time available; most of the mmap helpers' behaviour is that of the system calls they wrap.")
