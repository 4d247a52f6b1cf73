"""What each check runs. One entry per claimed property."""


def norm(r):
    r = dict(r)
    r.setdefault('variant', 'asan')
    r.setdefault('workers', 8)
    r.setdefault('par', 0)          # 0: as many at a time as processors
    b = {'quick': 60, 'thorough': 1500}
    b.update(r.get('budget', {}))
    r['budget'] = b
    w = {'quick': 240, 'thorough': 2400}
    w.update(r.get('watchdog', {}))
    r['watchdog'] = w
    return r


SPECS = {}
NA = {}


def S(pid, rule, runs, technique, note, level='exploration', **kw):
    SPECS[pid] = dict(rule=' '.join(rule.split()), runs=runs, level=level,
                      technique=' '.join(technique.split()),
                      note=' '.join(note.split()), **kw)


S('C29', '''random arrays of every integer width (shapes: random, edge values, few
  values, one varying byte, sorted, reversed, nearly sorted; 0 to 3000
  elements) and of generic elements of 1 to 32 bytes; a case is one array with
  all operations on it; distinct = distinct sorted content''',
  [dict(harness='sorts')],
  '''differential monitor against plain definitions on exact-size heap arrays
  under ASan/UBSan''',
  '''held on the sampled arrays; libc qsort is the reference order''')


ASAN_NOTE = '''held on the sampled executions only; ASan red zones do not see
  overflows inside one object'''
S('C01', '''random values of every type of 8 packages (hand-written, random
  schema and the test suite's) packed with random flags, single- and
  multi-threaded, unpacked through a random entry point into garbage-filled
  memory; distinct = distinct encodings''',
  [dict(harness='iopbin', scenario='roundtrip')],
  '''round-trip oracle with an independent descriptor-driven comparison,
  exact-size heap buffers, ASan/UBSan''', ASAN_NOTE)
S('C02', '''mutated valid encodings, random well-formed tag streams, raw bytes,
  every truncation, lying element counts, deep nesting of unknown fields;
  distinct = distinct inputs''',
  [dict(harness='iopbin', scenario='hostile,truncate,counts,skip')],
  '''ASan/UBSan on exact-size inputs, plus an oracle on accepted values (walk,
  constraints, duplicate, re-encode, re-read)''', ASAN_NOTE)
S('C03', '''random values of each type of two versions of a random schema read
  with the other version; random pairs of types for the compatibility
  checker; distinct = distinct encodings or pairs''',
  [dict(harness='iopbin', scenario='evolve,compat')],
  '''cross-version comparison monitor (field by field by tag) under
  ASan/UBSan''', ASAN_NOTE)
S('C04', '''random values of every type of 8 packages written as JSON with
  random lossless flags, read back as is, with blanks and comments between
  tokens, as a stream of several values and through files; distinct =
  distinct documents''',
  [dict(harness='ioptext', scenario='json')],
  '''round-trip oracle with an independent value comparison and an independent
  RFC 8259 syntax checker, on exact-size heap documents, ASan/UBSan''',
  ASAN_NOTE)
S('C05', '''valid JSON, YAML and XML documents of random values mutated at the
  byte and token level, and raw bytes, parsed with random flags; distinct =
  distinct documents''',
  [dict(harness='ioptext', scenario='jhostile,yhostile,xhostile',
        watchdog=dict(quick=100))],
  '''ASan/UBSan on exact-size documents, plus an oracle on accepted values
  (walk, constraints, binary round trip) and on error messages''', ASAN_NOTE)
S('C06', '''random values of every type written as YAML and read back, with
  and without presentation data; random YAML trees packed and parsed; random
  hand-formatted documents parsed, packed, parsed again; distinct = distinct
  documents''',
  [dict(harness='ioptext', scenario='yaml,ytree,ydoc')],
  '''round-trip oracles with independent comparisons of values and trees,
  exact-size heap documents, ASan/UBSan''', ASAN_NOTE)
S('C07', '''random values with XML-representable strings of every type written
  as XML with random flags and read back; distinct = distinct documents''',
  [dict(harness='ioptext', scenario='xml')],
  '''round-trip oracle with an independent value comparison (libxml2 judges
  the well-formedness), ASan/UBSan''', ASAN_NOTE)
S('C08', '''random values of every type of 8 packages duplicated or copied with
  every flag and pool kind, then the original overwritten; triples of values
  equal or differing by one or two small changes; distinct = distinct values''',
  [dict(harness='iopval', scenario='dup,eq')],
  '''independent descriptor-driven comparison as oracle, algebraic laws of the
  order, SHA-256 of values, ASan/UBSan''', ASAN_NOTE)
S('C09', '''random values of 37 types holding random constraints of every
  kind, half of them with values drawn at or just beyond the limits, checked
  directly and through the binary, JSON, YAML and XML unpackers; distinct =
  distinct encodings''',
  [dict(harness='iopval', scenario='constraints')],
  '''acceptance compared with an oracle evaluating a table of the constraints
  generated along with the schema, ASan/UBSan''', ASAN_NOTE)
S('C10', '''random vectors of every type sorted on 1 to 3 random field paths
  (subfields, array elements, lengths, class names, casts, union members) and
  filtered on random values; distinct = distinct path, type and length''',
  [dict(harness='iopval', scenario='sort,filter')],
  '''independent path resolution and comparison: permutation and order of the
  result, exact kept subsequence, ASan/UBSan''', ASAN_NOTE)
S('C26', '''random histories (insertions in 8 ways, lookups in 4, removals in
  5, clears, minimum sizes, seals, enumerations with removals) on 20 types of
  sets and maps, small and huge, with colliding keys and poor hash functions,
  on 3 kinds of pools; distinct = distinct histories''',
  [dict(harness='hashes', scenario='hash')],
  '''every answer compared with an array model, full content comparison by
  lookup and by enumeration, ASan/UBSan''', ASAN_NOTE)
S('C27', '''random histories of 33 operations on vectors of 8 element types (1
  to 100 bytes) on the heap, a stack pool, or a buffer of exact size; distinct
  = distinct histories''',
  [dict(harness='containers', scenario='vector')],
  '''model-based monitor: the whole vector is compared with an ideal sequence
  after each operation, under ASan/UBSan''', ASAN_NOTE)
S('C28', '''random histories on red-black trees, heaps (23 instances), doubly
  linked lists, head-tail lists and rings; distinct = distinct histories''',
  [dict(harness='containers', scenario='rbtree,heap,dlist,htlist,ring')],
  '''model-based monitor: order, content, links and balance checked after each
  operation, under ASan/UBSan''', ASAN_NOTE)

S('C15', '''random IPv4, IPv6 and unix addresses (edge ports, runs of zeros,
  abstract names, bytes after the end), almost equal pairs, host:port texts
  around the grammar, every mask length with peers around the mask boundary,
  URLs with components around the size of their fields; distinct = distinct
  addresses and texts''',
  [dict(harness='addrs',
        scenario='print,spread,parse,resolve,filter,url')],
  '''identity of addresses, bitwise network matching and reference parsers as
  oracles, texts in exact-size heap blocks under ASan/UBSan''', ASAN_NOTE)

S('C45', '''random histories of retains and releases (plain, tagged, scoped,
  nested) of objects of 7 classes with and without their own init and wipe, in
  libc, pool and caller's memory; random dependency graphs of 2 to 10 modules
  with constructors requiring other modules, failing destructors, methods, and
  the final shutdown, each in a process of its own; distinct = distinct
  histories and graphs''',
  [dict(harness='objmod', scenario='objects'),
   dict(harness='objmod', scenario='modules')],
  '''online monitor: every constructor, destructor, init, wipe and method
  call is checked against a reference count and dependency model, under
  ASan/UBSan''', ASAN_NOTE)

S('C46', '''arrays of random lengths, offsets and densities for the scans and
  counts (each processor version), random and edge integers for the rest;
  distinct = distinct arrays and operands''',
  [dict(harness='bits', scenario='scan,arith')],
  '''differential monitor against bit by bit definitions, under
  ASan/UBSan''', ASAN_NOTE)

S('C47', '''random data with injected short transfers, interruptions and hard
  errors in read/write/pread/pwrite/writev; random trees with links, loops,
  fifos and odd names, made, listed, copied and removed, with other processes
  interfering; several processes fighting for a directory lock and dying with
  it; random descriptor tables; distinct = distinct data, trees and tables''',
  [dict(harness='unixfs',
        scenario='rw,huge,mkdir,rmdir,listdir,copy,outbuf,lockdir,fds,misc')],
  '''content, trees (snapshots before and after), results and errno compared
  with independent models; removals interposed, refused and reported out of
  the scratch directory; holders counted in shared memory, under
  ASan/UBSan''', ASAN_NOTE)

S('C49', '''random expression trees written with the parentheses they need
  and some more, with operands at the limits of 64 bits; sequences of tokens
  around the grammar; JSON documents of arrays of expressions for each integer
  type, read in a row by a single lexer, some of them wrong or cut in the
  middle of an expression; distinct = distinct expressions and documents''',
  [dict(harness='expr', scenario='fold,soup,json')],
  '''value, sign and refusal compared with exact (128 bits) arithmetic on the
  tree, itself cross-checked with a reference parser, under ASan/UBSan''',
  ASAN_NOTE)

S('C50', '''random histories of allocations (1 to 32768 pages, alignments up
  to 4096 pages), copies, remappings, whole and partial frees, with and
  without the segment, by one thread or by 2 to 6 threads at once; distinct =
  distinct histories''',
  [dict(harness='pages', scenario='pages'),
   dict(harness='pages', scenario='threads'),
   dict(harness='pages', scenario='threads', variant='tsan')],
  '''each live page carries stamps of its own, checked before and after each
  operation that touches its block; blocks checked disjoint, aligned and
  zeroed when asked to, under ASan/UBSan; the threaded histories also under
  ThreadSanitizer''', ASAN_NOTE)

S('C51', '''random JSON and SOAP queries (well formed, ill formed, unknown,
  too large, chunked, compressed answers, credentials) pipelined on 1 to 3
  connections to a server whose RPCs are local, proxied to local and remote
  channels, or absent, answering at once or later, in any order, to clients
  that may leave; distinct = distinct byte streams''',
  [dict(harness='rpchttp', scenario='server'),
   dict(harness='rpchttp', scenario='client')],
  '''monitors: one answer per query in the order of the queries, its code,
  format and decoded value compared with what the implementation answered to
  these arguments; runs, hooks and credentials of the implementations; under
  ASan/UBSan''', ASAN_NOTE)

S('C52', '''texts over small alphabets (so that prefixes, suffixes, words and
  near misses happen) and over all bytes, in heap blocks of exactly their
  size; counters at their overflow, edit distances with limits around the
  distance, string buffers of every pool with skipped bytes and none; distinct
  = distinct inputs''',
  [dict(harness='strings', scenario='cstr,words,counter,lcmp,copy,own')],
  '''results compared with naive definitions written apart, bytes around the
  output and ownership of the results, under ASan/UBSan''', ASAN_NOTE)

S('C53', '''random sets of options (flags, signed and unsigned integers of 8
  to 64 bits, strings, characters; short and long names that are prefixes of
  one another) and command lines built with their expected effect: grouped
  flags, attached and separate values, negations, limits of every integer
  type, missing or wrong values, unknown options, end of options; distinct =
  distinct command lines''',
  [dict(harness='cli', scenario='opts')],
  '''value of each option, verdict and arguments left compared with those the
  command line was built from, in memory of exactly the size of the options,
  under ASan/UBSan''', ASAN_NOTE)

S('C54', '''random tables (widths, alignments, ellipsis, empty values, columns
  omitted when empty, rows of any length) and random trees written with the
  XML printer, with texts full of the characters to escape; distinct =
  distinct tables and documents''',
  [dict(harness='cli', scenario='table,xml')],
  '''rows compared with a formatter written apart, CSV rows read back by a
  strict reader, documents read back with libxml2 and compared with the tree
  written, under ASan/UBSan''', ASAN_NOTE)

S('C55', '''random histories of up to 24 watches (functions and blocks) over 4
  directories: files created, written, moved between directories, removed,
  directories removed and made again, masks changed, watches closed at any
  time, including by the callbacks with events still pending; distinct =
  distinct sequences of events''',
  [dict(harness='fswatch', scenario='watch')],
  '''each event compared online with the one expected next for its watch (kind,
  name, pairing of the moves), none after the end of a watch, none missing when
  the loop is idle; ASan/UBSan on the life of the watches''', ASAN_NOTE)

S('C56', '''random rates (up to the largest) and numbers of slots; limiters
  (functions and blocks) used eagerly, after a wait, or at random with stops,
  restarts, late loops and slow callbacks, under a virtual clock; distinct =
  distinct rates and histories''',
  [dict(harness='rate', scenario='slots,rctl')],
  '''log of the grants with their virtual time checked against the rate over
  every window, totals of eager users and bursts of idle ones compared with the
  definition; UBSan on the arithmetic''', ASAN_NOTE)

S('C57', '''random sets of up to 60 files (0 to 100000 bytes: random, constant,
  text, repeated, full of the characters of C strings) with odd names in
  nested directories, scripts with comments, blanks and missing files, with
  and without compression; distinct = distinct files''',
  [dict(harness='farchive', scenario='archive')],
  '''the archive made is compiled, loaded, and each file asked back by name, by
  entry and persistently, and compared with the original; archiver and reader
  under ASan/UBSan''', ASAN_NOTE)

S('C30', '''random histories of appends (runs up to 2^36 bits, literals),
  boolean operations, copies, exports and imports on 4 bitmaps, with small and
  large buckets; distinct = distinct histories''',
  [dict(harness='wah', scenario='wah')],
  '''model-based monitor: length, count, bit access, bit and word enumerations
  in both polarities compared with a run-length model after each operation,
  under ASan/UBSan''', ASAN_NOTE)

S('C25', '''random histories of allocations, reallocations (with and without
  zeroing), frees, frames, seals, checkpoints, resets and pool deletions with
  live blocks on the heap, cache-aligned, fifo, stack, thread-stack and ring
  pools; distinct = distinct histories''',
  [dict(harness='mempools', scenario='heap,stack,ring,misc')],
  '''monitor keeping a pattern in each live block: overlap, alignment, zeroing
  and content checked at each step, under ASan/UBSan''', ASAN_NOTE)

S('C31', '''random histories of 34 kinds of operations (appends, splices, skips,
  clips, trims, formatted text, steals, resets, rewinds, file and pipe input)
  on heap, static, stack, ring and fifo storage; distinct = distinct
  histories''',
  [dict(harness='strbuf', scenario='sb')],
  '''model-based monitor: whole content, terminator and size invariants
  compared with an ideal byte sequence after each operation, under
  ASan/UBSan''', ASAN_NOTE)

S('C36', '''random histories of 48 operations on byte slices of exact-size heap
  blocks, splits, CSV lines, scatter copies, mixed-width endian sequences, bit
  buffers of any offset; distinct = distinct contents and histories''',
  [dict(harness='streams', scenario='ps,split,csv,copyv,endian'),
   dict(harness='bits', scenario='bitbuf')],
  '''model-based monitor: position, result and slice compared with naive
  definitions after each operation, under ASan/UBSan''', ASAN_NOTE)

S('C35', '''random number texts (all bases, signs, prefixes, suffixes, blanks,
  limits of each width and of each multiplier, garbage) in exact-size heap
  blocks; distinct = distinct texts''',
  [dict(harness='strnum', scenario='int,strtolp,ext,double,parse')],
  '''value, end position and error compared with an independent 128-bit
  parser (libc strtod for doubles), under ASan/UBSan''', ASAN_NOTE)
S('C37', '''random paths made of dots, double dots, names and repeated slashes,
  buffers of every size; distinct = distinct paths and sizes''',
  [dict(harness='paths', scenario='simplify,safe,psplit,join,relative')],
  '''designated file computed by an independent resolver before and after;
  exact-size heap buffers under ASan/UBSan''', ASAN_NOTE)

S('C32', '''random byte strings biased to the special characters of each
  encoding, in exact-size heap blocks: encoded, checked against an independent
  encoder, decoded back; random and almost-valid encoded texts against
  independent strict decoders; streaming base64 with random chunking; CSV
  escaping by threads with different separators; distinct = distinct
  inputs''',
  [dict(harness='quoting', scenario='b64,hex,url,qpe,xml,cstr,env,csv,puny'),
   dict(harness='quoting', scenario='csvthr', workers=1)],
  '''round trips and verdicts compared with independent codecs, under
  ASan/UBSan''', ASAN_NOTE)

S('C33', '''random texts over ASCII, Latin, Greek, BMP, astral characters and
  ligatures, half of them with broken sequences, in exact-size heap blocks;
  respelled pairs for the comparisons, LIKE patterns derived from the text,
  all GSM septets packed behind headers of any size; distinct = distinct
  texts''',
  [dict(harness='charset', scenario='utf8,cmp,like,case,conv,gsm')],
  '''decoded code points, keys, conversions and round trips compared with
  independent codecs and tables (3GPP 23.038, CP1252, Latin-9), under
  ASan/UBSan''', ASAN_NOTE)

S('C34', '''random formats of 1-4 directives over all standard flags, widths,
  precisions (literal and starred, negative included), length modifiers and
  conversions except %a and the non-finite numbers, arguments at the limits of
  each type, doubles near rounding boundaries, output sizes from 0 to the
  exact size, through buffers, string buffers and streams; the raw memory,
  lstr and 128-bit extensions; threads printing doubles; distinct = distinct
  formats and arguments''',
  [dict(harness='iprintf', scenario='std,ld,ext'),
   dict(harness='iprintf', scenario='thr', workers=1)],
  '''text, length, terminator and untouched bytes compared with the C library
  for the same format, with exact-size heap buffers under ASan/UBSan''',
  ASAN_NOTE)

S('C39', '''random data with matches at every distance and length limit of the
  formats (up to 70 kB), dictionaries left with garbage, outputs of the exact,
  smaller and larger sizes, truncated, mutated and made-up streams in
  exact-size heap blocks; every zlib level, gzip or not, after a prefix;
  distinct = distinct inputs''',
  [dict(harness='compress', scenario='lzo,lzohostile,zlib')],
  '''round trips, agreement with an independent LZO1X decoder (verdict and
  bytes) and with zlib's inflate, under ASan/UBSan''', ASAN_NOTE)

S('C40', '''random messages of up to 5 kB around the block limits, at any
  alignment, digested at once, in random chunks, from files, with keys of any
  length; every AES and DES mode in random chunks and in place; SSL contexts
  with random chunking, reset and reuse; SHA256-crypt and RSA signatures,
  genuine and tampered; messages beyond 4 GB in the thorough tier; distinct =
  distinct messages and keys''',
  [dict(harness='crypto',
        scenario='digest,hmac,hash,aes,des,ssl,shacrypt,rsa,huge')],
  '''results compared with OpenSSL, libcrypt and bit-by-bit reference
  implementations, under ASan/UBSan''', ASAN_NOTE)

S('C38', '''random instants from 1902 to 2099, half of them around the changes of
  offset, in 15 time zones (daylight saving in both hemispheres, fractional
  offsets, changes at midnight), printed and parsed in every ISO 8601 and RFC
  822 spelling; damaged texts in exact-size heap blocks; calendar functions;
  distinct = distinct instants and zones''',
  [dict(harness='dates', scenario='iso,isobad,cal,misc')],
  '''round trips and comparison with an independent Gregorian calendar; days
  located by scanning the local time of the C library; under ASan/UBSan''',
  ASAN_NOTE + '''; the offsets of each zone come from the C library''')

THR_NOTE = '''held on the sampled executions only: interleavings are those the
  scheduler and the injected noise produced; TSan judges by the C11 model, so
  removing an ordering that x86 gives for free is reported too'''
S('C20', '''random forests of jobs (1 to 850; plain, block, on a
  synchronisation point, on a serial queue; children posted from jobs; nested
  waits and parallel loops, thread data, blocking sections), all kinds of
  waits and notifications, parallel loops, shutdown with jobs pending, 2 to 8
  threads; schedule noise before every atomic operation; distinct = distinct
  forests or loops''',
  [dict(harness='threads', scenario='jobs,foreach,shutdown,longwait', variant='noise'),
   dict(harness='threads', scenario='jobs,foreach,shutdown,longwait', variant='tsan')],
  '''exactly-once, completion-before-wait and visibility monitors on the real
  scheduler, under ThreadSanitizer and under ASan with schedule noise''',
  THR_NOTE)
S('C21', '''1 to 4 serial queues and the main queue, 1 to 8 posters (main
  thread, jobs, foreign threads), asynchronous, synchronous and nested
  synchronous posts, destruction with and without wait; distinct = distinct
  posting plans''',
  [dict(harness='threads', scenario='queues,longwait', variant='noise'),
   dict(harness='threads', scenario='queues,longwait', variant='tsan')],
  '''online overlap and exactly-once monitors and an offline real-time order
  checker over the recorded posts, under ThreadSanitizer and under ASan with
  schedule noise''', THR_NOTE)
S('C22', '''1 to 8 producers and one consumer on MPSC queues (drained by
  whichever producer saw the queue become non-empty, by a consumer sleeping on
  an event count, or popped one by one), SPSC queues of three element types,
  event counts with 1 to 4 waiters and 1 to 3 signalers including around the
  32-bit wrap of the key; schedule noise before every atomic operation;
  distinct = distinct workloads''',
  [dict(harness='lockfree', variant='noise'),
   dict(harness='lockfree', variant='tsan',
        scenario='mpsc_drain,mpsc_consumer,spsc,evc')],
  '''exactly-once, per-producer and real-time order checkers, single-drainer
  monitor and lost wake-up watch on the real queues, under ThreadSanitizer and
  under ASan with schedule noise''', THR_NOTE)
S('C24', '''random histories of logger creations (dynamic, static, used before
  or after their level is set), deletions, level changes (recursive, silent,
  inherited, default, ahead of creation), nested buffers with filters, records
  of every kind (macros, e_*, scopes built by pieces, traces with
  specifications); 2 to 6 threads logging on loggers first used concurrently,
  with 1 to 2 threads changing levels; distinct = distinct histories''',
  [dict(harness='logs', scenario='levels'),
   dict(harness='logs', scenario='threads,changes', variant='noise'),
   dict(harness='logs', scenario='threads', variant='tsan')],
  '''online monitor comparing every record the handler or a buffer gets, and
  every effective level, with a model of the logger tree, under ASan/UBSan,
  ThreadSanitizer and schedule noise''', THR_NOTE)

S('C23', '''random sets of counters, gauges and histograms (0 to 3 labels with
  quotes, backslashes, line feeds, UTF-8), random updates, removals and
  scrapes; 2 to 6 threads updating shared metrics and creating the same
  labelled children concurrently, with a scraping thread; distinct = distinct
  histories and workloads''',
  [dict(harness='prom', scenario='expose'),
   dict(harness='prom', scenario='threads', variant='noise'),
   dict(harness='prom', scenario='threads', variant='tsan')],
  '''strict reader of the exposition format compared with a model of the
  metrics, conservation of the updates of every thread, monotonic and
  cumulative scrapes; under ASan/UBSan, ThreadSanitizer and schedule noise''',
  THR_NOTE)

S('C18', '''random histories of up to 64 timers (one-shot, repeating, no-miss,
  low-resolution; delays 0 to 10^8 ms) started, stopped and restarted from
  inside and outside callbacks, with slow callbacks and suspended time;
  inactivity timers of descriptors; end of the loop; time is virtual
  (clock_gettime and epoll_wait interposed); distinct = distinct histories''',
  [dict(harness='evloop', scenario='timers,activity,endloop')],
  '''online monitor with an exact deadline model fed by every callback and
  every sleep of the real loop, under ASan/UBSan''', ASAN_NOTE)
S('C19', '''random histories of up to 40 registrations (descriptors with
  masks, priorities and marks, before, idle, proxy, signal, wake, blockers)
  changed from inside and outside callbacks, nested loops, children dying
  before and after registration, captured children writing up to 300 kB
  or hanging until their timeout, wake-ups from other threads, end of the
  loop; distinct = distinct delivery histories''',
  [dict(harness='evloop', scenario='events,nested,children,capture,wake,endloop')],
  '''online monitor: model of the registrations and of what poll(2) says,
  compared with every callback and every lap of the real loop, under
  ASan/UBSan''', ASAN_NOTE)
S('C14', '''random sequences of header blocks: static, repeated and unique keys
  and values of 0 to 5000 bytes, all encoding flags, key and value
  identifiers, table-size updates, tables of 0 to 20000 bytes; for the decoder
  every representation including foreign ones, and mutated blocks; distinct =
  distinct histories of blocks''',
  [dict(harness='hpack')],
  '''differential monitor: a reference decoder written from RFC 7541 (with its
  own tables) compared after every header with the real decoder and encoder,
  their dynamic tables and their announced buffer sizes, under ASan/UBSan''',
  ASAN_NOTE)


S('C41', '''random histories of handles (0 bytes to 4 MB) and page blocks (1 to
  2000 pages) allocated, resized, written, freed, with snapshots in the
  background of the next operations, garbage collections, backups, reopening,
  and the process (and sometimes the snapshot) killed at any point; distinct =
  distinct histories''',
  [dict(harness='qps', scenario='store,gc,crash')],
  '''model monitor: every object is filled from its own seed and compared,
  ranges are checked disjoint, the roots of the store are compared with the
  model; the state to find after reopening or a crash is carried by the
  private data of each snapshot; SIGKILL as injected fault; ASan/UBSan''',
  ASAN_NOTE + ' the machine itself does not crash: lost page cache is not simulated')

S('C42', '''random histories over one to three persistent tries (values of 1 to
  16 bytes, nullable or not) and bitmaps of one store: runs of neighbour,
  strided and random keys set, zeroed and removed up and down, keys at the
  node limits and at both ends of the key space, enumerations modified while
  they run, jumps, kept paths, clears, snapshots, reopening and garbage
  collections; distinct = distinct histories''',
  [dict(harness='qps', scenario='tries,bitmaps,maps')],
  '''model monitor: a sorted array predicts every value, previous state,
  enumerated key and count, the pages reachable from the maps are compared
  with those of the store; under ASan/UBSan with the library's own
  assertions''', ASAN_NOTE)

S('C43', '''random record files: slots of 28 to 4096 bytes, records of 0 bytes to
  four slots aimed at the slot ends, reopened, flushed and truncated at record
  limits; the same files cut at every byte, read while they grow byte by byte,
  damaged at random places or in one slot, of the old version, and of more
  than 4 GB; distinct = distinct files, cuts and damages''',
  [dict(harness='filebin')],
  '''layout monitor: an independent model of the documented layout predicts the
  bytes of the file and the records to be returned forward, backward, after a
  cut, during growth and around damage, under ASan/UBSan; leaks of mappings
  watched in /proc/self/maps''', ASAN_NOTE)

S('C12', '''pipelines of random requests and responses (methods, encoded paths,
  folded headers, Content-Length, chunked, compressed and close-delimited
  bodies, 1xx, HEAD, Expect) cut in random pieces, replies immediate, late, in
  disorder or streamed, connections cut at random bytes; distinct = distinct
  conversations''',
  [dict(harness='http', scenario='server'),
   dict(harness='http', scenario='client')],
  '''conversation monitor: a strict independent reader and writer of HTTP/1 plays
  the other side and compares every header, body and status with the plan, and
  counts the ends of each query, under ASan/UBSan''', ASAN_NOTE)

S('C13', '''requests and responses of every kind, altered by random bytes, cuts,
  duplicated parts and hostile tokens (lengths, encodings, versions, paths),
  sent in random pieces, ended by an open, half-closed or closed connection;
  distinct = distinct byte streams''',
  [dict(harness='httpx', scenario='server'),
   dict(harness='httpx', scenario='client')],
  '''fuzzing under ASan/UBSan with monitors: replies well formed, another
  connection still served, no connection, query or descriptor left behind, each
  client query ends once, no file served out of the directory''', ASAN_NOTE)

S('C11', '''histories of queries, one-way messages, descriptors, immediate and
  delayed replies, exceptions, error statuses, cancellations, timeouts, byes,
  cuts and reconnections on two chained channels (direct, statically and
  dynamically proxied, relayed by hand) for every pair of transports: local,
  local asynchronous, unix stream and seqpacket pairs, unix path, TCP, TLS;
  distinct = distinct (transports, outcomes)''',
  [dict(harness='rpc')],
  '''history monitor: every query, handler run, reply, callback, one-way
  message, descriptor and channel event is recorded and judged online against
  the exactly-once, ownership and order rules; injected disconnections, byes,
  cancellations and timeouts; bounded waits for the missing outcomes;
  ASan/UBSan''', ASAN_NOTE)

S('C48', '''rounds of traffic between a channel (TCP server, TCP client, unix
  stream and seqpacket pairs) and a raw socket speaking the wire protocol,
  cut anywhere: valid queries, replies, one-way messages, headers,
  descriptors, byes and closes, then 20 kinds of malformed messages; the same
  channel object used again for the next round, and another channel alive;
  distinct = distinct (transport, traffic)''',
  [dict(harness='rpcx')],
  '''independent implementation of the wire protocol as peer and oracle: each
  handler run, reply, outcome, descriptor and channel event judged online;
  liveness of the other channel; descriptors counted; ASan/UBSan and the
  assertions of the library''', ASAN_NOTE)

S('C44', '''random operations on a buffered file (every writing function with
  0 to 24 kB, seeks, truncations, reopening, a disk that gets full for a
  while); random configurations and histories of a rotating log file (plain
  or binary, compressed or not, transactions, forced and disabled rotations,
  reopening) under a simulated clock; distinct = distinct histories''',
  [dict(harness='filelog')],
  '''model monitor: the directory and the bytes of every file are compared
  with a model of the rotation and retention rules after flushes, reopening
  and closing; simulated clock; file size limits as injected faults;
  ASan/UBSan''', ASAN_NOTE)

S('C16', '''random descriptions built at run time (all field types, optional,
  pointed and repeated fields, nested sequences, choices and untagged choices,
  external, opaque and open types), random values, alternative encodings
  (indefinite and long lengths, skipped and unknown fields), mutated inputs;
  distinct = distinct (description, encoding) pairs''',
  [dict(harness='asn1', scenario='ber,berint')],
  '''differential monitor: an independent BER encoder gives the expected bytes
  of every value, decoding is compared with the value field by field, mutated
  inputs in exactly sized buffers under ASan/UBSan''',
  ASAN_NOTE)

S('C17', '''random descriptions built at run time with constraints on integers,
  string and repetition lengths, extensions, open types; values inside and
  outside of them, lengths around the fragmentation limits; mutated and
  truncated inputs; distinct = distinct (description, encoding) pairs''',
  [dict(harness='asn1', scenario='per,perext')],
  '''round-trip monitor: every accepted value must decode to itself from an
  exactly sized buffer with nothing left, every value out of its constraints
  must be refused, every accepted mutant must itself round-trip, under
  ASan/UBSan''',
  ASAN_NOTE)
