"""Hand-written parts of DESIGN.md (see mkdesign.py)."""

INTRO = '''
# Runtime monitoring and sanitizers for lib-common

This file is assembled by `tools/mkdesign.py` from `properties.jsonl`,
`tools/specs.py`, `known_findings.json`, `seeded/*/meta.json` and the texts of
`tools/design_text.py`.

## The approach

lib-common is a C library (with clang blocks): the memory, container, text,
file and time primitives of a server, an event loop and a thread scheduler, an
interface language (IOP) with its serializers, RPC channels, HTTP, ASN.1, HPACK,
a persistent store, logs and metrics. What a user relies on is mostly of the
shape "for every history of calls, the object behaves as its ideal model", "for
every value, writing then reading gives it back", "for every input, the reader
stays in bounds and terminates" and "for every schedule, nothing is lost, run
twice or reordered". The test suite samples a handful of inputs of each.

Every property is decided by running the real code, rebuilt from the current
working tree of /repo, under generated workloads, with two families of observers:

* **sanitizers**: AddressSanitizer + UndefinedBehaviorSanitizer in every check
  (inputs live in exact-size heap blocks, so that the first byte read out of a
  slice is seen), ThreadSanitizer in the concurrent ones; the library's own
  assertions are on;
* **monitors**: an independent model or reference implementation written for
  the property (never derived from the code under test), compared with the
  observable behaviour online, after every operation; or an offline checker over
  the recorded history (order, exactly-once, conservation).

Random generation is by seed (`VERIF_SEED`) and case number: a case is a pure
function of (scenario, seed, case), except for the schedules of the concurrent
checks. Reach comes from the shape of the generators (sizes at the limits of
buffers, buckets, slots, fragments; colliding keys; nested and re-entrant calls;
split inputs), from injected faults (SIGKILL, full disk, cut connections, virtual
clocks, short reads) and from schedule noise.

### Machinery

* `tools/vbuild.py` — builds lib-common from /repo's working tree outside of waf,
  in `/verif/.work` (git-ignored), with one directory per *variant*:
  `asan` (clang, ASan + UBSan, -O1), `tsan` (ThreadSanitizer), `noise` (ASan plus
  `harness/noise.h`, which is force-included and replaces the atomic and mutex
  operations by versions preceded by random yields, spins and sleeps). Generated
  sources (iopc, farchc, gperf, tokens, blocks rewriting) are produced by the
  tools of the tree itself. Objects are cached by the hash of their preprocessed
  inputs: a changed file (or a changed generator) is always rebuilt. No hook in
  /repo is needed: interposition is done at compile or link time
  (`clock_gettime`, `epoll_wait`, `write` and the like are interposed by the harness
  which needs it), so MANIFEST.json has no hooks.
* `harness/hk.[hc]` — the kit: random sources biased to the edges, exact-size
  blocks, violation reports with a key, counters of what the monitors saw,
  distinctness of the cases (a hash of the content or of the history of each
  case), traces and samples.
* `harness/*.c|blk` — one harness per area, holding the generators and oracles.
* `tools/check.py ID [tier]` — builds, runs the workers of a check in parallel
  (each its own process, with a watchdog), collects violations, sanitizer reports,
  crashes and hangs, filters them with `known_findings.json`, writes
  `evidence/ID.json` and one replay file per violation (`.work/replay`), whose
  first lines are the command that reproduces it.
* A crash, sanitizer report, unexpected exit or hang of a worker is a violation of
  the property of the check; an error of the machinery itself (cannot build,
  cannot fork) exits 2.

### Tiers

`quick` uses a fixed number of cases per scenario (10 to 60 s on 8 cores, build
included, for each check); `thorough` multiplies the number of cases by 20 to 50
and is bounded in time (25 minutes). Both are bounded by number of cases first,
so that the verdict does not depend on the load of the machine.

### What the verdicts mean

"Held on everything explored": all levels are `exploration`. Nothing is proved;
the evidence files give the number of cases, of distinct cases, and counters of
what the monitors compared. The blind spots common to all checks: ASan does not
see overflows within one object; TSan sees races on the executions which
happened; a model only sees what the harness calls.

### Soundness rules followed by the oracles

A check only judges what the documentation or the evident contract of the
interface says. Where the behaviour is unspecified the harness either does not
generate the case or accepts all the outcomes; those exclusions are listed under
"Not judged" and "False alarms corrected" below. No check looks at the text of
the sources. Harnesses use public headers and public functions, so a refactoring
which keeps the interface compiles; the few private entry points used (to seed a
key or to reach a sub-encoder) are the ones exported in the private headers.
'''

PROP = {
 'C01': dict(
  design='''Values are generated from the descriptors, by a generator which knows
  nothing about the wire format, so integer widths, repeated fields at the length
  limits of the tags, and deep class hierarchies all appear. Comparison is done by an
  independent walk of the descriptors.''',
  limits='''Non-finite doubles are compared bitwise.''',
  alarms='none against the library (harness first reused the pool of a value)'),
 'C02': dict(
  design='''Inputs are in exact-size heap blocks, the acceptance side is an oracle
  (walk + constraints + re-encode + re-read).'''),
 'C03': dict(
  design='''Two generated versions of a schema (fields added, removed, made optional,
  repeated, given defaults) written and read both ways.'''),
 'C04': dict(
  limits='''NaN and infinities are written as null by JSON (documented); private classes
  abort the packer (misuse); SKIP_DEFAULT and the like are only judged through defaults.'''),
 'C05': dict(
  design='''Documents mutated at byte and token level, deep nesting included; any
  accepted value must be well formed, any refusal must carry a message.'''),
 'C06': dict(
  limits='''Numeric texts in an xml-typed field are not readable from YAML without quotes;
  packing a private class asserts (misuse).'''),
 'C07': dict(limits='''Blank-only text is dropped by the XML reader (as in XML schema
  mixed content); only XML-representable characters are generated.'''),
 'C08': dict(alarms='''the presence of an optional structure which holds nothing is not
  hashed, by design: excluded from the hash rule.'''),
 'C09': dict(alarms='''`@allow` on a non-strict enumeration only restricts the named
  values; private empty arrays and defaults count only when written: the documents are packed
  without them.'''),
 'C10': dict(alarms='as for C08, presence of empty optional structures is not compared.'),
 'C11': dict(
  design='''Two chained channels per case (direct, proxied, relayed); each query carries a
  unique token, so that an answer given to another query, given twice, lost or reordered
  is seen online. Faults: cut sockets, byes, cancelled queries, deleted channels, timeouts.''',
  limits='''Deleting a channel from within its own callbacks; timeouts on local-async
  channels (documented as unsupported).''',
  alarms='''SO_SNDBUF is not set on unix paths (seqpacket EMSGSIZE is then legitimate);
  queries of more than 10 MB to an unimplemented RPC close the connection by design; warm-up
  before counting descriptors; the repair phase waits for the servers to be gone.'''),
 'C48': dict(
  design='''The harness speaks the wire format by itself (written from the comment of
  rpc-channel.h), so that a change of both the emission and the reception, which two ends of
  the library would agree on, is seen. A healthy channel works beside, is the target of
  proxied queries of the raw peer, and sends proxied queries to it.''',
  limits='''TLS channels; huge announced lengths (the memory a peer can make the library
  reserve); malformed messages of peers announcing a version above ours; undecodable payloads
  forwarded through a proxy (its backend refuses them and closes the channel of the proxy).'''),
 'C12': dict(
  design='''The harness owns both ends of a socketpair: a strict reader/writer of HTTP/1
  plays the peer of the real httpd, then of the real httpc, with arbitrary cuts.''',
  limits='''Expect with a chunked request; NUL and dot components of paths; queries
  answered asynchronously before their body is complete when the connection dies. HTTP/2 (see the end).''',
  alarms='''truncated compressed close-delimited bodies are only judged as a prefix; the
  harness waited too few laps for delayed replies; NULL and empty strings were compared.''',
  mutants='''the end-of-headers search restarting 2 bytes back instead of 3; last data flushed
  as done; inflate state not reset for big previous bodies; query detached without test'''),
 'C13': dict(
  design='''Fuzzing of the real server and client with liveness monitors: another connection
  must still be served, each query ends once, descriptors do not leak. The static directory
  trigger is exercised inside a scratch directory with a decoy file beside it; it only reads.''',
  limits='''HTTP/1.x versions above 1.1 echoed in the status line. The property is about
  HTTP/1 and the static trigger.''',
  alarms='''wipe hooks run for queries rejected before the handler; method names are
  case-insensitive; a handler keeping an incomplete query must retain it.''',
  mutants='''path simplification removed; unanswered reference not released at close'''),
 'C14': dict(
  design='''A decoder written from RFC 7541, with its own static and Huffman tables, is kept
  in lockstep with the real encoder and decoder.''',
  mutants='''integer overflow test dropped; index limit off by one'''),
 'C15': dict(limits='''signs and blanks before port digits; hosts which need a DNS; unix
  addresses are always NUL-terminated.'''),
 'C16': dict(alarms='none against the library'),
 'C17': dict(
  limits='''a value of zero bits takes one null byte, which the reader does not consume; the
  long form of small non-negative numbers is accepted by the reader.''',
  mutants='fragment loop condition dropping the last empty fragment'),
 'C18': dict(
  design='''Virtual time: clock_gettime and epoll_wait are interposed, so days of timers run
  in microseconds and the expected deadline is exact.''',
  alarms='''the loop may use the clock it read before running the callbacks; el_loop may end
  up to 59 s late when the last registration goes away in a timer run at the start of an iteration.''',
  mutants='''expiry + 1 < until; one-shot restarted in its callback unregistered'''),
 'C19': dict(
  limits='''mask and readiness changes of the same iteration; marks ambiguous with real
  readiness; expectations on idle handlers in laps with nested loops.''',
  alarms='''only the highest priority among the ready descriptors is served in an iteration, by
  design; the harness left unloop set.''',
  mutants='''only the lowest of several pending signals kept; events beyond the eighth of a batch
  dropped; idle handlers not unparked'''),
 'C20': dict(
  limits='''the interleavings seen. TSan judges by the C11 memory model.''',
  alarms='''watch thread created with thr_create; copies of __block variables racing in the
  vendored blocks runtime.''',
  mutants='''dequeue without the fence; completion released before the broadcast'''),
 'C21': dict(alarms='''nested thr_queue_sync from inside its own queue runs inline
  (excluded from the order rule).''', mutants='main-queue wake skipped when main waits'),
 'C22': dict(alarms='''mpsc_queue_pop has relaxed loads (fine on x86): not run under TSan,
  only with noise.''', mutants='''pop_slow not restoring head.next; event count reading the waiters
  before incrementing the key'''),
 'C23': dict(alarms='''a scrape may see a just-created histogram without buckets while its
  count is 0; remove, clear and register are documented as not thread-safe.''',
  mutants='''bucket bound >= instead of >; count incremented outside of the lock'''),
 'C24': dict(alarms='''duplicate sibling names (misuse by the harness); level of a logger
  deleted and created again not judged; level changes concurrent with logging not run under TSan
  (plain generation counter by design).''',
  mutants='''forced flag not cleared on refresh; nested buffer ignoring the outer handler flag'''),
 'C26': dict(alarms='''sealed tables only allow the "safe" lookups; fifo pools do not support
  16-byte alignment: tables are tested on the heap, cached and stack pools.'''),
 'C30': dict(limits='''boolean operations open a stack frame: not run on maps of the stack
  pool; wah_add1_at inside of the map is misuse.'''),
 'C31': dict(alarms='the harness wrote into the constant empty buffer after sb_grow(0).'),
 'C32': dict(limits='''partial output of a failed idna conversion; base64 width 1 to 3;
  numeric XML references to NUL and surrogates.'''),
 'C33': dict(limits='''characters above U+0200 have no collation; prefixes cutting a ligature;
  overlong and surrogate sequences; toupper above U+FFFF.'''),
 'C34': dict(limits="%a, non-finite numbers and the `'` flag; `%#g` (glibc bug).",
  alarms='''the printf interceptor of ASan does not accept unterminated %.*s strings
  (check_printf=0); alphanumerics after %p are reserved for extensions.'''),
 'C35': dict(limits='''"-0" for unsigned; strtolp CLAMP|CHECK beyond long; "0b" prefixes
  depend on libc.'''),
 'C36': dict(limits='bb_init_full with stray bits in the last byte (misuse).'),
 'C37': dict(limits='''path_extend with "~x"; "a/../b" may or may not be called safe; relative
  path from a file to itself.'''),
 'C38': dict(limits='''hour functions in zones with a 30-minute daylight shift; lstrtotime where
  the change is at midnight; out-of-range hh:mm:ss; ISO round trip from 1901 to 2100.'''),
 'C40': dict(alarms='the harness used strlen on an unterminated password.'),
 'C41': dict(
  design='''Each snapshot carries the state of the model in the private data of the store,
  so that after SIGKILL at any point the reopened store is compared with the last
  snapshot which completed.''',
  limits='''crash of the machine (lost page cache); linked backups, which share files with the store.''',
  alarms='''reopening shows the last completed snapshot: changes made since are dropped by design
  (the statement says so).'''),
 'C42': dict(alarms='''a path used for its own modification is documented as invalid afterwards;
  old value of a missing key in a nullable trie.''',
  mutants='''bitmap enumeration comparing only a part of the key after a resync; remove_null leaving a pointer'''),
 'C43': dict(limits='''damaged slot headers and arbitrary damage: only termination and bounds;
  appending after a mid-record truncation.'''),
 'C44': dict(limits='''clock going backward, local names across daylight saving, foreign
  files matching the pattern; failed writes may leave any prefix of their data.'''),
 'C45': dict(limits='methods run from destructors; modules required from method callbacks.',
  mutants='''shutdown notification going on after removal; method lists not refreshed after a require;
  dependencies not followed below one level; classes initialised one level up only'''),
 'C46': dict(limits='bsf8/bsr8 of 0 are undefined; 2^32 multiples excluded.'),
 'C47': dict(
  design='''read, write, pread, pwrite, writev, mkdirat, unlink, rmdir, unlinkat, remove and fcntl
are interposed by the harness: the first ones inject short transfers, EINTR/EAGAIN and hard
errors; mkdirat lets "another process" create the directory or a file first; the removals refuse
(and report) any path whose real parent is not in the scratch directory, so that an escaping
rmdir_r cannot damage the sandbox. Trees are compared through complete snapshots (type, mode,
content, link target) taken before and after.''',
  limits='''Everything runs as root, so that permission errors are not exercised; a source that changes
during its copy is refused by an assertion of the library and is not exercised; entries starting
with a dot are not listed by list_dir and the model says so.''',
  alarms='''a first version reported an overflow of rmdirat_r for long names from reading: the kernel
refuses the underflowed size, nothing was repaired. The model of mkdir_p first resolved `n/../x`
physically while the function simplifies the path.'''),
}

OUTRO = '''
## What is not covered

* **HTTP/2** (`src/net/http.c`, second half): the HPACK layer is checked (C14); the
  framing and the adaptation to the HTTP/1 objects are marked as unfinished in the
  source itself and are not claimed.
* **Python and TypeScript bindings, iopc itself, Java**: the generated C code of iopc is
  covered indirectly (C01 to C10 use generated schemas); error messages of the compiler
  are not.
* **Crash of the machine** (lost page cache) for the persistent store.
* Performance, and wording of messages.

Types built at run time (`src/iopc/iopc-iopsq.c`) are not claimed: a first
exploration, stopped for lack of time, showed that a field whose type is a
structure described later in the same package (or the structure itself) ends
on the assertion `fdesc->u1.st_desc` of `mp_iopc_field_to_desc()`; no repair
and no check were made.

## Planted bugs

Each directory of `seeded/` was confirmed in a scratch copy with `tools/seed.sh`: patch
applies, builds, the 943 stable tests pass, the demonstration fails with it and passes
without it, and the quick check of its property reports it (exit 1).
'''
