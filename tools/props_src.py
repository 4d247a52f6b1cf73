#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/props_src.py rewrites it)."""
import json
import os

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, state=(),
      observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s))
                      for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe),
            'hook_needed': hook,
        },
    })


# {{{ IOP

P('C01', 'IOP binary encoding round-trips every value',
  '''Packing any valid value of any IOP type (struct, union, class instance at
  any inheritance depth, optional, repeated, defaulted, referenced fields) in
  the binary format and unpacking the result yields a value equal to the
  original, with the announced size exactly produced, whatever the packing
  flags and whichever unpacking entry point (fresh, in place, copying,
  pointer) is used. Dropping default values when packing never changes the
  value read back.''',
  ['inputs', 'programs'],
  '''for every IOP type accepted by the compiler and every value of it, and
  every combination of packing/unpacking flags''',
  '''the tests pack a few dozen hand-written values of a fixed set of test
  structs; field-width boundaries, tag sizes, nesting and default-value
  combinations are not covered''',
  ['src/iop/iop.blk', 'src/iop/helpers.in.c', 'src/iop.h'],
  [('size pass then pack pass sharing a szs vector', 'src/iop/iop.blk'),
   ('TLV wire encoding of tags, lengths and integers',
    'src/iop/helpers.in.c')],
  observe=['iop_bpack_size', 'iop_bpack', 'iop_bunpack', 'iop_bunpack_ptr'])

P('C02', 'Hostile IOP binary input is rejected or yields a well-formed value',
  '''Unpacking any byte string as any IOP type terminates without touching
  memory outside the input, and either fails, or produces a value which can
  be walked, compared, checked and packed again, and whose re-encoding
  decodes to an equal value. An encoding truncated inside one of its fields is
  always rejected (recursive types nested beyond what the stack holds are out
  of scope).''',
  ['inputs'],
  'for every byte string and every target type',
  'tests feed a handful of malformed buffers',
  ['src/iop/iop.blk', 'src/iop/helpers.in.c'],
  [('length checks before each read', 'src/iop/helpers.in.c')],
  observe=['iop_bunpack', 'iop_bskip', 'iop_get_field_len'])

P('C03', 'IOP readers tolerate schema evolution',
  '''A reader built from an older or newer version of a type, where fields were
  only added (optional, repeated or defaulted) or removed under the documented
  compatibility rules, decodes the other version's encodings: fields known to
  both sides keep their values, unknown fields are skipped whatever their
  wire type, and missing ones take their default value, are empty or absent.
  What the compatibility checker declares readable is, for the values that
  both types can represent and that their constraints allow.''',
  ['inputs', 'programs'],
  '''for every pair of compatible schema versions and every value''',
  'tests cover a few fixed pairs of structures',
  ['src/iop/iop.blk', 'src/iop/helpers.in.c', 'src/iop/json.blk'],
  [('unknown tags skipped by wire type', 'src/iop/iop.blk'),
   ('default value initialisation of skipped fields', 'src/iop/iop.blk')],
  observe=['iop_bunpack'])

P('C04', 'IOP JSON serialization round-trips every value',
  '''Serializing any valid value of any IOP type to JSON, under any set of
  lossless writer flags, and parsing it back yields an equal value; the output
  is a syntactically valid JSON document; and the same document parsed with
  extra blank space or comments yields the same value. (Not representable in
  JSON: the sign of zero, non-finite doubles, written null, and strings that
  are not UTF-8, whose stray bytes are read as Latin-1.)''',
  ['inputs', 'programs'],
  'for every IOP type, value and lossless combination of packing flags',
  'tests check chosen structures against stored JSON texts',
  ['src/iop/json.blk', 'src/iop-json.h', 'src/core/str-buf-quoting.c'],
  [('string escaping and number formatting of the writer',
    'src/iop/json.blk'), ('lexer/parser', 'src/iop/json.blk')],
  observe=['iop_sb_jpack', 't_iop_junpack_ps', 'iop_jpack'])

P('C05', 'IOP text unpackers are safe on hostile documents',
  '''Parsing any byte string as JSON, YAML or XML for any IOP type terminates,
  never reads or writes outside the document and the value being built, and
  either reports an error (with a non-empty message for JSON and YAML), or
  produces a valid value that can be re-serialized and re-read to an equal
  value.''',
  ['inputs'],
  'for every byte string, in particular every mutation of a valid document',
  'tests feed a few dozen invalid documents',
  ['src/iop/json.blk', 'src/iop/yaml.blk', 'src/core/yaml.c',
   'src/iop/xml-unpack.c', 'src/core/xmlr.c'],
  [('lexers with explicit bounds', 'src/iop/json.blk'),
   ('yaml AST builder', 'src/core/yaml.c')],
  observe=['t_iop_junpack_ps', 't_iop_yunpack_ps', 'iop_xunpack'])

P('C06', 'IOP YAML serialization round-trips every value',
  '''Serializing any valid value of any IOP type to YAML and parsing it back
  yields an equal value, whatever characters, keywords-like or number-like
  texts its strings contain; a generic YAML document that was parsed and
  packed again, with or without presentation data, parses to the same tree.''',
  ['inputs', 'programs'],
  'for every IOP type and value, and every YAML tree',
  'tests compare a few packed structures and documents with stored texts',
  ['src/iop/yaml.blk', 'src/core/yaml.c'],
  [('scalar quoting rules of the writer', 'src/core/yaml.c'),
   ('parser', 'src/core/yaml.c')],
  observe=['t_iop_sb_ypack', 't_iop_yunpack_ps', 't_yaml_parse'])

P('C07', 'IOP XML serialization round-trips every value',
  '''Serializing any valid value (whose strings are XML-representable and not
  made only of blanks) of any IOP type to XML, with or without attributes and verbose output, produces a
  well-formed document which parses back to an equal value, including class
  instances behind base-class references.''',
  ['inputs', 'programs'],
  'for every IOP type and value, and every writer flag',
  'tests cover a few structures',
  ['src/iop/xml-pack.c', 'src/iop/xml-unpack.c', 'src/core/xmlr.c'],
  [('escaping in the writer', 'src/iop/xml-pack.c'),
   ('pull parser', 'src/core/xmlr.c')],
  observe=['iop_xpack', 'iop_xunpack'])

P('C08', 'IOP copies are deep, and equality, order and hash agree',
  '''A duplicate or copy of any IOP value equals the original, shares no memory
  with it and is unaffected by later writes to or release of the original;
  equality is an equivalence that distinguishes any two values differing in
  any field; the comparison is a total order consistent with equality; and
  equal values have equal hashes.''',
  ['inputs', 'programs'],
  'for every pair or triple of values of every IOP type',
  'tests compare a few hand-written values',
  ['src/iop/iop.blk', 'src/iop/hashing-values.in.c'],
  [('recursive copy with size computation', 'src/iop/iop.blk'),
   ('field-wise equality and comparison', 'src/iop/iop.blk')],
  observe=['mp_iop_dup_desc_sz', 'iop_equals_desc', 'iop_cmp_desc',
           'iop_hash'])

P('C09', 'Declared IOP constraints are enforced exactly',
  '''A value is accepted by the constraint checker, and an encoding of it is
  accepted by the unpackers, if and only if every declared constraint (minimum,
  maximum, lengths, occurrence counts, non-empty, allowed patterns, non-zero,
  strict enumerations, private fields, allowed or disallowed union members and
  enumeration values) holds at every level of nesting.''',
  ['inputs', 'programs'],
  'for every constrained type and every value, valid or not',
  'tests cover a few constrained fields at a few values',
  ['src/iop/iop.blk', 'src/iop/json.blk', 'src/iopc/iopc-lang-c.blk'],
  [('per field constraint callbacks emitted by the compiler',
    'src/iopc/iopc-lang-c.blk'), ('recursive checker', 'src/iop/iop.blk')],
  observe=['iop_check_constraints_desc', 'iop_bunpack', 't_iop_junpack_ps'])

P('C10', 'Sorting and filtering IOP vectors by field path is exact',
  '''Sorting a vector of IOP values on a list of field paths permutes it and
  leaves it ordered on these keys under the requested direction and
  missing-value placement; filtering on a field path and a list of accepted
  values keeps exactly the matching elements, in order.''',
  ['inputs'],
  'for every vector, key path list and filter list',
  'tests cover some fixed vectors',
  ['src/iop/iop.blk'],
  [('path resolution and typed comparison', 'src/iop/iop.blk')],
  observe=['iop_sort_desc', 'iop_msort_desc', 'iop_filter'])

# }}}
# {{{ RPC / net

P('C11', 'Every RPC query gets exactly one outcome, its own',
  '''Each query sent on an RPC channel has its completion callback run exactly
  once: with the reply its own handler produced for its own arguments, with
  the status the server chose, or with an abort status when the channel went
  away, was canceled or timed out first; a handler runs at most once per query
  and one-way messages are delivered at most once, in sending order.''',
  ['schedules', 'fault_sequences', 'histories'],
  '''for every interleaving of queries, immediate and deferred replies,
  proxying, disconnections and reconnections''',
  'tests do a handful of local queries on a healthy channel',
  ['src/iop/rpc-channel.blk', 'src/iop/rpc-channel.h', 'src/iop/rpc-el.c'],
  [('query slots map', 'src/iop/rpc-channel.blk'),
   ('abort of pending queries on disconnection',
    'src/iop/rpc-channel.blk')],
  observe=['ic_query callbacks', 'ic_reply_err', 'ic_bye'])

P('C48', 'RPC channels obey their wire protocol and survive any peer',
  '''Facing any peer speaking the documented wire format, however its bytes are
  cut, a channel handles each valid query exactly once, in order, with its
  arguments, header and descriptor, answers it on its own slot, and gives each
  of its own queries exactly the outcome found on the wire. Facing any other
  bytes, it does not crash, give a query two outcomes or none, leak or mix
  descriptors, nor disturb the other channels, and it works again, as new,
  after a reconnection.''',
  ['inputs', 'histories', 'fault_sequences'],
  '''for every byte sequence, cut and descriptor a peer can send''',
  'tests only use two well-behaved ends of the same library',
  ['src/iop/rpc-channel.blk', 'src/iop/rpc-channel.h'],
  [('reading of messages', 'src/iop/rpc-channel.blk'),
   ('version handshake', 'src/iop/rpc-channel.blk'),
   ('message headers', 'src/iop/rpc-channel.h')],
  observe=['ic_read', 'ic_spawn', 'ic_connect', 'ic_query callbacks',
           'ic_get_fd'])

P('C49', 'Constant expressions are worth what arithmetic says',
  '''An integer expression of an IOP file or of a JSON document is worth
  exactly what it denotes with the documented precedences and associativities
  (** then unary - and ~, * / %, + -, shifts, &, | ^), sign included, bitwise
  operators working on the unsigned 64 bits representation. A malformed
  expression, a division by zero, a shift of 64 bits or more, a negative
  exponent or a value out of 64 bits is refused, and a refused expression has
  no effect on the next one read by the same lexer.''',
  ['inputs', 'histories'],
  '''for every expression, every layout, and every sequence of documents''',
  'tests evaluate some twenty expressions',
  ['src/iop/cfolder.c', 'src/iop/json.blk'],
  [('reduction of the stack', 'src/iop/cfolder.c'),
   ('precedence and shift/reduce decisions', 'src/iop/cfolder.c'),
   ('expressions in JSON', 'src/iop/json.blk')],
  observe=['iop_cfolder_feed_number', 'iop_cfolder_feed_operator',
           'iop_cfolder_get_result', 'iop_junpack'])

P('C50', 'The page allocator hands out disjoint, aligned, clean pages',
  '''For any history of allocations, copies, remappings and whole or partial
  frees of blocks of pages, by any number of threads, live blocks never
  overlap, are aligned as asked, contain zeroes where they were asked to,
  keep their content until freed whatever happens to the others, and a
  remapped block keeps its pages up to the smaller of both sizes, in place
  unless it was allowed to move.''',
  ['histories', 'schedules'],
  '''for every allocation history and every interleaving of threads''',
  'no test uses the page allocator',
  ['src/core/qpage.c', 'src/qpage.h'],
  [('classes of free blocks', 'src/core/qpage.c'),
   ('dirty pages and release of the memory', 'src/core/qpage.c')],
  observe=['qpage_alloc_align', 'qpage_allocraw_align', 'qpage_remap',
           'qpage_free_n', 'qpage_dup_n'])

P('C51', 'RPCs over HTTP get one answer each, the one of their implementation',
  '''Each JSON or SOAP query sent to a server that exposes RPCs over HTTP gets
  exactly one answer, in the order of the queries of its connection: the
  value or the exception its implementation produced for its arguments, with
  the right code and format, compressed only as accepted, or an error when
  the query is ill formed, unknown, refused or cannot be forwarded. An
  implementation, local or behind a channel, runs once per well-formed query
  with its arguments and credentials, and each query that entered a hook
  leaves it. The HTTP RPC client calls back once per query with that outcome,
  whatever the connections cut or exhausted meanwhile.''',
  ['inputs', 'schedules', 'fault_sequences'],
  '''for every query, mix of queries on the connections, order of the answers
  and point of disconnection''',
  'tests only call one RPC of a sample server, by hand',
  ['src/iop/rpc-http-server.c', 'src/iop/rpc-http-client.c',
   'src/iop/rpc-http.h'],
  [('dispatch and answers', 'src/iop/rpc-http-server.c'),
   ('queries waiting for a connection', 'src/iop/rpc-http-client.c')],
  observe=['ichttp implementations and hooks', 'http_iop_query_ callbacks',
           'HTTP answers on the wire'])

P('C52', 'String searches, comparisons, copies and edits match their definition',
  '''For every pair of strings, of any length, bytes and alphabet, the string
  primitives give the result of their definition: skipping and trimming blanks,
  prefix, suffix, substring and word search with or without case, orderings,
  character classes, edit distance with a limit, replacement, increment of a
  counter with its overflow, random strings of an alphabet, reversal, case and
  hexadecimal conversion, concatenation and formats. They read nothing beyond
  the strings they were given and write nothing beyond the size they were told.
  A copy owns its bytes in the pool asked for, is terminated, and a string that
  takes the content of a string buffer has its bytes, whatever was skipped in
  it, and releases them properly.''',
  ['inputs'],
  '''for every string, length, separator, limit and memory pool''',
  'tests use a few literals, all in static memory with a terminator',
  ['src/core/str.c', 'src/core/str.h', 'src/core/str-l.c', 'src/core/str-l.h',
   'src/core/str-ctype.h'],
  [('C strings', 'src/core/str.c'),
   ('length-delimited strings', 'src/core/str-l.c')],
  observe=['return values and output bytes of str*, lstr_*, mp_lstr_*',
           'ASan reports on exact-size blocks'])

P('C53', 'Command lines set exactly the options they name, or are refused',
  '''For every set of options and every command line, each option named gets the
  value given to it (attached, separate or grouped with flags; negated ones get
  back their initial value), the last one winning; the other options keep
  theirs; the arguments that are not options are left, all of them, in order,
  as are those after `--` and, when asked, the unknown options. A value that is
  missing, not a number or outside of the type of the variable, a value for a
  flag and an unknown option make the command line refused, and nothing but
  the variables of the options is written.''',
  ['inputs'],
  '''for every set of options, command line and state of errno''',
  'tests parse four command lines',
  ['src/core/parseopt.c', 'src/parseopt.h'],
  [('parser', 'src/core/parseopt.c')],
  observe=['parseopt() result, variables of the options and argv'])

P('C54', 'Printed tables and XML documents carry exactly what was put in them',
  '''A table prints one row per entry after its titles, each with every cell that
  is not in an omitted column, aligned, padded and cut as its column says, the
  columns being wide enough for what they print unless limited; a column is
  omitted only when asked and no row has a value for it; the CSV form gives back
  every cell when read. A document written with the XML printer is well formed
  and a parser reads back the elements, attributes and texts put in it, whatever
  their characters and with or without indentation.''',
  ['inputs'],
  '''for every table, column description, tree and text''',
  'tests print a few tables and no document with special characters',
  ['src/core/str-buf-pp.c', 'src/str-buf-pp.h', 'src/core/xmlpp.c',
   'src/xmlpp.h'],
  [('tables', 'src/core/str-buf-pp.c'), ('XML printer', 'src/core/xmlpp.c')],
  observe=['output of sb_add_table(), sb_add_csv_table() and xmlpp_*'])

P('C55', 'File system watches report each change once, in order, until closed',
  '''A watch on a directory calls its callback once for each change of a kind it
  asked for, in the order they happened, with the name of the file and, for
  moves, the same cookie on both sides; a change of its mask applies to what
  follows. No event comes after it was closed, even from a callback with events
  already queued, its data is given back when it is closed, and a directory
  that disappears can be closed, and watched again once made anew, as any
  other. A watch that cannot be set is reported.''',
  ['histories'],
  '''for every history of changes, watches, masks and closings''',
  'tests watch one directory with one history',
  ['src/core/el-inotify.in.c', 'src/core/el.blk', 'src/el.h'],
  [('inotify events', 'src/core/el-inotify.in.c')],
  observe=['el_fs_watch callbacks'])

P('C56', 'Rate limiters grant exactly their rate, evenly, with bounded bursts',
  '''A rate split into any number of slots gives slots that differ by one at
  most, whose running sum is never off the even distribution by one or more,
  and whose total is the rate, for every rate. A limiter grants nothing before
  it is started; a user that takes every grant gets exactly the rate each
  second, a tenth of it every tenth of a second; one that waits finds at most
  three tenths of the rate, whatever the wait; the callback comes only while
  started and with a grant to take, and never after the limiter is stopped,
  even by a callback.''',
  ['inputs', 'histories', 'schedules'],
  '''for every rate, history of takes, stops and restarts, and delay of the
  program''',
  'tests split a few rates and never run a limiter',
  ['src/net/rate.blk', 'src/net/rate.h', 'src/core/el.blk'],
  [('slots and refills', 'src/net/rate.blk')],
  observe=['net_rctl_fire', 'on_ready callbacks'])

P('C57', 'Embedded archives give back every file, byte for byte',
  '''The archiver turns any list of files, of any size and content and whatever
  their names, compressed or not, into a source that compiles and from which
  the library gives back each file under its name: same bytes, terminated,
  fresh or persistent (one copy per entry, valid until the module is
  released), in the order of the list and with an end; nothing for a name that
  is not in it. A file that cannot be read makes the archiver fail and leaves
  no archive behind; the dependencies name every file.''',
  ['inputs'],
  '''for every set of files''',
  'tests embed three text files',
  ['src/core/farch.c', 'src/farch.h', 'src/tools/farchc.c',
   'src/core/str-l-obfuscate.c', 'src/core/str-l-obfuscate-default.c',
   'src/core/qlzo-c.c', 'src/core/qlzo-d.c'],
  [('reader', 'src/core/farch.c'), ('archiver', 'src/tools/farchc.c')],
  observe=['t_farch_get_data', 'farch_get_data_persist',
           'farch_get_filename'])

P('C12', 'HTTP/1 messages are delivered whole, in order, and to their owner',
  '''Whatever the way the byte stream is fragmented, a server delivers exactly
  the headers and body of each pipelined request to its own handler and the
  client receives for each of its queries, in order, exactly the status and
  body produced for it, for identity, chunked and compressed bodies; each
  query ends exactly once.''',
  ['schedules', 'inputs', 'fault_sequences'],
  'for every message sequence, body encoding, fragmentation and close point',
  'tests send a few requests in one piece over loopback',
  ['src/net/http.c', 'src/net/http-def.c'],
  [('incremental parser', 'src/net/http.c'),
   ('query lists on both sides', 'src/net/http.c')],
  observe=['httpd triggers', 'httpc query callbacks'])

P('C13', 'HTTP peers cannot crash or confuse the server',
  '''Feeding any byte sequence, in any fragmentation, to an HTTP/1 server
  connection or as a response to an HTTP/1 client connection never causes an
  invalid memory access, an endless loop, or a leak of a connection, query or
  descriptor: the peer gets well-formed answers or is disconnected, other
  connections keep being served, each client query ends exactly once, and no
  request path makes a static directory trigger serve a file that lies outside
  of its directory.''',
  ['inputs', 'schedules'],
  'for every byte stream and fragmentation',
  'tests play well-formed conversations only',
  ['src/net/http.c', 'src/net/http-srv-static.c'],
  [('incremental parsers', 'src/net/http.c'), ('path clean-up', 'src/net/http.c:t_urldecode')],
  observe=['server socket', 'httpd/httpc callbacks'])

P('C14', 'HPACK encoder and decoder stay synchronised',
  '''Any sequence of header lists encoded with any mix of indexing choices,
  table-size updates and Huffman coding decodes to the same header lists in
  the same order with both dynamic tables remaining identical; decoding any
  byte string stays within bounds and either fails or yields headers; the
  dynamic table never exceeds its negotiated size.''',
  ['inputs', 'histories'],
  'for every header sequence, table size and encoding choice',
  'tests replay the RFC examples',
  ['src/net/hpack.c', 'src/net/hpack.h'],
  [('dynamic table ring', 'src/net/hpack.c'),
   ('Huffman code tables', 'src/net/hpack-generate-huffman-tables.py')],
  observe=['hpack_encoder_*', 'hpack_decoder_*'])

P('C15', 'Network addresses parse and print consistently',
  '''Printing any IPv4, IPv6 or unix socket address and parsing the text gives
  back the same address and port; parsing any text terminates within its
  bounds and accepts exactly host/port pairs it can represent; equality and
  hashing of addresses agree; a subnetwork filter accepts exactly the peers of
  its network and port; an HTTP URL is split in components that designate the
  same resource, or refused.''',
  ['inputs'],
  'for every address and every text',
  'tests use a few addresses',
  ['src/net/addr.c', 'src/net/addr.h', 'src/net/socket.c'],
  [('addr_parse family', 'src/net/addr.c')],
  observe=['addr_parse', 't_addr_fmt', 'sockunion_equal'])

P('C16', 'ASN.1 BER encoding round-trips and rejects hostile input safely',
  '''Packing any value described by an ASN.1 description in BER and unpacking
  it yields the same value with exactly the announced length; unpacking any
  byte string stays within bounds and terminates; integer and length codecs
  are inverse of each other over their whole domain.''',
  ['inputs', 'programs'],
  'for every described value, and for every byte string',
  'tests cover a dozen fixed encodings',
  ['src/asn1/writer.c', 'src/asn1/asn1.c', 'src/asn1.h'],
  [('length pass then serialization pass', 'src/asn1/writer.c')],
  observe=['asn1_pack', 'asn1_unpack'])

P('C17', 'ASN.1 aligned PER encoding round-trips within constraints',
  '''Encoding any value within its PER constraints (ranges, sizes, extensions,
  fragmentation of long strings, optional and choice members) and decoding it
  yields the same value and consumes exactly what was produced; values outside
  non-extensible constraints are refused; decoding any byte string stays
  within bounds and terminates.''',
  ['inputs', 'programs'],
  'for every constrained type, value and byte string',
  'tests cover fixed values',
  ['src/asn1/per.c', 'src/asn1-per.h', 'src/bit-buf.h', 'src/bit-stream.h'],
  [('constrained integers and lengths', 'src/asn1/per.c')],
  observe=['aper_encode_desc', 't_aper_decode_desc'])

# }}}
# {{{ event loop and threads

P('C18', 'Event loop timers fire at the right time, count and order',
  '''A timer never fires before its delay elapsed; a one-shot timer fires
  exactly once unless stopped, a repeating one keeps firing until stopped;
  restarting moves the deadline; timers due at different times fire in
  deadline order (low-resolution timers: in the order of the deadlines plus
  their tolerance), and the loop never sleeps past the first deadline (plus
  its tolerance); a stopped timer's callback never runs again, including when
  timers stop, restart or create others from inside callbacks.''',
  ['schedules', 'histories'],
  'for every history of timer operations, including from callbacks',
  'tests use a couple of timers',
  ['src/core/el.blk', 'src/el.h'],
  [('binary heap of timers', 'src/core/el.blk')],
  observe=['timer callbacks', 'el_timer_restart', 'el_unregister'])

P('C19', 'Event loop delivers events to registered objects only',
  '''While registered for an event mask, a file-descriptor handler runs when
  and only when one of the requested events is pending (when an iteration of
  the loop polled; only the highest priority among the ready descriptors is
  served by an iteration); after
  unregistration, from inside or outside any callback, no handler of that
  object runs; deferred, idle, child-exit, signal, proxy and wake events are
  delivered to their own handlers with the right data and no spurious or lost
  notification, the end of a captured child process is reported with its
  whole output, and the loop keeps running while a blocking registration
  remains and stops when none does.''',
  ['schedules', 'histories'],
  '''for every history of registrations, mask changes, unregistrations and
  readiness changes''',
  'tests check a few handlers one at a time',
  ['src/core/el.blk', 'src/core/el-epoll.in.c', 'src/el.h'],
  [('registration with owner checks and deferred reuse',
    'src/core/el.blk')],
  observe=['el_fd_register callbacks', 'el_wake_fire', 'el_proxy_set'])

P('C20', 'Scheduled jobs run exactly once and waiters see them complete',
  '''Every job scheduled from any thread, including from inside other jobs and
  beyond the queue capacity, runs exactly once; a wait on a synchronisation
  point returns only after every job registered on it has finished and with
  their effects visible; a completion notification fires exactly once and
  after them; a parallel loop runs its body exactly once per index.''',
  ['schedules'],
  'for every interleaving of posting, stealing and waiting threads',
  'tests run small fixed batches without perturbing the schedule',
  ['src/core/thr-job.blk', 'src/core/thr-job.h', 'src/core/thr-evc.c'],
  [('work-stealing deque', 'src/core/thr-job.blk'),
   ('pending counter and event count', 'src/core/thr-job.h')],
  observe=['thr_schedule', 'thr_syn_wait', 'thr_syn_notify',
           'thr_for_each'])

P('C21', 'Serial queues run jobs one at a time, in order, without loss',
  '''Jobs posted on one serial queue never overlap, run exactly once, and run
  in the posting order of each poster (and in causal order across posters);
  jobs of the main queue run only on the main thread; a synchronous post
  returns after its job ran; destroying a queue runs what was posted
  before.''',
  ['schedules'],
  'for every interleaving of posters and workers',
  'tests post short sequences',
  ['src/core/thr-job.blk', 'src/core/thr-mpsc.h'],
  [('mpsc queue drained by a single owner', 'src/core/thr-job.blk')],
  observe=['thr_queue', 'thr_queue_sync', 'thr_syn_queue'])

P('C22', 'Lock-free queues and event counts lose nothing',
  '''Concurrent producers and the consumer of a lock-free queue observe each
  pushed element exactly once and in per-producer order, and the
  empty/non-empty result of a push is reported to exactly one producer per
  emptiness period; a thread waiting on an event count is woken by any signal
  sent after it took its key.''',
  ['schedules'],
  'for every interleaving of producers, consumer, waiters and signalers',
  'tests use these queues only indirectly',
  ['src/core/thr-mpsc.h', 'src/core/thr-spsc.c', 'src/core/thr-spsc.h',
   'src/core/thr-evc.c', 'src/core/thr-evc.h'],
  [('atomic exchange on the tail', 'src/core/thr-mpsc.h'),
   ('futex with key', 'src/core/thr-evc.c')],
  observe=['mpsc_queue_push', 'mpsc_queue_drain', 'thr_ec_wait'])

P('C23', 'Metrics never lose an update and expose what was recorded',
  '''Concurrent updates of counters, gauges and histograms from any number of
  threads, including concurrent creation of labelled children, are all
  accounted: the exposed values equal the sum of what was recorded, histogram
  buckets are cumulative and agree with their count and sum, and the text
  exposition is well-formed with every label value escaped.''',
  ['schedules', 'inputs'],
  'for every interleaving of updates and scrapes and every label text',
  'tests check a fixed amount of updates by a few threads',
  ['src/prometheus-client/metrics.c', 'src/prometheus-client/core.c',
   'src/prometheus-client/http.c', 'src/prometheus-client.h'],
  [('atomic double addition', 'src/prometheus-client/metrics.c')],
  observe=['prom_counter_add', 'prom_collector_bridge'])

P('C24', 'Logging filters by the effective level of each logger',
  '''A record is handed to the handler if and only if its level passes the
  effective level of its logger, which is its own forced or set level or
  otherwise the nearest ancestor's, after any history of level changes and
  logger creations; log buffers capture exactly the records emitted by their
  thread in their scope, in order, and concurrent logging is race-free.''',
  ['histories', 'schedules'],
  'for every logger tree, history of level changes and interleaving',
  'tests play a few fixed sequences',
  ['src/core/log.c', 'src/log.h'],
  [('level inheritance with generation counter', 'src/core/log.c')],
  observe=['logger_vlog', 'log_start_buffering'])

# }}}
# {{{ memory and containers

P('C25', 'Memory pools hand out disjoint, aligned, stable blocks',
  '''For every pool kind and any history of allocations, reallocations, frees
  and frames, live blocks never overlap, have the requested size and
  alignment, are zeroed when asked to, keep their contents until freed or
  their frame is released, and survive reallocation up to the smaller of both
  sizes; releasing a frame releases exactly the blocks of this frame.''',
  ['histories', 'inputs'],
  'for every allocation history of every pool kind',
  'tests do a few fixed allocation patterns',
  ['src/core/mem.blk', 'src/core/mem-stack.c', 'src/core/mem-ring.c',
   'src/core/mem-fifo.c', 'src/core/mem.h'],
  [('block headers and frame chain', 'src/core/mem-stack.c'),
   ('ring of blocks', 'src/core/mem-ring.c')],
  observe=['mp_imalloc', 'mp_irealloc', 'mp_ifree', 'mem_stack_push'])

P('C26', 'Hash tables behave as finite maps',
  '''Under any history of insertions, replacements, lookups, removals,
  clearing, resizing, sealing and iteration with removal, hash sets and maps
  (small, huge, integer, string, 128-bit and custom keys) hold exactly the
  keys put and not removed, each once, with their last value; iteration
  visits every element once.''',
  ['histories', 'inputs'],
  'for every operation history, key distribution and hash collision pattern',
  'tests insert a few keys',
  ['src/container/qhash.c', 'src/container/qhash.in.c',
   'src/container-qhash.h', 'src/container-qhugehash.h'],
  [('open addressing with ghost entries and incremental resize',
    'src/container/qhash.in.c')],
  observe=['qm_put', 'qm_find', 'qm_del_at', 'qhm_put'])

P('C27', 'Vectors behave as sequences',
  '''Under any history of appends, inserts, removals, splices, clips, sorting,
  deduplication, difference and search, a vector holds exactly the sequence
  that the same operations produce on an ideal sequence, with elements kept
  bit-exact through growth and shrinking, for any element size and pool.''',
  ['histories', 'inputs'],
  'for every operation history',
  'tests perform short fixed sequences',
  ['src/container/qvector.blk', 'src/container-qvector.h'],
  [('shared splice primitive', 'src/container/qvector.blk')],
  observe=['qv_splice', 'qv_remove', 'qv_uniq', 'qv_diff'])

P('C28', 'Trees, heaps, lists and rings keep their order and content',
  '''Under any history of insertions and removals, balanced trees enumerate
  their keys in order and stay balanced, heaps return the minimum and
  remove designated elements, intrusive lists and head-tail lists keep
  insertion order through moves, splices and removals during iteration, and
  rings behave as double-ended queues.''',
  ['histories'],
  'for every operation history',
  'tests perform short fixed sequences',
  ['src/container/rbtree.c', 'src/container-rbtree.h',
   'src/container-qheap.h', 'src/container-dlist.h',
   'src/container-htlist.h', 'src/container/ring.c',
   'src/container-ring.h'],
  [('red-black rebalancing', 'src/container/rbtree.c')],
  observe=['rb_add_node', 'qhp_insert', 'dlist_splice', 'ring_push'])

P('C29', 'Sort primitives sort, keep multiplicity and search correctly',
  '''For every array of every supported integer width and of generic elements,
  the sort functions return the same multiset in order; deduplication of a
  sorted array keeps exactly the first of each run of equal elements, in
  order, and deletes each dropped element once; binary searches report
  whether the key is present and return a position holding it, or the
  position where it would be inserted.''',
  ['inputs'],
  'for every array, including presorted, constant and extreme values',
  'tests sort a few random arrays',
  ['src/core/sort.blk', 'src/core/sort-numeric.in.c', 'src/sort.h'],
  [('radix sort', 'src/core/sort-numeric.in.c')],
  observe=['dsort32', 'uniq32', 'bisect32'])

P('C30', 'Compressed bitmaps behave as plain bitmaps',
  '''A word-aligned-hybrid compressed bitmap built by any sequence of
  appends and combined by any boolean operation holds exactly the bits an
  uncompressed bitmap would, in bit access, counting, enumeration (forward,
  by word, skipping) and after being exported and rebuilt from its
  storage.''',
  ['inputs', 'histories'],
  'for every construction history and operand combination',
  'tests use small fixed bitmaps and regressions',
  ['src/core/bit-wah.c', 'src/bit-wah.h'],
  [('run-length and literal chunks', 'src/core/bit-wah.c')],
  observe=['wah_add', 'wah_and', 'wah_multi_or', 'wah_get'])

# }}}
# {{{ strings

P('C31', 'String buffers hold exactly what was written',
  '''Under any history of appends, splices, skips, shrinks, resets, steals and
  formatted writes, in static, pool or heap storage, a string buffer contains
  exactly the expected bytes, stays NUL terminated, never aliases foreign
  memory and never writes outside its capacity.''',
  ['histories', 'inputs'],
  'for every operation history and initial storage',
  'tests cover isolated calls',
  ['src/core/str-buf.c', 'src/core/str-buf.h'],
  [('grow with slop and skip accounting', 'src/core/str-buf.c')],
  observe=['sb_add', 'sb_splice', 'sb_skip', 'sb_detach'])

P('C32', 'Text encoders and decoders are inverse of each other',
  '''For every byte string, decoding the base64, hexadecimal, URL,
  quoted-printable, XML, C-string, CSV or uuencode-style encoding of it
  yields the original, whatever way streaming encoders are fed; decoding
  arbitrary text never reads outside it and never accepts what is not in the
  encoding's language.''',
  ['inputs'],
  'for every byte string and chunking',
  'tests use a few samples',
  ['src/core/str-buf-quoting.c', 'src/core/str-stream.c'],
  [('table driven encoders', 'src/core/str-buf-quoting.c')],
  observe=['sb_add_b64', 'sb_add_unb64', 'sb_add_urlencode',
           'sb_add_qpe', 'ps_get_csv_line'])

P('C33', 'Character set conversions are faithful',
  '''Converting valid text between UTF-8 and the supported encodings (Latin-1,
  UCS-2, GSM 7-bit packed or not, Windows code pages) and back is the identity
  on representable characters, conversion of any byte string stays in bounds,
  and the UTF-8 helpers (length, truncation, comparison, case folding,
  validation) agree with the code points of the text.''',
  ['inputs'],
  'for every string, valid or not',
  'tests use a few sample files',
  ['src/core/str-conv.c', 'src/core/str-buf-gsm.c', 'src/core/str-l.c',
   'src/core/str-buf.c'],
  [('conversion tables', 'src/core/str-conv.c')],
  observe=['sb_conv_from_latin1', 'sb_conv_to_gsm', 'utf8_strlen'])

P('C34', 'Formatted printing agrees with standard C',
  '''For every standard directive combination and argument the formatting
  engine produces the same text and returned length as standard C, never
  writes past the given size, always terminates the text, and its own
  extensions print exactly the bytes given.''',
  ['inputs'],
  'for every format string made of supported directives, and all arguments',
  'tests check a fixed list of formats',
  ['src/core/str-iprintf.c', 'src/core/str-dtoa.c'],
  [('own formatter', 'src/core/str-iprintf.c')],
  observe=['isnprintf', 'sb_addf'])

P('C35', 'Number parsing is exact and reports overflow',
  '''Parsing an integer or a floating-point number from a bounded text yields
  exactly the number written, consumes exactly its characters, and reports
  out-of-range or malformed text instead of returning a wrong value, for all
  bases, suffix extensions and widths; the shortest printed form of any double
  reads back to the same double.''',
  ['inputs'],
  'for every text and every number',
  'tests use small tables',
  ['src/core/str-num.c', 'src/core/str-dtoa.c', 'src/core/str-l.c',
   'src/core/str.c'],
  [('bounded parsers', 'src/core/str-num.c')],
  observe=['memtollp', 'memtoxll_ext', 'lstr_to_int', 'memtod'])

P('C36', 'Bounded readers never leave their slice and match writers',
  '''Any sequence of reads, skips, splits and searches on a byte or bit slice
  returns exactly the data at the current position or fails without moving,
  never touching anything outside; data written with the bit and endian-aware
  writers reads back identical through the readers.''',
  ['inputs', 'histories'],
  'for every slice content and operation sequence',
  'tests call each function on short literals',
  ['src/core/str-stream.h', 'src/core/str-stream.c', 'src/bit-stream.h',
   'src/bit-buf.h', 'src/core/bit-buf.c', 'src/arith/endianess.h'],
  [('has/skip checks', 'src/core/str-stream.h')],
  observe=['ps_get_*', 'bs_get_bits', 'bb_add_bits'])

P('C37', 'Path normalisation never escapes and preserves meaning',
  '''Simplifying a path keeps the file it designates (in a tree without
  symbolic links), is idempotent and never overflows the buffer; a path
  declared safe never designates anything outside its base; joining and
  splitting functions respect buffer sizes and agree with each other.''',
  ['inputs'],
  'for every path text and buffer size',
  'tests use short tables',
  ['src/core/str-path.c'],
  [('component rewriting in place', 'src/core/str-path.c')],
  observe=['path_simplify2', 'path_is_safe', 'path_extend',
           'path_relative_to'])

P('C38', 'Dates and times convert without loss',
  '''Printing any instant between 1901 and 2100 (the years the parser accepts) in
  ISO 8601 and parsing it back gives the same instant; calendar computations (current/next minute, hour, day, week, leap
  years, day differences, splitting) agree with the proleptic Gregorian
  calendar and the configured timezone including daylight saving changes.''',
  ['inputs', 'configurations'],
  'for every instant and timezone',
  'tests use a few dates',
  ['src/core/datetime.c', 'src/core/datetime-iso8601.c', 'src/datetime.h'],
  [('parsers and calendar arithmetic', 'src/core/datetime.c')],
  observe=['time_parse_iso8601', 'sb_add_time_iso8601', 'localtime_*'])

P('C39', 'Compression round-trips and rejects hostile input safely',
  '''Compressing any byte string with the LZO or zlib helpers and decompressing
  it yields the original within the announced bounds; decompressing any byte
  string into any buffer size never reads or writes out of bounds and reports
  an error or the produced size.''',
  ['inputs'],
  'for every byte string and output size',
  'tests compress a few files',
  ['src/core/qlzo-c.c', 'src/core/qlzo-d.c', 'src/core/zlib-wrapper.c'],
  [('bound checks in the decompressor', 'src/core/qlzo-d.c')],
  observe=['qlzo1x_compress', 'qlzo1x_decompress_safe',
           'sb_add_compressed'])

P('C40', 'Digests and ciphers match the standards for any chunking',
  '''MD5, SHA-1, SHA-2, HMAC, CRC, AES and DES results equal those of a
  reference implementation for every message, key and chunking of the
  updates; decryption inverts encryption; the documented non-cryptographic
  hashes do not depend on alignment or chunking.''',
  ['inputs'],
  'for every message, key and chunking',
  'tests use standard vectors, in one piece',
  ['src/crypto/md5.c', 'src/crypto/sha1.c', 'src/crypto/sha2.c',
   'src/crypto/sha4.c', 'src/crypto/aes.c', 'src/crypto/des.c',
   'src/crypto/crc32.c', 'src/crypto/hash.c', 'src/crypto/ssl.blk'],
  [('block buffering in update functions', 'src/crypto/sha2.c')],
  observe=['sha2_update', 'icrc32', 'aes_crypt_cbc'])

# }}}
# {{{ persistence

P('C41', 'Persistent store keeps every object across reopening',
  '''Objects allocated in a persistent store are disjoint, keep their exact
  contents until freed, and after any history of allocations, reallocations,
  writes, frees, garbage collections and snapshots, closing and reopening the
  store shows exactly the objects of the last completed snapshot, with their
  contents; a crash of the process at any point recovers exactly the state of
  one snapshot, never older than the last completed one; a backup holds
  exactly that state too.''',
  ['histories', 'crash_points'],
  'for every operation history and every crash point between snapshots',
  'tests replay a few regressions',
  ['src/core/qps.blk', 'src/qps.h'],
  [('map pages with free lists', 'src/core/qps.blk'),
   ('generation and snapshot files', 'src/core/qps.blk')],
  observe=['qps_alloc', 'qps_realloc', 'qps_free', 'qps_snapshot',
           'qps_open'])

P('C42', 'Persistent tries and bitmaps behave as ordered maps',
  '''A persistent trie maps every 32-bit key to the last value set (with a
  missing/null/zero distinction when nullable) and a persistent bitmap to the
  last bit set, under any history of sets, removals, resets and enumeration
  with modification; enumeration is in increasing key order and complete;
  and the state survives closing and reopening.''',
  ['histories'],
  'for every operation history, value width and key distribution',
  'tests play fixed key patterns',
  ['src/core/qps-hat.c', 'src/core/qps-hat.in.c', 'src/qps-hat.h',
   'src/core/qps-bitmap.c', 'src/qps-bitmap.h'],
  [('compact, flat and dispatch nodes', 'src/core/qps-hat.c')],
  observe=['qhat_set', 'qhat_get', 'qhat_enumerator', 'qps_bitmap_set'])

P('C43', 'Record files give back every record, or a clean prefix after damage',
  '''Records written to a binary record file are read back exactly, in order,
  forward and backward; after truncation at any byte the reader returns
  exactly the records wholly written before; after corruption of any bytes it
  terminates, stays in bounds and never returns a record that spans the
  damage as if it were valid unless its bytes are intact in length.''',
  ['crash_points', 'inputs', 'histories'],
  'for every record sequence, truncation point and corruption',
  'tests truncate and corrupt at a few fixed points',
  ['src/core/file-bin.c', 'src/file-bin.h'],
  [('slots with headers', 'src/core/file-bin.c')],
  observe=['file_bin_put_record', 'file_bin_get_next_record'])

P('C44', 'Log file rotation and buffered files lose no byte',
  '''The concatenation in order of the files produced by a rotating log file,
  whatever the size or age limits, equals the bytes written; limits on the
  number of files and total size only remove the oldest files; a buffered file
  contains after flush or close exactly the bytes written at their offsets.''',
  ['histories', 'fault_sequences'],
  'for every write history and rotation configuration',
  'tests rotate a handful of times',
  ['src/core/file-log.blk', 'src/core/file.c', 'src/file-log.h',
   'src/file.h', 'src/core/unix.blk'],
  [('rotation and expiry', 'src/core/file-log.blk')],
  observe=['log_fwrite', 'file_write', 'file_seek'])

# }}}
# {{{ infrastructure

P('C45', 'Objects and modules respect reference counts and dependencies',
  '''An object is destroyed exactly when its last reference goes, with each
  class level initialised base-first and wiped derived-first exactly once, and
  casts succeed exactly along the inheritance chain; a module is initialised
  once after all its dependencies and shut down once when nobody requires it
  any more, after every module depending on it.''',
  ['histories', 'programs'],
  'for every class hierarchy, dependency graph and require/release history',
  'tests use a few classes and graphs',
  ['src/core/obj.c', 'src/core/obj.h', 'src/core/module.c',
   'src/core/module.h'],
  [('refcounted vtables', 'src/core/obj.c'),
   ('dependency state machine', 'src/core/module.c')],
  observe=['obj_retain', 'obj_release', 'module_require',
           'module_release'])

P('C46', 'Bit, scan and arithmetic kernels equal their plain definition',
  '''Bit counting, bit reversal, first/last set bit, (non-)zero and value scans
  over arrays, bit-range copies and moves, saturating and rounding
  arithmetic, gcd and random-range helpers return what the straightforward
  definition gives, for every length, alignment and offset, and whichever
  processor-specific version is selected.''',
  ['inputs', 'configurations'],
  'for every input, alignment, length and processor variant',
  'tests use aligned fixed arrays',
  ['src/core/bithacks.c', 'src/arith/scan.c', 'src/arith/int.c',
   'src/arith/float.c', 'src/bit.h', 'src/core/rand.c'],
  [('vectorised kernels', 'src/arith/scan.c')],
  observe=['membitcount', 'is_memory_zero', 'scan_non_zero32'])

P('C47', 'File helpers do the whole work or report the failure, and touch nothing else',
  '''The complete-transfer helpers and the output buffers (whatever they are
  made of) move every byte exactly once in order, or
  fail with the error of the system, whatever the short transfers and
  interruptions, and a failed append or copy (including onto itself) destroys
  no existing data; making a directory path reports a directory that is there
  and makes only the missing components, relative to the given directory;
  recursive removal removes the whole tree and nothing out of it, symbolic
  links included; listing reports each visible entry (each file once when
  following links) with its type and stops at the first error with its value;
  a directory lock has one holder at any time and survives no holder; closing
  descriptors closes exactly those asked for.''',
  ['inputs', 'fault_sequences', 'schedules'],
  'for every tree, path, error and interleaving of processes',
  'tests use small fixed trees without errors or concurrency',
  ['src/core/unix.blk', 'src/core/unix-fts.c', 'src/core/unix-linux.c',
   'src/unix.h', 'src/core/str-buf.c', 'src/core/str-l.c',
   'src/core/str-outbuf.c', 'src/str-outbuf.h'],
  [('retry loops, mkdir -p, copies, listing, locks', 'src/core/unix.blk'),
   ('recursive removal', 'src/core/unix-fts.c'),
   ('closing of descriptors', 'src/core/unix-linux.c')],
  observe=['xwrite', 'xwritev', 'xread', 'xpread', 'filecopy', 'mkdir_p',
           'mkdirat_p', 'rmdir_r', 'rmdirat_r', 'list_dir', 'lockdir',
           'unlockdir', 'close_fds', 'which', 'fd_get_path', 'ob_write',
           'ob_merge', 'ob_add_file'])

# }}}


def main():
    path = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as fp:
        for p in sorted(PROPS, key=lambda p: p['id']):
            fp.write(json.dumps(p) + '\n')


if __name__ == '__main__':
    main()
