FMT = 'crates/byte-fmt/src/'
p('B01', 'AB and B64 values read back from every text and expression they print',
  'Wrapping any bytes as AB or B64, of fixed or free size, changes nothing about them: every text, debug, expression and serialised form they offer is the documented one (abtxt, url-safe unpadded base64, the 2mini abbreviation) and reading it back gives the same bytes, comparison and hashing are those of the bytes, and bit operations and the number views of 16, 32 and 64 byte values are digit for digit those of the bytes as a big endian number.',
  ['inputs'], 'all byte strings of all sizes',
  'the tests print two values; the inverse must hold for every byte string and size',
  [FMT+'lib.rs'], [('newtypes', FMT+'lib.rs AB, B64'), ('expression form', FMT+'lib.rs ToABE')],
  'monitored random execution against an independent codec', EXP)
p('B02', 'Endian integers compare, compute and print as the number they hold',
  'The fixed endian integers (u16 to u128, big and little endian) store exactly the bytes of their number in their endianness, order and compare by value, add and subtract and shift with the documented saturating, wrapping or checked result, and their decimal, hexadecimal and binary texts and expression forms read back as the same number; a text out of range or malformed is refused.',
  ['inputs'], 'all pairs of integers of each type',
  'the tests use single values; carries, byte order and bounds need all pairs',
  [FMT+'endian_types.rs'], [('types', FMT+'endian_types.rs')],
  'monitored random execution on boundary pairs plus every u8/u16 pair with itself', EXP)
p('B03', 'Fixed-size values accept exactly the inputs that fit',
  'A byte value of fixed size is made from a slice, text, list or base64 text exactly when the size rule holds: AB pads shorter input with nulls on the documented side and refuses longer, B64 and the integers need the exact size, and a base64 text must be the canonical one. What is accepted is exactly the given bytes plus padding, everything else is an error, and nothing panics.',
  ['inputs'], 'all slices, texts and lists for every size',
  'no test tries wrong lengths',
  [FMT+'lib.rs', FMT+'endian_types.rs'], [('conversions', FMT+'lib.rs TryFrom, FromStr')],
  'monitored random execution against the size rule', EXP + '; lists with two undelimited entries are excluded')
p('B04', 'A typed expression evaluates to its type or fails when it is read',
  'An expression read as a typed expression is accepted exactly when its shape can give one value, prints back as an equal expression, and evaluates to the bytes of the plain expression converted by the size rule of the type, or to an error naming the conversion; a default applies exactly when the expression is absent.',
  ['programs', 'inputs'], 'all expressions and all result types',
  'no test covers typed expressions',
  ['crates/abe/src/convert.rs'], [('TypedABE', 'crates/abe/src/convert.rs')],
  'differential execution against the reference evaluator', EXP)
CR = 'crates/cryptography/src/'
p('C01', 'Signatures verify exactly for their key and message',
  'A signature made with any usable key over any 32 byte hash verifies under the public key of that key and that hash, and stops verifying when any bit of the signature, the public key or the hash changes. Signing is deterministic BIP340, keys outside the curve or range and malformed signatures are refused without a panic, and an arbitrary triple is accepted exactly when the BIP340 equation holds.',
  ['inputs'], 'all keys, hashes and signatures',
  'one test signs one message; unforgeability under bit changes and refusal of bad points range over all inputs',
  [CR+'lib.rs'], [('sign, validate', CR+'lib.rs')],
  'differential execution against an independent BIP340 implementation, with bit-flip mutation', EXP + '; cryptographic hardness itself is assumed')
p('C02', 'A hash depends on the concatenated bytes and nothing else',
  'The hash of a list of segments is the BLAKE3 digest of their concatenation: cutting the bytes into other or empty segments does not change it, any change of the bytes does, and it does not matter in which form (one buffer, segments) the bytes are given.',
  ['inputs'], 'all byte strings and all segmentations',
  'no test varies the segmentation or crosses internal block sizes',
  [CR+'lib.rs'], [('hash_segments', CR+'lib.rs')],
  'metamorphic execution (all segmentations agree) with published vectors', EXP)
p('C03', 'An encrypted identity opens only with its password and unchanged text',
  'Encrypting a key with any password gives a text with the documented fields which the same password decrypts to the same key. Another password, or a changed salt, cost, public key or encrypted part, gives an error or never that key; the public key in the text is readable without the password and is checked against the decrypted key, and malformed texts are refused without a panic.',
  ['inputs'], 'all keys, passwords and texts',
  'one test decrypts one identity with the right password',
  ['crates/argon2-identity/src/lib.rs'], [('encrypt, decrypt, pubkey', 'crates/argon2-identity/src/lib.rs')],
  'round-trip and mutation monitoring', EXP + '; a key and its negation share their public key, which BIP340 keys cannot tell apart')
BUS = 'crates/ipcbus/src/'
p('I01', 'Every bus id keeps one port of its own across processes and crashes',
  'Asking for the port of a bus id gives the same port in every process and at every later time, and never a port given to another id, also when many processes ask at once, when the map ends in a partly written record, and when a process dies at any point while writing it. The map keeps the ports of all other ids.',
  ['schedules', 'crash points', 'histories'], 'all request histories, all interleavings of processes, all crash points of a write',
  'no test runs two processes or crashes one',
  [BUS+'udp_procbus.rs'], [('port map and lock', BUS+'udp_procbus.rs get_port')],
  'concurrent processes and fault injection (death after any written byte) with a history oracle', EXP + '; fewer ids than ports; the machine does not lose power')
p('I02', 'A bus value is the maximum emitted so far and never goes back',
  'After any sequence of emits the value of a bus is the highest value emitted; an emit returns that maximum, an emit of a lower value changes nothing and returns the higher one, and with any number of threads emitting at once no emit is lost, no observer sees the value decrease, and no value appears that nobody emitted.',
  ['schedules', 'histories'], 'all emit sequences and thread interleavings',
  'a lost update needs a specific interleaving of two emits',
  [BUS+'udp_procbus.rs'], [('compare-and-swap loop', BUS+'udp_procbus.rs _emit'), ('read', BUS+'udp_procbus.rs val')],
  'stress with an offline checker over the per-thread logs', EXP)
p('I03', 'Everyone waiting when a value is emitted wakes up with it',
  'A thread or future that is waiting on a bus when an equal or higher value is emitted wakes up, however many wait and in whatever mix, and gets the current value; a loop that checks the value and then waits, telling what it saw, never misses the last value. A wait with a deadline ends at the deadline when nothing is emitted, never before, and nothing wakes without an emit.',
  ['schedules'], 'all mixes of waiters and all interleavings with emitters',
  'a lost wake-up needs an emit at a particular point of a wait',
  [BUS+'udp_procbus.rs'], [('wait', BUS+'udp_procbus.rs next_deadline, next_async'), ('notify', BUS+'udp_procbus.rs _emit')],
  'monitored waits: one emit after all waiters are seen registered (asleep or polled), and racing loops', EXP + '; 10 to 20 s is taken to be enough for a runnable thread')
p('I04', 'A value emitted in one process reaches every process on that bus only',
  'Every process on a bus sees the maximum emitted by any of them and a process that waits is woken with it, in every history of emits by different processes; a bus with another id is never affected, even on the same port.',
  ['histories', 'schedules'], 'all histories of emits over several processes',
  'no test starts a second process',
  [BUS+'udp_procbus.rs', BUS+'udp_multicast.rs'], [('message and filter', BUS+'udp_procbus.rs init'), ('transport', BUS+'udp_multicast.rs')],
  'multi-process histories with a delivery and isolation oracle', EXP + '; a datagram lost by the kernel is sent again by the check')
p('I05', 'Hostile datagrams neither stop nor mislead a bus',
  'Whatever datagrams arrive on the port of a bus (empty, cut, extended, random, of other buses, of the own process, with older values), the bus keeps receiving: a later valid message still raises the value, and the value is always the highest one validly emitted for this bus.',
  ['inputs', 'histories'], 'all sequences of datagrams',
  'no test sends anything but valid messages',
  [BUS+'udp_procbus.rs', BUS+'udp_multicast.rs'], [('receiving loop', BUS+'udp_multicast.rs recv'), ('message check', BUS+'udp_procbus.rs init')],
  'datagram fuzzing of the live receiving thread with liveness and value oracles', EXP)
p('I06', 'The bus has no data races',
  'Emitting, waiting, reading and receiving on one bus from any number of threads, including starting the receiving thread more than once, never touches shared memory without synchronisation.',
  ['schedules'], 'all interleavings of bus operations',
  'tests are single threaded; a race only shows under instrumentation',
  [BUS+'udp_procbus.rs', BUS+'udp_multicast.rs'], [('shared state', BUS+'udp_procbus.rs Inner')],
  'ThreadSanitizer (instrumented std) under stress workloads', EXP + '; races outside the executed interleavings\' happens-before cover are not seen')
p('M01', 'No input makes the expression and byte crates misuse memory',
  'Whatever expression, text, byte string, list or argument is given to the safe interface of the abe and byte-fmt crates, memory is only read and written within bounds and lifetime, and every str that comes out holds valid utf-8 and lies inside the text it was cut from.',
  ['inputs'], 'all inputs of the safe interface',
  'undefined behaviour usually passes tests unnoticed; it needs instrumentation and hostile inputs',
  [ABE+'ast.rs', ABE+'abtxt.rs', FMT+'lib.rs'], [('unchecked str', ABE+'ast.rs tokenize_abe'), ('transmutes and casts', FMT+'lib.rs from_ref, ab_slice, into_bytes')],
  'AddressSanitizer build driven by all generators of the A and B checks', EXP)
PK = 'crates/pkt/src/'
PEXP = EXP + '; crates that are not installed (triomphe, lmdb, parse-display, time, smallvec) are replaced by stand-ins'
p('P01', 'Reading any bytes as a packet accepts exactly the valid packets, safely',
  'Reading a byte string as a packet returns the packet exactly when it is well formed: prefix, size within the limits and large enough for its type, a type that exists, links and space name inside the point, a valid rooted space name with a matching depth, 0xff padding to a multiple of eight, the hash of the point, and for a keypoint a valid signature of that hash. Everything else, including truncated, overlong, overlapping or random bytes, is an error or a request for more bytes: nothing outside the given bytes is read and nothing panics, wherever the bytes lie in memory. Every part of an accepted packet equals the part of the bytes that the format puts there.',
  ['inputs'], 'all byte strings, aligned or not, up to and beyond the maximum packet size',
  'no test reads malformed bytes; bounds and validity must hold for every byte string a peer can send',
  [PK+'read.rs', PK+'point_ptr.rs', PK+'netpkt/partial.rs', PK+'netpkt/netpkt_ptr.rs'], [('header and length checks', PK+'netpkt/partial.rs, read.rs read_pkt'), ('point checks', PK+'point_ptr.rs internal_consitent_length, check_signature'), ('space name check', PK+'rooted_space.rs check_components')],
  'monitored execution on valid, re-hashed, mutated and random bytes next to an inaccessible page, against an independent reader', PEXP)
p('P02', 'A built packet holds exactly what was put in and reads back the same',
  'Building a datapoint, linkpoint, keypoint or errorpoint from any group, domain, space, links, data, stamp and key gives a packet whose every field is what was given, whose bytes are those of the documented format with its padding and hash, and which the reader accepts and shows with the same fields. Everything up to the announced maximum size can be built, anything larger is refused with an error and never cut short.',
  ['inputs'], 'all field values and sizes up to and just over the limit',
  'tests build a few small packets; the layout, the limits and the inverse range over all fields and sizes',
  [PK+'builder.rs', PK+'point_parts.rs', PK+'consts.rs'], [('builders', PK+'builder.rs try_point, try_*_ref, errorpoint'), ('free space', PK+'consts.rs, lib.rs calc_free_space')],
  'differential execution against an independent writer and reader of the format', PEXP)
p('P03', 'Changing any bit of the content or signature of a packet is noticed',
  'The hash of a packet is the blake3 hash of its point and the signature of a keypoint is a BIP340 signature of that hash. Changing any bit of the point or of the hash, or moving a hash, signature or public key from one packet to another, makes the reader refuse the packet or, when the hash is made again, the signature; changing only the routing header changes nothing else and is not noticed.',
  ['inputs', 'faults'], 'all packets and all bit changes and transplants',
  'no test changes a packet; tamper evidence is a claim over all changes',
  [PK+'read.rs', PK+'point_ptr.rs', 'crates/cryptography/src/'], [('hash check', PK+'read.rs, netpkt/partial.rs'), ('signature check', PK+'point_ptr.rs check_signature')],
  'monitored execution: every single bit of small packets, sampled bits of large ones, transplants of signed parts', PEXP)
p('P04', 'A space name never exceeds its limits and keeps its components in every view',
  'However a space name or rooted space name is put together (pushing, prepending, joining, popping, collecting, converting, reading bytes), it holds exactly the components that were put in, or the operation is refused because the result would have more than 8 components, a component that is empty or longer than 200 bytes, or more than 242 bytes. The index bytes of a rooted name always match the name; depth, components, ranges, prefixes, parents, heads, tails and iteration agree with the list of components; and bytes that are not a valid name are refused.',
  ['inputs', 'histories'], 'all sequences of operations and all byte strings',
  'the tests push a few components; limits and index bytes must hold after every sequence of operations',
  [PK+'space.rs', PK+'rooted_space.rs', PK+'space_fmt.rs'], [('builders and limits', PK+'space.rs SpaceBuf'), ('index bytes', PK+'rooted_space.rs, space.rs try_into_rooted')],
  'online model checking of operation histories against a list of components', PEXP)
p('P05', 'Packets sort in the tree order and index entries keep their fields',
  'Packets compare by (group, domain, depth, space name, public key, create stamp, hash); packets without those fields come after the others and compare by hash. Packets are equal, and hash equal, exactly when their hash is equal, whatever their routing header. The tree entry of a packet exists exactly for linkpoints and keypoints, its stored bytes sort the same way, and every field taken out of its key or value is the field of the packet.',
  ['inputs'], 'all sets of packets',
  'no test compares packets; an order is a claim over all pairs and triples',
  [PK+'netpkt/cmp.rs', PK+'netpkt/tree_order.rs'], [('order', PK+'netpkt/cmp.rs PktCmp'), ('index entry', PK+'netpkt/tree_order.rs TreeKey, TreeValue, TreeEntry')],
  'pairwise monitored execution on neighbouring packets against the documented tuple order', PEXP)
p('P06', 'Every field of a packet is shown as its value, in every form',
  'Each of the 29 named fields of a packet gives, as bytes, text or expression, and through [field], [field:str] and [field:abe], the value of that field, or its zero or empty value when the packet does not have it; texts and expressions read back as the value, and encoding the bytes of a field gives an expression of those bytes. Link selection, slicing and repetition show exactly the selected links. The listings show the fields in order, and the html view holds no markup but its own and shows texts and data unchanged. Stamps add, subtract and convert exactly, saturating at their limits.',
  ['inputs', 'programs'], 'all packets and field expressions',
  'one test reads one field of one packet',
  [PK+'field_ids.rs', PK+'eval.rs', PK+'repr.rs', PK+'stamp.rs'], [('fields', PK+'field_ids.rs FieldEnum'), ('expressions', PK+'eval.rs pkt_scope'), ('listings and html', PK+'repr.rs PktFmt')],
  'differential execution against an independent reader, encoder, slicer and html parser', PEXP)
p('P07', 'Every representation and wrapper of a packet is the same packet',
  'A packet held as parts, as a box, as a shared pointer, as a borrowed pointer into bytes, or wrapped for rerouting, for a receive stamp or for lazy sharing shows the same fields and the same bytes as the packet it came from, except for the header and receive stamp the wrapper is there to change. Converting between representations in any order neither changes nor leaks nor double frees it, memory is freed as it was allocated, and a shared packet counts its owners.',
  ['histories', 'inputs'], 'all packets and chains of conversions',
  'tests convert one packet once; aliasing, layouts and reference counts depend on the chain',
  [PK+'netpkt/netpkt_arc.rs', PK+'netpkt/netpkt_ptr.rs', PK+'netpkt/reroute.rs', PK+'byte_segments.rs'], [('ownership', PK+'netpkt/netpkt_arc.rs, netpkt_ptr.rs NetPktBox'), ('wrappers', PK+'netpkt/reroute.rs')],
  'monitored random conversion chains with a checking allocator (layout, double free, canaries) and a field-by-field oracle', PEXP)
p('P08', 'Space names and links read back from every text they are written as',
  'A space name prints as text that parses to the same name, rooted or not, and every way to write it ([//a/b], [/~..], [s:..], [?space:..], an encoded path) gives its bytes; [si:name:start:end] gives exactly that range of components. Text that does not name a valid space is refused, whatever it is, without a panic, and only valid names come out. A link text tag:pointer gives that tag and pointer and prints as text that reads back.',
  ['inputs', 'programs'], 'all space names, links and texts',
  'the tests print three names',
  [PK+'space_fmt.rs', PK+'link.rs', PK+'exprs.rs'], [('text form', PK+'space_fmt.rs Display, FromStr'), ('expression forms', PK+'space_fmt.rs SpaceFE')],
  'monitored random execution with print/parse round trips and hostile texts', PEXP)
CO = 'crates/core/src/'
CEXP = EXP + '; crates that are not installed (lmdb, triomphe, parse-display, time, smallvec) are replaced by stand-ins, LMDB by an in-memory model of its documented behaviour'
p('D01', 'A store is exactly the packets whose save succeeded, each written once',
  'Whatever is saved, in whatever batches, repetitions, threads and however the wall clock stands still, jumps or goes back: every new packet is written exactly once with a recv stamp later than all before it and not before the clock, the returned range is the stamps of the new packets in order, and the state of each packet of a batch says what happened to it. When the storage fails during a save nothing changes, nothing is announced, no packet is said to be written, and saving again works. Lookup by hash, by recv stamp, the log, the hash index and the tree index always agree with each other and with the saved bytes; a reader keeps the snapshot it started with and never sees part of a batch; everything is still there after reopening.',
  ['histories', 'schedules', 'faults', 'time'], 'all histories of saves, reopenings, clock readings, storage failures and interleavings of writers and readers',
  'the tests save a few packets once on a running clock; uniqueness, atomicity and agreement of the indices hold over histories, clocks and failures',
  [CO+'env/lmdb/save.rs', CO+'env/lmdb/mod.rs', CO+'env/lmdb/get.rs'], [('writing', CO+'env/lmdb/save.rs LMDBEnv::save'), ('announcement', CO+'env/lmdb/mod.rs BTreeEnv::save'), ('reads', CO+'env/lmdb/get.rs ReadTxn')],
  'recorded histories (sequential and threaded) under a controlled clock and injected storage failures, checked against a model of the store after every step', CEXP)
p('D02', 'A query yields exactly the stored packets that pass, in the order asked for',
  'For every stored set of packets and every set of predicates, a query in any of the six modes (log, hash and tree, ascending and descending) yields exactly the packets that pass all of them: log in order of receiving, hash in order of hash, tree in order of group, domain, depth, space name and key, and within one branch by create stamp and hash in the asked direction; limited to what the i_branch (tree only), i_db and i sets select, with the running count carried on. The index walk never skips, repeats or reorders what passes and never panics. Predicates that nothing can pass are refused; predicates that something can pass are accepted.',
  ['inputs', 'histories'], 'all stores, predicates and modes',
  'the tests run a handful of queries on one small store; index walks with jumps go wrong on particular combinations of keys and predicates',
  [CO+'env/lmdb/queries.rs', CO+'env/lmdb/tree_iter.rs', CO+'predicate/pkt_predicates.rs', CO+'predicate/treekey.rs'], [('modes', CO+'env/lmdb/queries.rs ReadTxn::query'), ('tree walk', CO+'env/lmdb/tree_iter.rs TreeKeysIter'), ('predicates', CO+'predicate/pkt_predicates.rs')],
  'differential execution: every query against a filter-and-sort reference with independently written predicates', CEXP)
p('D03', 'A set of tests on a field holds exactly the values that pass every test',
  'Any combination of the tests equal, less, greater, zero bits and one bits on values of any width gives a set that contains a value exactly when it passes every test; it is empty exactly when nothing passes; the next member after a value is the least one; iteration over it, its bounds, its parts and its intersection with another agree with it; and the same holds for bounds, masks, depth sets and the wide integers they are made of. Nothing panics.',
  ['inputs'], 'all test lists and values of 8 to 256 bits',
  'unit tests try a few values; next-member search with masks and bounds has corner cases over the whole value range',
  [CO+'predicate/value_test.rs', CO+'predicate/bitset_test.rs', CO+'predicate/uint.rs'], [('sets', CO+'predicate/value_test.rs TestSet, Bound, Mask'), ('depth sets', CO+'predicate/bitset_test.rs'), ('integers', CO+'predicate/uint.rs UInt')],
  'differential execution against a byte-wise reference of the sets, exhaustive at 8 bits', CEXP)
p('D04', 'A query and its text say the same, and other text is refused',
  'A query printed as text (canonical, plain or displayed) reads back as a query that accepts the same packets with the same limits and options; so do its predicates one by one. Its statements may come in any order, together or line by line, and repeated; the builder functions make the same query as the statements. The value of an option is that of the topmost statement of the text added last, also after printing and reading. Each field and operator is either supported with exactly its documented meaning or refused. No text, well formed or not, makes reading panic, and what is refused says so with an error.',
  ['inputs'], 'all queries, option lists and texts',
  'the tests print one query; the equivalence must hold for every predicate, value and option, and refusal for every text',
  [CO+'query.rs', CO+'predicate/exprs.rs', CO+'predicate/pkt_predicates.rs', CO+'predicate/builder.rs', CO+'predicate/predicate_type.rs'], [('text', CO+'query.rs Query'), ('statements', CO+'predicate/exprs.rs ExtPredicate'), ('rules', CO+'predicate/pkt_predicates.rs')],
  'print-read-compare on generated queries and options, with mutated and hostile text under a panic monitor', CEXP)
p('D05', 'A compiled query accepts exactly what passes, and ends with the last that can',
  'Shown packets one after the other as they are received, a compiled query or watch accepts a packet exactly when it passes every predicate and its turn lies in the i and i_new limits, counted from where the query started. It reports that it is finished exactly when no later packet can be accepted by count or by recv stamp, never earlier and never later; a query that can accept nothing does not start.',
  ['inputs', 'histories'], 'all queries, start counts and packet streams',
  'the tests watch a couple of packets; counting and ending depend on the combination of limits, masks and stream',
  [CO+'matcher/mod.rs', CO+'predicate/test_pkt.rs', CO+'query.rs'], [('watch', CO+'matcher/mod.rs WatchEntry::test'), ('packet tests', CO+'predicate/test_pkt.rs compile_predicates'), ('compiled', CO+'query.rs Query::compile')],
  'online monitor: each answer to each packet of a stream is compared with a counting model and independently written predicates', CEXP)
p('D06', 'Stamps, durations and partial hashes have exact, unambiguous text',
  'Every duration of whole microseconds prints by unit, greatest first, and reads back exactly; only unit counts in order are durations. A stamp is read from digits, the limits, or a distance from a given now (refused when none is given, stopping at the limits); in expressions + and - fail on overflow where ++ and -- stop. Differences print their sign and the asked number of units. A partial hash is 4 to 43 characters of base64, matches exactly the hashes whose text starts with it, and its search start is the least of them. Nothing panics on any bytes.',
  ['inputs'], 'all 64-bit stamps, durations and texts',
  'two texts are tested; rounding, overflow and non-text bytes are elsewhere in the range',
  [CO+'stamp_fmt.rs', CO+'partial_hash.rs', PK+'stamp.rs'], [('durations', CO+'stamp_fmt.rs parse_duration_str, duration_to_string'), ('expressions', CO+'stamp_fmt.rs StampEF'), ('partial hashes', CO+'partial_hash.rs')],
  'differential execution against integer-arithmetic references, with spoiled text', CEXP)
p('D07', 'Stamp ranges hold what is between their ends; mutations set just what they name',
  'A range of stamps, ascending or descending, contains exactly the stamps between its ends, tells which come before and after it in its direction, and prints as text that reads back the same. A header mutation sets exactly the named variable fields of a packet header (the latest rule for a field counting), changes no other byte, works wherever the header lies in memory, and is refused for any other field, operator or length.',
  ['inputs'], 'all ranges, stamps, mutations, headers and addresses',
  'a dozen points are tested, and mutation not at all; the rest of the value range and the addresses are not',
  [CO+'stamp_range.rs', CO+'mut_header.rs', PK+'field_ids.rs'], [('ranges', CO+'stamp_range.rs StampRange'), ('mutations', CO+'mut_header.rs NetHeaderMutate')],
  'differential execution against byte-wise references, with canary bytes around headers at every alignment', CEXP)
p('D08', 'The watch table calls exactly the matching watches and drops each ended one once',
  'Watches are kept by id. Registering under an id in use replaces that watch and gives the old one back; a watch whose time is over is not kept. Closing takes the watch with the id, or every watch whose id starts with it, and returns how many. Each packet is shown to exactly the watches it passes, in order of id; a watch ends when its callback says so or its limits are reached, and is then dropped exactly once. Collection drops exactly the watches whose time has passed and tells when the next one will.',
  ['histories', 'time'], 'all histories of registering, closing, packets, callbacks and collection',
  'no test closes a range or collects; which watch is called or lost depends on the history',
  [CO+'matcher/mod.rs'], [('table', CO+'matcher/mod.rs Matcher')],
  'recorded histories under a controlled clock, every answer checked against a model of the table', CEXP)
LK = 'crates/linkspace/src/'
CM = 'crates/common/src/'
LEXP = 'randomised exploration: crates common and linkspace compiled from /repo with stand-ins for the dependencies that are not available offline (LMDB, futures, executors), stores in memory'
p('L01', 'A watch is called once for each packet it selects, in order, until told it ended',
  'A watch is first called for every stored packet its query selects, in the order of its mode, then during processing once for each later packet that passes, in receive order, with the packet exactly as saved; with follow each call is succeeded by one per linked packet that is stored, marked as linked. It ends when the callback breaks, its limits are reached, or it is replaced or stopped, and its handler is told so exactly once with the reason, after which it is not called. The number returned says how often it was called and whether it is registered. Handlers may save, watch and stop from within.',
  ['histories', 'schedules'], 'all histories of saving, watching, stopping and processing, also nested in callbacks',
  'the tests watch one query at a time; re-entrance, replacement and the order of changes made from callbacks are not sampled',
  [CM+'runtime/rx.rs', CM+'runtime/handlers.rs', LK+'lib.rs', CO+'matcher/mod.rs'], [('runtime', CM+'runtime/rx.rs Linkspace'), ('handlers', CM+'runtime/handlers.rs'), ('API', LK+'lib.rs lk_watch, lk_stop, lk_process')],
  'online monitor: every callback of a recorded history is judged by a model of the log, the watches and the rounds of processing', LEXP)
p('L02', 'lk_process_while ends when it should and sleeps past nothing',
  'lk_process_while with the id of a watch returns -1 once that watch was called and is still registered, and 1 once it ended (broke, limit reached, time over, replaced, stopped); without an id it returns 1 when no watch is left; otherwise 0, and only once the timeout is over; an unknown id or a call from within a callback is refused with an error. Every packet saved before or while it waits is processed promptly, whether by another thread, by a callback, or just before it goes to sleep, and a watch that can only match packets before some time is told that it finished and wakes it then.',
  ['histories', 'schedules'], 'all histories of saves, watches and callbacks, and all interleavings with savers in other threads',
  'a lost wake-up needs a save at a particular point between looking at the log and sleeping',
  [CM+'runtime/rx.rs', LK+'lib.rs', 'crates/ipcbus/src/udp_procbus.rs', 'crates/core/src/env/lmdb/mod.rs'], [('loop', CM+'runtime/rx.rs run_while, next_work'), ('wait', 'crates/ipcbus/src/udp_procbus.rs next_deadline_since'), ('API', LK+'lib.rs lk_process_while')],
  'what it returns is judged against the recorded callbacks; savers in other threads race the wait with delays injected where it looks at the clock', LEXP)
p('L03', 'A runtime gets exactly what is stored, as of its last processing',
  'lk_save says whether a packet is new and lk_save_all how many are, with the range of receive stamps they got. lk_get_all shows the packets selected by a query, lk_get and lk_get_ref the first of them, and lk_get_hashes those listed, in order, byte for byte as saved (queried ones with the time they were received), until told to stop, and the numbers returned are those of the packets shown. All of this is as of the last lk_process of that runtime, whatever was saved since by it or by another.',
  ['histories'], 'all histories of saving, processing and getting on two runtimes, for all queries, modes and stops',
  'the tests get a few packets right after saving them, from one runtime',
  [LK+'lib.rs', CM+'runtime/rx.rs', 'crates/core/src/env/lmdb/get.rs', 'crates/core/src/env/lmdb/save.rs'], [('API', LK+'lib.rs lk_save_all_ext, lk_get_all, lk_get_ref, lk_get_hashes'), ('snapshot', CM+'runtime/rx.rs get_reader, process')],
  'recorded histories on two runtimes judged by a model of the log and of what each runtime has processed', LEXP)
p('L04', 'The API makes, reads and writes points as documented',
  'lk_datapoint, lk_linkpoint and lk_keypoint, and their by-reference forms, make exactly the packet of the given fields with a fresh header, stamped with the current time when no stamp is given, or an error when it is too large. lk_read returns the first packet of some bytes and what follows it, and refuses what is malformed or forged; lk_read_unchecked is the same without looking at hash and signature, in every build. Without permission for private packets neither reads one and lk_write writes none. lk_write writes exactly the bytes of the packet however little the writer takes at a time, or fails.',
  ['inputs', 'faults'], 'all contents, bytes and damages, and all writers including those that fail',
  'tests make a handful of points; partial writes, damaged input and private packets are not sampled',
  [LK+'lib.rs', 'crates/pkt/src/read.rs', 'crates/pkt/src/builder.rs'], [('API', LK+'lib.rs point'), ('reader', 'crates/pkt/src/read.rs read_pkt')],
  'differential monitoring against an independent encoder and decoder, with a stopped clock and writers that inject partial writes, interruptions and failures', LEXP)
p('L05', 'A stream of packets is decoded into exactly those packets',
  'Reading a stream yields the packets that were written to it in order and unchanged but for one more hop (never past the maximum), however the bytes arrive, also when reads are interrupted; a packet that is forged, or private without permission, yields an error and those after it are still read; a stream that is cut yields nothing that was not sent and ends. The deduplication never claims to have seen what it has not and always knows the last one; data waits for the next packet that links to it.',
  ['inputs', 'faults'], 'all streams, all cuts, and all ways the bytes can arrive',
  'no test decodes a stream in pieces, or a damaged one',
  [CM+'pkt_reader.rs', CM+'pkt_stream_utils.rs', LK+'lib.rs'], [('decoder', CM+'pkt_reader.rs NetPktDecoder'), ('utilities', CM+'pkt_stream_utils.rs'), ('uniform', LK+'lib.rs bytes2uniform')],
  'differential monitoring of the decoder on generated, damaged and cut streams, read in pieces with interruptions, against an independent reader', LEXP)
p('L07', 'Expressions see exactly the packets, arguments, variables and files they may',
  'With a runtime, [readhash:HASH:field..] and the macro [/readhash:HASH:expr:alt] give what the field or expression gives of the stored packet with that hash (alt if there is none), and [read:domain:group:space:key:field..] that of the newest packet of exactly that domain, group, space and key; packets of the private group are refused unless LK_PRIVATE=true. Arguments, a packet and the environment are visible when given and only then; without a runtime nothing is read. Files are read and written within the files directory only: no path leaves it, nothing is overwritten unless asked, and what was written is read back. lk_encode always gives printable text that evaluates back, and lk_tokenize_abe splits at exactly the delimiters that were not excluded.',
  ['inputs', 'histories'], 'all stores, expressions, encodings, arguments, variables and paths',
  'the documentation examples evaluate a few expressions without a database; which packet is read, and what a hostile expression or path can reach, is not sampled',
  [CM+'eval/mod.rs', CM+'eval/file.rs', LK+'lib.rs', 'crates/pkt/src/eval.rs'], [('reading', CM+'eval/mod.rs ReadHash'), ('files', CM+'eval/file.rs check_path'), ('scopes', LK+'lib.rs abe::scope'), ('text', LK+'lib.rs lk_encode, lk_tokenize_abe')],
  'differential monitoring of evaluated expressions against the packets themselves and models of the scope and the directory; paths that escape stay in a scratch directory whose every file is watched', LEXP)
p('L06', 'Names resolve to the claim, key and group that were last set or voted for',
  'A name is 1 to 7 components that make up its claim space in reverse, and is read back from its text. A claim holds the name, end, key, group, authorities and encrypted key its packet says, and only linkpoints under /claims of the lns domain in the right group are claims. Looking up a :local name, its key, group or encrypted key, directly or by [@:..], [#:..] and their reverse, gives what was set last, by any process using the store; keys are only replaced when asked, created once, and opened with the right password only. Walking a public name follows, component by component, the claim with the most of the newest votes of the authorities of the one above; ties, missing claims and votes by others make nothing live.',
  ['histories', 'inputs'], 'all names, claims and histories of claims and votes on any number of runtimes',
  'no test resolves a name; the outcome depends on the order of claims and votes and on what else is stored',
  [CM+'protocols/lns/mod.rs', CM+'protocols/lns/name.rs', CM+'protocols/lns/claim.rs', CM+'protocols/lns/admin.rs', CM+'protocols/lns/local_claim.rs', CM+'protocols/lns/public_claim.rs', CM+'protocols/lns/eval.rs'], [('names', CM+'protocols/lns/name.rs Name'), ('claims', CM+'protocols/lns/claim.rs Claim'), ('votes', CM+'protocols/lns/public_claim.rs walk_live_claims'), ('by key', CM+'protocols/lns/admin.rs save_private_claim')],
  'recorded histories of claims, keys and votes on two runtimes under a stopped clock, every lookup judged by a model', LEXP)
p('L08', 'Status requests are answered by those who set them, and replies reach who asks',
  'A status set for a domain, group, object type and instance answers every request for that type and instance, or for all instances of it, saved in the private group of that domain by any runtime on the store, once each, with a point that links to the request and carries what the handler returned; requests made for other statuses, points that are not requests, and refused registrations are not answered. Setting it again replaces the first. A watch saves a request only when none was made within the timeout, then shows its handler the replies to the requests it waits for, as they arrive and in the order saved, until the handler breaks, the timeout passes or it is closed; a handler that breaks at a reply that was already there is not called again.',
  ['histories', 'inputs', 'schedules'], 'all histories of statuses, watches and requests on any number of runtimes sharing a store',
  'no test sets or watches a status; outcome depends on the order of requests, replies and deadlines',
  [LK+'conventions/status.rs'], [('answer', LK+'conventions/status.rs lk_status_set'), ('watch', LK+'conventions/status.rs lk_status_watch')],
  'recorded histories of two runtimes under a stepped clock, the log of the store, every call and every reply judged by a model', LEXP)
p('L09', 'A handshake ends in agreement only between the parties that signed it',
  'Every phase of the handshake accepts exactly those messages that answer the one it sent: signed by another identity than its own, in the right group, domain and space, linking to the previous message, and with a stamp no further from the clock than allowed. Both sides that finish agree on each other\'s identity, and messages of other sessions, of other parties, replayed, unsigned or with changed fields never make a side finish with an identity that did not sign in this session.',
  ['inputs', 'histories'], 'all sessions, with any substitution of messages by an adversary that cannot forge signatures',
  'no test runs the handshake with a message that is not the expected one',
  [CM+'protocols/handshake.rs'], [('phases', CM+'protocols/handshake.rs')],
  'sessions with an adversary that substitutes well-formed messages, every step judged by the fields of the packets', LEXP)
p('L10', 'Pull requests and shorthands say exactly the query they were made from',
  'A query with an exact group, exact domain and an id that fits in a space becomes one point at /pull/group/domain/id of the exchange domain in the private group; its data, parsed, is a query that prints the same options and place and selects the same packets. Any other query is refused with an error and nothing is saved. A shorthand domain:group:space:depth, with escapes, expressions and left-out parts, means that place, and as a query selects exactly the points of that domain and group whose space starts with that space and is at most that much deeper.',
  ['inputs'], 'all queries, all shorthands, all packets', 'no test makes a pull or evaluates a shorthand against packets',
  [LK+'conventions/pull.rs', CM+'dgs.rs'], [('pull', LK+'conventions/pull.rs lk_pull_point'), ('shorthand', CM+'dgs.rs DGSDExpr')],
  'pull points and shorthands made from generated queries, parsed back and applied to a pool of packets next to a reference selection', LEXP)
p('L11', 'Runtimes opened on one directory share one store, others share nothing',
  'Opening a directory by any path, link or environment variable gives a runtime on the one store of that directory, which the process opens only once even when many threads ask at the same time. What is saved through one is seen by all others and triggers their watches, and by no runtime of another directory, nested ones included. A directory that is not there is created when asked, and otherwise opening fails and creates nothing.',
  ['schedules', 'histories'], 'all sequences of opening, in any number of threads', 'no test opens a directory more than once',
  [CM+'static_env.rs', LK+'lib.rs'], [('open', CM+'static_env.rs get_env'), ('place', CM+'static_env.rs lk_dir')],
  'directories opened again and again by several threads with injected delays, with what each handle sees and how often the store was really opened compared with a model', LEXP)
CLI = 'cli/linkspace/src/'
CEXP = 'lk is built from /repo with stand-ins for the dependencies that are not here (clap and its derive, rpassword, serde_json, crossbeam-channel, tracing-subscriber) and an in-memory LMDB kept in a file between runs; how an error is worded is not judged, only that the command fails and does not panic or hang'
p('X01', 'The command line makes exactly the points it is told to, where told',
  '`lk data`, `lk link` and `lk keypoint` make, for every record of the data they are given (a string, a file, standard input, repeated, evaluated, limited in size and number, split at a delimiter), one point with exactly that data and the group, domain, space, links and stamp of the arguments, signed by the key given. Data that does not fit is refused, trimmed, split or carried to the next point as asked and never lost or reordered. With a chain each point links to the one before. Every destination (standard output, buffer, file, store, expression) gets the points in order; points of the private group are only written when allowed. Arguments that make no point fail and never panic.',
  ['inputs'], 'all arguments, data and destinations', 'no test runs the command line',
  [CLI+'point.rs', CLI+'datapoint.rs', CM+'cli/reader.rs', CM+'cli/opts.rs'], [('points', CLI+'point.rs'), ('data', CM+'cli/reader.rs Reader'), ('destinations', CM+'cli/opts.rs write_multi_dest')],
  'the real binary is run on generated arguments and data; every place it wrote to is read with an independent parser and compared with a model of the arguments', CEXP)
p('X02', 'Commands on a stream of packets pass, change and print exactly those they should',
  '`lk filter` writes the packets that pass its query to one place and the others to another, `ignore` the other way around; `dedup` passes each packet at first sight and never drops one not seen before; `route` changes only the fields of the net header it names; `rewrite` gives each point the new group, domain, space, stamp, data and signature and leaves the rest as is, `skip` leaving signed points alone; `collect` makes points that link to what was read, in order and in batches of the size given, chained if asked; `pktf` prints each packet with the format of its type. A forged packet, or a private one without permission, ends them with an error; with permission it passes. Order is kept, and packets pass unchanged but for one hop if asked.',
  ['inputs'], 'all streams, queries and options', 'no test runs the command line',
  [CLI+'filter.rs', CLI+'rewrite.rs', CLI+'collect.rs', CLI+'pktf.rs', CLI+'main.rs', CM+'cli/opts.rs', CM+'pkt_reader.rs', CM+'dgs.rs'], [('filter', CLI+'filter.rs select'), ('rewrite', CLI+'rewrite.rs'), ('collect', CLI+'collect.rs'), ('format', CLI+'pktf.rs')],
  'the real binary is run on generated streams; what it writes is compared with an independent model of the packets, query and options', CEXP)
p('X03', 'Commands that save and read agree with the log and selection of the store',
  'What `lk save`, the store as destination and `db-import` save is in the store afterwards exactly once, in the order it came, and is told apart from what was there already; private packets are refused unless allowed, in both directions. `watch-log`, `watch`, `tree`, `watch-hash`, `get-links`, `pull`, `multi-watch` and `print-query` write exactly the packets of the store that their arguments select, in the order of their mode, once each, within their limits, packets linked from them before or after as asked for, and report what is missing; they end when nothing can pass any more.',
  ['inputs', 'histories'], 'all sequences of commands, streams and queries',
  'no test runs the command line',
  [CLI+'save.rs', CLI+'watch.rs', CLI+'get_links.rs', CLI+'multi_watch.rs', CLI+'main.rs', CM+'cli/opts.rs', CM+'dgs.rs'], [('save', CLI+'save.rs'), ('watch', CLI+'watch.rs'), ('links', CLI+'get_links.rs'), ('queries in packets', CLI+'multi_watch.rs')],
  'sessions of real lk processes on one directory; all they write and all the store holds is compared with a model of the log and an independent selection', CEXP)
p('X04', 'Commands running at the same time on one store lose and repeat nothing',
  'Processes that save to one store at the same time leave each packet in its log once, each of their streams in its order; one that is killed leaves a prefix of what it was saving. A process that waits (`watch`, `watch-log`, `get-links --wait`, `status-watch`) writes every packet that its arguments select, saved before or after it began, exactly once and in the order of the log, and ends by itself exactly when its limit, its timeout or the last it waits for is reached. `status-set` answers every request for its status once, with the data it is to give, and `status-watch` writes the request when none was made recently and the replies in the order saved.',
  ['schedules', 'histories', 'crash points'], 'all interleavings of processes on one store, killed at any point',
  'no test runs more than one process on a store',
  [CLI+'watch.rs', CLI+'get_links.rs', CLI+'status.rs', CLI+'save.rs', LK+'conventions/status.rs', 'crates/common/src/runtime/rx.rs', 'crates/core/src/env/lmdb'], [('wait', 'crates/common/src/runtime/rx.rs run_while'), ('links', CLI+'get_links.rs'), ('status', CLI+'status.rs')],
  'real lk processes side by side with injected pauses and kills; what each wrote is judged against the log of the store as it is in the end', CEXP)
p('X05', 'A key kept under a name comes back only with its password and is never lost',
  'A name holds the encrypted key last stored under it: `lk key` makes one when there is none or when told to overwrite, otherwise reads it and prints the same encrypted and public key; a wrong password, a key that does not fit, a name that is not local and a bad argument are refused, and then nothing is changed. With a new password the same identity is encrypted anew, and kept only when told to overwrite. What is signed by name or by an encrypted key given directly is signed by exactly that identity, and the name stands for its public key in expressions and the other way around.',
  ['histories', 'inputs'], 'all histories of commands over any names, passwords and keys',
  'no test stores a key under a name',
  [CLI+'main.rs', CM+'cli/keys.rs', CM+'protocols/lns', LK+'lib.rs', 'crates/argon2-identity/src'], [('keys', CM+'cli/keys.rs'), ('kept', LK+'lib.rs lk_key')],
  'random histories of real lk processes next to a model of which name holds which key under which password; keys are decrypted and signatures checked independently', CEXP)
p('X06', 'lk eval prints the value of an expression, lk encode one that has the value',
  '`lk eval` prints exactly the bytes an expression stands for, or as JSON its components and separators, with the arguments read from strings, files and standard input in place of [0], [1].. and [argv]; without --strict, bytes that need no meaning are taken as they are, with it they are refused. Everything else is refused: nothing is printed and the command fails. `lk encode` prints the first of the ways asked for that fits, or with --ignore-err plain text, and the result evaluates to the same bytes. Variables of the environment are read only when enabled.',
  ['inputs'], 'all expressions, arguments, bytes and ways of encoding',
  'no test runs the command line',
  [CLI+'main.rs', CM+'cli/reader.rs', CM+'eval/mod.rs', 'crates/abe/src'], [('eval', CLI+'main.rs'), ('arguments', CM+'cli/reader.rs'), ('environment', CM+'eval/mod.rs OSEnv')],
  'the real binary is run on generated expressions, arguments and bytes next to an independent evaluator, encoder and model of the data options', CEXP)
p('S01', 'Serialised values read back as themselves; misshapen expressions are refused',
  'Expressions, typed expressions, byte wrappers (hashes, domains, tags, bytes), big- and little-endian numbers, stamps, links, point and transit flags, index keys, durations, test operators and domain:group:space shorthands that are written through serde, by a format that names fields and variants or by one that numbers them, read back as the value that was written and write themselves again the same way. A typed expression is accepted exactly when it has the shape of its type, also as a part of a larger value; an altered form is refused or reads as a value that reads back as itself; nothing panics. Separators are written as ":" and "/", spaces as a list of their components in text or, where the format is not for people, as their bytes.',
  ['inputs'], 'all values of these types and all altered forms of them',
  'no test that runs serialises anything',
  ['crates/abe/src/convert.rs', 'crates/abe/src/ast.rs', 'crates/byte-fmt/src/lib.rs', 'crates/byte-fmt/src/endian_types.rs', 'crates/pkt/src/space_fmt.rs', CM+'dgs.rs'], [('typed', 'crates/abe/src/convert.rs TypedABE::deserialize'), ('space', 'crates/pkt/src/space_fmt.rs Space::serialize')],
  'generated and altered values written and read by two self-describing formats of our own, each result compared with the value and its independent shape', LEXP)
p('X07', 'The handshake program ends well only with the party that signed this session',
  '`lk-handshake` writes, for each phase, one packet signed with the key it is given, in the group of the two keys, linking to the message it answers, and only when that message is acceptable: signed by another key than its own, linking to what it sent, in the group, domain and space of the session, with a stamp no further from the clock than `--max-diff-secs`. `connect` and `serve` write each message as soon as it can be made, fail without writing more at the first message that is missing, broken, replayed, forged or changed, and succeed exactly when the last one is acceptable. Whatever they could read is copied to `--forward`. A wrong password writes nothing.',
  ['inputs', 'histories'], 'all sessions, with any substitution of messages by one in the middle that has a key of its own',
  'no test runs the program',
  ['cli/handshake/src/main.rs', CM+'protocols/handshake.rs', CM+'cli/keys.rs'], [('phases', CM+'protocols/handshake.rs'), ('sessions', 'cli/handshake/src/main.rs')],
  'real lk-handshake processes with the monitor between them; each message and exit status is judged by the fields of the packets', CEXP.replace('lk is built', 'the program is built'))
p('X08', 'lns makes the claims it is told to and finds the one that was saved last',
  '`lns create-claim` makes one linkpoint under the reversed name in the claims space, in the private group for a :local name and the public one otherwise, that ends when told, names exactly the group, key, authorities and encrypted key of the arguments (or the key of the name to copy from), and refuses an empty claim, an end that has passed and contradicting arguments. What is written to the store or saved from its output is what `lns get` and the expressions [@:NAME] and [#:NAME] find: for a :local name the claim that was made last, for a public name nothing below where authorities voted, starting at the built-in root. `lns ls` lists exactly the claims under a name that have not ended, each with its links. `lns vote` refuses to vote for a claim with a key that is no authority over its name, or under another name.',
  ['inputs', 'histories'], 'all histories of claims and lookups',
  'no test runs the program',
  ['cli/lns/src/main.rs', CM+'protocols/lns'], [('claims', CM+'protocols/lns/claim.rs Claim::new'), ('lookup', CM+'protocols/lns/mod.rs lookup_live_chain'), ('arguments', 'cli/lns/src/main.rs')],
  'random histories of real lns and lk processes on one store next to a model of the claims made and saved', CEXP.replace('lk is built', 'the programs are built'))
