prop('C01', 'Incrementer hands out exact, in-range, correctly prefixed ids',
 'For every step/min/max/position/prefix configuration that the incrementer accepts, the id after v is exactly v+step (modulo mode: the next id congruent to the position), wrapped to the lowest valid id when that would leave [min,max], and never lies outside [min,max]. Exactly the usable configurations are accepted. A prefix is placed above the id bits and stripping or checking the prefix of any id is its exact inverse.',
 INP+['configurations'], 'all 32/64-bit values of every argument', 'The test suite calls the increment functions with a few hand-picked numbers; wrap-around at 2^32 and extreme prefixes are never reached.',
 ['src/lib/util/increment.c', 'src/modules/p_incrementer.c'], [('rrr_increment_basic/mod', 'src/lib/util/increment.c'), ('rrr_increment_verify, prefix functions', 'src/lib/util/increment.c')],
 'All obligations for every input (complete unwinding of the 64-step bit loops). % in rrr_increment_mod is used through its mathematical contract.')
prop('C02', 'MQTT topic filters match exactly as the wildcard rules say',
 'A topic matches a subscription filter (both in the tokenized form and in the linear form used without tokenizing) exactly when comparing them level by level says so: + stands for exactly one level (which may be empty), # as last level for one or more remaining levels (possibly empty ones; so sport/# does not match sport, as the tests of this program define), other levels are compared character by character, and neither wildcard matches at a level which starts with $. The result is match, mismatch or error, and nothing outside the given strings is read. When an ACL entry is compared to a requested filter, a # in the request is covered only by a # in the entry. Name and filter validation accept exactly valid UTF-8 text in which wildcards appear only as whole levels and # only last (filters) and which is at most 65535 bytes long (filters), respectively nonempty text without wildcards (names).',
 INP, 'every topic, filter and length', 'The self test matches a few dozen literal topics.',
 ['src/lib/mqtt/mqtt_topic.c'], [('token matching', 'src/lib/mqtt/mqtt_topic.c'), ('filter and name validation', 'src/lib/mqtt/mqtt_topic.c')],
 'Proved step by step by contracts (induction over tokens and characters). Level-by-level reference run against the real code on random topics and filters.')
prop('C03', 'MQTT packet identifiers are unique while in use',
 'From any state of an identifier pool, allocating an id yields a nonzero 16-bit id that was not in use, marks exactly that id as used, and reports exhaustion (0) only when all ids are in use. Releasing an id makes exactly that id available again and nothing else changes.',
 INP+['histories'], 'every reachable pool state and every id', 'Tests use a handful of in-flight packets; wrap-around of the pool after 65535 ids is not reached.',
 ['src/lib/mqtt/mqtt_id_pool.c'], [('id bitmap', 'src/lib/mqtt/mqtt_id_pool.c')],
 'Bit operations, search loop and retry proved by contract for every pool state.')
prop('C04', 'UTF-8 validation accepts exactly well-formed text',
 'Text is accepted if and only if the whole given buffer, up to its very end, is a sequence of well-formed UTF-8 characters (no overlong forms, surrogates, values above U+10FFFF or truncated characters), and the decoded characters are reported once each in order until the receiver refuses one. No byte outside the buffer is read.',
 INP, 'every buffer of every length', 'No unit test covers UTF-8; configuration and MQTT tests only use ASCII.',
 ['src/lib/util/utf8.c'], [('rrr_utf8_get_character', 'src/lib/util/utf8.c'), ('rrr_utf8_validate', 'src/lib/util/utf8.c'), ('rrr_utf8_validate_and_iterate', 'src/lib/util/utf8.c')],
 'get_character proved for every buffer and position; the two validation loops proved for every length by loop invariant over the contract of get_character.')
prop('C05', 'Message frames with wrong size, type or checksum are never accepted',
 'A received buffer is accepted as a message only if its header and data checksums match, its declared size equals the received size and its type-specific lengths fit inside it exactly (topic and data of messages, address, prefix and text of log messages, path and data of statistics); it is then given exactly once to the receiver of its type, otherwise it is refused without aborting and without reading or writing outside the buffer. Packing a message for the network and unpacking it gives back the same message, and creating, copying and changing the topic of a message keeps every other part of it.',
 INP, 'every byte string that can arrive on a socket or stream', 'Tests send well-formed messages only.',
 ['src/lib/messages/msg.c', 'src/lib/messages/msg_msg.c', 'src/lib/messages/msg_addr.c', 'src/lib/messages/msg_log.c', 'src/lib/messages/msg_checksum.c', 'src/lib/stats/stats_message.c'], [('checksum, size and type validation', 'src/lib/messages/msg.c'), ('topic/data length validation', 'src/lib/messages/msg_msg.c')])
prop('C06', 'CRC32 is the IEEE CRC-32 of exactly the given bytes',
 'The checksum of any byte string equals the standard reflected CRC-32 (polynomial 0xEDB88320) of it, verification accepts a checksum if and only if it is that value, and no byte outside the string is read.',
 INP, 'every byte string', 'Only whole-message round trips are tested, which hold for any checksum function.',
 ['src/lib/util/crc32.c'], [('rrr_crc32buf', 'src/lib/util/crc32.c')],
 'Byte step and table proved against the bitwise definition; the buffer loop for every length by loop invariant.')
prop('C07', 'HDLC frames are delimited, unescaped and escaped exactly',
 'Feeding any byte stream to the HDLC parser, in any chunking, everything before the first flag is skipped, repeated flags before a frame are ignored, and the frame is exactly the unescaped bytes up to its end flag; exactly the bytes up to and including that flag are consumed. A frame which has not ended is reported incomplete and is continued later, one of more than 4095 bytes is refused, and nothing outside the input is read. An HDLC array field gets exactly the bytes of the frame. Exporting gives a frame of exactly the announced size which the parser turns back into the same bytes; what does not fit in 4096 bytes is refused.',
 INP, 'every byte stream and chunking', 'The test parses and builds a few short frames.',
 ['src/lib/hdlc/hdlc.c', 'src/lib/type.c'], [('rrr_hdlc_parse_frame', 'src/lib/hdlc/hdlc.c'), ('rrr_hdlc_export_frame', 'src/lib/hdlc/hdlc.c'), ('__rrr_type_import_hdlc', 'src/lib/type.c')],
 'Parser and exporter proved for every input by loop invariant over a one-byte-at-a-time receiver.')
prop('C08', 'WebSocket frames are parsed and built exactly as the protocol says',
 'A received frame header is decoded to exactly the opcode, flags, mask and 7/16/64-bit payload length it carries, waits for missing bytes, and a frame whose total length does not fit is refused. Payloads are unmasked exactly (byte i with byte i mod 4 of the key). Unknown opcodes, control frames which are fragmented or longer than 125 bytes, a continuation without a first fragment and a new message before the last fragment of the previous one are refused. A message is delivered once, when its last fragment has arrived, with the opcode of its first fragment and the payloads of its fragments in order; control frames between the fragments do not disturb it. A ping is answered by one pong with the same payload, close ends the connection. Frames sent have the queued payload, the shortest form of header, are masked exactly in client mode, and are sent in the order they were queued. Timeout and ping interval are those configured.',
 INP+['histories'], 'every byte string received and every frame sent', 'Only one well-behaved client is used in the tests.',
 ['src/lib/websocket/websocket.c'], [('header parsing and masking', 'src/lib/websocket/websocket.c'), ('assembly of fragments', 'src/lib/websocket/websocket.c')],
 'Header, masking, frame handling and sending by contract for all inputs and states; sequences of frames against an independent receiver in bounded runs.')
prop('C09', 'Binary array fields are imported and exported without loss',
 'Importing an array integer field of any length 1..8, any element count, signed or unsigned, little- or big-endian, yields exactly the mathematical value of the bytes of each element, in order; blobs are copied exactly; packing values for the network and unpacking them gives the same values; a field that has not fully arrived is reported as incomplete, one whose total size does not fit in 32 bits or whose packed size does not match its element count is refused, and no byte outside the given range is read or written.',
 INP, 'every byte string, length, element count, sign and endianness', 'Tests use a few fixed definitions with small element counts.',
 ['src/lib/type.c', 'src/lib/util/rrr_endian.c'], [('integer and blob import, pack, unpack', 'src/lib/type.c')],
 'Element loops proved for every element count by loop invariant with an arbitrary witness element; the byte expanders for every length. Text (str, msg, numeric text) fields are not covered.')
prop('C10', 'Fixed-point conversions are exact and total',
 'Converting a fixed point number to a base-16 string and back gives the same number, integer/decimal splitting is exact, and no input text makes the conversion read outside the text.',
 INP, 'every 64 bit value and every text', 'Tests convert a handful of numbers.',
 ['src/lib/fixed_point.c'], [('fixed point text conversion', 'src/lib/fixed_point.c')])
prop('C11', 'MQTT ACL decisions follow the last matching entry',
 'Access to a topic is granted exactly when the ACL entries, evaluated in the order of the file, end up giving at least the requested access: without any matching entry access is denied; each entry whose topic filter matches replaces the decision by its DEFAULT action (deny if it has none), and after that by the action of each of its USER lines which names the connected user; a USER line never applies to another user or to a connection without user name. READ allows reading (subscribing) only, WRITE allows both. The ACL file is read as written: keywords and actions in any case, comments and blank lines ignored, text which is not of this form or a second DEFAULT in a block refused. The broker asks for write access before it delivers a published message and never delivers a message which was not allowed, and marks subscriptions without read access as not authorized.',
 INP+['configurations'], 'every list of entries, topic, user and requested access', 'Tests use one small ACL file.',
 ['src/lib/mqtt/mqtt_acl.c', 'src/lib/mqtt/mqtt_broker.c', 'src/lib/mqtt/mqtt_common.c'], [('rrr_mqtt_acl_check_access', 'src/lib/mqtt/mqtt_acl.c'), ('ACL handlers', 'src/lib/mqtt/mqtt_broker.c'), ('rrr_mqtt_common_handle_publish', 'src/lib/mqtt/mqtt_common.c')],
 'List evaluation by induction over entries and users. The grammar of the file is compared to a generator of ACL files on the real parser (bounded).')
prop('C12', 'MQTT variable-length fields are decoded exactly and never over-read',
 'The remaining-length/variable integer decoder returns exactly the value of 1 to 4 bytes, refuses a fifth, and reports incomplete when bytes are missing; length-prefixed blobs are copied exactly and only when completely inside both packet and received data. Encoding a value gives the shortest field and decoding it gives the value.',
 INP, 'every byte string, receive position and packet size', 'Tests parse packets sent by the own client only.',
 ['src/lib/mqtt/mqtt_parse.c', 'src/lib/mqtt/mqtt_payload_buf.c'], [('variable int and blob parsers', 'src/lib/mqtt/mqtt_parse.c'), ('payload buffer writer', 'src/lib/mqtt/mqtt_payload_buf.c')])
prop('C13', 'HTTP percent-encoding and quoting are exact inverses and injection-safe',
 'Percent-encoding any byte string yields only unreserved characters and %XX triplets that decode to the same bytes; decoding refuses exactly the texts with truncated or non-hex escapes and otherwise gives exactly the decoded bytes. A quoted header value has only printable characters, tabs and escaped carriage returns, its closing quote is the first unescaped one, and unquoting restores the text. Searching a text (case-insensitively, for a line end, for space, for a character) finds exactly the first occurrence. No conversion reads or writes outside its buffers.',
 INP, 'every byte string of any length', 'Tests use a few ASCII query strings.',
 ['src/lib/http/http_util.c'], [('percent encoding, quoting, searching', 'src/lib/http/http_util.c')])
prop('C14', 'Reassembled stream messages contain exactly the bytes received',
 'Whatever the chunking of a stream or the size limits, the read session buffer holds exactly the received bytes in order, completes a message at exactly its target size and keeps the excess bytes for the next message; configured size limits are never exceeded.',
 INP+['schedules'], 'every chunking, target size and limit', 'Tests read from loopback sockets, with one chunking.',
 ['src/lib/read.c'], [('read session', 'src/lib/read.c')])
prop('C15', 'FIFO buffers keep every entry exactly once and in order',
 'From any state, adding an entry appends it or places it by order without losing or duplicating another; searching, reading and clearing visit each entry at most once in order, remove exactly the ones the callback asked for, and the entry count always equals the number of entries.',
 INP+['histories'], 'every buffer state, order value and callback behaviour', 'Tests use short sequences with one callback behaviour.',
 ['src/lib/fifo.c'], [('rrr_fifo_*', 'src/lib/fifo.c')])
prop('C16', 'Send loop sends, times out and retries entries in order',
 'Each queued entry is sent, returned or dropped exactly according to its age and the configured limits, in order, and an entry whose send failed softly stays queued.',
 INP+['histories'], 'every queue, clock value and send result', 'Tests never let the target fail at chosen points.',
 ['src/lib/send_loop.c'], [('rrr_send_loop_run', 'src/lib/send_loop.c')])
prop('C17', 'Base64 and hex codecs are exact and stay inside their buffers',
 'Base64 encoding of any byte string is exactly the standard text (padded, a line feed after every 72 characters and at the end) or, in the URL form, the text in the URL alphabet without padding and line feeds; decoding it gives the same bytes for every nonempty string. Decoding skips characters outside the alphabet, ends at the first padded group, and refuses text without a whole number of groups (in the URL form: with a single character left) or with more than two padding characters in a group. Hex output is exactly two lowercase digits per byte. Reported sizes are exact and nothing is read or written outside the buffers.',
 INP, 'every byte string of any length', 'No unit test covers the codecs; other tests decode a few strings.',
 ['src/lib/util/base64.c', 'src/lib/util/hex.c'], [('codec loops', 'src/lib/util/base64.c'), ('rrr_hex_bin_to_hex', 'src/lib/util/hex.c')],
 'All loops proved for every length by loop invariant over a one-character-at-a-time decoder; the size of the buffers by a lemma over the division.')
prop('C18', 'Condition operators evaluate exactly as documented',
 'Each comparison, bit and logic operator of a condition yields exactly its mathematical result for every pair of 64 bit operands, signed or unsigned. A parsed expression is evaluated with the precedence of its operators and from left to right for equal precedence, parentheses override this, an expression that is a single value yields that value, and an expression in which an operator lacks an operand is refused instead of evaluated.',
 INP, 'every operand pair and sign combination; expressions of every shape', 'Tests evaluate a few expressions.',
 ['src/lib/condition.c'], [('operator evaluators', 'src/lib/condition.c'), ('expression parser (shunting)', 'src/lib/condition.c')])
prop('C19', 'Modbus client builds exact requests and matches responses safely',
 'Every queued request is serialized to exactly the bytes of the protocol (header with its transaction id and length, function code, big-endian fields) and handed out exactly once. A received frame is reported incomplete until all its bytes are present, refused if its header, length or byte count is inconsistent, and otherwise delivered to the callback of its function exactly once with exactly its data and only to the transaction with its id and function; nothing outside the received bytes is read.',
 INP+['histories'], 'every client state, request and received byte string', 'The only test talks to one well-behaved server.',
 ['src/lib/modbus/rrr_modbus.c'], [('request and response state machine', 'src/lib/modbus/rrr_modbus.c')])
prop('C20', 'Shared memory allocator never hands out overlapping memory',
 'From any well-formed heap state, an allocation lies inside the heap, overlaps no live allocation and is at least as large as requested; freeing makes exactly that block available.',
 INP+['histories'], 'every heap state, request size', 'Tests allocate a few blocks.',
 ['src/lib/rrr_mmap.c'], [('block and chunk tables', 'src/lib/rrr_mmap.c')])
prop('C21', 'Memory map channel delivers each message once, whole and in order',
 'From any ring state, a written message is stored in exactly one free slot with exactly its bytes, read from the oldest full slot exactly once, and never overwrites an unread message.',
 INP+['histories'], 'every ring state and message', 'Tests send few messages.',
 ['src/lib/mmap_channel.c'], [('slot ring', 'src/lib/mmap_channel.c')])
prop('C22', 'Settings keep and report exactly what the configuration says',
 'A setting added under a name is found under exactly that name with exactly its value, later or duplicate names are refused, conversions to number or yes/no accept exactly the valid texts, and every setting not used is reported.',
 INP+['configurations'], 'every name, value and settings list', 'Tests read a few configuration files.',
 ['src/lib/settings.c', 'src/lib/map.c'], [('settings table', 'src/lib/settings.c')])
prop('C23', 'Length-carrying strings never lose or invent bytes',
 'Creating, replacing, copying, appending, prepending, slicing, splitting, searching, comparing, trimming and lower-casing length-carrying strings, and taking them out as C strings, behaves exactly as on byte sequences, for every content including NUL bytes and empty strings; a failing operation loses nothing it does not say it loses and never leaves a string which states bytes it does not have; nothing outside the strings is read or written.',
 INP, 'every pair of byte strings of any length', 'No unit test covers them.',
 ['src/lib/helpers/nullsafe_str.c'], [('rrr_nullsafe_str_*', 'src/lib/helpers/nullsafe_str.c')])
prop('C24', 'Checked size arithmetic is exact or refused',
 'The checked length, size and pointer-difference conversions and additions either return the exact mathematical result or report an error/abort; they never return a truncated or wrapped value.',
 INP, 'all argument values', 'No test covers the extreme values.',
 ['src/lib/rrr_types.h'], [('rrr_length_* and rrr_biglength_* helpers', 'src/lib/rrr_types.h')])
# ---------------------------------------------------------------- outside the family
prop('N01', 'A stalled or dying thread is detected and never leaves others hanging',
 'A thread that stops updating its watchdog timer or dies is detected within the configured time and the program stops or restarts all threads without use of freed thread data.',
 ['schedules', 'fault_sequences'], 'all interleavings of worker, watchdog and main thread', 'Tests use one schedule.', ['src/lib/threads.c'], [('watchdog and ghost threads', 'src/lib/threads.c')],
 na='Concurrency and timing over whole histories of pthreads; CBMC code contracts are sequential, no contract on one call expresses it.')
prop('N02', 'The message broker delivers each message to each consumer under concurrency',
 'With any number of concurrently writing and polling instances each written entry reaches every configured consumer exactly once and in order.',
 ['schedules', 'histories'], 'all interleavings of writers and pollers', 'Tests run few threads with one schedule.', ['src/lib/message_broker.c', 'src/lib/fifo_protected.c'], [('fifo protected buffers, split buffers', 'src/lib/message_broker.c')],
 na='Depends on lock-based interleavings of several threads; the sequential core is C15, the concurrent guarantee is outside sequential contracts.')
prop('N03', 'Memory map channels and shared heaps are safe between processes',
 'Two processes using a channel concurrently never see a half-written message, and crash of one leaves the other able to continue.',
 ['schedules', 'crash_points'], 'all interleavings and crash points of two processes', 'Tests run one schedule.', ['src/lib/mmap_channel.c', 'src/lib/rrr_mmap.c'], [('process shared mutexes', 'src/lib/mmap_channel.c')],
 na='Inter-process schedules and crashes are not expressible as sequential function contracts; the sequential ring is C21.')
prop('N04', 'UDP stream delivers messages exactly once and in order',
 'Over a lossy, reordering, duplicating network every message accepted by the sender is delivered exactly once and in order with ACK handshake.',
 ['fault_sequences', 'histories'], 'all loss/duplication/reordering sequences', 'Tests use loopback without loss.', ['src/lib/udpstream/udpstream.c', 'src/lib/udpstream/udpstream_asd.c'], [('frame ids, window and ACK frames', 'src/lib/udpstream/udpstream.c')],
 na='A two-party whole-history protocol property; a deductive proof needs a global protocol invariant across two endpoints which function contracts in CBMC cannot carry here.')
prop('N05', 'The message database survives crashes without losing acknowledged messages',
 'After a crash at any point a stored and acknowledged message is found whole, a deleted one is not, and no partial file is delivered.',
 ['crash_points'], 'all crash points of store and delete', 'No test crashes the server.', ['src/lib/msgdb/msgdb_server.c'], [('write then rename', 'src/lib/msgdb/msgdb_server.c')],
 na='Crash-point property of the file system; no contract language for durability in the installed verifiers for C.')
prop('N06', 'Scripting language modules convert messages without loss',
 'Messages handed to and from Perl, Python, Lua and JavaScript keep every field.',
 INP, 'every message', 'Tests pass a few messages.', ['src/lib/python3', 'src/lib/perl5', 'src/lib/js', 'src/lib/lua'], [('language bridges', 'src/lib/python3/python3_message.c')],
 na='The functions are glue over interpreter C APIs (and C++ for JavaScript, not built here) whose contracts would all be assumed; nothing would be decided by a proof.')
