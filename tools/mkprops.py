#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))
PS='ublox/src/parser.rs'; UP='ublox/src/ubx_packets.rs'; PK='ublox/src/ubx_packets/packets.rs'
CV='ublox/src/ubx_packets/cfg_val.rs'; TY='ublox/src/ubx_packets/types.rs'
DO='ublox_derive/src/output.rs'; DI='ublox_derive/src/input.rs'; DT='ublox_derive/src/types.rs'; ER='ublox/src/error.rs'

prop('C01','Frame extraction from an arbitrary byte stream is exact',
 "For every byte stream fed to a parser with a growable buffer, the results produced are exactly those of the UBX framing rules scanned left to right: each intact frame (sync pair, class, id, little-endian length of at most 8176, payload, matching 8-bit Fletcher checksum) is delivered once, in order, with its class, id and payload unchanged, and is then consumed whole. "
 "A candidate frame whose checksum does not match yields exactly one checksum error carrying the received and the computed checksum (each little-endian) and only its two sync bytes are skipped; garbage, lone sync bytes and headers announcing more than 8176 bytes yield nothing and cost only themselves. "
 "When no more results are available the number of buffered bytes equals the length of the unfinished candidate at the end of the stream, and nothing that was not on the wire is ever delivered.",
 ['inputs'],"every byte string: noise, valid frames of every length 0..8176, nested and overlapping candidates, corrupted, truncated, back-to-back frames",
 "The tests feed a handful of hand-made streams (single packets, two packets, one bad checksum); which bytes are skipped after each kind of rejection matters only for adversarial overlaps they never build.",
 [PS,UP,PK,DO],[('sync search, header checks, checksum check, skip amounts','ublox/src/parser.rs: ParserIter::{next,extract_packet,find_sync}'),('length limit 8176 = largest declared packet','ublox_derive/src/output.rs: generate_code_for_parse (MAX_PAYLOAD_LEN)')],
 [('buf','unconsumed bytes','ublox/src/parser.rs: Parser')],['Parser::consume, ParserIter::next, Parser::buffer_len'])
prop('C02','Results do not depend on how the stream is cut into reads',
 "Splitting a byte stream into arbitrary chunks (including empty and one-byte ones) and feeding them one after the other gives the same sequence of packets and errors, with identical contents, as feeding it in one piece. "
 "Stopping the iteration over a chunk early loses nothing: the results not yet taken come out of later calls, in order, and no byte is duplicated or lost across calls.",
 ['inputs','histories'],"every stream, every partition into chunks, every number of results taken from each chunk before the iterator is dropped",
 "Tests use a few fixed splits of one or two packets; defects sit at particular split offsets (inside header, payload, checksum) combined with leftovers from earlier frames.",
 [PS],[('two-part view over buffered and new bytes','ublox/src/parser.rs: DualBuffer'),('leftovers copied when the iterator is dropped','ublox/src/parser.rs: Drop for DualBuffer')],
 [('off/new_buf_offset','consumed prefixes of the two halves','ublox/src/parser.rs: DualBuffer')],['Parser::consume, ParserIter::next'])
prop('C03','A fixed-capacity parser delivers every frame that fits its buffer',
 "With a fixed buffer of C >= 8 bytes whose results are drained after every chunk, every intact frame of total size at most C that the framing rules reach is delivered unchanged and no out-of-memory error is ever reported for a frame that fits. "
 "A frame larger than C is either delivered unchanged or refused by exactly one out-of-memory error naming its payload-plus-checksum size, after which scanning resumes right behind its sync bytes; no byte is lost, duplicated or reordered, and no packet is fabricated. "
 "The buffered byte count never exceeds C and equals the unfinished tail of the stream.",
 ['inputs','histories','configurations'],"every stream, chunking and capacity from 8 bytes up, including capacities exactly equal to, one below and one above a frame's size",
 "Tests cover two capacities with one or two packets; wrong room computations show only for particular capacity/leftover/chunk-offset combinations.",
 [PS],[('room check before taking a frame','ublox/src/parser.rs: DualBuffer::{can_drain_and_take,potential_lost_bytes,take}'),('FixedLinearBuffer','ublox/src/parser.rs')],
 [('len','bytes held','ublox/src/parser.rs: FixedLinearBuffer')],['Parser::new(FixedLinearBuffer), ParserIter::next, Parser::buffer_len'])
prop('C04','Frames map to the right packet type, or to Unknown verbatim',
 "Every intact frame is delivered as the supported packet registered for its class and id exactly when its payload satisfies that packet's length rule and field validity rules (enumerations that admit only listed values, zero-terminated UTF-8 strings, whole records in repeated groups); in every other case it is delivered as an unknown packet. "
 "In both cases the class, id and payload bytes reported by the packet are those of the frame; a payload of the wrong length or with an invalid field is never presented as typed data and never turns into an error.",
 ['inputs'],"all 65536 class/id pairs, all payload lengths 0..8176 around each packet's rule, all values of validated fields",
 "Tests check a few packets with one good payload each; length off-by-ones, swapped ids, validity sets and packets sharing one class/id are not covered.",
 [PK,DO,DI],[('dispatch by class/id guarded by validation','ublox_derive/src/output.rs: generate_code_for_parse'),('per-packet validate','ublox_derive/src/output.rs: generate_recv_code_for_packet'),('packet list','ublox/src/ubx_packets/packets.rs: define_recv_packets!')],
 observe=['PacketRef variants, class_and_msg_id, as_bytes'])
prop('C05','Every fixed field decodes to its protocol value and unit',
 "For every supported received packet and every payload, each accessor returns the value of its own field: the bytes at the protocol-defined offset, little-endian, with the defined width and signedness, times the defined scale factor (correct to floating-point rounding), and the raw accessors return the unscaled number. "
 "No accessor depends on bytes outside its field, and packet metadata (class, id, fixed and maximum payload length) matches the protocol definition.",
 ['inputs'],"55 packet types and their repeated sub-records, every field, every payload bit pattern (corner values, single-bit and random payloads)",
 "Around ten packets are decoded by tests from one recorded payload; offsets, signs and scales of the other ~500 fields are not observed, and values with high bits set are absent.",
 [PK,DO,DI],[('field offsets accumulate from declaration order','ublox_derive/src/output.rs: generate_recv_code_for_packet, get_raw_field_code'),('declarations','ublox/src/ubx_packets/packets.rs')],
 observe=['*Ref accessors, UbxPacketMeta constants'])
prop('C06','Enumerated and bit-field values decode totally and losslessly',
 "Every value of an enumerated or flag field decodes to the named variant or flags the protocol assigns to it; values without a name are preserved (as the reserved variant or bit of that number), so the raw value can always be recovered. "
 "Sub-fields packed in a word (fix status, satellite flags, time-pulse and time-mark flags, reference info, UART mode, interference configuration) each depend on exactly their own bits and return the protocol meaning for every bit pattern that the protocol defines.",
 ['inputs'],"all 256 values of each 8-bit field, every single bit, pair of bits and random words for 16/32-bit fields",
 "Tests look at a couple of flag values; tables of variants and bit positions are unchecked.",
 [PK,DO,DI],[('enum extension','ublox_derive/src/output.rs: generate_code_to_extend_enum'),('bitflags extension','ublox_derive/src/output.rs: generate_code_to_extend_bitflags'),('hand-written bit fields','ublox/src/ubx_packets/packets.rs')],
 observe=['enum/flag accessors, raw accessors'])
prop('C07','Repeated groups and strings yield exactly the records on the wire',
 "For packets with variable-length content (satellite lists, raw measurements, sensor data, subframe words, version extensions, text messages) iteration yields exactly the complete records present, in wire order, each decoded from its own bytes, and then ends for good; the optional trailing tag is returned exactly when its presence flag is set. "
 "Text is returned exactly as received up to its terminator, and text messages that are not valid UTF-8 are reported as absent.",
 ['inputs'],"record counts 0..maximum, arbitrary record bytes, arbitrary UTF-8 and non-UTF-8 text, every presence-flag/count combination",
 "Tests cover one recorded payload for three of the nine variable-length packets.",
 [PK],[('record iterators','ublox/src/ubx_packets/packets.rs: NavSatIter, MonVerExtensionIter, EsfMeasDataIter, EsfRawDataIter, DwrdIter, RxmRawxInfoIter, mod inf, mod mon_ver'),('size functions','ublox/src/ubx_packets/packets.rs: EsfMeasRef')],
 observe=['iterator accessors'])
prop('C08','No byte sequence from the receiver makes the library panic',
 "Whatever bytes arrive, with whatever buffer and chunking, parsing them and then using any delivered packet (every accessor, all nested records and bit-field helpers, debug formatting, serialization, conversion to position, velocity or time) returns normally and never panics or aborts.",
 ['inputs','histories'],"every delivered packet over adversarial streams and payloads; every public read-side operation on it",
 "Tests only touch values that recorded receivers sent; panics hide behind reserved or out-of-range values.",
 [PK,PS,TY,CV,DO],[('validation before typed access','ublox_derive/src/output.rs: validate'),('total matches','ublox/src/ubx_packets/packets.rs')],
 observe=['catch_unwind around each public read-side operation'])
prop('C09','Parsing and packet access are free of undefined behaviour',
 "No sequence of public operations on parsers, buffers, packets and builders reads or writes outside the caller's memory, reads uninitialised or stale bytes, aliases mutable data or otherwise executes undefined behaviour; bytes of the caller's fixed buffer outside the buffer slice are never touched.",
 ['inputs','histories'],"operation histories over fixed and growable buffers of many capacities, chunkings and early drops, executed under an undefined-behaviour interpreter and an address sanitizer",
 "Unit tests run uninstrumented: an out-of-bounds copy by one byte or an aliasing violation passes silently.",
 [PS,PK],[('overlapping copy in unsafe code','ublox/src/parser.rs: FixedLinearBuffer::drain')],
 observe=['Miri and AddressSanitizer reports, guard bytes around buffers'])
prop('C10','Every built packet is one well-formed frame, identical on all outputs',
 "For every sendable packet and all field values, the produced bytes are exactly one UBX frame: sync bytes, the packet's class and id, the little-endian payload length, each field in protocol order at its protocol offset and encoding, and a correct checksum, with the advertised packet length. "
 "Conversion into a byte array, the explicit conversion method and writing through a memory writer all produce the same bytes.",
 ['inputs'],"every builder, every field, corner and random values, all enumeration members and flag combinations",
 "Tests build about five packets with fixed values; field order, widths and output-path agreement of the rest are not observed.",
 [DO,PK,UP],[('array output','ublox_derive/src/output.rs: into_packet_bytes'),('writer output','ublox_derive/src/output.rs: create_packet'),('checksum','ublox/src/ubx_packets.rs: ubx_checksum, UbxChecksumCalc')],
 observe=['into_packet_bytes, From<Builder>, create_packet'])
prop('C11','Packets that can be both sent and received survive round trips',
 "Building a packet and parsing the bytes gives that packet back with every field equal to what was supplied (scaled fields to the nearest representable step). "
 "Conversely, rebuilding a received configuration packet from its own accessor values reproduces the received payload byte for byte, for every payload made of protocol-defined values, so read-modify-write of receiver configuration changes nothing else.",
 ['inputs'],"every packet that is both sendable and receivable; all in-range field values",
 "Three packets have one round-trip test with fixed values.",
 [PK,DO,DI],[('symmetric scale/enum/flag conversions','ublox_derive/src/input.rs, ublox_derive/src/output.rs'),('UartMode, CfgItfmConfig conversions','ublox/src/ubx_packets/packets.rs')],
 observe=['builders, Parser, accessors'])
prop('C12','Scaled fields encode to the nearest step and saturate at the limits',
 "When a builder field is given in physical units, the encoded integer is the one nearest to value divided by scale, negative values keep their sign in signed fields and become zero in unsigned ones, and values outside the field's range (infinities included) encode to the nearest limit; encoding any non-NaN value never panics or wraps.",
 ['inputs'],"all scaled builder fields of every integer width and float type; magnitudes across the whole floating-point range, half-way points and limits",
 "One test encodes a few mid-range values; saturation, sign and rounding boundaries are untested.",
 [PK,DI],[('scale-back conversion','ublox/src/ubx_packets/packets.rs: ScaleBack'),('selection by field type','ublox_derive/src/input.rs: scale_back')],
 observe=['builder output bytes'])
prop('C13','Variable-length configuration messages are appended as one valid frame',
 "Extending any output container with a configuration-set message appends exactly one well-formed frame whose length and checksum cover the version, layer mask, reserved bytes and all key/value pairs in order, whatever the container already holds, and leaves the existing contents untouched; the by-value form returns exactly that frame. "
 "Several messages appended to one container can all be parsed back.",
 ['inputs','histories'],"lists of 0..64 values of all kinds, all layer masks, containers already holding arbitrary bytes or earlier messages",
 "No test calls these outputs with a non-empty container, or parses the result.",
 [DO,PK,CV],[('append with length patched afterwards','ublox_derive/src/output.rs: extend_to, into_packet_vec')],
 observe=['extend_to, into_packet_vec'])
prop('C14','Configuration key/values encode and decode losslessly',
 "Every configuration item encodes as its protocol key id (little-endian) followed by its value in exactly the storage size announced by the key; its reported length equals the bytes produced, and writing to a slice and extending a container agree and touch nothing else. "
 "Decoding any such encoding returns the same item and value, and iterating over a concatenation of encoded items yields them all, in order, and then ends.",
 ['inputs'],"all 434 items, all values of small types and corner/random values of wide ones, arbitrary concatenations",
 "No unit test decodes an item, and only a few keys appear in examples.",
 [CV,PK],[('encode/decode macros','ublox/src/ubx_packets/cfg_val.rs'),('iterator','ublox/src/ubx_packets/packets.rs: CfgValIter')],
 observe=['CfgVal::{len,write_to,extend_to,parse}, CfgValIter'])
prop('C15','Positions, velocities and times convert exactly, in the documented units',
 "A position obtained from a navigation packet equals its longitude, latitude (degrees) and height above mean sea level (metres), including the high-precision parts where the packet has them; Earth-centred positions are in metres; velocities are ground speed in metres per second and heading in degrees. "
 "A time is produced exactly when date, time of day and nanoseconds are valid, and then equals that instant plus the signed nanosecond part (borrowing across second, day and year boundaries); otherwise the error names the invalid part.",
 ['inputs'],"all field values: extreme coordinates, all calendar combinations valid and invalid, nanoseconds across the full signed range",
 "Tests convert one ordinary fix; high-precision sums, unit factors, negative nanoseconds at boundaries and invalid dates are untested.",
 [TY],[('conversions','ublox/src/ubx_packets/types.rs')],observe=['From/TryFrom conversions'])
prop('C16','Serialized packets carry every field once, with the accessor value',
 "Serializing any received packet yields one map holding its class, its message id and every field exactly once under its own name, with the value the accessor returns (scaled numbers, raw numeric enumeration and flag values, records as lists in order); unknown packets carry class, id and payload. "
 "Serialization never fails for a delivered packet and its output is valid JSON that reads back to the same values.",
 ['inputs'],"every packet type and payload; every field and nested record",
 "Tests serialize two packets; names, order, nesting and values of the rest are unobserved.",
 [DO,TY,PK],[('serialize impls','ublox_derive/src/output.rs: generate_serialize_impl, generate_code_for_parse'),('iterator fields','ublox/src/ubx_packets/types.rs: FieldIter')],
 observe=['serde_json output of PacketRef'])
prop('C17','Writer failures surface and never yield a silently damaged frame',
 "Writing a packet through a memory writer first asks for exactly the packet's total length and then writes its bytes in order and nothing else; if the reservation or any write fails, that same error is returned at once and no further write is attempted. "
 "Success is reported only if every byte of the frame was accepted, so the bytes accepted before a failure are always a prefix of the correct frame.",
 ['fault_sequences','inputs'],"every sendable packet, every position at which the reservation or a write can fail, both error kinds",
 "No test injects a writer fault.",
 [DO,UP],[('error propagation','ublox_derive/src/output.rs: create_packet'),('writer trait','ublox/src/ubx_packets.rs: MemWriter')],observe=['a recording, fault-injecting MemWriter'])
prop('C18','Behaviour is the same in every feature configuration',
 "Built with the standard library, with only the allocator, with only serialization support, or bare, the crate parses the same bytes into the same packets, errors and values, builds the same frames and formats packets identically; features only add interfaces.",
 ['configurations','inputs'],"feature sets std+serde (default), std+serde+alloc, alloc, serde, none; a corpus of streams and builder values",
 "CI compiles the configurations and runs the few tests in each but never compares their results.",
 ['ublox/src/lib.rs',PS,PK,TY,DO],[('cfg-gated code','ublox/src/lib.rs, ublox/src/parser.rs, ublox_derive/src/output.rs')],observe=['digests of a probe built per configuration'])
prop('C19','Generated packet code is correct for any valid packet description',
 "For every valid packet description (any sequence of integer, float, byte-array, scaled, enumerated, flag and trailing variable-length fields) the generated reader returns each field from its own bytes with its conversion, rejects exactly the payloads of wrong length or with invalid checked fields, and the generated builder produces the matching frame; generated enumerations, flag sets and packet dispatch follow their descriptions.",
 ['programs','inputs'],"randomly generated packet, enumeration, flag-set and dispatch descriptions; random payloads and field values for each",
 "The macro tests compare the expansion of a handful of descriptions as text; combinations of attributes and the forms used by no listed packet are never executed.",
 [DO,DI,DT,'ublox_derive/src/lib.rs'],[('parsing of descriptions','ublox_derive/src/input.rs'),('code generation','ublox_derive/src/output.rs')],observe=['execution of generated code against a generator-side model'])
prop('C20','The command-line tool configures, polls and reports a receiver correctly',
 "Talking to a receiver over a serial port, the command-line tool sends only well-formed frames matching the options it was given, proceeds past a configuration step only after the receiver acknowledged that very message (ignoring other traffic, other acknowledgements and noise), and reports the position, velocity, time and version values of the packets it then receives.",
 ['inputs','histories'],"option combinations, acknowledgement orders, interleaved traffic, noise and split reads on a simulated serial line",
 "The tool has no tests.",
 ['examples/ublox-cli/src/main.rs',PK,PS],[('command-line parsing, device loop','examples/ublox-cli/src/main.rs: main, Device')],observe=['bytes on a pseudo-terminal, standard output'])
prop('C21','Poll, acknowledge, rate and aiding helpers address the right message',
 "A poll request for a packet is the 8-byte frame with that packet's class and id, empty payload and correct checksum; acknowledgement helpers answer yes exactly when class and id both match the asked-for packet; message-rate helpers carry the class and id of the chosen packet and the given rates. "
 "Aiding data set from a position and a time carries the position in 1e-7 degrees and centimetres and the UTC year, month, day, hour, minute, second and nanosecond in the protocol's packed decimal form, and sets only the matching validity flags.",
 ['inputs'],"every packet type, all class/id pairs, all rates, all positions and all instants from 2000 to 2099",
 "Tests check one request and one rate message; acknowledgement mismatches and aiding data are not tested.",
 [UP,PK],[('requests','ublox/src/ubx_packets.rs: UbxPacketRequest'),('helpers','ublox/src/ubx_packets/packets.rs: is_ack_for, is_nak_for, set_rate_for, AidIniBuilder')],observe=['helper outputs'])
prop('C22','Parser storage behaves as a bounded first-in first-out byte queue',
 "The provided buffers (growable and fixed) behave under any history of operations as a byte queue of the stated capacity: appending stores the longest prefix that fits and reports exactly how many bytes did not, removing takes the oldest bytes (removing more than is held empties a fixed buffer), and length, emptiness, search and range access always agree with the bytes held; access beyond the held bytes is refused.",
 ['histories','inputs'],"all operation histories; capacities from 0 up; arbitrary contents",
 "A dozen tests run single short sequences on tiny buffers.",
 [PS],[('buffer trait and implementations','ublox/src/parser.rs: UnderlyingBuffer, FixedLinearBuffer, Vec<u8>')],[('len','bytes held','ublox/src/parser.rs: FixedLinearBuffer')],['UnderlyingBuffer methods'])
prop('C23','Parsing makes bounded progress and respects any conforming buffer',
 "Each request for the next result finishes after a number of buffer operations proportional to the bytes available, results per stream are bounded by its length, and once a request reports that nothing is available, further requests keep reporting so until more data is given. "
 "With any user-supplied buffer that honours the storage contract (including one that already holds data) the parser calls it only within that contract, reads only stored bytes, and gives the same results as with the provided buffers.",
 ['inputs','histories','configurations'],"every stream; conforming instrumented buffers (ring layout, scrubbing, pre-filled) of many capacities",
 "No test uses a buffer other than the two provided, measures work, or polls again after the end.",
 [PS],[('scan loop','ublox/src/parser.rs: ParserIter::next'),('contract use','ublox/src/parser.rs: DualBuffer')],observe=['an instrumented UnderlyingBuffer implementation'])
prop('C24','Inconsistent packet descriptions are rejected when compiling',
 "A packet, enumeration, flag-set or dispatch description that contradicts itself (field sizes not adding up to the declared length, unsized field in the middle, duplicate or missing attributes, values that do not fit, flags that are not single bits, unknown options) is rejected at compile time, while the same description without the contradiction is accepted.",
 ['programs'],"randomly generated valid descriptions and single contradictions injected into them",
 "The macro tests cover acceptance of a handful of valid descriptions and almost no rejections.",
 [DI,DO,DT],[('description validation','ublox_derive/src/input.rs, ublox_derive/src/types.rs: PackDesc'),('generation-time checks','ublox_derive/src/output.rs')],observe=['compiler acceptance of generated programs'])
prop('C25','Debug text of a received packet shows every field with its accessor value',
 "Formatting any received packet for debugging prints its name and every field exactly once, under its own name, in wire order and with the value its accessor returns (payloads of unknown packets included); the records of repeated groups and the satellite and fix status words likewise print every sub-field with its value. Plain and pretty formatting agree with each other.",
 ['inputs'],"every packet type and payload, every record, every value of the status words",
 "Tests print at most one packet and never compare the text with the values.",
 [DO,PK,TY],[('debug impls','ublox_derive/src/output.rs: generate_debug_impl, generate_code_for_parse'),('hand-written formats','ublox/src/ubx_packets/packets.rs: NavSatSvFlags, FixStatusInfo')],observe=['Debug output of PacketRef, packets, records and status words'])
prop('C26','Settings and positions that can be stored can be read back unchanged',
 "Every value the crate makes both serializable and deserializable (serial port modes and their parts, interference-monitor configurations and their parts, antenna settings, reset modes, satellite status values, positions and velocities) reads back from its own serialized form, textual or binary and whatever the order of its entries, as the same value, and a configuration read back encodes to the same message; numbers or names that denote no setting are rejected, and no altered text makes reading panic.",
 ['inputs'],"all values of the small types, configurations from any 32-bit word, all finite coordinates; JSON text, pretty text and value trees, bincode, CBOR; altered JSON texts",
 "No test deserializes anything.",
 [PK,TY],[('serde derives and impls','ublox/src/ubx_packets/packets.rs: UartMode, CfgItfmConfig, CfgItfmConfig2, CfgItfmAntennaSettings, ResetMode'),('numeric serialization of enumerations','ublox_derive/src/output.rs: extend_enum')],observe=['serde_json round trips, builder frames'])
prop('C27','Parsers, packets and builders share nothing, on one thread or several',
 "Any number of parsers, packets and builders can be used side by side without influencing each other: however their use is interleaved, on one thread or on several at once, each parser gives exactly the results it gives alone, each frame is built as if nothing else were built meanwhile (also when a writer builds other frames in the middle of one), and a packet read twice, or by several threads at once, gives the same values. There are no data races, and parsers, iterations, packets, errors and builders can be handed to and shared with other threads.",
 ['histories','schedules','inputs'],"any number of parsers and builders, any interleaving of their operations, any thread schedule",
 "Every test uses one parser or builder at a time on one thread.",
 [PS,PK,UP,DO],[('parser state','ublox/src/parser.rs: Parser, ParserIter'),('packet references and iterators','ublox/src/ubx_packets/packets.rs'),('writing','ublox/src/ubx_packets.rs: UbxChecksumCalc, MemWriter')],observe=['results of interleaved parsers, packets and builders','ThreadSanitizer reports','auto traits'])
prop('C28','Memory use is bounded and everything is given back',
 "Parsing with a fixed buffer, reading and printing packets and errors, converting them, building packets, poll requests and configuration messages into memory of the caller's own, and handling configuration items never allocate memory. A growable parser never holds memory out of proportion to the bytes waiting in it or given to it at once, however long the stream, and once parsers, results and vectors are dropped all memory is given back.",
 ['histories','inputs'],"every stream and chunking, every packet and builder, streams of any length",
 "No test looks at allocations, and none feeds a long stream.",
 [PS,PK,UP,DO],[('storage','ublox/src/parser.rs: UnderlyingBuffer for Vec<u8>, FixedLinearBuffer, DualBuffer'),('builders','ublox_derive/src/output.rs: generate_send_code_for_packet')],[('memory held','allocator balance','ublox/src/parser.rs: Parser')],['a counting global allocator'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
open(out,'w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
