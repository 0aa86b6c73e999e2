#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
H = "inc/midi/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook="none"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Inspecting hostile packets and SysEx data is memory safe and UB free",
 "For any packet content and any SysEx message content (every byte value, every length, any manufacturer), asking the library which kind of message it is and reading every field, string, list or range of every view it offers never touches memory outside the message, never executes undefined behaviour, always terminates and leaves the message unchanged. "
 "This includes packets whose reserved or size fields are nonsense and SysEx messages that are truncated, empty or carry 8-bit bytes; feeding such packets, arbitrary bytes or arbitrary text to the collectors, converters, byte stream parser, printer and reader is equally safe.",
 ["inputs"], "all 128-bit packet values; all SysEx byte strings with all manufacturer IDs",
 "The tests feed a few dozen well-formed messages and build without sanitizers and with assertions off, so an out-of-bounds read on a malformed message goes unseen.",
 [H+"capability_inquiry.h", H+"universal_sysex.h", H+"stream_message.h", H+"flex_data_message.h", H+"data_message.h", H+"extended_data_message.h", H+"channel_voice_message.h", "src/capability_inquiry.cpp", "src/sysex_collector.cpp", "src/midi1_byte_stream.cpp"],
 [("size checks before field access in the view validators", H+"capability_inquiry.h"), ("payload accessors of packet views", H+"data_message.h")],
 observe=["every view validator / optional view factory and every accessor under ASan+UBSan on exact-size heap buffers"])

prop("C02", "A MIDI-CI view is offered exactly for complete messages of its kind",
 "For every SysEx message, each MIDI-CI view is offered exactly when the message is a non-realtime universal MIDI-CI message of that view's kind(s) that is long enough for all fields its version and its embedded length and count fields announce (for property exchange also with consistent chunk numbering: the chunk number does not exceed a non-zero announced number of chunks, a header only comes with chunk 0 or 1, data only with chunk 1 or later); every accepted view exposes only ranges that lie inside the message. "
 "In particular a complete message cut short anywhere before its announced end is rejected by all views that would read the missing part.",
 ["inputs"], "all SysEx messages, every truncation point and every value of embedded length/count/version fields",
 "Tests try single examples per view; acceptance depends on the combination of message kind, version, length and embedded counters.",
 [H+"capability_inquiry.h", "src/capability_inquiry.cpp"],
 [("validate() of each CI view", H+"capability_inquiry.h"), ("profile_inquiry_reply_view::validate, property_data_message_view::validate", "src/capability_inquiry.cpp")],
 observe=["acceptance of each view compared with an independent reference validator", "pointers/lengths returned by accepted views compared with the message extent"])

prop("C03", "MIDI-CI messages read back exactly as they were built",
 "For every MIDI-CI message constructor and all arguments in their documented range, the built message is a 7-bit clean universal non-realtime message with the right kind and version whose matching view is offered and returns exactly the arguments it was built from (addresses, device id, identity, categories, profiles, channel counts, headers, chunks, texts, data of any size). "
 "Replies built from a received message go back to its sender with the same device id.",
 ["inputs"], "all argument values, payload sizes from empty to the largest encodable and both message versions",
 "Tests build a handful of messages with fixed arguments; field overlaps, truncations and wrong shifts for other values or sizes are not exercised.",
 [H+"capability_inquiry.h", "src/capability_inquiry.cpp", H+"sysex.h"],
 [("make_* message factories", H+"capability_inquiry.h"), ("message::make_with_payload_size", "src/capability_inquiry.cpp")],
 observe=["bytes of the built message compared with an independent encoder", "all accessors of the matching view"])

prop("C04", "SysEx7 segmentation is well formed and loses nothing",
 "For every 7-bit SysEx message with a one or three byte manufacturer ID, the generated packets are all on the requested group, are either exactly one complete packet or one start, any number of continue and one end packet, none is empty, all but the last carry six bytes, and their concatenated payload is the manufacturer ID followed by the data. "
 "Feeding those packets to a SysEx7 collector delivers the message exactly once and unchanged, and the streaming and the vector form of segmentation agree.",
 ["inputs"], "all manufacturers, data contents, data sizes (including all residues around packet boundaries) and groups",
 "Tests compare ten fixed messages; boundary residues for each ID size and long messages are not covered.",
 [H+"sysex.h", H+"data_message.h", "src/sysex.cpp", "src/sysex_collector.cpp"],
 [("send_sysex7 / as_sysex7_packets", H+"sysex.h"), ("total_data_size", "src/sysex.cpp")],
 observe=["packets passed to the sender", "collector callbacks"])

prop("C05", "SysEx8 segmentation is well formed and loses nothing",
 "For every 8-bit SysEx message with a one or three byte manufacturer ID, the generated packets all carry the requested group and stream id, are either exactly one complete packet or one start, any number of continue and one end packet, none is empty, all but the last carry thirteen payload bytes, and their concatenated payload is the two byte manufacturer ID encoding followed by the data. "
 "Feeding those packets to a SysEx8 collector delivers the message exactly once, unchanged and with its stream id, and the streaming and the vector form of segmentation agree.",
 ["inputs"], "all manufacturers, data contents, data sizes (all residues around packet boundaries), stream ids and groups",
 "Tests compare eleven fixed messages; the pristine code already got two boundary sizes wrong without any test noticing.",
 [H+"sysex.h", H+"extended_data_message.h", "src/sysex_collector.cpp"],
 [("send_sysex8 / as_sysex8_packets", H+"sysex.h")],
 observe=["packets passed to the sender", "collector callbacks"])

prop("C06", "The SysEx7 collector delivers exactly the well-formed messages",
 "For every sequence of packets of any kind, the SysEx7 collector calls back exactly once for each complete packet and for each start, continue..., end run not interrupted by another start or complete packet, with exactly that run's manufacturer ID and data, at the time its last packet is fed; packets that are not SysEx7 are ignored and continue or end packets without a start are dropped. "
 "A message with more data bytes than the configured limit is never delivered, every other one is, and nothing of an interrupted, dropped, oversized or reset message ever appears in a later one.",
 ["inputs", "histories"], "all packet sequences interleaved with reset and limit changes between messages",
 "Tests feed well-formed sequences plus one or two errors; leakage across messages depends on the history.",
 ["src/sysex_collector.cpp", H+"sysex_collector.h", H+"data_message.h"],
 [("sysex7_collector::feed / reset", "src/sysex_collector.cpp")],
 state=[("collector state", "message in progress, ID bytes read, collected data", H+"sysex_collector.h")],
 observe=["callback history after each fed packet compared with a reference automaton"])

prop("C07", "The SysEx8 collector delivers exactly the well-formed messages",
 "For every sequence of packets of any kind, the SysEx8 collector calls back exactly once for each complete packet and for each start, continue..., end run of one stream id not interrupted by another start or complete packet, with exactly that run's manufacturer ID, data and stream id; other packets, and continue or end packets without a start or with another stream id, are ignored. "
 "A message with more data bytes than the configured limit is never delivered, every other one is, and nothing of an interrupted, dropped, oversized or reset message ever appears in a later one.",
 ["inputs", "histories"], "all packet sequences over several stream ids interleaved with reset and limit changes between messages",
 "Tests feed well-formed sequences plus one or two errors; leakage across messages depends on the history.",
 ["src/sysex_collector.cpp", H+"sysex_collector.h", H+"extended_data_message.h"],
 [("sysex8_collector::feed / reset", "src/sysex_collector.cpp")],
 state=[("collector state", "message in progress, stream id, ID state, collected data", H+"sysex_collector.h")],
 observe=["callback history after each fed packet compared with a reference automaton"])

prop("C08", "Byte stream parsing yields exactly the messages of any MIDI 1 stream",
 "For every byte stream, however it is split into feed calls, the parser emits exactly the packets a MIDI 1.0 receiver must see: realtime bytes immediately even inside other messages, running status for channel messages until a system common, SysEx or undefined status cancels it, incomplete messages and stray data bytes dropped, undefined statuses ignored, and SysEx as start, continue and end (or complete) packets of up to six bytes on the parser's group. "
 "A SysEx interrupted by a non-realtime status is abandoned without an end packet, resetting the parser forgets everything pending, and with callbacks disabled nothing is emitted while parsing state is still tracked.",
 ["inputs", "histories"], "all byte streams, all chunkings, resets and enable/disable points",
 "Tests feed hand-written streams; interactions of realtime, running status, interrupted SysEx and chunk boundaries are unbounded.",
 ["src/midi1_byte_stream.cpp", H+"midi1_byte_stream.h"],
 [("midi1_byte_stream_parser::feed and helpers", "src/midi1_byte_stream.cpp")],
 state=[("pending message", "status, bytes received, bytes missing", H+"midi1_byte_stream.h")],
 observe=["packet callback history compared with a reference parser after each byte"])

prop("C09", "The byte stream parser delivers whole SysEx messages to its SysEx callback",
 "When a SysEx callback is installed, every terminated SysEx message in the byte stream that has a complete manufacturer ID is delivered exactly once, whole, with its one or three byte manufacturer ID and unchanged data of any length, and no SysEx packets are emitted; unterminated, interrupted or ID-less messages are never delivered and never contaminate later ones. "
 "All other messages of the stream are emitted exactly as without the callback, and a SysEx that began while callbacks were disabled is not delivered.",
 ["inputs", "histories"], "all byte streams, lengths, chunkings, resets and enable/disable points",
 "Tests cover a few messages; state leakage between aborted and following messages and buffer growth depend on history and size.",
 ["src/midi1_byte_stream.cpp", H+"midi1_byte_stream.h"],
 [("sysex_start / sysex_continue_callback / sysex_end_callback", "src/midi1_byte_stream.cpp")],
 state=[("message being collected", "manufacturer ID and data so far", H+"midi1_byte_stream.h")],
 observe=["SysEx and packet callback histories compared with a reference parser"])

prop("C10", "Packets and MIDI 1 byte streams convert into each other losslessly",
 "For every packet, conversion to the byte stream writes at most eight bytes and yields exactly the MIDI 1.0 bytes of system, MIDI 1 channel voice and well-formed SysEx7 packets and nothing for all others, with the reported size matching (for SysEx7 packets the reported size counts the payload without the framing bytes); building a packet from status and data bytes yields the corresponding packet or an empty one for undefined statuses. "
 "Any sequence of valid MIDI 1 packets converted to bytes and parsed again on the same group reproduces the packets, and any SysEx message sent as packets, converted to bytes and parsed again arrives unchanged.",
 ["inputs", "histories"], "all packets and all sequences of valid MIDI 1 protocol and SysEx packets",
 "Tests check single messages per kind; round trips of sequences and malformed packets are not covered.",
 ["src/midi1_byte_stream.cpp", H+"midi1_byte_stream.h"],
 [("to_midi1_byte_stream, midi1_byte_stream_size, from_midi1_byte_stream", H+"midi1_byte_stream.h")],
 observe=["bytes written (guarded buffer), packets and SysEx parsed back"])

prop("C11", "Value scaling follows the MIDI 2.0 min-center-max rules",
 "Scaling any value to a higher resolution follows the MIDI 2.0 min-center-max bit-repeat scheme: minimum, center and maximum map to minimum, center and maximum, the result is strictly increasing and scaling back down returns the original value. "
 "Scaling down keeps the top bits, and all value types (velocity, controller, pitch bend, pitch) use these same scalings when built from or read as 7, 14, 16 or 32 bit values, except that a pitch keeps a 7 bit note number as its integer part.",
 ["inputs"], "all values of all source resolutions and all pairs of resolutions from 2 to 32 bits",
 "Tests compare selected values of three resolutions; the general scaler has 496 resolution pairs.",
 [H+"types.h"],
 [("upsample_* / downsample_* and value type constructors", H+"types.h")],
 observe=["results compared with an independent bit-level reference, exhaustively for sources up to 16 bits"])

prop("C12", "Float conversions and pitch or controller arithmetic saturate, never wrap",
 "Converting any finite or infinite number to a velocity, controller value, pitch bend, pitch or pitch increment clamps to the type's range, is monotone and within one step (for single precision floats: float precision) of the ideal value; converting back is monotone, stays within the documented range, is exact at minimum, center and maximum and returns the original value (to one step or the precision of the number type) when converted again. "
 "Adding increments or detunes to pitches, increments and controllers, and scaling a bend by a sensitivity (in whole steps, fractions dropped, so opposite bends give opposite increments), gives the exact result clamped to the type's range, without overflow.",
 ["inputs"], "all float and double values except NaN; all pairs of 32-bit operands",
 "Tests compare a few dozen values; clamping, rounding and sign corner cases span the full float range.",
 [H+"types.h"],
 [("float constructors, as_float/as_double, operator+ / operator+= / operator*", H+"types.h")],
 observe=["results compared with 128-bit integer and long double references under UBSan"])

prop("C13", "Translation between MIDI 1 and MIDI 2 channel voice messages is faithful",
 "Every MIDI 1 channel voice message either translates to the MIDI 2 message of the same kind, group, channel and note or controller number with its values scaled up (a note on with velocity zero becomes a note off with center velocity), or is refused because it is one of the controllers reserved for bank, data entry, (N)RPN and high resolution velocity. "
 "Translating back gives the original message, and a MIDI 2 message translates to MIDI 1 exactly when it carries nothing MIDI 1 cannot express (no note attribute, no bank, no per-note, registered, assignable or relative controller, no reserved controller), with values scaled down and a note on never becoming velocity zero.",
 ["inputs"], "all MIDI 1 channel voice messages; all MIDI 2 channel voice messages",
 "Tests translate one or two messages per kind.",
 [H+"channel_voice_message.h", H+"midi1_channel_voice_message.h", H+"midi2_channel_voice_message.h"],
 [("as_midi1_channel_voice_message, as_midi2_channel_voice_message", H+"channel_voice_message.h")],
 observe=["translated packets compared with a reference translator, exhaustively for MIDI 1"])

prop("C14", "Channel voice messages read back as built, protocol independently",
 "For every MIDI 1 and MIDI 2 channel voice message constructor and all in-range arguments, the packet has the layout the UMP specification prescribes and the views and getters return exactly what it was built from. "
 "The protocol independent getters (note, velocity, pitch, pressure, controller, program, pitch bend) return the same meaning for both protocols for every channel voice packet, always within range, treating a MIDI 1 note on with velocity zero as a note off with center velocity.",
 ["inputs"], "all constructor arguments; all channel voice packet values",
 "Tests check fixed examples for each constructor and getter.",
 [H+"channel_voice_message.h", H+"midi1_channel_voice_message.h", H+"midi2_channel_voice_message.h"],
 [("make_midi1_* / make_midi2_* / make_*controller* factories", H+"midi2_channel_voice_message.h"), ("get_* and is_* helpers", H+"channel_voice_message.h")],
 observe=["packet words compared with a reference encoder; getters compared with the arguments"])

prop("C15", "Stream messages and multi-packet names read back as built",
 "For every UMP stream message constructor and all in-range arguments, the packet has the layout the specification prescribes and its view returns exactly the arguments, including function blocks spanning 1 to 16 groups. "
 "An endpoint name, function block name or product instance id of any supported length, including UTF-8 names, is sent as one complete packet or start, continue... and end packets in order, each filled to capacity except the last, and concatenating the payloads read from those packets gives the original text. Views of received stream messages read the same fields whatever the reserved bits contain.",
 ["inputs"], "all constructor arguments; all names without NUL characters of all lengths",
 "Tests use a few ASCII names and fixed arguments; the pristine code lost non-ASCII characters and 16-group blocks unnoticed.",
 [H+"stream_message.h"],
 [("make_* stream message factories and views, send_endpoint_name, send_function_block_name, send_product_instance_id", H+"stream_message.h")],
 observe=["packets compared with a reference encoder; concatenated payloads"])

prop("C16", "System, utility, flex data and SysEx packets read back as built",
 "For every system, utility, flex data, SysEx7 and SysEx8 packet constructor or builder step and all in-range arguments, the packet has the layout the specification prescribes and the matching view or accessor returns exactly what was put in, leaving all other fields untouched. "
 "Flex data texts of up to twelve bytes, including UTF-8, read back unchanged. Views of received packets read the same fields and stay within their range whatever the reserved bits contain.",
 ["inputs", "histories"], "all constructor arguments, all sequences of packet builder operations",
 "Tests check fixed examples; interactions between builder steps (size, stream id, payload) are sampled once.",
 [H+"system_message.h", H+"utility_message.h", H+"flex_data_message.h", H+"data_message.h", H+"extended_data_message.h"],
 [("packet constructors, set_/add_payload_byte, set_payload_size, set_stream_id", H+"extended_data_message.h")],
 observe=["packet words compared with a reference model after each builder step"])

prop("C17", "Every packet is recognised as exactly the kinds it is",
 "For every packet, each recogniser and each optional view answers according to the UMP specification's message type, status, bank, size and format fields only: it accepts all packets of its kind and no other, regardless of group, channel and payload, and a recogniser and its optional view always agree. "
 "Universal SysEx type, subtype and device id queries likewise report exactly what the message carries and 'none' for everything else. The names offered for statuses, formats, controllers, parameters, SysEx types and manufacturers denote the specification's numbers.",
 ["inputs"], "all packets (every message type, status and control bit combination with random payload); all SysEx headers",
 "Tests probe a few packets per recogniser; false positives depend on bits nobody sampled.",
 [H+"universal_packet.h", H+"channel_voice_message.h", H+"midi2_channel_voice_message.h", H+"data_message.h", H+"extended_data_message.h", H+"stream_message.h", H+"flex_data_message.h", H+"system_message.h", H+"universal_sysex.h"],
 [("is_* predicates and as_*_view factories", H+"universal_packet.h")],
 observe=["predicate vector of each packet compared with a reference classification; all 2^16 type/status/bytes combinations enumerated"])

prop("C18", "Universal packets store, compare, print and parse their words exactly",
 "For every packet, reading and writing any byte, type, group or status affects exactly the addressed bits, the word count follows the message type table of the UMP specification, and two packets are equal exactly when their significant words are equal. "
 "Printing writes the significant words as eight digit hexadecimal numbers separated by spaces without disturbing the stream's number formatting, reading that text back gives an equal packet also in sequences of packets, and reading truncated or non-hexadecimal text fails instead of yielding a packet.",
 ["inputs", "histories"], "all packet values, byte indices, edit sequences and packet texts including every truncation",
 "Tests print and parse three packets and touch selected bytes.",
 [H+"universal_packet.h", "src/universal_packet.cpp"],
 [("get_byte/set_byte/set_type/set_group/size/operator==", H+"universal_packet.h"), ("operator<< / operator>>", "src/universal_packet.cpp")],
 observe=["packet words compared with a 16 byte array model after every operation; stream contents and state"])

prop("C19", "Jitter reduction ticks, timestamps and clock are exact",
 "One jitter reduction tick is exactly 32 microseconds: the difference of two timestamps is the number of ticks elapsed from the second to the first modulo 65536, never negative, correct across wrap-around, and converts exactly to time durations. "
 "The jitter reduction clock advances by one tick per 32 microseconds of system time without drift however long it runs, and clock and timestamp messages are utility messages that carry the 16-bit time unchanged.",
 ["inputs", "histories"], "all pairs of timestamps; clock readings over arbitrarily long runs",
 "Tests check a few conversions and one wrap and cannot run the clock for hours.",
 [H+"jitter_reduction_timestamps.h", "src/jitter_reduction_timestamps.cpp"],
 [("jr_timestamp_t::operator-, jr_ticks, jr_clock::now, jr_clock_message, jr_timestamp_message", H+"jitter_reduction_timestamps.h")],
 observe=["results compared with 64-bit integer arithmetic; clock readings under an interposed virtual system time"])

prop("C20", "The clock follower schedules events in sender order, late enough",
 "For every history of clock and timestamp messages of a sender received in order (clock messages less than 65536 ticks apart), the times the follower schedules for timestamped events never decrease and lie between the event's send time plus the smallest and plus the largest clock transport delay seen so far, increased by the security offset; so no event whose delay is within the jitter seen is scheduled before it was received, and with constant delay the sender's spacing is kept exactly. "
 "The reported jitter is the spread of the clock transport delays seen, the security offset is two milliseconds or 120% of that jitter, whichever is larger, and before the first clock events are scheduled relative to reception. "
 "All this holds across timestamp wrap-arounds, and after a reset the follower behaves like a new one.",
 ["inputs", "histories"], "all sender timings, jitter histories and clock/timestamp interleavings, including wraps and resets",
 "Tests run a few short fixed scenarios.",
 [H+"jitter_reduction_timestamps.h", "src/jitter_reduction_timestamps.cpp"],
 [("jr_clock_follower", "src/jitter_reduction_timestamps.cpp")],
 state=[("clock estimate", "sender clock and observed jitter", H+"jitter_reduction_timestamps.h")],
 observe=["scheduled times, jitter and security offset of simulated sender histories in virtual time"])

prop("C21", "SysEx containers encode numbers and identities losslessly",
 "Appending 7, 14, 28 or 32 bit numbers, byte blocks or device identities to a SysEx message in any order and reading them back at their positions returns the same values and only 7-bit bytes are stored; size, emptiness, 7/8-bit and validity queries and equality report exactly what the message contains, and clearing it empties it. "
 "Identity requests and replies read back the device id and identity they were built from, for one and three byte manufacturer IDs.",
 ["inputs", "histories"], "all values and all append sequences; all identities",
 "Tests append fixed values.",
 [H+"sysex.h", "src/sysex.cpp", H+"universal_sysex.h", "src/universal_sysex.cpp"],
 [("add_uint*/make_uint*, add_device_identity/make_device_identity, identity_request/identity_reply", "src/sysex.cpp")],
 observe=["message bytes compared with a reference byte vector after each append"])

prop("C22", "Property exchange headers are valid JSON with exactly the given content",
 "For all keys and values that need no JSON escaping, including empty ones, a generated property exchange header is a valid JSON object whose members appear in the given order with exactly the given keys, resource or status first, and the given values: options that are valid JSON integers as numbers, all others as strings. "
 "Property exchange messages built from resources, status codes, messages, commands and options carry exactly that header, using the specification's names for members and resources.",
 ["inputs"], "all keys, values and option lists without characters that need escaping",
 "Tests compare seven fixed headers; the pristine code read past empty values and wrote invalid numbers.",
 ["src/capability_inquiry.cpp", H+"capability_inquiry.h"],
 [("make_rjson", "src/capability_inquiry.cpp"), ("make_*_property_data_*, make_subscription_*, make_notify_message", H+"capability_inquiry.h")],
 observe=["header bytes compared with a reference writer and re-parsed by an independent JSON parser"])

prop("C23", "All allocator configurations behave alike and return all memory",
 "The library gives identical results for identical inputs whether SysEx data uses the default, the polymorphic or the user supplied allocator: same packets, callbacks, messages and views. "
 "SysEx data memory is obtained only from the configured allocator or memory resource, every block is returned exactly once with the size it was obtained with, and copying, moving, assigning, clearing and destroying messages neither leaks nor shares storage. Clearing a message returns its buffer to the allocator when it is larger than 16 KiB.",
 ["configurations", "histories"], "three build configurations times all operation histories",
 "The unit tests run in each configuration but never compare results nor watch the allocator.",
 [H+"sysex.h", "src/sysex.cpp", "src/sysex_collector.cpp", "src/midi1_byte_stream.cpp", "CMakeLists.txt"],
 [("sysex::data_type selection and constructors", H+"sysex.h")],
 observe=["result digest per configuration; allocator and memory resource event log"])

prop("C24", "Independent objects can be used concurrently",
 "Distinct parsers, collectors, clock followers and messages share no hidden mutable state: using them from different threads at the same time, reading one message or packet from several threads, and using the jitter reduction clock from all of them is free of data races. "
 "Each object gives exactly the results it would give alone in a single-threaded run, also when several objects, copies of each other included, are used alternately or handed from thread to thread.",
 ["schedules", "histories"], "all thread interleavings of operations on distinct objects and of const operations on shared ones",
 "The tests are single-threaded.",
 ["src/sysex_collector.cpp", "src/midi1_byte_stream.cpp", "src/jitter_reduction_timestamps.cpp", "src/capability_inquiry.cpp", H+"sysex.h", H+"jitter_reduction_timestamps.h"],
 [("per-object state of parser, collectors and follower", H+"sysex_collector.h")],
 observe=["ThreadSanitizer reports; per-thread results compared with a sequential run"])

prop("C25", "Failing allocations and callbacks leave nothing behind",
 "When memory runs out at any point while messages are built, copied, edited, segmented, collected or parsed, the failure reaches the caller as an exception: the program is not terminated, no memory leaks, inputs and the bytes already in a message are unchanged, nothing partial is delivered, and a collector or parser that is then reset behaves like a new one. "
 "When a user callback or packet sender throws, its exception reaches the caller unchanged and nothing more is sent by that call; a collector or parser goes on with everything received afterwards exactly as if the callback had returned. A callback may also reset the collector or parser that called it, which then behaves like a new one for everything that follows.",
 ["fault_sequences", "histories"], "every allocation and every callback invocation of every operation history as the failing one",
 "The tests never fail an allocation and their callbacks never throw.",
 ["src/sysex_collector.cpp", "src/midi1_byte_stream.cpp", "src/sysex.cpp", "src/capability_inquiry.cpp", H+"sysex.h", H+"stream_message.h", H+"capability_inquiry.h"],
 [("feed and its callbacks", "src/midi1_byte_stream.cpp"), ("feed and its callbacks", "src/sysex_collector.cpp"), ("send_sysex7/8", H+"sysex.h")],
 observe=["injected failure, exception at the caller, deliveries before and after, live blocks"])

prop("C26", "Memory use is bounded by what was received",
 "Recognising, reading, translating and converting packets, parsing a byte stream into packets, sending a SysEx message or name packet by packet and following a sender's clock obtain no memory at all (texts read from a packet may need up to 64 bytes). "
 "Collecting, parsing, reading, segmenting and building SysEx messages obtains blocks at most proportional to the bytes actually received or given (at most four times as large plus 4 KiB), never to sizes or counts that a message merely announces. A collector with a data size limit never obtains a block larger than that limit (or 256 bytes) however long the incoming message is, and once a message was delivered, dropped or reset and a short message followed, a collector or parser keeps at most 18 KiB, or the limit.",
 ["inputs", "histories"], "all packets, byte streams, packet histories and hostile messages",
 "The tests do not watch the allocator.",
 ["src/sysex_collector.cpp", "src/midi1_byte_stream.cpp", "src/sysex.cpp", "src/capability_inquiry.cpp", H+"sysex.h", H+"universal_packet.h", H+"stream_message.h"],
 [("growth of the collected data", "src/sysex_collector.cpp"), ("growth of the SysEx buffer", "src/midi1_byte_stream.cpp"), ("clear", "src/sysex.cpp")],
 observe=["size of every requested block, live bytes after each message"])

prop("C27", "Whole messages survive every transport path",
 "Whatever path a session takes through the library, every message arrives exactly once, unchanged and in the order of its sender. Senders on different groups may share a cable with their packets interleaved in any way; realtime messages and timestamps may lie between the packets of a SysEx message; "
 "packets may be written as text and read again; MIDI 1 channel voice messages may travel as MIDI 2 messages (a note on with velocity zero then arrives as the note off it stands for); SysEx8 messages may share a group on streams of their own; and SysEx7, MIDI 1 channel voice and system messages may travel as a MIDI 1 byte stream with or without running status, with realtime bytes anywhere, split into any chunks, over any number of hops, received as packets or whole SysEx messages. "
 "A MIDI-CI request carried over any of these paths reads the same at the receiver, and the answer built from it reaches the requester with the addresses exchanged.",
 ["inputs", "histories", "schedules"], "all sessions, interleavings, chunkings and sequences of hops",
 "The tests look at one component with single messages; what users rely on is the composition of senders, translators, text, byte stream, parser and collectors.",
 ["src/sysex.cpp", "src/sysex_collector.cpp", "src/midi1_byte_stream.cpp", "src/universal_packet.cpp", "src/capability_inquiry.cpp", H+"sysex.h", H+"midi1_byte_stream.h", H+"channel_voice_message.h", H+"universal_packet.h"],
 [("send_sysex7, send_sysex8", H+"sysex.h"), ("sysex7_collector::feed", "src/sysex_collector.cpp"), ("midi1_byte_stream_parser::feed", "src/midi1_byte_stream.cpp"), ("to_midi1_byte_stream", H+"midi1_byte_stream.h"), ("operator<<, operator>>", "src/universal_packet.cpp"), ("as_midi2_channel_voice_message, as_midi1_channel_voice_message", H+"channel_voice_message.h")],
 observe=["message sent and received, order and number per group"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
