# check configuration: builds = {build: (quick multiplier, thorough multiplier)}
SAN_OPT = {"san": (1, 40), "opt": (3, 200)}
CHECKS = {
    "C04": {
        "driver": "c04.cpp", "flags": ["-DSX8=0"], "builds": SAN_OPT,
        "rule": "every data size 0..399 with one/three byte IDs, every valid manufacturer ID, random and large (to 70000 bytes) messages; "
                "a case is non-trivial and distinct by (manufacturer, data, group)",
        "require": {"packets observed": 20000, "continue packets": 1000, "deliveries observed": 5000, "large messages": 50, "messages with exhaustive small size": 8400},
        "assumptions": ["manufacturer IDs are valid one or three byte IDs, group < 16, data bytes 7 bit"],
    },
    "C05": {
        "driver": "c04.cpp", "flags": ["-DSX8=1"], "builds": SAN_OPT,
        "rule": "every data size 0..399 with one/three byte IDs, every valid manufacturer ID, random and large (to 70000 bytes) messages; "
                "a case is non-trivial and distinct by (manufacturer, data, stream, group)",
        "require": {"packets observed": 20000, "continue packets": 1000, "deliveries observed": 5000, "large messages": 50, "messages with exhaustive small size": 8400},
        "assumptions": ["manufacturer IDs are valid one or three byte IDs, group < 16"],
    },
}
for _id, _d in (("C06", "0"), ("C07", "1")):
    CHECKS[_id] = {
        "driver": "c06.cpp", "flags": ["-DSX8=" + _d], "builds": {"san": (1, 60), "opt": (4, 250)},
        "rule": "all histories of four packets over a 12-letter alphabet plus random histories of well-formed, cut, lossy, duplicated, interleaved, "
                "foreign and malformed packets with resets, limit and callback changes; distinct by packet history",
        "require": {"packets fed": 200000, "deliveries compared": 20000, "interrupted messages": 1000, "oversized messages": 1000, "messages of every size": 4200,
                    "stray continue/end": 1000, "deliveries over 64 bytes": 1000, "deliveries over 16384 bytes": 10, "resets": 1000, "limit changes": 300,
                    "messages without ID compared with a new collector": 1000, "long sessions": 16},
        "assumptions": ["the limit is only changed between messages", "manufacturer ID compared only for complete, valid IDs"],
    }
for _id, _d in (("C08", "0"), ("C09", "1")):
    CHECKS[_id] = {
        "driver": "c08.cpp", "flags": ["-DCALLBACK=" + _d], "builds": {"san": (1, 60), "opt": (4, 250)},
        "rule": "all four-byte streams over a 20-byte alphabet with probes, SysEx of every length to 300, grammar-based, random and large streams, "
                "random chunking over all feed overloads, resets and enable toggles; distinct by byte stream",
        "require": dict({"bytes fed": 1000000, "events compared": 100000, "channel voice packets": 20000, "system packets": 10000, "resets": 1000, "enable toggles": 1000, "long streams": 12},
                        **({"sysex complete packets": 3000, "sysex start packets": 3000, "sysex continue packets": 3000, "sysex end packets": 3000} if _d == "0" else
                           {"sysex messages delivered": 5000, "sysex over 1024 bytes": 20, "sysex over 16384 bytes": 5, "events compared with packet mode": 10000})),
        "assumptions": ["the group is only changed when no running status or message is pending"],
    }
CHECKS["C10"] = {
    "driver": "c10.cpp", "builds": {"san": (4, 200), "opt": (16, 1500)},
    "rule": "all (type 1..3, group, status) with clean and hostile data, random packets of all types, all status bytes, random valid packet sequences and "
            "SysEx messages through bytes and back; distinct by packet or byte stream",
    "require": {"packets converted": 100000, "packets with bytes": 30000, "byte triples converted": 100000, "packets round-tripped": 50000, "sysex messages round-tripped": 10000},
    "assumptions": ["data bytes of valid MIDI 1 packets are 7 bit; for others only extent and count are judged"],
}
CHECKS["C11"] = {
    "driver": "c11.cpp", "builds": {"san": (2, 100), "opt": (10, 2000)},
    "rule": "exhaustive for 7, 14 and 16 bit sources and for every pair of resolutions with up to 12 source bits, edges and random values beyond; distinct by (value, resolutions)",
    "require": {"7 bit values compared": 256, "14 bit values compared": 32768, "16 bit values compared": 131072, "32 bit values compared": 300000, "generic upscalings compared": 200000, "resolution pairs": 800},
    "assumptions": ["arguments fit the announced number of bits"],
}
CHECKS["C12"] = {
    "driver": "c12.cpp", "builds": {"san": (2, 200), "opt": (8, 2000)},
    "rule": "interesting and random floats/doubles (infinities, denormals, neighbours of all limits), every 16 bit value, edge and random 32 bit values and operand pairs; distinct by operands",
    "require": {"conversions from float": 500000, "conversions to float": 300000, "arithmetic operations": 500000, "saturating operations": 50000},
    "assumptions": ["NaN is excluded", "float (not double) conversions of 32 bit values are judged to float precision"],
}
CHECKS["C13"] = {
    "driver": "c13.cpp", "builds": {"san": (2, 100), "opt": (10, 2000)},
    "rule": "all MIDI 1 status/data combinations (exhaustive), every MIDI 2 status and index with attribute/flag variants, random and step-boundary values; distinct by packet",
    "require": {"midi1 messages translated": 500000, "midi1 messages refused": 10000, "midi2 messages translated": 500000, "midi2 messages refused": 50000},
    "assumptions": ["MIDI 1 data bytes are 7 bit"],
}
CHECKS["C14"] = {
    "driver": "c14.cpp", "builds": {"san": (2, 100), "opt": (8, 2000)},
    "rule": "all constructors with edge-biased random arguments; getters on all MIDI 1 packets (exhaustive over kind and data) and on random packets of all types; distinct by packet",
    "require": {"built messages compared": 1000000, "packets read with protocol independent getters": 500000, "received packets viewed": 400000},
    "assumptions": ["arguments in range (group, channel < 16, 7 bit numbers)", "MIDI 1 note on velocity bytes are 7 bit"],
}
CHECKS["C15"] = {
    "driver": "c15.cpp", "builds": {"san": (2, 100), "opt": (8, 1000)},
    "rule": "all stream message constructors with edge-biased random arguments, names of every length to 299 (product ids to 16) and random ones to 5000 bytes, ASCII, UTF-8 and arbitrary bytes, "
            "in exactly sized buffers; distinct by packet or text",
    "require": {"built messages compared": 100000, "name packets observed": 50000, "continue packets observed": 10000, "names round-tripped": 20000, "function blocks spanning 16 groups": 1000, "received packets viewed": 50000, "default options": 32},
    "assumptions": ["names contain no NUL byte (the packet format pads with NUL)", "function block < 32, 1..16 groups, product instance ids are at most 16 ASCII characters"],
}
CHECKS["C16"] = {
    "driver": "c16.cpp", "builds": {"san": (2, 100), "opt": (8, 1000)},
    "rule": "all constructors with edge-biased random arguments and random builder histories (set byte, set size, add byte, set stream id) against a raw bit model; distinct by packet",
    "require": {"built messages compared": 300000, "flex messages": 50000, "flex texts round-tripped": 10000, "sysex7 builder steps": 50000, "sysex8 builder steps": 80000, "received packets viewed": 60000},
    "assumptions": ["arguments in range: group, channel < 16, 7 bit system data, channel 0 for group addresses, text bytes non zero"],
}
CHECKS["C17"] = {
    "driver": "c17.cpp", "builds": {"san": (1, 100), "opt": (4, 1500)},
    "rule": "all (type, status, byte 4) and all (type, status, byte 3) combinations with random rest, random packets, universal SysEx messages of every short length and random ones; "
            "distinct by packet or message content",
    "require": {"packets judged": 2000000, "recognisers accepting": 4000000, "sysex messages judged": 30000, "universal messages": 10000, "identity replies": 500, "names compared": 300},
    "assumptions": ["packets with reserved bits set in a stream status or a controller index are not judged by the recognisers of those messages",
                    "a 14 byte identity reply with one byte manufacturer ID is not judged"],
}
CHECKS["C18"] = {
    "driver": "c18.cpp", "builds": {"san": (2, 100), "opt": (8, 1000)},
    "rule": "all first-byte/status combinations, random write histories against a bit model, pairs differing in few bits or only in unused words, "
            "printing under random stream formatting, sequences of packets printed and parsed, truncated and corrupted texts; distinct by packet, pair or text",
    "require": {"packets read": 100000, "writes": 100000, "comparisons": 100000, "equal packets with different unused words": 5000, "packets printed": 20000, "packets parsed": 50000, "truncated texts": 5000, "non-hexadecimal texts": 5000},
    "assumptions": ["signed and 0x-prefixed numbers are not judged when parsing"],
}
CHECKS["C19"] = {
    "driver": "c19.cpp", "builds": {"san": (1, 30), "opt": (4, 500)},
    "rule": "every 16-bit timestamp against anchors and neighbours, random pairs, every clock and timestamp message, and a long virtual-time history of clock readings per shard "
            "(steps from 0 ns over single ticks to hours, wrap-arounds) judged by an interval monitor of the tick origin; distinct by operand pair or reading time",
    "require": {"differences compared": 1500000, "differences across wrap-around": 400000, "messages compared": 131072, "clock readings": 100000, "clock readings after wrap-around": 50000,
                "clock readings after more than a day": 10000, "clock histories pinning the origin below 200 ns": 8},
    "assumptions": ["system time is supplied by interposing clock_gettime and does not run backwards"],
}
CHECKS["C20"] = {
    "driver": "c20.cpp", "builds": {"san": (2, 100), "opt": (8, 2000)},
    "rule": "random sender/transport histories (constant, jittering, spiking, drifting delays; idle, bursts, maximal clock distance; resets) under virtual time; distinct by history",
    "require": {"clock messages": 200000, "events scheduled": 200000, "events within the jitter seen": 100000, "constant delay spacings": 10000, "clock wrap-arounds": 20000, "resets": 2000,
                "schedules compared with a new follower": 10000, "jitter and offset readings": 500000, "long histories": 200, "virtual minutes": 2000},
    "assumptions": ["messages are received in sending order, an event's timestamp is less than 65536 ticks after the last clock, nothing is received at the instant of construction",
                    "order, offset and lateness are judged while the security offset has not been set by the user"],
}
CHECKS["C21"] = {
    "driver": "c21.cpp", "builds": {"san": (2, 100), "opt": (6, 800)},
    "rule": "random append histories of numbers, identities and blocks with clears against a byte model, all 7/14 bit numbers, all constructors with content to 40000 bytes, pairs differing in one bit or byte, "
            "identity requests and replies; distinct by message content",
    "require": {"values appended": 50000, "values read back": 50000, "query rounds": 50000, "clears": 500, "comparisons": 8000, "identity requests": 10000, "identity replies": 10000, "large messages": 100},
    "assumptions": ["values fit their announced bit size, appended blocks are 7 bit, identities use valid manufacturer IDs"],
}
CHECKS["C02"] = {
    "driver": "c02.cpp", "builds": {"san": (1, 40), "opt": (4, 300)},
    "rule": "every subtype x size 0..47 x version x fill, complete messages of every kind cut at every position and extended, one to three structural mutations "
            "(sizes, counts, versions, chunk numbers, kinds, manufacturer), all small property exchange chunk numberings; distinct by message",
    "require": {"messages judged": 200000, "acceptance decisions": 3000000, "views read": 50000, "ranges checked": 20000, "messages with a specific view": 30000, "truncations": 20000, "mutants": 20000, "complete messages": 300},
    "assumptions": ["a length or kind byte with bit 7 set may be read masked or not: acceptance is judged only where both readings agree (safety always)",
                    "profile_id_view is documented for, but not offered on, profile specific data: not judged"],
}
CHECKS["C03"] = {
    "driver": "c03.cpp", "builds": {"san": (1, 40), "opt": (4, 200)},
    "rule": "every make_* function in all overloads and default argument forms with edge-biased random arguments, payloads from 0 to the 14 bit limit (profile data to 2.2 MB), "
            "every payload size to 299 and around the limits, replies to messages of every kind; distinct by message bytes",
    "require": {"messages built": 50000, "views read": 50000, "ranges checked": 20000, "replies": 1000, "constructor forms per shard": 700, "property exchange messages": 10000,
                "large profile lists": 20, "profile data over 16383 bytes": 100, "profile data over 2097151 bytes": 1, "chunks over 8191 bytes": 20, "address edits": 5000, "data sizes": 600},
    "assumptions": ["arguments are 7, 14 or 28 bit as documented, payloads fit their announced length, headers only with a first chunk and data only in numbered chunks, texts need no JSON escaping"],
}
CHECKS["C22"] = {
    "driver": "c22.cpp", "builds": {"san": (2, 80), "opt": (6, 500)},
    "rule": "all four make_rjson forms and all property exchange constructors with random keys, values, number-like texts and option lists in exactly sized buffers, "
            "every option value of up to four characters over an alphabet of digits, signs and letters; every header is re-parsed by a strict JSON parser; distinct by header text",
    "require": {"headers parsed": 300000, "members compared": 600000, "numbers": 100000, "empty values": 10000, "message headers": 50000},
    "assumptions": ["keys and values are 7 bit text without quotes, backslashes and control characters"],
}
CHECKS["C01"] = {
    "driver": "c01.cpp", "builds": {"san": (4, 150), "opt": (4, 300)},
    "rule": "every (type, status) packet head and every short SysEx head with all-zero, all-one, 8 bit and random content, random hostile packets, complete and corrupted MIDI-CI messages with nonsense sizes, "
            "garbage through collectors, byte stream parser and text reader; packets and messages in heap blocks of exactly their size under ASan+UBSan; "
            "the values read are also digested and compared between the sanitizer and the optimised build (uninitialised reads); distinct by packet or message content",
    "require": {"packets inspected": 200000, "packet views read": 100000, "sysex messages inspected": 60000, "universal views read": 30000, "identity replies read": 20, "ci messages read": 5000,
                "ranges checked": 2000, "messages delivered": 1000, "packets fed to collectors": 50000, "bytes fed to parsers": 200000, "texts parsed": 5000},
    "assumptions": ["views are obtained from the optional factories or after their validator or recogniser accepted, as the documentation demands"],
}

CHECKS["C23"] = {
    "driver": "c23.cpp", "builds": {"san": (1, 20), "pmr": (1, 20), "custom": (1, 20), "opt": (2, 60)},
    "rule": "message histories (all constructors, copy, move, assign, swap, append, clear, destroy), collector, parser and MIDI-CI workloads with allocation logs on operator new, the custom allocator "
            "and three memory resources; result digests compared between all configurations; distinct by history",
    "require": {"message operations": 200000, "blocks obtained": 50000, "messages delivered": 20000, "packets fed": 500000, "bytes fed": 1000000, "ci messages built": 20000},
    "assumptions": ["moved-from messages are only assigned, cleared or destroyed"],
    "explain": "default configuration", "own_texts": ["AddressSanitizer"],
    "own_keys": ["leak", "block-not-live", "block-size", "storage-not-from-allocator", "storage-size", "shared-storage", "data-on-global-heap", "wrong-resource", "foreign-resource", "digest-mismatch", "clear-keeps-buffer"],
    "also": [(d, f, 1, ["pmr", "custom"]) for d, f in (("c02.cpp", []), ("c03.cpp", []), ("c06.cpp", ["-DSX8=0"]), ("c06.cpp", ["-DSX8=1"]),
                                                       ("c08.cpp", ["-DCALLBACK=1"]), ("c21.cpp", []), ("c04.cpp", ["-DSX8=0"]), ("c04.cpp", ["-DSX8=1"]))],
}
CHECKS["C24"] = {
    "driver": "c24.cpp", "flags": ["-DVH_THREADS"], "builds": {"tsan": (2, 60), "opt": (4, 200)}, "shards": 4, "workers": 4,
    "rule": "2-6 threads with their own parsers, collectors, followers, messages, the jitter reduction clock and shared messages and packets, starting together, under ThreadSanitizer, results compared with a "
            "sequential run afterwards; distinct by the recorded interleaving of operations; objects used alternately by one thread and handed between threads compared with objects used alone; in addition the drivers of the other checks run in six threads each under ThreadSanitizer",
    "require": {"thread results compared": 2000, "operations recorded": 20000, "switches between threads": 200, "shared objects read": 2000, "clock readings": 2000,
                "alternating objects compared": 2000, "hand-overs": 1000, "copies compared": 2000},
    "assumptions": ["an object that is modified is used by one thread only"],
    "explain": "sequential", "own_texts": ["WARNING: ThreadSanitizer"], "own_keys": ["result-in-thread", "hidden-shared-state"],
    "also": [(d, ["-DVH_THREADS", "-DVH_PARALLEL_MAIN=6"] + f, 0, ["tsan"]) for d, f in (("c01.cpp", []), ("c03.cpp", []), ("c06.cpp", ["-DSX8=0"]), ("c06.cpp", ["-DSX8=1"]),
             ("c08.cpp", ["-DCALLBACK=0"]), ("c08.cpp", ["-DCALLBACK=1"]), ("c10.cpp", []), ("c15.cpp", []), ("c18.cpp", []), ("c20.cpp", []), ("c21.cpp", []), ("c22.cpp", []))],
}

CHECKS["C25"] = {
    "driver": "c25.cpp", "builds": {"san": (2, 40), "pmr": (1, 20), "custom": (1, 20), "opt": (4, 100)},
    "rule": "all constructors, edits, segmentations, collector and parser histories with each (or, over 12, the first 12 and a sample) of their memory requests failing in turn, all collector, parser and sender callbacks "
            "throwing or resetting in turn, in the default, polymorphic and custom allocator configuration; distinct by operation and content",
    "require": {"operations": 20000, "edits": 20000, "histories": 8000, "requests failed": 100000, "failures reported": 20000, "callbacks thrown": 40000, "recoveries compared": 50000, "senders thrown": 20000,
                "continued after exceptions": 15000, "resets in callbacks": 15000},
    "assumptions": ["a collector or parser is reset before it is used again after memory ran out", "the callback that resets its caller does not use the message it was given afterwards"],
    "technique": "fault injection into every allocation and callback with monitors on exceptions, deliveries, live blocks and later behaviour, ASan+UBSan and optimised builds",
}
CHECKS["C26"] = {
    "driver": "c26.cpp", "builds": {"san": (1, 30), "pmr": (1, 20), "custom": (1, 20), "opt": (3, 100)},
    "rule": "hostile packets, byte streams, packet histories with and without limit, hostile and announced-size messages, builders, senders and clock histories with the size of every memory request logged; distinct by content",
    "require": {"operations without memory": 500000, "operations with bounded memory": 2000000, "requests observed": 300000, "packets read": 200000, "bytes parsed": 20000000, "kept memory compared": 40000, "messages delivered": 50000,
                "packets collected": 2000000, "oversized messages": 10000, "messages read": 30000, "messages built": 20000, "clock histories": 10000},
    "assumptions": ["requests by the callbacks are not counted"],
    "technique": "allocation monitor logging every request of the library against bounds derived from the input, ASan+UBSan and optimised builds",
}

CHECKS["C27"] = {
    "driver": "c27.cpp", "builds": {"san": (1, 20), "opt": (2, 60)},
    "rule": "sessions of one to five senders on groups of their own (SysEx7, SysEx8, MIDI-CI, channel voice, system, timestamps) interleaved on one cable, optionally as text or translated, MIDI 1 cables with running status, realtime bytes, "
            "any chunking and one to three hops, and MIDI-CI requests carried over a random path and answered; distinct by transported bytes",
    "require": {"messages received": 3000000, "packets transported": 3000000, "interleavings": 20000, "packets through text": 1000000, "translated on the way": 50000, "stream packets transported": 200000, "notes on with velocity zero": 200, "MIDI 1 messages enumerated": 2600000, "sizes carried": 3000, "bytes transported": 10000000, "running status": 50000,
                "realtime in between": 300000, "hops": 40000, "messages carried": 40000, "answers": 20000},
    "assumptions": ["one SysEx8 message at a time per collector"],
    "technique": "end-to-end conservation monitor (exactly once, in order, unchanged) at the receivers of simulated cables, ASan+UBSan and optimised builds, coverage guided",
}

for _id in ("C23", "C24", "C25", "C26"): CHECKS[_id]["guided"] = None
for _id in ("C01", "C02"): CHECKS[_id]["guided"] = "guidedsan"

# the machine is fast: scale all workloads (unscaled, exhaustive sections stay as they are)
_QUICK = {"C25": 4, "C26": 8, "C12": 6, "C22": 8, "C23": 2, "C24": 5, "C09": 12, "C08": 12, "C06": 15, "C07": 15}
for _id, _c in CHECKS.items():
    _q = _QUICK.get(_id, 15)
    _c["builds"] = {b: (q * _q, t * 6) for b, (q, t) in _c["builds"].items()}
