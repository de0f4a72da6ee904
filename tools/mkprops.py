#!/usr/bin/env python3
"""Regenerates properties.jsonl (one compact source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over.split(), text=' '.join(qtext.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files.split(),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

FR = "src/stream/framer.c include/embc/stream/framer.h"
p("C01", "Framer link delivers messages exactly once, in order, unmodified, despite loss",
  """Two framers joined by a link that may lose, corrupt or delay bytes deliver every payload accepted by send() to the peer's
  port handler exactly once, in send order, with identical port, message id, port definition and bytes, as long as every message gets
  through within the receiver's reorder window (the peer's receiver
  extracts each frame or one of its retransmissions no later than 800 ms after a later frame overtook it, and no resync is in progress). A loss, a corrupted byte, a lost acknowledgement or a retransmission never causes a duplicate, reordered, altered or invented delivery.""",
  "fault_sequences schedules histories",
  "every placement of up to k losses/corruptions over the data and ack frames of a history of messages in either direction, frame-id wrap-around included, and every ordering of deliveries, timers and transmit completions",
  "the tests drive one framer against a scripted HAL with a handful of fixed loss scripts; no two real framers are ever connected and frame ids rarely wrap",
  FR, [("sequence numbers, ack masks, retransmission", "src/stream/framer.c rx_complete/handle_ack/tx_timeout"), ("receive reorder list", "src/stream/framer.c rx_insert")],
  [("rx_next_frame_id / tx_next_frame_id", "mod-16 sequence state", "framer.c")], ["port rx callback", "HAL tx_fn"])
p("C02", "Every send is completed exactly once, in order, and success means delivered",
  """Each payload handed to send() on a port that registered a transmit-complete callback gets exactly one completion callback carrying its own
  port and message id, and completions come in send order. A SUCCESS completion is reported only after the peer acknowledged that very frame; a send is completed with a
  failure status only after the initial transmission plus every permitted retry (16), resync() apart, which completes what it abandons with ABORTED.""",
  "fault_sequences schedules histories",
  "all interleavings of acks (any order, lost, repeated, negative), timeouts, late transmit-done notifications and further sends, over one to several outstanding and queued messages",
  "tests cover a few scripted ack orders with an immediate tx_done",
  FR, [("tx frame table, ack handling, retry counter", "src/stream/framer.c")], [], ["tx_done_fn of the port", "HAL tx_fn"])
p("C03", "The receiver extracts exactly the valid frames from any byte stream",
  """For any stream of received bytes, however it is split across receive calls, the framer hands over exactly the frames a
  left-to-right scan finds: a frame starts at a start-of-frame byte with a valid 8-byte header checksum and a length of at most 240, is taken when its payload checksum
  matches, and otherwise the scan resumes at the byte after that start byte; after a taken frame (its length plus 13 bytes, whatever the value of the end byte) it continues
  behind it, and repeated start bytes between frames are ignored. Garbage, truncated frames and corrupted frames never hide a later complete valid
  frame for good or produce a frame that was not in the stream, and the receive counter counts the frames taken.""",
  "inputs",
  "all concatenations, up to a bound, of fragments (valid data/ack frames, valid prefixes, corrupted headers and payloads, garbage, start-of-frame bytes, frames nested inside payloads) and all splits of them into receive calls",
  "tests feed a few corrupted streams; resynchronisation depends on where every later frame lies relative to the damage",
  FR, [("byte state machine", "src/stream/framer.c embc_framer_hal_rx_byte / framer_resync"), ("crc8/crc32 checks", "src/stream/framer.c embc_framer_validate")], [], ["rx hook", "port rx callback"])
p("C04", "Frames round-trip, and every small corruption of a frame is rejected",
  """For every frame id, port, message id, port definition and payload of 0 to 240 bytes, a constructed data or ack frame has the documented byte layout, validates
  successfully and yields exactly the fields it was built from. Any alteration of up to two bits or of one burst of at most 32 bits within a frame's payload and checksum, or within its
  header, makes validation fail, and a short, over-long or damaged frame reports the documented error and never SUCCESS.""",
  "inputs configurations",
  "all field values at each boundary, every payload length 1..240, every 1-bit and 2-bit flip of representative frames and every burst position, every truncation length",
  "tests validate a few hand-made frames and one corrupted one",
  FR + " src/crc.c include/embc/crc.h", [("construct/validate/parse", "src/stream/framer.c"), ("crc8/crc32", "src/crc.c")], [], ["embc_framer_validate", "embc_framer_construct_frame", "embc_framer_construct_ack", "embc_framer_send wire bytes"])
p("C05", "Acknowledgements are truthful about what was received",
  """Every received valid data frame for an existing port is answered by exactly one successful acknowledgement that echoes its frame id, port and message id, and whose mask has bit 8
  set for the frame itself and each other bit set exactly for the neighbouring frame ids (bit 7 previous, bit 9 next, and so on, modulo 16) that have been received, as far as they lie in the receiver's
  history of eight ids before the next expected one; a resync command or a frame far out of sequence (not within two ahead or three behind) is acknowledged on its own and starts a new history. A frame whose payload checksum fails while the receiver is
  synchronised is answered with a MESSAGE_INTEGRITY nack, lost synchronisation with a SYNCHRONIZATION nack, a damaged or intact acknowledgement with nothing, and a receiver never acknowledges a frame it has not received.""",
  "histories inputs",
  "all sequences up to a bound of received frame ids relative to the expected one (in order, ahead, behind, repeated, wrapped) interleaved with corrupted frames and receive timeouts",
  "tests check the ack mask for about six hand-written orders near frame id 0",
  FR, [("ack construction from receive state", "src/stream/framer.c construct_ack_from_header / rx_complete")], [], ["HAL tx_fn bytes", "rx hook"])
p("C06", "The framer neither leaks nor misuses buffers, and respects HAL ownership",
  """Over any history of sends, receptions, errors, timeouts and resynchronisations, every buffer taken by the framer is eventually returned to its allocator exactly once, so that after
  the link goes idle the number of available buffers equals the number before. A buffer handed to the HAL transmit function is not freed, reused, modified or handed over again until
  the HAL reports transmit done, and finalize releases everything except what the HAL still owns.""",
  "histories schedules fault_sequences",
  "all histories up to a bound over send, ack, nack, corrupt, duplicate, invalid-port, timeout, resync, delayed tx_done and finalize",
  "tests free what they receive and check a leak only at teardown of scripted cases with immediate tx_done",
  FR + " src/memory/buffer.c", [("buffer ownership transfer", "src/stream/framer.c")], [], ["buffer allocator", "HAL tx_fn/tx_done"])
p("C07", "The framer always makes progress: retransmits, bounds its window, drains",
  """As long as the timer service and the HAL respond, an unacknowledged frame is retransmitted after each 250 ms transmit timeout and on a negative acknowledgement of it, until acknowledged or its retries are exhausted, at most three data frames are
  outstanding, and queued sends start in order as slots free up. The framer never has more than one outstanding timer, a timer is always pending while
  any frame awaits acknowledgement, no timer is left pending by finalize at any moment, and after any outage of the link new sends are delivered again.""",
  "schedules fault_sequences histories",
  "all fault placements within a bound followed by a fault-free period; all orders of timer expiry against receptions; outages lasting past retry exhaustion",
  "tests script individual timeouts; liveness needs every fault placement followed by a fair suffix",
  FR, [("tx timeout scheduling", "src/stream/framer.c timer_schedule/timer_callback"), ("tx queue", "src/stream/framer.c transmit_queued")], [], ["HAL timer_set_fn/timer_cancel_fn", "HAL tx_fn"])
p("C08", "Frames reach only the addressed port, and port 0 serves ping/status/resync",
  """A received data frame is delivered to the handler registered for its port and to no other; frames for unregistered or nonexistent ports, and malformed port 0 requests, leave the
  framer fully operational. Port 0 answers a ping request with a ping response carrying the same message id and payload, a status request with a status
  response whose counters equal the events that occurred before it; other port 0 frames reach the handler registered for port 0, and a response never triggers another response.""",
  "inputs histories",
  "all (port, command, length, content) combinations at boundaries, in any sequence with ordinary traffic, and all traffic mixes feeding the counters",
  "tests try one ping and one status request in a fresh framer",
  FR, [("port demultiplexing", "src/stream/framer.c port handlers"), ("port 0 command handling", "src/stream/framer.c port0")], [], ["port rx callback", "HAL tx_fn", "embc_framer_status_get"])
BU = "src/memory/buffer.c include/embc/memory/buffer.h"
p("C10", "The buffer allocator hands out disjoint, empty buffers and conserves them",
  """An allocated buffer has capacity at least the requested size, is empty, and does not overlap any other live buffer or anything else; freeing returns it so that the number of
  allocatable buffers of each size is always exactly the configured number minus those outstanding. When a size is exhausted or larger than every configured size, alloc raises
  a fatal error and alloc_unsafe returns null (oversize included), with no side effect. Sizes that are not positive, a missing size table and freeing memory that a pool did not hand out are refused.""",
  "histories configurations",
  "all alloc/alloc_unsafe/free sequences up to a bound for several pool configurations and every requested size 1..largest+1",
  "tests allocate a handful of buffers in one configuration",
  BU, [("power-of-two size classes and free lists", "src/memory/buffer.c")], [], ["embc_buffer_alloc", "embc_buffer_free"])
p("C11", "Buffer reads, writes, copies and erases never pass the bounds and keep bytes",
  """Every sequence of buffer operations behaves like the same operations on an ideal byte array with a cursor, a length and a reserve: written values read back identically (little/big endian as named), length and cursor advance
  as documented, and bytes at or past capacity minus reserve, or outside the buffer, are never modified. Operations that would overrun, including a cursor or range out of bounds, are refused or raise
  a fatal error as documented without corrupting data; a copy leaves its source as it was, a string that fits exactly is accepted in full and a truncating write keeps exactly what fits. Null arguments are refused.""",
  "histories inputs configurations",
  "all operation sequences up to a bound over small capacities (heap and static) with every size/offset at and around the boundaries, against an independent byte-array model",
  "tests exercise each operation once or twice on a roomy buffer",
  BU, [("bounds assertions and cursor arithmetic", "include/embc/memory/buffer.h, src/memory/buffer.c")], [], ["buffer contents, length, cursor", "embc_fatal"])
p("C12", "Fixed pool hands out distinct blocks, conserves them and reports exhaustion",
  """From a pool of N elements exactly N allocations succeed without an intervening free, each block is aligned, of at least the element size and disjoint from every other live block and from pool bookkeeping,
  and a freed block becomes available again. is_empty is true exactly when all are allocated; allocation from an empty pool is fatal for alloc and null for alloc_unsafe. Null arguments, empty sizes and a finalized pool are refused.""",
  "histories configurations", "all alloc/free sequences up to a bound for several element sizes and counts, with full overwrite of live blocks",
  "tests use one element size and a single order", "src/memory/pool.c include/embc/memory/pool.h", [("free list inside blocks", "src/memory/pool.c")], [], ["embc_pool_alloc", "embc_pool_is_empty"])
p("C13", "Object pool reference counting: constructed once, destroyed once at last release",
  """Each allocated object is run through the constructor exactly once and starts with one reference; incr and decr track references, and exactly when the last reference is released the
  destructor runs once and the object becomes allocatable again. Objects are disjoint, at most the configured number are live, and exhaustion is reported as documented.""",
  "histories configurations", "all alloc/incr/decr sequences up to a bound over several object sizes and counts",
  "tests use one scripted sequence", "src/memory/object_pool.c include/embc/memory/object_pool.h", [("reference counts and free list", "src/memory/object_pool.c")], [], ["constructor/destructor callbacks"])
p("C14", "Block allocator hands out disjoint runs and conserves blocks",
  """A successful block allocation of a given size returns enough contiguous blocks inside the instance that overlap no other live allocation, and freeing makes exactly that allocation's blocks available again. An
  allocation fails only when no sufficiently long free run exists, and never disturbs live data or bookkeeping. Sizes that are not positive, null arguments and freeing memory that it did not allocate are refused.""",
  "histories configurations", "all alloc/free sequences up to a bound over small block counts (including more than one bitmap word) and sizes of one to several blocks",
  "the module has only trivial tests", "src/memory/block.c include/embc/memory/block.h", [("allocation bitmap", "src/memory/block.c")], [], ["embc_block_alloc"])
p("C15", "Intrusive lists behave exactly like ideal sequences",
  """Any sequence of list operations (add, remove, insert, append, peek, contains, length, index and iteration) gives exactly the results of the same operations on an ideal
  sequence, including empty and single-element lists and items moved between lists. Removing an item leaves it unlinked so that it may be re-added, and iterating while removing
  the current item visits every remaining item once.""",
  "histories", "all operation sequences up to a bound over a few items and two lists",
  "tests cover each operation once on 2-3 items; contains and append of an empty list are untested", "include/embc/collections/list.h src/collections/list.c", [("doubly linked circular list", "include/embc/collections/list.h")], [], ["list iteration both ways"])
p("C16", "The integer map is a map: puts, gets and removes agree with an ideal map",
  """After any sequence of put, get and remove with any keys (colliding, negative or extreme), get returns exactly the last value put for a key not since removed, put reports
  the previous value, remove reports and deletes exactly that key, and the length is the number of keys present. Looking up an absent key reports it and gives a null value. This holds across internal growth; memory in use follows the keys present, not all keys ever put, and freeing the map releases all memory it took. A null map is refused.""",
  "histories inputs", "all put/get/remove sequences up to a bound over keys chosen to collide modulo every table size, started from every fill level around growth",
  "tests insert keys that never share a bin across growth", "src/collections/intmap.c include/embc/collections/intmap.h", [("chained hash with resize", "src/collections/intmap.c")], [], ["embc_intmap_get/put/remove/length", "allocator"])
p("C17", "Integer map iteration visits every key once, even while the map changes",
  """An iterator over an unchanging map returns every entry exactly once and then reports the end, however many iterators are active. If entries are removed while iterating (through the map,
  including the one just returned or the one due next), no removed entry is returned afterwards, every entry present throughout is returned exactly once, and puts during iteration never
  cause a crash, repeat or omission of older entries; freeing an iterator leaves the map fully usable. Null arguments are refused.""",
  "histories schedules", "all interleavings up to a bound of next/put/remove/iterator create and free over one or two iterators and colliding keys",
  "tests iterate three-entry maps with one removal", "src/collections/intmap.c include/embc/collections/intmap.h", [("iterator list patched on removal", "src/collections/intmap.c")], [], ["embc_intmap_iterator_next"])
p("C18", "The generic hash map is a map for any hash function",
  """After any sequence of put and get, with a caller-supplied hash and equality function of any quality, get returns exactly the last value put for an equal key and not-found otherwise, put reports the previous value,
  and the length equals the number of distinct keys. Removing a key releases its memory, and freeing releases all memory the map took. A null map is refused.""",
  "histories inputs", "all put/get sequences up to a bound under good, constant and adversarial hash functions",
  "tests insert a few strings with a good hash", "src/collections/hashmap.c include/embc/collections/hashmap.h", [("hash table", "src/collections/hashmap.c")], [], ["embc_hashmap_get/put/length", "allocator"])
p("C19", "The string map interns strings and remains a map under all put/get/remove",
  """After any sequence of put, get and remove with any strings (empty, equal contents at different addresses, shared prefixes), the string map gives exactly the results of an ideal map keyed by string contents,
  independent of the caller's later changes to its key storage where the map documents that it copies. Removing a key releases its memory, and freeing releases all memory the map took.""",
  "histories inputs", "all operation sequences up to a bound over keys with equal contents, shared prefixes and the empty string",
  "tests do a single put/get per string", "src/collections/strmap.c include/embc/collections/strmap.h", [("string table", "src/collections/strmap.c")], [], ["API results", "allocator"])
EV = "src/event_manager.c include/embc/event_manager.h"
p("C20", "Timed events fire once, when due, in time order; cancelled ones never",
  """process(now) invokes exactly the scheduled, not cancelled events whose timestamp is at or before now, each once with its own id and data, in timestamp order and in scheduling order among equal timestamps, and reports how many it ran. Ids of pending events are
  unique and positive; next-event time and time-to-next always equal the earliest pending timestamp and the remaining time (or their documented none values). Memory in use is bounded by the greatest number of events pending at once, however many are scheduled over time.""",
  "histories schedules", "all schedule/cancel/process/query sequences up to a bound over few distinct times, including ties, past times and stale ids",
  "tests run a few fixed schedules", EV, [("sorted active list and free list", "src/event_manager.c")], [], ["event callback", "API results"])
p("C21", "Event callbacks may schedule and cancel freely while events are processed",
  """A callback running inside process() may schedule new events and cancel any pending event, including the one that would run next, without corrupting the manager: a cancelled event never
  runs afterwards, each remaining event runs exactly once when due, and an event scheduled from a callback runs exactly once, when due. Freeing the manager releases all memory it took.""",
  "schedules histories", "all assignments, up to a bound, of actions (schedule earlier/now/later, cancel self/next/other/stale) to callbacks of several pending events",
  "no test cancels from a callback", EV, [("iteration over active list", "src/event_manager.c embc_evm_process")], [], ["event callback", "allocator"])
p("C22", "The state machine runs each event to completion, in order, with exit and enter",
  """Events, including those posted from inside handlers, are processed one at a time in FIFO order; for each, the first matching transition in table order (specific or any-state/any-event, handlers may accept, skip or override the target) is applied. Every state
  change calls exactly one exit handler of the old state then one enter handler of the new state, reset returns to the initial state, and an unhandled event changes nothing.""",
  "programs histories", "all event sequences up to a bound over several transition tables whose handlers post further events, skip or override",
  "tests use one table and few events", "src/fsm.c include/embc/fsm.h", [("event queue and transition scan", "src/fsm.c")], [], ["enter/exit handlers", "state"])
CL = "src/cli.c include/embc/cli.h"
p("C23", "Command-line editing executes exactly the visible line, in full or not at all",
  """For any stream of typed characters the command executed on a line end is exactly the visible line after backspace editing, with comments and redundant blanks removed as documented; blank and comment-only lines execute
  nothing. A line longer than the maximum is never executed, not even truncated, and leaves the next line unaffected; echo, prompt and verbosity follow the documented modes and no input overruns the line buffer. A null instance is refused.""",
  "inputs histories", "all key sequences up to a bound over letters, blanks, comment marks, backspace/delete, CR/LF, and every line length around the maximum, in each echo/verbose mode",
  "tests type a few fixed lines", CL, [("line editor and compactor", "src/cli.c")], [], ["execute callback", "print output"])
p("C24", "Command arguments are split exactly at separators, within documented limits",
  """Splitting a command line yields exactly its maximal runs of non-separator characters, in order, as separate null-terminated arguments with the caller's own cookie passed through, and the command line is not read beyond its end. Too many arguments are
  rejected as documented instead of being dropped, and the argument callback's result is returned.""",
  "inputs", "all strings up to a bound over argument characters and each separator, every argument count around the maximum",
  "tests split two or three strings", CL, [("argument splitter", "src/cli.c embc_cli_line_parser")], [], ["execute_args callback"])
CS = "src/cstr.c include/embc/cstr.h"
p("C25", "Integer text conversion is exact or refused",
  """Conversion of text to 32-bit unsigned and signed integers succeeds exactly for an optional sign (signed only), and decimal or 0x-prefixed hexadecimal digits with optional surrounding white space, whose value fits the type, and then returns exactly that value. Every other
  text, including empty text, trailing garbage, a bare prefix and out-of-range values, is reported as an error and leaves the output untouched.""",
  "inputs", "all strings up to a bound over digits, hex letters, signs, prefix characters, blanks and garbage, plus every value adjacent to each power of ten/sixteen and type limit",
  "tests try a dozen values", CS, [("digit accumulation", "src/cstr.c")], [], ["return code and *value"])
p("C26", "Scaled-decimal and float text conversion are exact or refused",
  """Conversion of decimal text with a given power-of-ten exponent returns the number times ten to that exponent, truncated as documented, for every well-formed decimal that fits 32 bits, and an error otherwise.
  Float conversion returns the nearest single-precision value of well-formed text and an error for anything with no number or with trailing non-blank text.""",
  "inputs", "all strings up to a bound over digits, point, sign and blanks combined with every exponent in range",
  "tests try a few values", CS, [("decimal scaling", "src/cstr.c embc_cstr_to_i32s / embc_cstr_to_f32")], [], ["return code and *value"])
p("C27", "Bounded string utilities match their definitions and stay in bounds",
  """Bounded copy always null-terminates, writes at most the stated size, copies the longest fitting prefix and reports whether all fit; case-insensitive compare, starts-with, upper-casing, hex digit conversion, boolean parsing and
  table lookup agree with their definitions for every input. Null arguments are handled as documented.""",
  "inputs", "all short strings over a small alphabet including case pairs, non-letters adjacent to the letter ranges and high-bit bytes; all buffer sizes; all 256 byte values",
  "tests try a few strings", CS, [("string helpers", "src/cstr.c")], [], ["return values", "guard bytes around outputs"])
p("C28", "CRC functions compute their standard CRC, incrementally and for any length",
  """The CRC functions return the standard CRC-8, CRC-16 CCITT and CRC-32 values their documentation names for any data and length, and continuing from a previous value gives the same result as one call over the concatenated data. The
  input is never modified or read beyond its length.""",
  "inputs", "all byte strings up to length 2 (and 3 when thorough), every length to 300 for pattern data, every split point, every single-bit message",
  "tests check one vector each", "src/crc.c include/embc/crc.h", [("table driven CRC", "src/crc.c")], [], ["return value"])
p("C29", "LFSR sequence has full period and following detects any slip exactly once",
  """Starting from any nonzero seed the generator steps through all 65535 states before repeating, never reaching zero, and its bit/byte/word outputs are consistent with one another. A follower fed the output of a generator in any state synchronises within its documented window,
  then predicts every value without error, flags every value that differs, and resynchronises after any disturbance.""",
  "inputs histories", "all 65535 states for the generator; all states times disturbance positions for the follower",
  "tests follow a few hundred values from one seed", "src/lfsr.c include/embc/lfsr.h", [("shift register", "src/lfsr.c")], [], ["generated and followed values"])
p("C30", "The 32-bit pattern generator emits the documented sequence, every word unique",
  """The transmit pattern alternates single-bit shift words and complement/counter words exactly as documented, starting from the documented reset point; every word within one period allows the position in the sequence to be
  recovered, and the sequence repeats only after its full documented period. A null instance is refused.""",
  "histories", "every step of a complete period",
  "tests check the first few words", "src/pattern_32a.c include/embc/pattern_32a.h", [("pattern state", "src/pattern_32a.c")], [], ["tx_next values"])
p("C31", "The pattern checker counts every missing, duplicated and corrupted word exactly",
  """A receiver fed the pattern from any starting point synchronises as documented and then counts no errors; each run of dropped words adds exactly that number to the missing count, each repeated word adds to the duplicate count, and a corrupted word is counted as an error
  with the documented resynchronisation. Receive count always equals the number of words fed, and buffer and word interfaces agree. A null instance is refused.""",
  "fault_sequences histories", "all placements up to a bound of drops, duplicates, corruptions and jumps, from start points around every wrap of the shift and counter",
  "tests cover one drop and one duplicate from reset", "src/pattern_32a.c include/embc/pattern_32a.h", [("receiver state machine", "src/pattern_32a.c")], [], ["status counters"])
p("C32", "Unaligned byte-buffer encode/decode is exact, ordered and confined",
  """Every fixed-width byte-buffer encode writes exactly its width of bytes in the named byte order at the given position and nothing else, and the matching decode returns the identical value for all values at any alignment; the
  cursor functions advance the position by exactly the width, and each macro behaves as one statement or expression for any argument expression.""",
  "inputs", "all 8/16-bit values, all boundary and one- and two-bit 32/64-bit values, all alignments, all short field sequences",
  "tests use one value per width", "include/embc/bbuf.h", [("inline encode/decode", "include/embc/bbuf.h")], [], ["bytes and return values", "guard bytes"])
p("C33", "Time conversions round as documented, for every sign and magnitude",
  """Conversions between 34Q30 time and seconds, milliseconds, microseconds, nanoseconds, counter ticks and floating point are exact where representable, round as documented (nearest, up or down) otherwise for positive and negative times, and are monotonic. Converting an integral
  number of seconds, milliseconds or microseconds to time and back returns that number, and the absolute value agrees with ordinary arithmetic.""",
  "inputs", "all values near zero, each unit and type boundary and powers of two, both signs, against wide-integer arithmetic",
  "tests check a few positive values", "include/embc/time.h", [("fixed-point macros and inlines", "include/embc/time.h")], [], ["returned values"])
p("C34", "Arithmetic helpers (clz, power of two, rounding, range) are right for all inputs",
  """Count-leading-zeros (32 for zero), round-up to a power of two, round-away-from-zero to a multiple, restrict-to-range, signum and the other helpers of the public headers return the mathematically defined value for every
  argument in their documented domain and of any integer type.""",
  "inputs", "all 2^16 low values, all powers of two and their neighbours, all single- and double-bit patterns (all 2^32 values when thorough)",
  "tests check a handful of values", "include/embc/platform.h include/embc/cdef.h src/platform.c include/embc/platform/stdlib.h", [("inline helpers", "include/embc/cdef.h")], [], ["returned values"])
p("C35", "Log filtering and level names are consistent for every level",
  """A log statement is emitted exactly when its level is at or below both the compile-time and global thresholds, with its message formatted once and its own file and line; every level maps to its own documented name and single-character code, and
  out-of-range levels are safe.""",
  "configurations inputs", "all pairs of statement level and configured level; every level value, in and out of range",
  "tests emit at two levels", "src/log.c include/embc/log.h", [("level tables and macros", "src/log.c, include/embc/log.h")], [], ["registered printf handler"])
p("C36", "Every error code has its own name and description",
  """For each error code in the public list the name lookup returns that code's name and the description lookup that code's description, names are distinct, and any other value yields the documented unknown text, never out-of-bounds access.""",
  "inputs", "all 16-bit codes and extreme integers", "tests look up two codes", "src/ec.c include/embc/ec.h", [("code tables", "src/ec.c")], [], ["returned strings"])
p("C37", "Contract macros and platform allocation enforce exactly what they state",
  """Each design-by-contract and argument-check macro passes for every argument that satisfies its condition with no effect, and otherwise raises exactly one fatal error (contract) or returns the documented error code (argument check), evaluating each argument once; the return-on-error and exit-on-error macros propagate exactly the non-zero codes. The
  platform allocator returns zero-filled or unspecified memory as documented, is fatal on exhaustion and is usable only after being set; the shared-library fatal and print hooks reach the registered functions with their own user data.""",
  "inputs configurations", "all boundary and sign values of each macro's argument; all registration orders and failure points of the allocator",
  "most macros have no test", "include/embc/dbc.h include/embc/argchk.h include/embc/assert.h src/lib.c src/platform.c", [("macros", "include/embc/dbc.h, include/embc/argchk.h")], [], ["embc_fatal", "return code"])
AS = "src/stream/async_source.c src/stream/async_sink.c src/stream/async.c include/embc/stream/async.h"
p("C38", "The stream source sends its data as one ordered open/write/close transaction",
  """A source opens its consumer, answers each write request with exactly one write of the next bytes (in the requested block, carrying its transaction id, or at most the requested maximum transfer unit and its own buffer), and leaves the bytes unchanged until acknowledged; once every byte is acknowledged it
  closes with success. A refused open, an error response or an abort ends the transfer at once with that status: no further write is sent, the done callback is called exactly once per opened transfer with the status of the close, and the source can be opened again. Null arguments and empty transfers are refused.""",
  "histories fault_sequences", "all orders up to a bound of write requests, immediate or deferred responses (success or error), aborts, stray events and reopening, over data lengths around the buffer sizes",
  "tests run one happy path", AS + " include/embc/stream/async_source.h", [("transaction state machine", "src/stream/async_source.c")], [], ["producer/consumer messages", "done callback"])
p("C39", "The stream sink stores exactly what was written, or reports an error",
  """While open, a sink stores each write's bytes in order within its buffer and hands them to the write callback, answers every request exactly once, acknowledges with success only what it stored, asks for more data after every stored write, and on close reports the stored length once; it emits events only while open.
  No sequence of messages, including overflow, repeated or unexpected ones, writes outside its buffer. A null sink is refused.""",
  "histories fault_sequences", "all message sequences up to a bound including oversize, repeated and unexpected messages and buffer changes",
  "tests run one happy path", AS + " include/embc/stream/async_sink.h", [("transaction state machine", "src/stream/async_sink.c")], [], ["sink buffer", "done callback"])
p("C40", "A source connected to a sink transfers any data end to end exactly",
  """Connecting a source to a sink transfers data of any length from one byte up to the sink's capacity unchanged, whatever the buffer sizes, the order in which pending messages are delivered and the moment at which the receive buffer is provided, and both ends report completion exactly once with success; a longer or
  aborted transfer is reported as failed and never as success.""",
  "schedules inputs", "all delivery orders up to a bound for every data length around multiples of the write size and the sink capacity, all abort points",
  "one test connects the two with one length", AS + " include/embc/stream/async_source.h include/embc/stream/async_sink.h", [("message protocol", "src/stream/async_source.c, src/stream/async_sink.c")], [], ["sink buffer", "done callbacks"])

p("C41", "The Python package presents the C library faithfully",
  """The Python package under py/ loads against the library built from the same tree and every declaration in it agrees with the C function, structure and error code of that name. Buffers, buffer allocators, patterns and framers used through it behave as the C documentation says: bytes and integers are read back as written, pattern losses are counted,
  and messages sent over a faulty link between two Framer objects reach the callback of their port exactly once, in order and unchanged, and are completed. A payload larger than the maximum is refused, no exception arises in a callback, and deleting the objects releases all memory.""",
  "inputs operation sequences schedules faults", "all sequences of buffer and pattern operations up to a depth and all placements of a few losses, damages and reorderings on a link of two framers, driven through Python",
  "the Python tests are not part of the test suite and the package did not load when this was written", "py/embc include/embc/memory/buffer.h include/embc/stream/framer.h include/embc/pattern_32a.h include/embc/ec.h", [("declarations", "py/embc/memory/buffer.py, py/embc/pattern_32a.py, py/embc/ec.py"), ("Framer class", "py/embc/stream/framer.py")], [], ["return values and attributes of the Python classes", "callbacks", "debug information of the shared library"])

p("C42", "The bundled printf formats integers, text and characters as the C library does",
  """For every format made of ordinary characters and the directives d i u x X o p c s %, with the flags - 0 #, a field width and the lengths l ll z, every function of third-party/tinyprintf produces the characters and the length that the C library's function of that name produces, for every value.
  The limited forms write no more than the size given, always terminate what they write (nothing for a size of 0) and return the length the complete text would have; the unlimited ones write that text and the terminating 0 only. The directives which embc/inttypes.h defines for sized integers (PRI*S) print values of those types. A format that ends inside a directive is not read beyond its end.
  Outside of the supported subset: precision, '#' with the value 0, '-' together with '0', a width for %c, floating point.""",
  "inputs", "all combinations of flags, width, length and conversion with boundary values, every buffer size around the length of the result, and every cut of a format",
  "the repository compiles it for other platforms but tests none of it; the space of directives, values and buffer sizes is large and boundaries matter", "third-party/tinyprintf/tinyprintf.c include/embc/inttypes.h", [("formatter", "third-party/tinyprintf/tinyprintf.c:tfp_format"), ("bounded output", "third-party/tinyprintf/tinyprintf.c:tfp_vsnprintf"), ("directives", "include/embc/inttypes.h")], [], ["contents of the destination and of the memory behind it", "return values", "characters passed to the output function"])

p("C43", "The log checker reports exactly the buffers that were not freed",
  """py/bin/buffer_log_check.py, given a log in which the buffer allocator logged its operations, prints nothing when every allocated buffer is freed, and otherwise reports, with the number of the line and the line of the allocation concerned, each allocation of a buffer that is already allocated ("line N: alloc without free: ..."),
  each free of a buffer that is not allocated ("line N: free without alloc: ...", naming its last allocation if there was one) and, at the end, once each buffer that is left over ("Alloc without free"). It recognises every line the library logs for allocating (checked and unchecked) and freeing; failed allocations and other lines do not count, and neither the length of the log nor a missing end of line matters.""",
  "histories inputs", "all histories of the allocator up to a bound with each line lost in turn, and all sequences of log lines up to a bound over pointers that resemble each other",
  "the program has no tests and its input is the log text of another component", "py/bin/buffer_log_check.py src/memory/buffer.c", [("matching of allocations and frees", "py/bin/buffer_log_check.py:run"), ("log of the allocator", "src/memory/buffer.c")], [], ["standard output", "exit code"])

p("C44", "The qualification program counts every ping exactly once and correctly",
  """py/bin/framer_qual.py --ping N resynchronises the link, sends exactly N pings (message ids counting from 0 modulo 256, 240 bytes each, together one continuous 32-bit pattern) with never more than three unanswered, and counts each of them once: completed when it was sent and answered with its own id and contents, transmit error, missing when a later ping was answered instead, or timeout 5 s after it was sent.
  While the link loses, damages or delays frames that the framer repairs, all N complete and no errors are counted; repeated, forged and unexpected responses complete nothing, nor do they disturb the count of other pings. With --ping 0 it sends no pings.""",
  "fault_sequences histories schedules", "all placements up to a bound of losses, damage and delays over the frames of a session; outages of several lengths beginning at every frame, in each direction; all placements up to a bound of repeated and forged responses",
  "the program has no tests and needs a serial port and a device that misbehaves at the right moment", "py/bin/framer_qual.py py/embc/stream/framer.py", [("ping queue", "py/bin/framer_qual.py:PingQueue"), ("port handling", "py/bin/framer_qual.py:MasterFramer")], [], ["bytes written to the serial port", "totals logged by the program"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
