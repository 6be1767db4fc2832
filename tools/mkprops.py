#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
ALL = ["src/lib.rs","src/bup.rs","src/buzhash.rs","src/gear.rs","src/fastcdc.rs","src/gzip.rs","src/mii.rs","src/pigz.rs","src/ram.rs","src/zpaq.rs","src/zstd.rs"]
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    assert len(title) <= 80, title
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    d["anchors"]["observe_at"] = list(observe) or ["return values of the public API"]
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Slicing a buffer loses, repeats and reorders nothing",
  "For every chunker and every buffer, the slices that the slice iterators hand out, put one after the other (and, for the strict iterator, followed by the remainder that it gives up on request), are exactly the buffer: every byte once, in order, borrowed from the buffer itself. This holds however the iterator is driven (step by step, skipping, counting, folding, taking the parts out half way), for chunkers that were fed before, and for a chunker that a user of the library wrote.",
  ["inputs","configurations","histories"],
  "all algorithms and configurations, all buffers, all ways to drive the iterator, all chunkers that keep to the trait's contract",
  "The tests slice a few buffers with a few default chunkers and look at the number of chunks or at single edges; none looks at the address of each slice, at the adaptors, or at a foreign chunker.",
  ["src/lib.rs"],
  [("iter_slices / IterSlices::next","src/lib.rs"),("iter_slices_strict / IterSlicesStrict::next, take_rem, into_parts","src/lib.rs")],
  [("rem","the part of the buffer not yet handed out","src/lib.rs")],
  ["addresses and lengths of the slices","remainder from into_parts/take_rem"])
p("C02", "Reported positions are valid and always make progress",
  "Every index that the push call or the edge search returns lies within the slice that was just passed (index and amount to discard are at most its length; the amount to discard never passes the edge), and passing nothing never yields an edge. Edges of one stream strictly increase, so no chunk is empty, and a caller's loop over any input ends after at most one call per buffer and per byte.",
  ["inputs","configurations","histories"],
  "all algorithms, all configurations with a minimum size of at least one byte, all data, all ways of handing it over",
  "Tests assert a handful of concrete edges on pseudo-random data; a wrong index needs the edge to sit on the border of a slice, window or size limit.",
  ALL, [("ChunkIncr::push","every algorithm"),("Chunk::find_chunk_edge","every algorithm")])
p("C03", "Incremental cuts do not depend on how the stream is split into pushes",
  "For every chunker, configuration and stream, the positions in the stream at which the incremental interface reports edges are the same for every way to split the stream into pushes, be it one push, one per byte, empty pushes in between, or any mixture.",
  ["inputs","configurations","schedules"],
  "all streams times all segmentations of them",
  "The existing tests push whole buffers or one fixed segmentation; there are 2^(n-1) segmentations, and carried state (window, counters, position) matters only for those with a border at the right place.",
  ALL[1:], [("state kept between pushes","*Incr structs"),("ChunkIncr::push","every algorithm")],
  [("window/offset/counters","what is carried over between pushes","*Incr structs")])
p("C04", "Edge search does not depend on how the buffer grows between calls",
  "For every chunker, configuration and stream, a caller that searches for edges while its buffer grows in arbitrary steps, drops exactly the amount it is told to discard, and calls again, finds the same edges as one that has the whole stream in its buffer from the start.",
  ["inputs","configurations","schedules"],
  "all streams times all schedules of buffer growth",
  "Tests mostly search in complete buffers; resumption has to be right for every position at which the data runs out, including before the first window is full and directly after an edge.",
  ALL[1:], [("Chunk::find_chunk_edge","every algorithm"),("SearchState","every algorithm")],
  [("offset, hash, chunk length","resumption point of the search","*SearchState structs")])
p("C05", "Search, incremental and iterator interfaces agree on the cuts",
  "For every chunker, configuration and input, edge search, the incremental interface and both slice iterators cut the input at the same positions.",
  ["inputs","configurations"],
  "all algorithms, configurations and inputs",
  "Where tests compare interfaces at all they use few inputs, one configuration and often only the first edge; the interfaces have separate implementations of window and size handling that can part at any later edge.",
  ALL, [("find_chunk_edge versus push","every algorithm"),("IterSlices","src/lib.rs")])
p("C06", "Any data under any valid configuration is chunked without a crash or hang",
  "No byte string, however long or degenerate and however handed over, makes a validly configured chunker panic, overflow, access memory out of bounds, exhaust memory or fail to return, through any of its interfaces including debug formatting, cloning and comparison; this includes configurations at the ends of their ranges.",
  ["inputs","configurations","histories"],
  "all data, all valid configurations including extreme ones, all API calls",
  "Arithmetic on positions, windows and limits is done with plain integers of several widths; only specific combinations overflow, and tests use default configurations almost everywhere.",
  ALL + ["src/range.rs","src/buzhash_table.rs"], [("wrapping arithmetic, saturating_sub, modulus of window offsets","every algorithm")])
p("C07", "Misusing the search state is safe",
  "Calling the edge search with a state that belongs to other data (shorter, unrelated, empty, from another stream, from another configuration of the same algorithm, not discarded as told) may give meaningless edges but never panics, hangs, or returns an index or discard amount beyond the slice just passed; a state stays usable afterwards.",
  ["inputs","histories","configurations"],
  "all sequences of edge searches with arbitrary buffers",
  "The documentation allows it and warns only that cut points are then arbitrary; tests never do it, and whether an index computed from stale state is in range depends on the whole history of calls.",
  ALL[1:], [("loops from the stored offset to the end of the data","find_chunk_edge of bup, buzhash, gzip"),("seeding of the window","zstd find_chunk_edge")],
  [("offset","position in the caller's buffer, which the caller can invalidate","*SearchState structs")])
p("C08", "After an edge a chunker starts afresh",
  "For every algorithm but zstd, what follows an edge depends only on the data after the edge: a chunker that has just reported an edge behaves on all further data exactly like a new one. For zstd, whose window deliberately spans edges, it depends on nothing but the 32 bytes before the edge and the data after it.",
  ["inputs","configurations","histories"],
  "all histories up to an edge times all continuations, for both interfaces",
  "Tests look at first edges, or compare two instances that share the same stale state; leftovers in windows, counters, previous bytes or predictions show only in later chunks of suitable data.",
  ALL[1:], [("reset functions","every algorithm")])
p("C09", "Windowed algorithms cut by local content and resynchronise after edits",
  "For the windowed algorithms (bup, buzhash, gear, gzip, pigz, zstd), whether a content-defined edge falls at a position that is a full window or more into a chunk depends only on the bytes in the window before it (the configured window for bup, buzhash and gzip, 32 bytes for gear and zstd, the number of hash bits for pigz). For every algorithm, if two streams have a common rest and both have an edge at its start, all edges in the rest are the same, so an insertion, deletion or change affects no chunk after the first common edge.",
  ["inputs","configurations"],
  "all pairs of streams that share a window or a rest",
  "This is the point of content-defined chunking and relates pairs of runs; tests only look at single runs, and a window that is wrong by one byte or forgets a byte incompletely still cuts plausibly.",
  ["src/bup.rs","src/buzhash.rs","src/gear.rs","src/gzip.rs","src/pigz.rs","src/zstd.rs"],
  [("removal of the byte that leaves the window","RollSumState::add, BuzHashState::add_overflow, GzipRsyncableState::add, ZstdState::rotate"),("shifting out","gear and pigz state")])
p("C10", "Chunk sizes respect the configured bounds",
  "No FastCDC chunk is shorter than the minimum (except the end of the data) or longer than the maximum; no ZPAQ chunk is shorter than its range allows, and a ZPAQ chunk is closed at the first size outside the range at the latest; no BuzHash chunk exceeds its maximum by more than the one byte that trips it; no RAM chunk is shorter than its window plus two bytes. This holds on every interface and for every way to hand over the data.",
  ["inputs","configurations","schedules"],
  "all data (notably without any natural edge, or with one at every position), all configurations, all interfaces and segmentations",
  "Tests use default limits with random data, which hardly ever reaches them, and no limit is checked across several calls.",
  ["src/fastcdc.rs","src/zpaq.rs","src/buzhash.rs","src/ram.rs","src/range.rs"],
  [("min/normal/max phases","FastCdcState::push"),("split_here, under_min, exceeds_max","src/zpaq.rs, src/range.rs"),("max_chunk_size","src/buzhash.rs"),("w","src/ram.rs")])
conf = [("Every algorithm's tests pin a few edges or a digest at one configuration; conformance has to hold for every window, mask and data.")]
p("C11", "Bup chunker: cuts and digests are those of bup's rolling sum",
  "The bup chunker ends a chunk exactly after the first byte at which the low 13 bits of the rolling sum over the configured window (since the chunk start, bytes before it counting as zero) are all ones. The digest read from a rolling sum equals, at every byte and for every window size, the one that the definition gives for the bytes in the window, and splitting is reported exactly then.",
  ["inputs","configurations"], "all data and windows, all positions, every interface",
  "Only the default window is compared with another implementation, on 2 KiB of random data; other windows, long streams and later chunks are not.",
  ["src/bup.rs"], [("RollSumState::add, digest, at_split","src/bup.rs"),("RollSumIncr::roll_byte","src/bup.rs")],
  [("s1, s2, window, wofs","rolling sums and circular buffer","src/bup.rs")])
p("C12", "BuzHash chunker: cuts are those of the cyclic polynomial hash",
  "A BuzHash chunk ends exactly after the first byte at which all mask bits of the cyclic polynomial hash of the last k bytes of the chunk are set, or when the chunk has grown beyond the maximum size. The value of each byte is what the configured hash says: the given table (borrowed or owned), the table entry of the byte combined with the salt, a user's own function, or the Borg table with its seed applied to every entry.",
  ["inputs","configurations"], "all data, window sizes, masks, limits, tables, salts and seeds, every interface",
  "Tests use one table, one window and one mask with few inputs.",
  ["src/buzhash.rs","src/buzhash_table.rs"], [("add, add_overflow","src/buzhash.rs"),("BuzHashTable*Hash","src/buzhash.rs"),("borg_buzhash_table, GO_BUZHASH, BORG_BUZHASH_BASE","src/buzhash_table.rs")])
p("C13", "Gear chunker: cuts are those of the gear hash",
  "A gear chunk ends exactly after the first byte at which the configured number of top bits of the 32-bit gear hash since the chunk start (shift left by one, add the byte's table entry) are all zero, with the published table.",
  ["inputs","configurations"], "all data, all average sizes, every interface",
  "Tests check one or two configurations against recorded edges of one input.",
  ["src/gear.rs","src/gear_table.rs"], [("GearState32::push, msb_mask","src/gear.rs"),("GEAR_32","src/gear_table.rs")])
p("C14", "FastCDC chunker: cuts are those of normalised gear chunking",
  "A FastCDC chunk is never examined before its minimum size, ends where the gear hash of the bytes since then matches the stricter mask of the paper before the normal size or its looser mask from the normal size on, and ends at the maximum size otherwise; the search interface puts the edge after the matching byte and the incremental one before it.",
  ["inputs","configurations","schedules"], "all data, tables and size triples, every interface and segmentation",
  "Tests use a fixed input with default or one set of sizes; phase changes have to be right for every position of slice borders relative to the three sizes.",
  ["src/fastcdc.rs","src/gear_table.rs"], [("FastCdcState::push","src/fastcdc.rs"),("MASK_S, MASK_L","src/fastcdc.rs"),("GEAR_64","src/gear_table.rs")],
  [("l, fp","bytes since the chunk start, hash","src/fastcdc.rs")])
p("C15", "Gzip chunker: cuts are those of the rsyncable window sum",
  "A gzip-rsyncable chunk ends exactly after the first byte at which the sum of the last window bytes of the chunk is a multiple of the modulus.",
  ["inputs","configurations"], "all data, windows and moduli, every interface",
  "Tests look at two inputs with the default window and modulus.",
  ["src/gzip.rs"], [("GzipRsyncableState::add, GzipRsyncableIncr::push","src/gzip.rs")])
p("C16", "Pigz chunker: cuts are those of the rsyncable shift-xor hash",
  "A pigz-rsyncable chunk ends exactly after the first byte at which the hash (start value and hit value all ones but the top bit, each byte shifted in by one bit and xored, masked to the configured number of bits) equals the hit value.",
  ["inputs","configurations"], "all data and bit counts, every interface",
  "Tests look at the default number of bits and at few inputs.",
  ["src/pigz.rs"], [("PigzRsyncableState::add, with_bits","src/pigz.rs")])
p("C17", "ZPAQ chunker: cuts are those of zpaq's predictive hash",
  "A ZPAQ chunk ends exactly after the first byte at which the 32-bit hash of the chunk so far (multiplied by one constant for bytes that the order-1 prediction foresaw, by another for the rest) falls below 2^(32 - average bits) with a size inside the range, or at which the size exceeds the range.",
  ["inputs","configurations"], "all data, averages and ranges, every interface",
  "One oracle test compares a default configuration on random data, for which predictions hardly matter.",
  ["src/zpaq.rs","src/range.rs"], [("ZpaqHash::feed, split_here","src/zpaq.rs")], [("hash, last_byte, predicted_byte, idx","state within a chunk","src/zpaq.rs")])
p("C18", "Zstd chunker: cuts are those of zstd's rsyncable rolling hash",
  "The zstd chunker reports an edge after each byte from the 33rd of the stream on for which the rolling hash of the last 32 bytes has all bits of its mask set, and nowhere else; the mask has 20 bits plus the binary logarithm of the target section size in MiB. Edges do not disturb the window.",
  ["inputs","configurations","schedules"], "all data and section sizes, every interface and segmentation",
  "Edges are megabytes apart in random data, so tests see few or none; two edges close together never occur in them.",
  ["src/zstd.rs"], [("append, rotate, at_split","src/zstd.rs")], [("window, window_offs, window_full, offset","the last 32 bytes","src/zstd.rs")])
p("C19", "MII chunker: cuts are where the configured run of increases completes",
  "An MII chunk ends exactly after the byte that completes, within the chunk, the configured number of consecutive increases of the byte value.",
  ["inputs","configurations"], "all data and run lengths, every interface",
  "Tests use the default run length on few inputs.",
  ["src/mii.rs"], [("MiiIncr::push, reset","src/mii.rs")])
p("C20", "RAM chunker: cuts are at the first value that reaches the window's maximum",
  "A RAM chunk ends exactly after the first byte beyond its fixed window (the first w + 1 bytes of the chunk) whose value is at least the maximum value in that window.",
  ["inputs","configurations"], "all data and window sizes, every interface",
  "Tests use few inputs and window sizes and mostly one chunk.",
  ["src/ram.rs"], [("RamState::push","src/ram.rs")])
p("C21", "Constructors mean what they document, and all ways to an instance agree",
  "Every documented way to configure an algorithm (defaults, from an average, a maximum, a range, a window, bits, salt or section size) yields the documented parameters, and instances that are documented to be the same configuration cut alike. Every way to obtain an incremental chunker or search state from a configuration (trait methods, conversions, default values) behaves the same, and creating or using one never changes the configuration. Parameters that an algorithm cannot have (a BuzHash window of nothing, more than 32 bits for gear, pigz or zpaq, zpaq averages below 2^10 where its default sizes are asked for, zstd sections below 1 MiB) are refused when the instance is made, not taken for others.",
  ["configurations","inputs"], "all constructor arguments in their documented ranges, all creation paths, all inputs",
  "Tests build each algorithm in one or two ways and never compare those, and constructor arithmetic (logarithms, shifts, fractions) is wrong only for particular arguments.",
  ALL[1:], [("with_* constructors, Default and From impls","every algorithm")])
p("C22", "Instances are independent, and chunking is deterministic",
  "Cuts are a function of the configuration and the data alone: any number of chunkers and searches made from one shared configuration, driven in any interleaving on one thread or in parallel on several, each cut as if it were alone. Repeating a run gives the same cuts, in the same process or another, whatever the addresses of the buffers and whatever was processed before.",
  ["schedules","inputs","histories"], "all interleavings and thread schedules of instances that share configurations, all repetitions",
  "Every test uses one instance at a time on one thread.",
  ALL[1:], [("all mutable state is in the *Incr and *SearchState values","every algorithm")])
p("C23", "Clones and equal values behave alike",
  "A clone of a configuration, incremental chunker or search state taken at any moment reports the same edges as the original on all further data, and using either does not affect the other. Values that compare equal behave the same on all further data, and a clone compares equal to its original.",
  ["histories","inputs","configurations"], "all moments in all histories, all continuations, all clonable or comparable types",
  "No test clones or compares a chunker or state that has seen data.",
  ALL[1:], [("derived and manual Clone, PartialEq","every algorithm")])
p("C24", "Memory use is bounded by the window, not by the data",
  "However long the stream is, however large the slices are and however many edges occur, the memory that a chunker or search state holds at any time, temporary buffers included, stays below a bound that depends only on its configured window.",
  ["inputs","histories","configurations"], "all streams, chunk lengths and segmentations",
  "No test measures memory, and growth shows only on long streams or long chunks.",
  ALL[1:], [("fixed windows","RollSumIncr, BuzHashIncr, ZstdIncr, GzipRsyncableIncr")], (), ["allocator calls of the thread that runs the library"])
p("C25", "The search asks callers to keep no more than a window of data",
  "When the edge search reports no edge it lets the caller discard all but at most one window of the data it was given (nothing needs to be kept by algorithms without a look-back window), and when it reports an edge it lets the caller discard everything up to the edge but for at most one window. So a streaming caller's buffer is bounded by the window plus one read.",
  ["inputs","configurations","schedules"], "all data, configurations and buffer growth schedules",
  "Tests ignore the discard amount except to advance; keeping too much stays correct but makes buffers grow without bound.",
  ALL[1:], [("discard_ct","find_chunk_edge of every algorithm")])
p("C26", "Work is linear: data is examined once however it arrives",
  "Edge search and incremental chunking do a bounded amount of work per byte of new data plus a bounded amount per call and per edge, for every configuration and data; a resumed search does not examine again what an earlier call examined, so feeding a stream in small steps costs no more than proportionally to its length and the number of calls.",
  ["inputs","schedules","configurations"], "all streams and all schedules, notably one byte at a time within very long chunks",
  "Results are unaffected by repeated work, so no functional test can see it.",
  ALL[1:], [("offsets in the search states","bup, buzhash, gzip, zstd"),("discarding everything","the others")], (), ["control-flow edges executed in the library (SanitizerCoverage)","calls of a user-supplied byte hash","bytes that the library copies (memcpy and memmove interposed)"])
p("C27", "Features, optimisation and overflow checks do not change the cuts",
  "Each algorithm compiles and cuts exactly alike whether it is the only enabled feature or one of all of them, whether the crate is built for debugging or release, with or without overflow and debug checks, and for 64-bit or 32-bit, little-endian or big-endian machines (within what a machine's usize can express). Parameters are refused in all of these or in none.",
  ["configurations","inputs"], "all feature sets, build profiles and machines, all inputs",
  "The test suite is run for one feature set and one profile.",
  ["Cargo.toml"] + ALL, [("cfg(feature) gates, Wrapping arithmetic","Cargo.toml and every module")])
p("C28", "Range predicates agree with the meaning of ranges",
  "For every kind of range and bound (included, excluded, unbounded at either end) and every value of a totally ordered type, a value is reported to be under the minimum exactly if it is excluded by the lower bound, to exceed the maximum exactly if it is excluded by the upper bound, and to be contained exactly if neither; taking a range's bounds out preserves them.",
  ["inputs","configurations"], "all ranges, bounds and values, including empty and inverted ranges",
  "No test covers the range helpers, and each of the nine combinations of bounds has its own boundary.",
  ["src/range.rs"], [("RangeExt, bound_cloned","src/range.rs")])
p("C29", "Chunks of random data have the configured average size",
  "On long uniformly random data the mean chunk length is, within statistical error, what the configuration asks for: 2^n for gear and pigz, 8 KiB for bup, 2^(number of mask bits) for BuzHash, the modulus for gzip (whose window must be long enough for its sums to spread over the modulus), the target section (rounded down to a power of two) for zstd, about 2^n plus the minimum for ZPAQ with a generous maximum, and between the minimum and the maximum around the normal size for FastCDC.",
  ["inputs","configurations"], "random streams under all averages",
  "It is a statement about distributions over long streams; tests look at short ones and assert nothing about means.",
  ALL[1:], [("masks and hash thresholds","every algorithm")])
p("C30", "Streams, chunks and slices beyond 4 GiB are handled exactly",
  "Chunkers keep exact counts and positions beyond 2^32 bytes: size limits and windows larger than 4 GiB are honoured to the byte, edges in data that follows more than 4 GiB of other data (in the same chunk, in many chunks, in one slice or many) are the ones that the definition gives.",
  ["inputs","configurations","histories"], "streams longer than 2^32 bytes, in any segmentation",
  "Tests are limited to kilobytes or megabytes.",
  ALL, [("u64 counters, usize indexes","fastcdc, ram, zpaq, buzhash and the slice iterators")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
