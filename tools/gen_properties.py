#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": hook},
    })

prop("C01", "BLAKE2s digests equal the BLAKE2 specification for all parameters and inputs",
  "For every message and every legal combination of parameters (digest length, key, salt, personalization, fanout, depth, leaf length, node offset, node depth, inner length, last-node flag), the digest produced by the one-shot function or by a state built from the parameters is exactly the digest the BLAKE2 specification (RFC 7693 plus the BLAKE2 parameter block and tree flags) defines. The digest has exactly the requested length.",
  ["inputs", "configurations"], "all parameter combinations x all messages (any length, any content), in std and no_std builds, with and without debug checks",
  "The suite samples one fully-parameterised digest of a 3-byte input and KAT inputs of at most 255 bytes (default parameters or a 32-byte key); the parameter space is about 2^700 and message lengths are unbounded.",
  ["src/lib.rs", "src/portable.rs", "src/sse41.rs"],
  [("parameter block packed into the initial state words", "src/lib.rs Params::make_words"), ("key block prepended", "src/lib.rs State::with_params"), ("last block / last node flags and zero padding", "src/lib.rs State::finalize"), ("compression function", "src/portable.rs compress, src/sse41.rs compress")],
  observe=["blake2s()", "Params::to_state().update().finalize()"])

prop("C02", "BLAKE2s digest and byte count do not depend on how the input is split",
  "For every parameter set and every message, feeding the message through any sequence of update calls (of any sizes, including empty ones) gives the same digest as feeding it at once. After every call the reported count is exactly the number of message bytes fed so far (the key does not count).",
  ["histories", "inputs"], "all ways of splitting all messages into update calls, from keyed and unkeyed initial states",
  "Tests split four fixed messages in halves and single bytes, always unkeyed; the buffering logic depends on (buffer fill, chunk length) pairs and on the key block already in the buffer.",
  ["src/lib.rs"],
  [("buffer fill / compress only when more input follows", "src/lib.rs State::fill_buf, compress_buffer_if_possible, update")],
  state=[{"name": "buf/buflen", "meaning": "input not yet compressed (at most one block)", "where": "src/lib.rs State"}, {"name": "count", "meaning": "bytes fed, including the key block", "where": "src/lib.rs State"}],
  observe=["State::update", "State::count", "State::finalize"])

prop("C03", "Finalizing, cloning and flagging a BLAKE2s state never disturb the hash",
  "In any history of calls, finalizing a state any number of times returns the same digest and leaves its count and all later results as if it had not been finalized. A clone evolves independently of its original. Setting the last-node flag at any time affects exactly the digests finalized while it is set, and equals setting it in the parameters.",
  ["histories"], "all interleavings of update, finalize, clone, set_last_node and count over a pool of states",
  "One test finalizes the empty and the 'abc' state repeatedly; clones, flags toggled mid-stream and finalize between updates at other buffer fills are not exercised.",
  ["src/lib.rs"],
  [("finalize works on a copy of the state words and only zeroes the unused buffer tail", "src/lib.rs State::finalize"), ("derived Clone", "src/lib.rs State"), ("set_last_node", "src/lib.rs State::set_last_node")],
  observe=["State::finalize", "State::clone", "State::set_last_node", "State::count"])

prop("C04", "BLAKE2sp digests equal the specification for all lengths, keys and inputs",
  "For every message, every digest length and every key, the BLAKE2sp digest (one-shot or through a state) is exactly the 8-leaf tree digest defined by the BLAKE2 specification and its reference implementation. This holds at every message length, including lengths around multiples of one block, of eight blocks and of sixteen blocks.",
  ["inputs", "configurations"], "all (digest length, key, message) triples, in every build",
  "KATs stop at 255 bytes (less than one 512-byte stripe); the one buffering test uses whole-block unkeyed default-length inputs up to 20 blocks; keyed inputs longer than 255 bytes are never tested (and were hashed wrong).",
  ["src/blake2sp.rs", "src/lib.rs", "src/avx2.rs", "src/portable.rs"],
  [("leaf and root parameter blocks", "src/blake2sp.rs State::with_params"), ("striping over eight leaves", "src/blake2sp.rs update, compress8"), ("leaf flush and root hash", "src/blake2sp.rs finalize")],
  observe=["blake2sp::blake2sp()", "blake2sp::Params::to_state().update().finalize()"])

prop("C05", "BLAKE2sp digest and byte count do not depend on how the input is split",
  "For every key, digest length and message, any sequence of BLAKE2sp update calls gives the same digest as one call with the whole message, and the reported count is always exactly the number of message bytes fed. Finalizing at any point, any number of times, returns the digest of the bytes fed so far and does not affect anything later.",
  ["histories", "inputs"], "all call sequences of update, finalize and count on a BLAKE2sp state",
  "The only multi-call test feeds 1 byte and then the rest, for whole-block unkeyed lengths; the double-buffer shift and the compress-both-halves branches depend on (fill, length) pairs never tried.",
  ["src/blake2sp.rs"],
  [("double buffer: first/second half compression and left shift", "src/blake2sp.rs State::update"), ("finalize on cloned leaves", "src/blake2sp.rs State::finalize"), ("count from leaves and buffer", "src/blake2sp.rs State::count")],
  state=[{"name": "buf/buflen", "meaning": "up to 16 blocks of input not yet compressed", "where": "src/blake2sp.rs State"}],
  observe=["blake2sp::State::update", "finalize", "count"])

prop("C06", "Eight-way update and finalize equal updating and finalizing each state alone",
  "For any eight distinct states with any parameters and any histories, the eight-way update with any eight inputs (of any, also different, lengths) leaves each state exactly as if it alone had been updated with its own input. The eight-way finalize returns in order exactly the digests the states would return individually, each of its own length, and disturbs none of them.",
  ["histories", "inputs"], "all histories over pools of states mixing single and eight-way calls, any assignment of states to lanes, any eight lengths",
  "The one test uses ten-block inputs and one five-block input with fixed permutations; partially filled buffers, keyed lanes, empty inputs, non-block lengths and mixed counts across lanes are barely sampled.",
  ["src/lib.rs", "src/avx2.rs", "src/portable.rs"],
  [("flush of partial buffers, lockstep loop while all lanes have more than a block, individual tails", "src/lib.rs update8"), ("parallel last block with per-lane counts and flags", "src/lib.rs finalize8"), ("transposition of eight states", "src/avx2.rs compress8, transpose_vecs")],
  observe=["update8", "finalize8", "State::count", "State::finalize"])

prop("C07", "One-call eight-way hashing equals hashing each input alone",
  "For any eight unkeyed parameter sets (which may all differ) and any eight inputs of any lengths, the one-call eight-way hash returns, in order, exactly the digests obtained by hashing each input separately with its own parameters. It never returns a digest that silently ignores a key: parameters with a key are rejected with a panic.",
  ["inputs"], "all 8-tuples of (parameters, input), equal or different lengths, block multiples or not, empty or not; any lane keyed",
  "Two tests: four whole blocks in all lanes, and four blocks plus 0..7 bytes; lengths that diverge by whole blocks, empty lanes, and parameters other than length/personal/last-node are not tried.",
  ["src/lib.rs", "src/avx2.rs", "src/portable.rs"],
  [("lockstep while all lanes continue or all end together, otherwise split", "src/lib.rs hash8"), ("vectorized state words", "src/avx2.rs vectorize_words8, compress8_vectorized; src/portable.rs")],
  observe=["hash8"])

prop("C08", "Exact-length four-way and eight-way hashing equal hashing each input alone",
  "For any parameter set (keyed or not) and any four or eight inputs of the same nonzero whole-block length, the exact-length four-way and eight-way functions return, in order, exactly the digests obtained by hashing each input separately with those parameters.",
  ["inputs", "configurations"], "all parameter sets x all equal whole-block lengths x all contents",
  "One test each, with four-block constant-byte inputs, one parameter set and no key; keyed parameters gave wrong digests on AVX2 machines and no test noticed.",
  ["src/lib.rs", "src/avx2.rs", "src/sse41.rs", "src/portable.rs"],
  [("broadcast parameter words, transposed message loads, exported digests", "src/avx2.rs hash8_exact, export_hashes; src/sse41.rs hash4_exact, export_hashes")],
  observe=["hash4_exact", "hash8_exact"])

prop("C09", "Exact-length functions reject every ill-formed input set and touch nothing",
  "The exact-length four-way and eight-way functions panic for every set of inputs that is empty, not a whole number of blocks, or of differing lengths - whichever lane is odd and by however little - in every build mode, and before reading outside any input. They accept every other set.",
  ["inputs", "configurations"], "all tuples of input lengths, for both functions, in release and debug builds",
  "No test calls these functions with ill-formed inputs; the checks are the only thing between safe callers and out-of-bounds reads in the SIMD code.",
  ["src/lib.rs", "src/avx2.rs", "src/sse41.rs"],
  [("assertion of same length, whole blocks, nonempty before the unsafe call", "src/lib.rs hash4_exact, hash8_exact")],
  observe=["hash4_exact", "hash8_exact"])

prop("C10", "Portable, SSE4.1 and AVX2 implementations compute the same function",
  "For every state, block, 64-bit byte counter and last-block/last-node flags, all compression implementations the crate offers (portable and SIMD, one, four or eight lanes) produce the same new state. In the multi-lane ones each lane depends only on its own inputs, in its own position. Forcing a BLAKE2s or BLAKE2sp state to the portable implementation at any point of its life never changes a result.",
  ["inputs", "configurations", "histories"], "all compression inputs for every kernel; all histories with a switch of implementation at any point",
  "Tests compare the kernels on one block per lane from the default initial state with equal counters (64), zero high counter words and zero last-node flags in every lane.",
  ["src/portable.rs", "src/sse41.rs", "src/avx2.rs", "src/lib.rs", "src/blake2sp.rs"],
  [("kernels", "src/portable.rs, src/sse41.rs, src/avx2.rs"), ("implementation override", "src/lib.rs benchmarks::force_portable, force_portable_blake2sp")],
  observe=["benchmarks::compress_portable, compress8_portable, compress_sse41, compress4_transposed_sse41, compress8_avx2, compress8_transposed_all_avx2, compress8_vectorized_avx2", "benchmarks::force_portable", "benchmarks::force_portable_blake2sp"])

prop("C11", "Digests and counts stay right past 4 GiB of input in every interface",
  "When the number of bytes fed to a BLAKE2s instance (a state, a lane of any multi-input function, or a leaf of BLAKE2sp) reaches or passes 2^32, digests still equal the specification, whose byte counter is 64 bits wide. The reported counts stay exact.",
  ["inputs", "histories"], "all interfaces (single state, eight-way update/finalize, one-call eight-way, exact four/eight-way, BLAKE2sp) with inputs ending below, at and above 2^32 bytes per instance, in std and no_std builds",
  "The longest test input is 4800 bytes, so the upper counter word is zero in every test.",
  ["src/lib.rs", "src/avx2.rs", "src/sse41.rs", "src/portable.rs", "src/blake2sp.rs"],
  [("64-bit counters split into two words", "count >> 32 in src/sse41.rs, src/avx2.rs, src/portable.rs, src/lib.rs hash8")],
  observe=["State", "update8/finalize8", "hash8", "hash4_exact", "hash8_exact", "blake2sp::State"])

prop("C12", "Parameter setters accept exactly the legal values and reject the rest",
  "Each parameter setter of BLAKE2s and BLAKE2sp accepts every value in its legal range (digest length 1-32, key at most 32 bytes, salt and personalization at most 8 bytes, depth at least 1, node offset below 2^48, inner length at most 32, anything for the rest) and panics for every value outside, in every build mode. A rejected call leaves the parameters as they were.",
  ["inputs", "configurations"], "all argument values of all setters, including those that would wrap into range when narrowed, on parameters in any prior state",
  "Tests try one value just outside the range for most setters (none for node offset) and no value far outside, and never look at the parameters after a rejection.",
  ["src/lib.rs", "src/blake2sp.rs"],
  [("assertions before assignment", "src/lib.rs Params setters, src/blake2sp.rs Params setters")],
  observe=["Params setters under catch_unwind, then to_state().finalize()"])

prop("C13", "Parameters behave as a plain record: last write wins, order is irrelevant",
  "For any sequence of setter calls, the resulting digests depend only on the last value given to each parameter (unset ones keep their documented defaults; a shorter key, salt or personalization fully replaces a longer one). Building a state from parameters or cloning them neither changes them nor ties them to later changes. All ways to make a default object are equivalent.",
  ["histories"], "all sequences of setter, clone and to_state calls on BLAKE2s and BLAKE2sp parameters",
  "Tests set each parameter once in one order, overwriting only the key (16 bytes by 3).",
  ["src/lib.rs", "src/blake2sp.rs"],
  [("setters zero and overwrite the whole field", "src/lib.rs Params::key/salt/personal, src/blake2sp.rs Params::key"), ("defaults", "impl Default for Params / State")],
  observe=["Params::to_state().update().finalize()"])

prop("C14", "Any difference in message, key or another parameter changes the digest",
  "Two hash computations that differ in anything BLAKE2 distinguishes - a bit of the message, its length, the key or its length, salt, personalization, digest length, any tree parameter, the last-node flag, or BLAKE2s versus BLAKE2sp - give unrelated digests. This holds through every interface that takes those inputs.",
  ["inputs"], "all pairs of distinct (function, parameters, message) triples, drawn as small mutations of each other",
  "Tests compare digests with constants and never check that each input actually influences the result (the keyed exact-length functions ignored the key on AVX2).",
  ["src/lib.rs", "src/blake2sp.rs", "src/avx2.rs", "src/sse41.rs", "src/portable.rs"],
  [("parameter block XORed into the initial state", "src/lib.rs Params::make_words"), ("key block", "src/lib.rs State::with_params"), ("counter and flags in the last block", "src/lib.rs State::finalize")],
  observe=["State", "blake2sp::State", "hash8", "hash4_exact", "hash8_exact"])

prop("C15", "Hash values compare, print and convert by their visible bytes only",
  "A hash exposes exactly as many bytes as the digest length asked for, through every accessor. Two hashes are equal if and only if those bytes are equal (same length, same content), and a hash equals a byte slice if and only if the slice is exactly those bytes; the hexadecimal form is the lowercase encoding of exactly those bytes and the debug form shows it.",
  ["inputs"], "all pairs of hashes of all lengths, and all byte slices related to them (equal, one bit off anywhere, prefix, extension)",
  "Tests compare hashes that are equal; inequality, short digests whose hidden tails differ, prefixes and extensions are never compared.",
  ["src/lib.rs"],
  [("as_bytes slices by length; PartialEq via as_bytes", "src/lib.rs Hash"), ("hex table", "src/lib.rs bytes_to_hex")],
  observe=["Hash ==", "Hash == [u8]", "as_bytes", "AsRef", "to_hex", "Debug"])

prop("C16", "Hash comparison runs the same instructions wherever the bytes differ",
  "Comparing two hashes of the same length, or a hash with a slice of the same length, executes the same sequence of instructions whatever the contents: neither the position nor the number of differing bytes shows in the control flow.",
  ["inputs"], "all pairs of equal-length hashes / slices of each length 1-32",
  "No test looks at how the comparison executes; an early-exit comparison passes every functional test.",
  ["src/lib.rs"],
  [("constant_time_eq over as_bytes", "src/lib.rs impl PartialEq for Hash, PartialEq<[u8]> for Hash")],
  observe=["single-stepped instruction trace of =="])

prop("C17", "Debug output never reveals key or message content",
  "The debug representation of BLAKE2sp parameters and of BLAKE2s and BLAKE2sp states is the same for any two objects that differ only in the bytes of the key or of the message fed (same lengths, same flags). This holds in every formatting mode and at any point of a state's history.",
  ["inputs", "histories"], "all pairs of histories equal up to key and message content",
  "No test formats a state or parameters.",
  ["src/lib.rs", "src/blake2sp.rs"],
  [("hand-written Debug printing only count, lengths and flags", "src/lib.rs impl Debug for State; src/blake2sp.rs impl Debug for Params, State")],
  observe=["format!(\"{:?}\"), format!(\"{:#?}\")"])

prop("C18", "Safe calls never touch memory outside their arguments",
  "No sequence of calls to the safe interface, with inputs of any length at any address or alignment, reads or writes a byte outside the slices and objects passed, modifies an input, or otherwise executes undefined behaviour. Results do not depend on where the inputs are placed.",
  ["inputs", "histories", "configurations"], "all call histories with inputs placed at any alignment and flush against inaccessible memory",
  "Tests pass stack arrays and never notice a read past the end or an alignment assumption; nothing in the suite runs under a sanitizer.",
  ["src/lib.rs", "src/avx2.rs", "src/sse41.rs", "src/blake2sp.rs"],
  [("unaligned loads, block-sized reads guarded by length checks", "src/avx2.rs load_2x256, hash8_exact; src/sse41.rs loadu, hash4_exact"), ("aligned words type", "src/lib.rs AlignedWords8")],
  observe=["guard pages", "AddressSanitizer", "Miri"])

prop("C19", "Results are the same on every platform and no missing CPU feature is used",
  "Whether or not the standard library is available, whichever SIMD extensions the CPU reports, on 32-bit and 64-bit and on little-endian and big-endian machines, every interface returns the same results. Code that needs a CPU extension is executed only if the running CPU reports it.",
  ["configurations", "inputs"], "all {std, no_std} x {no SIMD, SSE4.1 only, AVX2} x {x86-64, 32-bit x86, big-endian} x call histories",
  "The suite runs on one AVX2 little-endian 64-bit machine; there no SSE4.1-only, 32-bit or big-endian run ever happens, and calling an unsupported kernel would go unnoticed.",
  ["src/lib.rs", "src/portable.rs", "src/blake2sp.rs"],
  [("run-time detection and fallback", "src/lib.rs default_compress_impl"), ("little-endian loads and stores", "src/portable.rs compress, src/lib.rs state_words_to_bytes, make_words")],
  observe=["Miri with chosen target and target features", "no_std build"])

prop("C20", "Objects used on different threads do not affect each other",
  "States, parameters and hashes can be moved to and shared between threads, and any number of threads hashing at the same time with their own objects get the results they would get alone, without data races.",
  ["schedules", "histories"], "all interleavings of independent call histories on several threads",
  "Every test is single-threaded inside; cargo runs tests in parallel but asserts nothing about sharing.",
  ["src/lib.rs", "src/blake2sp.rs"],
  [("no global mutable state; plain-data types", "src/lib.rs, src/blake2sp.rs"), ("feature detection", "src/lib.rs default_compress_impl")],
  observe=["threads under Miri's race detector and natively"])

prop("C21", "Writing through std::io::Write is the same as update",
  "Through the standard Write trait, every write to a BLAKE2s or BLAKE2sp state succeeds, reports the whole buffer as written, and has exactly the effect of an update with it; flushing succeeds and changes nothing. This holds for every way of driving the trait (write, write_all, vectored, formatted, buffered, copied) and any mix with direct updates.",
  ["histories", "inputs"], "all histories mixing trait writes and direct updates, all buffer sizes including empty and very large",
  "One test writes 1000 zero bytes to a BLAKE2s state; BLAKE2sp's implementation is never called.",
  ["src/lib.rs", "src/blake2sp.rs"],
  [("impl std::io::Write", "src/lib.rs, src/blake2sp.rs")],
  observe=["io::Write methods, count, finalize"])

prop("C22", "Hashing runs the same instructions whatever the key and message contain",
  "For fixed lengths, parameters other than the key's bytes, and sequence of calls, the instructions executed and the memory addresses read and written by keying, updating, finalizing, cloning and every multi-input and BLAKE2sp function do not depend on the contents of the key or of the message. No content makes a shortcut, an extra pass or a content-indexed lookup happen.",
  ["inputs", "histories"], "all pairs of key and message contents of equal lengths, through every interface",
  "Every test looks at digests only; code that treats a zero block or a particular word apart, with the right digest, passes them all.",
  ["src/lib.rs", "src/portable.rs", "src/sse41.rs", "src/avx2.rs", "src/blake2sp.rs"],
  [("straight-line rounds over public indices", "src/portable.rs round, src/sse41.rs, src/avx2.rs"), ("key block copied and padded whatever it holds", "src/lib.rs State::with_params, Params::key; src/blake2sp.rs State::with_params")],
  observe=["coverage-callback trace of edges and addresses", "single-stepped instruction trace"])

prop("C23", "No interface allocates heap memory or uses stack that grows with the input",
  "Every interface - parameters, states, updates, finalization, multi-input and BLAKE2sp functions, io::Write, comparison, hexadecimal and debug output into a caller's buffer - completes without allocating heap memory, with or without the standard library. In optimized builds none needs more than 64 KiB of stack, however long its input.",
  ["inputs", "histories"], "all legal calls with inputs of any length",
  "No test counts allocations or measures the stack.",
  ["src/lib.rs", "src/blake2sp.rs", "src/portable.rs", "src/avx2.rs"],
  [("no_std crate over fixed-size arrays", "src/lib.rs #![cfg_attr(not(feature = \"std\"), no_std)], HexString"), ("input consumed in place, block by block", "src/lib.rs State::update, update8, hash8; src/blake2sp.rs State::update")],
  observe=["counting global allocator", "stack watermark"])

prop("C24", "Every legal call returns normally, at a cost proportional to its input",
  "No legal call - legal parameters, any input, any history - panics, overflows, aborts or fails to return, in optimized, unoptimized or overflow-checked builds, with or without the standard library. The work done by a call is at most proportional to the length of the inputs given to it, plus a constant.",
  ["inputs", "histories", "configurations"], "all histories of legal calls, in every build mode",
  "Tests cover a few lengths in one build mode; a panic, an overflow check or quadratic work on other lengths or histories is not met.",
  ["src/lib.rs", "src/blake2sp.rs", "src/portable.rs", "src/sse41.rs", "src/avx2.rs"],
  [("u8 buffer lengths and u64 counts", "src/lib.rs State::fill_buf, count; src/blake2sp.rs State::update, count"), ("loops over whole blocks", "src/lib.rs update, update8, hash8")],
  observe=["panics and crashes in every build mode", "edges and memory accesses counted per call"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
