#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="exploration", state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, level=level, state=list(state)))
E = "emp-tool/"

p("C01", "NetIO delivers each direction's bytes exactly once and in order",
  "Over a NetIO connection, every byte sequence passed to the send calls of one party is returned by the peer's receive calls unchanged, in order, exactly once, for every way the two sides split it into calls, every interleaving of sends and receives in both directions (including pipelined ones where a party replies before consuming everything already sent to it), and every segmentation or delay by the network. Data sent before a receive, a flush, a sync or the closing of the channel reaches the peer without any further call, so request/response protocols never deadlock on locally buffered data. The sent-byte counter equals the number of bytes passed to send.",
  ["schedules", "inputs", "histories"],
  "All byte strings, all splittings into calls (1 byte to several MiB, around the 1 MiB stream buffers), all half-duplex and pipelined interleavings, all TCP segmentations and delays.",
  "The netio test sends fixed-size block bursts one way at a time over an unimpeded loopback; it never splits reads differently from writes, never pipelines, never sees short reads.",
  [E+"io/net_io_channel.h", E+"io/io_channel.h"],
  [("send/recv loops over short transfers, flush before a receive that follows a send, one stdio stream per direction", E+"io/net_io_channel.h")],
  ["bytes returned by recv_data at both ends", "counter"],
  "runtime monitoring: online FIFO/exactly-once checker on both endpoints behind a re-chunking, delaying TCP proxy, watchdog for lost flushes, ASan/TSan builds",
  "Held on the executions produced: random bidirectional scripts through a hostile proxy. Trusts the kernel's TCP and the harness's position-coded payloads.")

p("C02", "HighSpeedNetIO delivers turn-based byte streams intact",
  "Over a HighSpeedNetIO pair, the bytes one party sends during its turn are returned by the peer unchanged and in order, for every sequence of message sizes and direction changes in which each side consumes a turn completely before answering, and for every network segmentation. A direction change or a flush executed by both sides pushes everything out, so turn-based protocols never block on buffered data, and padding added for framing is never delivered as data. The sent-byte counter counts exactly the bytes passed to send.",
  ["inputs", "histories", "schedules"],
  "All turn-based histories, all message sizes around the 32 KiB frame and 1 MiB stream buffer, all positions of matched flushes, all segmentations.",
  "netio2 uses uniform power-of-two bursts; unaligned message sizes that straddle frames, and padding, are sampled at a handful of points.",
  [E+"io/highspeed_net_io_channel.h"],
  [("frame padding on flush, receiver discards the rest of a frame on a turn change", E+"io/highspeed_net_io_channel.h")],
  ["bytes returned by recv_data at both ends"],
  "runtime monitoring: online FIFO checker on turn-based histories through a re-chunking proxy, ASan build",
  "Held on the histories generated. Histories where a side answers before consuming a turn are outside the protocol this channel offers and are not generated.")

p("C03", "Memory and file channels replay exactly what was written",
  "MemIO returns the bytes written to it in order exactly once, for every interleaving of writes and reads and for any growth beyond its initial capacity; clear() makes it behave like a new channel; a read of more than is available delivers nothing and leaves what is available intact. FileIO returns after reset() exactly the bytes written before it, a file written by one FileIO reads back identically in another (also what was written before a flush while the writer is still open), and MemIO loaded from a file replays the file's bytes. Byte counters equal the bytes written.",
  ["inputs", "histories"],
  "All histories of send/recv/clear/reset/load operations and all sizes, in particular around capacities (including 1 and 0) and the 16 KiB file buffer.",
  "Tests only use MemIO implicitly with a few block writes below its initial capacity; FileIO and load_from_file are not exercised by any test.",
  [E+"io/mem_io_channel.h", E+"io/file_io_channel.h"],
  [("capacity doubling copy, read position, stdio buffering", E+"io/mem_io_channel.h")],
  ["bytes returned", "counter"],
  "runtime monitoring: random operation histories checked online against a byte-queue reference model, ASan/UBSan build",
  "Held on the histories generated, compared step by step with a reference queue.")

p("C04", "Typed transfers round-trip, whatever the length and alignment",
  "Blocks, boolean arrays and curve points sent with the typed send calls are received as equal values by the matching receive calls, for every length (zero included) and every alignment of the sender's and of the receiver's buffer independently, and exactly the requested elements of the receiver's buffer are written. The encoding is the same whether or not the build uses BMI2 instructions and the aligned and general boolean calls interoperate, boolean arrays cost one byte per eight elements plus one per leftover element, and the byte counter advances by exactly what went on the wire. A received point encoding that is not a point of the curve is never accepted as one.",
  ["inputs", "configurations"],
  "All array lengths and contents, all 8x8 combinations of buffer alignments, BMI2 and portable builds, all points including the identity.",
  "The netio tests send bool arrays from allocator-aligned buffers of a few sizes in one build configuration; points are only exchanged in one test with fresh generator multiples.",
  [E+"io/io_channel.h", E+"utils/group_openssl.h"],
  [("bit packing with pext/pdep or the portable loop, length-prefixed points", E+"io/io_channel.h")],
  ["wire bytes captured by a recording channel", "received arrays and guard bytes"],
  "runtime monitoring: wire-recording channel plus reference encoder, guard bytes around destinations, two builds compared, ASan build",
  "Held on all alignment pairs for lengths 0..130 and random longer ones; contents random.")

p("C05", "Channel failures end visibly and channels release what they hold",
  "If the peer disappears or a file ends before the requested bytes are available, a receive on NetIO, HighSpeedNetIO or FileIO terminates the process with a failure status: it neither returns with invented bytes nor waits forever, and continuing to send to a vanished peer ends visibly too (under the default SIGPIPE disposition). Destroying a channel flushes what was sent, closes each descriptor it opened exactly once and no other, and its port can be bound again at once. Port numbers outside 0..65535 are rejected with an exception.",
  ["fault_sequences", "histories", "crash_points"],
  "Every point at which the peer can close or die (before, between and inside messages), on both ends; any number of connect/close cycles; all port values.",
  "No test kills a peer, truncates a file, reopens a port or counts descriptors.",
  [E+"io/net_io_channel.h", E+"io/highspeed_net_io_channel.h", E+"io/file_io_channel.h", E+"utils/utils.hpp"],
  [("res <= 0 treated as fatal error(), SO_REUSEADDR, fclose in destructors", E+"io/net_io_channel.h")],
  ["exit status of the surviving party", "open descriptors before/after", "EBADF from close()"],
  "fault injection with runtime monitors: peers killed at enumerated byte offsets, truncated files, descriptor-table audit, close() interposer",
  "Fault points enumerated over a fixed set of message offsets plus random ones. A hang is reported only after a generous watchdog fires twice.",
  level="fault_enumeration")

p("C06", "AES primitives compute AES-128 for every key and block count",
  "The AES key schedule, ECB encryption and decryption compute exactly AES-128 for every key and every number of blocks, in place; decryption inverts encryption. The multi-key schedule produces for each key the same schedule as the single-key one, and the multi-key encryption encrypts each group of blocks under its own key, for every number of keys and of blocks per key.",
  ["inputs"],
  "All keys, all block counts, all (keys, blocks-per-key) shapes.",
  "aes_opt compares two shapes against the library itself; decryption and block counts other than a few are never checked against an independent AES.",
  [E+"utils/aes.h", E+"utils/aes_opt.h"],
  [("AES-NI key expansion, round loops, shuffle-based batched key expansion", E+"utils/aes_opt.h")],
  ["output blocks vs OpenSSL"],
  "runtime monitoring: differential oracle (OpenSSL AES-128-ECB) on random and structured keys over all shapes, ASan/UBSan build",
  "Held on the sampled keys and all shapes up to 16x4; OpenSSL trusted.")

p("C07", "A seeded PRG is one reproducible, never-repeating keystream",
  "A PRG seeded with (seed, id) emits exactly the AES-128 counter-mode keystream of that seed and id: request k continues where request k-1 stopped, each request of n bytes consumes ceil(n/16) blocks whatever the alignment of the destination, booleans are the low bits of such bytes, no keystream block is ever handed out twice, and distinct seeds or ids give unrelated streams. Exactly the requested bytes are written. Reseeding restarts the stream of the new seed with nothing left over from the old one, also for the 64-bit generator interface.",
  ["inputs", "histories"],
  "All seeds and ids, all sequences of request kinds and sizes, all destination alignments, positions up to and beyond 2^32 blocks.",
  "The prg test checks that two seeded instances agree on equal call sequences; it does not pin the stream, mix request kinds, vary alignment independently or pass 2^32 blocks.",
  [E+"utils/prg.h"],
  [("64-bit block counter, batch-of-8 encryption with remainder, aligned fast path with memmove", E+"utils/prg.h")],
  ["bytes written into guarded buffers"],
  "runtime monitoring: reference AES-CTR stream (OpenSSL) tracked in lockstep over random request histories, guard bytes, ASan build",
  "Held on random request histories; positions beyond 2^32 are reached by setting the public counter when it exists.")

p("C08", "Unseeded PRGs never share a seed",
  "PRG instances constructed without a seed produce pairwise unrelated output: across any number of instances, threads, forked processes and program runs, with either entropy source the build offers, no two share a stream, and the full 128-bit seed is random (no bit fixed, no reduced-entropy part).",
  ["histories", "schedules", "configurations"],
  "Any number of constructions, concurrently or in forked children, /dev/urandom and RDSEED builds.",
  "Tests construct a handful of unseeded PRGs and never compare them across instances, threads or processes.",
  [E+"utils/prg.h"],
  [("std::random_device on /dev/urandom or RDSEED for all 128 bits", E+"utils/prg.h")],
  ["first output blocks of every instance", "seed bits when exposed"],
  "runtime monitoring: collision and per-bit balance monitor over many instances from threads, forks and runs, both entropy builds, TSan",
  "Statistical: detects seeds with less than about 34 bits of entropy by birthday collisions, and any fixed or copied seed bits when the seed is visible.")

p("C09", "Hash equals SHA-256 of the concatenated input, however it is chunked",
  "Feeding data to Hash in any sequence of pieces, byte or block oriented, and taking the digest yields the SHA-256 of the concatenation; afterwards and after reset the object behaves as new. The one-shot digest, the block-valued hash and the key derivation from a curve point agree with SHA-256 of their documented input, and the key derivation separates points and ids.",
  ["inputs", "histories"],
  "All inputs and chunkings, in particular chunk sizes around the 8 KiB internal buffer and mixtures of small and large chunks, single pieces beyond 2^31 bytes; all digest/reset histories.",
  "The hash test uses equal chunks that never mix small pieces with pieces beyond the buffer and compares with one reference string.",
  [E+"utils/hash.h"],
  [("8 KiB accumulation buffer flushed into EVP, reset after digest", E+"utils/hash.h")],
  ["digests"],
  "runtime monitoring: differential oracle (OpenSSL one-shot SHA-256) over random chunking histories, ASan build",
  "Held on the chunkings generated; OpenSSL trusted.")

p("C10", "Fixed-key permutation and correlation-robust hashes follow their definition",
  "PRP computes AES-128 under its key for every block count, CRH(x)=pi(x)^x, CCRH(x)=pi(s)^s with s=sigma(x), and TCCRH(x,i)=pi(pi(x)^i)^pi(x), where sigma is a linear orthomorphism. The single, fixed-size and variable-size forms agree on every input and batch size, with consecutive tweaks per position, with or without caller-provided scratch space, and when input and output are the same array; inputs that are not outputs are left unchanged.",
  ["inputs"],
  "All keys, inputs, tweaks (64-bit, wrapping), batch sizes, aliasing and scratch choices, every way of constructing the key.",
  "The prp test measures speed and compares batch forms of the library with each other at one batch size.",
  [E+"utils/prp.h", E+"utils/crh.h", E+"utils/ccrh.h", E+"utils/tccrh.h", E+"utils/block.h"],
  [("permute_block batches of 8 plus remainder, sigma", E+"utils/prp.h")],
  ["output blocks vs OpenSSL based reference"],
  "runtime monitoring: differential oracle over all batch sizes 1..40, aliasing modes and key constructors, ASan/UBSan build",
  "Held on the sampled inputs; OpenSSL trusted.")

p("C11", "Multi-instance tweakable hash never reuses a key and stays in step",
  "The multi-instance hash derives key number g from its start point and g, uses key numbers consecutively, K per call with H inputs each, and never uses one key in two calls; each output is AES under that key of the input xor the input (with the input first passed through sigma in the circular variant). Two instances with the same start point that issue calls with the same numbers of keys produce equal outputs on equal inputs even if they hash different numbers of inputs per key, for every sequence of calls including mixed K and explicit repositioning, up to gate numbers beyond 2^32.",
  ["inputs", "histories"],
  "All start points, call sequences (K, H) over all batch sizes, gate numbers up to 2^64, repositioning at any time.",
  "mitccrh checks one shape at small gate numbers against the library's own AES.",
  [E+"utils/mitccrh.h", E+"utils/aes_opt.h"],
  [("gid counter, key batch renewal, scheduled_key window", E+"utils/mitccrh.h")],
  ["output blocks vs OpenSSL based reference"],
  "runtime monitoring: reference key-sequence model in lockstep over random call histories, ASan build",
  "Held on the call histories generated; keys recomputed with OpenSSL. When mixed K leaves fewer than K keys the rest may be skipped; the model accepts a skip but never a reuse.")

p("C12", "GF(2^128) arithmetic is exact",
  "Carry-less multiplication, both reductions and both multiplications compute the polynomial product modulo x^128+x^7+x^2+x+1 (in the plain and in the reflected representation) for all operands; inner products with and without reduction, vector sums, powers for the universal hash and bit packing equal their definitions for every vector length, zero and one included where defined.",
  ["inputs"],
  "All operands and all lengths.",
  "The f2k test compares two code paths of the library with each other for a few lengths; the reduction itself is not checked against an independent definition.",
  [E+"utils/f2k.h"],
  [("PCLMULQDQ schoolbook product and shift-based reductions, 4-way unrolled loops with remainder handling", E+"utils/f2k.h")],
  ["results vs bitwise reference"],
  "runtime monitoring: bit-serial reference field implementation as oracle on structured and random operands and all lengths, ASan/UBSan build",
  "Held on all one-bit by one-bit operand pairs (which by bilinearity determines the products) plus random operands.")

p("C13", "Bit-matrix transpose and block/bool/integer conversions are exact",
  "Transposing any bit matrix whose dimensions are multiples of 8 gives the transposed matrix and writes nothing outside the output, in every supported dimension. Conversions between integers, byte strings, blocks and boolean arrays are mutually inverse and least-significant-bit first (most significant first when reversed), change only the requested bits, and block helpers (xor of arrays, comparison, bit setting, low bit, construction) compute what they name for every length and also in place.",
  ["inputs"],
  "All matrices and dimensions that are multiples of 8, all lengths, values and alignments.",
  "to_bool covers a few values; the transpose, block comparison and reversed conversions have no test.",
  [E+"utils/block.h", E+"utils/utils.hpp"],
  [("SSE movemask transpose with 16x8 main body and remainders, shift/mask loops", E+"utils/block.h")],
  ["outputs and guard bytes"],
  "runtime monitoring: bitwise reference oracle over all dimensions up to 256x256 and random larger ones, guard bytes, ASan build",
  "Held on all sampled dimensions.")

p("C14", "The elliptic-curve group obeys its laws and only accepts valid points",
  "Point addition, inversion, scalar multiplication and generator multiplication satisfy the group laws of NIST P-256 of the advertised order (including identity, equal and inverse operands), comparison is exact, operands are not modified, and copies are independent of their originals. Serialisation round-trips every point and every non-negative big integer, encodings that are not points of the curve are rejected with a failure exit, and big-integer arithmetic and modular arithmetic are exact. Random scalars lie below the order and do not repeat.",
  ["inputs", "histories"],
  "All points and scalars including 0, 1, order-1, order, order+1; all byte strings as encodings; any sequence of copies, assignments and self-assignments.",
  "The ecc test checks a few random identities; identity elements, edge scalars, aliasing and malformed encodings are not covered.",
  [E+"utils/group.h", E+"utils/group_openssl.h"],
  [("thin wrappers over OpenSSL EC/BN with error() on failure, copy-and-swap assignment", E+"utils/group_openssl.h")],
  ["encodings, comparison results, exit status for malformed input"],
  "runtime monitoring: independent affine P-256/bignum oracle, law monitors over random histories, malformed-encoding injection in child processes, ASan build",
  "Held on sampled points and scalars plus all edge combinations.")

p("C15", "Integer arithmetic and logic equal two's-complement arithmetic",
  "For every width and all operand values, the secure integer operations +, -, unary -, *, &, |, ^ equal two's-complement arithmetic modulo 2^width, and / and % equal truncated signed division for non-zero divisors, whichever party supplies the operands or whether they are public constants. Operands are never changed, and results are right when an operand is used twice or assigned to itself.",
  ["inputs", "programs", "configurations"],
  "All widths (1 upwards, beyond 64 bits), all values with extremes, all mixtures of public and private operands, all compositions.",
  "The int test samples random 32-bit values per operator; other widths, extremes, public/secret mixtures and aliasing are not reached.",
  [E+"circuits/integer.hpp", E+"circuits/integer.h", E+"circuits/bit.hpp"],
  [("ripple-carry, schoolbook multiplier, restoring division, conditional negation", E+"circuits/integer.hpp")],
  ["output bits of a bit-sliced execution and of the plain protocol"],
  "runtime monitoring: bit-sliced execution backend (128 evaluations at once) against a big-integer oracle; exhaustive for small widths; ASan/UBSan build",
  "Exhaustive for widths up to 6 (unary 8), sampled with extremes up to width 256.")

p("C16", "Integer comparison, shift, selection and bit-count operations are exact",
  "For every width and value: the six comparisons equal signed comparison; shifts by public amounts (up to and beyond the width) and by secret amounts in range are logical shifts; selection and conditional swap return exactly the chosen operands; absolute value, leading-zero count, population count, modular exponentiation and signed or unsigned resizing equal their arithmetic definition. Bit selection and Boolean operators equal their truth tables.",
  ["inputs", "programs"],
  "All widths, values, shift amounts, selector bits; modular exponentiation while operands stay below the square root of the range.",
  "The int and bit tests sample 32-bit values; shift amounts at the width, non-power-of-two widths, and counts at other widths are not reached.",
  [E+"circuits/integer.hpp", E+"circuits/bit.hpp", E+"circuits/comparable.h", E+"circuits/swappable.h"],
  [("sign-extended subtraction for comparison, logarithmic shifter, adder tree for counts", E+"circuits/integer.hpp")],
  ["output bits"],
  "runtime monitoring: bit-sliced execution backend against a big-integer oracle, exhaustive for small widths, ASan/UBSan build",
  "Exhaustive for small widths and all shift amounts, sampled with extremes up to width 256.")

p("C17", "Sorting yields the sorted permutation with its payload attached",
  "Sorting an array of secret keys of any length, ascending or descending (chosen publicly or secretly), leaves the same multiset of keys in order, moves each payload with its key, and touches no element outside the array; keys may repeat and be negative, and payloads are optional.",
  ["inputs"],
  "All lengths (0, 1, powers of two and others), all key and payload values and widths, both directions.",
  "Tests sort fixed lengths of random 32-bit keys; non-power-of-two lengths with payloads, descending order and duplicates are not reached.",
  [E+"circuits/number.h", E+"circuits/swappable.h"],
  [("bitonic network for arbitrary lengths", E+"circuits/number.h")],
  ["revealed keys and payloads"],
  "runtime monitoring: zero-one exhaustive and random inputs on the bit-sliced backend, multiset-conservation and order monitors",
  "0-1 exhaustive up to length 12 (which by the 0-1 principle covers all keys for data-oblivious networks), random up to length 200.")

p("C18", "Values fed into a computation are the values revealed",
  "Feeding an integer, bit, float or byte string of any width for any party and revealing it returns the same bits through every reveal form (unsigned and signed words, string, byte buffer, boolean array), with sign extension to widths beyond 64 bits, truncation to the requested type and zero bits above a value narrower than it, and writes only the bytes that hold the value's bits. Every input is handed to the protocol backend for the right party, in order, least significant bit first, and public values never are; every reveal reaches the backend for the party asked for.",
  ["inputs", "configurations"],
  "All widths 1..300, all values, all parties, all reveal types.",
  "Tests reveal 32-bit integers as int; strings, buffers, other widths and parties are hardly touched.",
  [E+"circuits/integer.hpp", E+"circuits/bit.hpp", E+"circuits/float32.hpp", E+"execution/plain_prot.h", E+"utils/utils.hpp"],
  [("init/feed, revealBools, from_bool", E+"circuits/integer.hpp")],
  ["revealed values", "feed/reveal calls seen by a recording protocol backend"],
  "runtime monitoring: recording protocol backend and plain backend, round-trip oracle over widths, values and parties, guard bytes, ASan/UBSan build",
  "Held on all widths 1..300 with sampled values.")

p("C19", "Float arithmetic is IEEE-754 single precision with flush-to-zero",
  "Float addition, subtraction, multiplication and division of zeros, normal numbers and infinities (subnormals counting as zeros) return the correctly rounded (nearest-even) IEEE single whenever the exact rule gives zero, a normal number or infinity, and a zero of the right sign when the rounded result would lie below the smallest normal number. Square and square root are correctly rounded for all non-NaN inputs that give a number.",
  ["inputs"],
  "All pairs of 32-bit patterns other than NaNs whose IEEE result is not a NaN.",
  "The float test checks random values of moderate size with a relative tolerance; rounding ties, cancellation, overflow, exponent extremes and signed zeros are not reached.",
  [E+"circuits/float32.h", E+"circuits/float32_add.cpp", E+"circuits/float32_sub.cpp", E+"circuits/float32_mul.cpp", E+"circuits/float32_div.cpp", E+"circuits/float32_sq.cpp", E+"circuits/float32_sqrt.cpp"],
  [("gate-array circuits executed by execute_circuit", E+"circuits/float32_add.cpp")],
  ["result bits vs the FPU"],
  "runtime monitoring: bit-sliced execution of the real circuits against the FPU on structured (exponent x mantissa-pattern) and random operands",
  "Held on several million operand pairs per run including all exponent pairs and boundary mantissas.")

p("C20", "Float comparison, selection and sign operations are exact",
  "equal, less-than and less-or-equal agree with IEEE comparison for all zeros, normal numbers and infinities (both zeros equal, subnormals counting as zeros); negation, absolute value, bitwise operators, selection and swapping act on the exact bit patterns; and a float of any bit pattern is fed and revealed unchanged.",
  ["inputs"],
  "All pairs of non-NaN bit patterns; selection and sign operations on all bit patterns.",
  "The float test compares random moderate values; equal operands, adjacent values, opposite signs, zeros and infinities are rare or absent.",
  [E+"circuits/float32.hpp", E+"circuits/float32_eq.cpp", E+"circuits/float32_le.cpp", E+"circuits/float32_leq.cpp"],
  [("gate-array circuits and bitwise operators", E+"circuits/float32_le.cpp")],
  ["result bits vs the FPU"],
  "runtime monitoring: bit-sliced execution against the FPU on adjacent, equal, mixed-sign and random operands, ASan/UBSan build",
  "Held on the operands sampled, including all exponent pairs and one-bit neighbours.")

p("C21", "Float elementary functions are accurate over their whole domain",
  "sin(pi x), cos(pi x), 2^x, e^x, ln x and log2 x return for every zero, normal or infinite argument in their domain a result within a few units of 1e-7 of the true value (absolute error for sine and cosine, relative error for the exponentials, relative or near-zero absolute error for the logarithms), overflow to infinity and underflow to zero where the true value does, and give exact results at trivial points (e^0, 2^0, ln 1, sin 0).",
  ["inputs"],
  "All 32-bit patterns of zeros, normal numbers and infinities in the domain of each function.",
  "The float test samples a narrow random range per function with a 1e-3 style tolerance.",
  [E+"circuits/float32_sin.cpp", E+"circuits/float32_cos.cpp", E+"circuits/float32_exp.cpp", E+"circuits/float32_exp2.cpp", E+"circuits/float32_ln.cpp", E+"circuits/float32_log2.cpp"],
  [("gate-array circuits executed by execute_circuit", E+"circuits/float32_exp.cpp")],
  ["result bits vs long double libm"],
  "runtime monitoring: bit-sliced execution of the real circuits against long-double libm, stratified over all exponents",
  "Held on a sample of several hundred thousand arguments per function stratified over sign and exponent.")

p("C22", "Bristol circuits load and execute exactly as written",
  "Loading a Bristol-format or Bristol-fashion circuit from a file, an open stream (read from where it stands, so that several circuits can follow each other) or (for the old format) an in-memory gate array and computing it yields on every input the values the file's gates define, for any number of computations and reloads on one object, with inputs left unchanged, also when input and output arrays overlap completely. The circuits shipped with the library compute their named functions (AES-128, SHA-1, SHA-256 compression, arithmetic). Exporting a circuit as C arrays and rebuilding it from them gives the same function. Executing a bare gate array (AND, XOR, NOT and OR, any index type) in place on its wires does the same.",
  ["programs", "inputs", "histories"],
  "All circuits of AND/XOR/INV gates (any wire numbering that defines wires before use), all inputs, all load/compute histories.",
  "garble and gen_circuit run one or two shipped files on one input and mostly compare with nothing.",
  [E+"circuits/circuit_file.h", E+"circuits/files/bristol_fashion", E+"circuits/files/bristol_format"],
  [("fscanf loader, gate loop, memcpy of inputs and outputs", E+"circuits/circuit_file.h")],
  ["output wires vs an independent evaluator and OpenSSL"],
  "runtime monitoring: random circuit generator with independent parser/evaluator as oracle, OpenSSL/arithmetic references for shipped files, ASan/UBSan build",
  "Held on the generated circuits and on bit-sliced random inputs of every shipped file whose function is named.")

p("C23", "A program compiled to a circuit file computes what the program computed",
  "Running a program on the plain backend with circuit output produces a Bristol-format file whose header counts match its contents and whose evaluation on any inputs gives what the program reveals on those inputs, in reveal order, including revealed constants and values revealed twice. The plain run itself returns the right values, and its gate counts equal the gates written, with AND gates counted only when both operands are secret.",
  ["programs", "inputs"],
  "All straight-line programs over secure integers and bits with inputs of both parties fed first (at least one input bit), all input values.",
  "gen_circuit compiles a sort and one expression and never evaluates the produced file on inputs other than those it was compiled with.",
  [E+"execution/plain_circ.h", E+"execution/plain_prot.h"],
  [("public/secret label tags with constant folding, 200-column header placeholder, output copy gates", E+"execution/plain_circ.h")],
  ["generated files parsed and evaluated independently", "revealed values"],
  "runtime monitoring: random program generator, files re-evaluated by the library loader and an independent evaluator on fresh inputs",
  "Held on the generated programs and inputs.")

p("C24", "In-circuit AES-CTR and SHA3-256 equal their standards",
  "The in-circuit AES-128-CTR calculator, in all forms (secret or public key and IV, in place, separate output, keystream only), equals standard AES-128-CTR with a 128-bit big-endian counter for every positive bit length and start chunk (chunk numbers below 2^64), and equals the out-of-circuit function, which equals OpenSSL; chunked and one-shot use agree. The in-circuit SHA3-256 calculator equals SHA3-256 for every byte-string input however it is split into pieces, given a correct Keccak-f circuit, and objects can be reused.",
  ["inputs", "histories"],
  "All keys, IVs (including counters about to wrap at 32, 64 and 128 bits), lengths, start chunks, input partitions.",
  "aes_128_ctr checks random IVs, which practically never wrap, and one partition; the SHA3 test cannot run because its circuit file is absent.",
  [E+"circuits/aes_128_ctr.h", E+"circuits/sha3_256.h"],
  [("counter arithmetic, byte reversal, sponge absorption and padding", E+"circuits/aes_128_ctr.h")],
  ["output bits vs OpenSSL"],
  "runtime monitoring: bit-sliced execution against OpenSSL EVP with wrapping counters, all lengths across chunk and rate boundaries, ASan build",
  "Held on sampled keys/IVs and all boundary lengths. The Keccak-f circuit is generated by the harness, since the repository lacks its file.")

p("C25", "Half-gates garbling evaluates every circuit correctly",
  "For every circuit, every input and every choice of labels, the evaluator of a half-gates garbled circuit obtains on every wire exactly the label that encodes the wire's true value under the generator's offset: generator zero-label xor value times offset, with the offset's low bit one so that labels of opposite values differ in their low bit. This holds for public constants, inputs reused and gates with equal operands, over any transport and for any number of gates.",
  ["programs", "inputs", "histories"],
  "All circuits over AND, XOR, NOT and constants, all inputs and labels, all transports, gate counts beyond key-batch boundaries and beyond 2^32 gate numbers.",
  "halfgate and garble run one circuit and mostly check nothing about labels.",
  [E+"gc/halfgate_gen.h", E+"gc/halfgate_eva.h", E+"utils/mitccrh.h"],
  [("halfgates_garble/halfgates_eval with per-gate keys in lockstep", E+"gc/halfgate_gen.h")],
  ["labels on both sides for every wire"],
  "runtime monitoring: per-wire label invariant monitor over random circuits executed by generator and evaluator through MemIO and sockets, ASan build",
  "Held on all wires of the random circuits executed.")

p("C26", "Privacy-free garbling evaluates every circuit correctly",
  "For every circuit and input, the evaluator of a privacy-free garbled circuit obtains on every wire exactly the generator's zero-label xor the wire's true value times the offset, and the label's low bit is the wire's value, provided the input labels follow that convention; this holds for public constants, repeated operands and any number of gates, over any transport.",
  ["programs", "inputs", "histories"],
  "All circuits over AND, XOR, NOT and constants, all inputs and labels, all gate counts.",
  "No test runs the privacy-free generator against the evaluator and checks the result.",
  [E+"gc/privacy_free_gen.h", E+"gc/privacy_free_eva.h"],
  [("fixed-key AES hash with gate tweak, low-bit forcing", E+"gc/privacy_free_gen.h")],
  ["labels on both sides for every wire"],
  "runtime monitoring: per-wire label invariant monitor over random circuits executed by generator and evaluator, ASan build",
  "Held on all wires of the random circuits executed.")

p("C27", "Garbling transcripts are minimal, fresh and leak no secret label",
  "A garbler sends two blocks per AND gate (one in privacy-free garbling) and nothing for XOR, NOT and constants after its set-up, and both parties' AND counts equal the AND gates executed. The offset and the inactive label of any wire never appear in the transcript nor as the xor of a transmitted block with another transmitted block or an evaluator-known label; tables of different gates differ even on equal operands, and no offset, constant label, seed or table is ever repeated across sessions.",
  ["programs", "histories"],
  "All circuits, inputs and numbers of sessions, including caller-chosen offsets.",
  "No test looks at the transcript, at freshness or at gate counts.",
  [E+"gc/halfgate_gen.h", E+"gc/halfgate_eva.h", E+"gc/privacy_free_gen.h", E+"gc/privacy_free_eva.h", E+"utils/mitccrh.h"],
  [("gate-indexed tweaks/keys, fresh PRG per session, set_bit on the offset", E+"gc/halfgate_gen.h")],
  ["recorded transcripts and both parties' labels"],
  "runtime monitoring: offline transcript checker over recorded sessions (conservation of blocks, freshness, forbidden-value search)",
  "Black-box leak search covers direct values and pairwise xors; it is not a cryptographic proof.")

p("C28", "ThreadPool runs every accepted task exactly once",
  "Every task accepted by a ThreadPool runs exactly once, on a worker thread, with the arguments given, and its future delivers its value or exception, for every positive number of workers, every number of producers and every schedule, including tasks that submit tasks; with one worker and one submitter, tasks run in the order of submission. Destroying the pool first runs everything already accepted and then joins all workers; submitting to a pool being destroyed throws and never loses or half-runs a task. At least as many tasks as there are workers can be in progress at once (so tasks waiting for later ones finish while a worker is free), and no data race or lost wake-up occurs.",
  ["schedules", "histories"],
  "All worker counts (1 upwards), producer counts, task mixes and thread schedules, spurious wake-ups included, C++11 and C++20 builds.",
  "The repository has no ThreadPool test; users run protocols on it.",
  [E+"utils/ThreadPool.h"],
  [("mutex-protected queue, condition variable with predicate, stop flag, joins in the destructor", E+"utils/ThreadPool.h")],
  ["per-task execution records, future outcomes, worker ids"],
  "runtime monitoring: exactly-once/drain monitors over recorded task histories with injected delays and spurious wake-ups, ThreadSanitizer, C++11 and C++20 builds",
  "Held on the schedules produced by stress, delay injection and TSan; hangs are reported only after the watchdog fires twice.")

p("C29", "Independent sessions on different threads do not interfere",
  "In the threading build, each thread has its own circuit and protocol backend: any number of threads running their own plain, garbling or evaluation sessions concurrently obtain exactly the results each would obtain alone, and a session installed on one thread is invisible on others. In any build, distinct cipher, hash, generator, channel and group objects used on distinct threads do not interact; no data race occurs.",
  ["schedules", "configurations"],
  "All thread counts and schedules, all mixtures of sessions and objects.",
  "Tests are single-threaded and never build with threading support.",
  [E+"execution/circuit_execution.h", E+"execution/protocol_execution.h", E+"emp-tool.cpp", E+"utils/prg.h", E+"utils/hash.h"],
  [("__thread backend pointers under THREADING, no shared mutable state elsewhere", E+"emp-tool.cpp")],
  ["per-thread results vs sequential reference", "ThreadSanitizer reports"],
  "ThreadSanitizer plus per-thread result monitors against a sequential reference, THREADING and default builds",
  "Held on the schedules observed.")

p("C30", "No memory error or undefined behaviour on valid use",
  "Used within its interface, no operation of the library reads or writes outside the objects it was given or owns, uses freed or uninitialised memory in a way that affects results, leaks memory it allocated, or executes undefined behaviour detectable at run time, for any sizes, lengths and alignments the interface allows.",
  ["inputs", "histories", "configurations"],
  "All workloads of the other properties, with exactly sized heap buffers, in the default, BMI2-less and threading builds.",
  "The tests run without sanitizers on generously sized buffers.",
  [E+"utils/block.h", E+"utils/prg.h", E+"io/mem_io_channel.h", E+"io/highspeed_net_io_channel.h", E+"circuits/circuit_file.h", E+"circuits/integer.hpp"],
  [("bounds by construction; no runtime checks", E+"utils/block.h")],
  ["AddressSanitizer/LeakSanitizer/UndefinedBehaviorSanitizer reports, valgrind memcheck (thorough)"],
  "AddressSanitizer + LeakSanitizer + UndefinedBehaviorSanitizer over all workloads with exact-size heap buffers",
  "Clean sanitizer runs over the workloads only; alignment of multi-byte stores in the transpose (valid on x86) is excluded. Intra-object overflows are visible only through their effect on results.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
                quantifier=dict(over=q["over"], text=q["qtext"]), why_tests_cant=q["why"],
                anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                             observe_at=q["observe"], hook_needed=None))) + "\n")
    claimed = json.load(open(os.path.join(V, "tools", "claimed.json"))) if os.path.exists(os.path.join(V, "tools", "claimed.json")) else []
    m = dict(version=1, setup_cmd="python3 run.py --setup",
             checks=[dict(property=q["id"], quick_cmd="python3 run.py --property %s --tier quick" % q["id"],
                          thorough_cmd="python3 run.py --property %s --tier thorough" % q["id"],
                          technique=q["technique"], level=q["level"], level_note=q["note"]) for q in P if q["id"] in claimed],
             not_applicable=[dict(property=q["id"], reason="check not built yet") for q in P if q["id"] not in claimed],
             notes="All checks drive the real code of /repo's working tree from /verif/harness; no hooks in /repo are needed. See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
