"""Which function decides which property."""
import c_kem, c_hash, c_util, c_rand, c_drbg, c_kat, c_frame, c_leak, c_link, c_pure
CHECKS = {f"C{n:02d}": getattr(c_kem, f"c{n:02d}") for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14)}
CHECKS.update(C11=c_hash.c11, C12=c_hash.c12, C13=c_rand.c13, C15=c_pure.c15, C20=c_drbg.c20, C21=c_drbg.c21, C22=c_kat.c22, C16=c_frame.c16, C17=c_link.c17, C18=c_leak.c18, C19=c_util.c19)
LEVEL = {}
HOOKS = None
T = "TLA+ specification checked with TLC; "
TEXT = {
 "C01": (T + "replay of TLC-generated histories on the code, trace validation", "KemSystem: all histories to depth 4 and random ones to depth 16 replayed with mixed implementations; honest sessions; KemTrace on byte level"),
 "C02": (T + "TLC-enumerated difference patterns replayed, trace validation", "all 3^8 difference patterns in 12 layouts, single-bit and counted differences, spliced keys; result class accept/reject/other; byte level in KemTrace"),
 "C03": (T + "trace validation of recorded calls, real and oracle world", "executable FIPS 203 key generation in TLA+ against recorded bytes"),
 "C04": (T + "trace validation of recorded calls, real and oracle world", "executable FIPS 203 encapsulation in TLA+ against recorded bytes, malformed keys included"),
 "C05": (T + "trace validation of recorded calls, real and oracle world", "executable FIPS 203 decapsulation in TLA+ against recorded bytes, malformed and spliced keys included"),
 "C06": (T + "lockstep trace validation of both implementations", "PureTrace/KemSystem over bulk lockstep runs on honest, random, malformed, extreme and oracle-world inputs"),
 "C07": (T + "TLC-generated rejection patterns replayed, trace validation", "RejSampler behaviours concretised into XOF streams for every matrix entry; SampleNTT in TLA+ decides"),
 "C08": (T + "trace validation in the oracle world", "programmed PRF streams; CBD, nonces and order decided by the TLA+ specification"),
 "C09": (T + "replay of TLC-computed tables, trace validation", "compression and message decoding for every value at (thorough: every) positions against tables TLC computed; KemTrace for codecs"),
 "C10": (T + "trace validation on extreme operands, lockstep", "oracle-world operands at the limits of every lazy reduction; exact ring arithmetic in TLA+ decides"),
 "C14": (T + "trace validation of randomised histories on a tape", "KemTrace with tape position as state; KemSystem behaviours with repeated randomness"),
 "C15": (T + "replay of TLC-generated histories, preemptions and threads, trace validation", "Purity: activations and where their intermediate values live, model-checked for every schedule (own cells pure; shared cells, caches, counters not, and what reveals them); generated chains of related calls in one process, inside single-stepped calls at any instruction, on 8 threads and tens of thousands of times; PurityTrace accepts only what the call gave in a process of its own"),
 "C11": (T + "replay of TLC-generated call sequences, trace validation", "Sponge protocol fully explored at a shrunk rate; random behaviours at the real rates replayed; FIPS 202 in TLA+ decides; bulk runs over all lengths and 2^32+17-byte messages"),
 "C12": (T + "trace validation of four-way calls against four single sponges", "all input lengths up to several blocks, guard pages around every buffer, FIPS 202 in TLA+ decides"),
 "C13": (T + "replay of TLC-generated system-call results, trace validation", "RandomBytes: process and operating system fully explored (termination included) for the descriptor-less, device and Windows protocols; all behaviours sampled/replayed against each platform branch of randombytes.c with the system calls interposed"),
 "C20": (T + "replay of TLC-generated call sequences, trace validation", "CTR_DRBG and AES-256 executable in TLA+; counters steered to every carry through the entropy input; bulk histories against an independent implementation; one request beyond 2^31 bytes"),
 "C21": (T + "replay of TLC-generated call sequences, trace validation", "expander with buffer and block counter fully explored for small budgets; generated sequences with refusals replayed; AES-256 in TLA+ decides; carries 2^16..2^24 blocks into the stream"),
 "C22": (T + "trace validation of generator runs", "grammar of both files, DRBG chain of all seeds and coins and full FIPS 203 records in TLA+; remaining records against both libraries; runs with a stand-in library that fails or disagrees at chosen records"),
 "C16": (T + "replay of TLC-generated buffer placements, trace validation of every memory access", "Frame: block-wise callees model-checked for every length and gap; generated placements (all alignments, both ends of a page) replayed between inaccessible pages with poisoned outputs, read-only inputs; recorded loads and stores of the real programs (valgrind) checked byte for byte against the frame"),
 "C18": (T + "trace validation of instruction and address traces (self-composition)", "Leak: two runs side by side, noninterference model-checked; all experiments (which secret differs, how, accepted or not) enumerated by TLC and performed on gcc -O3 programs and other compiler levels under a memory tracer; the recorded instruction/address sequence and division operands must be a function of the public arguments"),
 "C17": (T + "model checking of the dynamic linker over the tree's own libraries, replay of generated loading histories", "Link: exports, imports, declarations and published sizes as invariants over facts read from the built libraries and headers; ELF symbol resolution explored for every order of up to three libraries; generated complete loading histories with lazy binding and uses in between replayed in processes of their own, and one program linked from all objects, compared with every library alone"),
 "C19": (T + "replay of TLC-enumerated difference patterns, trace validation", "every length to 68 with every pair of differing positions, every bit of the ciphertext lengths, random and 2^32+77-byte strings; guard pages and all alignments"),
}
