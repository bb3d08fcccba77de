# One entry per claimed property: the explorers (parts) that decide it, their bounds, and what is
# assumed.  A part is one C++ program that includes the real headers of /repo/include.
# draw the explorer's bytes directly, if the tree builds that way
DIRECT = ["-include", "{lib}/direct_prng.hpp"]
PROPS = {
    "C08": {
        "parts": [{"name": "ff", "src": "c08.cpp", "libs": []}],
        "how": "every operand pair of every Z_q operation of the real code compared with integer arithmetic",
        "bounds": "complete operand space (12289^2 pairs, 65536 constructor arguments); powers: 260+ exponents per base",
        "note": "Complete enumeration of the operand space of every binary and unary operation of the real code; exponents bounded (dense small range, every power of two and its neighbours). Trusts the compiler and 64-bit integer arithmetic of the reference.",
    },
}
PROPS["C04"] = {
    "parts": [{"name": "pkey", "src": "c04.cpp", "libs": []}],
    "how": "encode/decode of the real code against a reference bit packer, with guard words and stale output contents",
    "bounds": "all (position, value) pairs; every 14-bit field at every position (in and out of range); every pair of positions out of range; every header; every byte value at every offset",
    "note": "Complete over single fields, pairs of bad fields, headers and single bytes on three backgrounds for both N; the full product space of 512/1024 coefficients is not enumerable, fields are packed independently in groups of four (all in-group interactions are covered by the backgrounds).",
}
PROPS["C05"] = {
    "parts": [{"name": "skey", "src": "c05.cpp", "libs": []}],
    "how": "encode/decode of the real code against a reference bit packer, with guard words and stale output contents",
    "bounds": "all (position, value) pairs of f, g, F on three backgrounds and eight sliding patterns; every header; every byte value at every offset",
    "note": "Complete over single coefficients, headers and single bytes for both N. Bodies that contain the forbidden minimum (-32/-16/-128) may be refused or round-trip.",
}
PROPS["C06"] = {
    "parts": [{"name": "codec", "src": "c06.cpp", "libs": []}],
    "how": "real compressor/decompressor against a reference bit-level codec; the state of both is (bit offset, coefficient index), all 8 alignments and all distances to the end of the buffer are reached",
    "bounds": "all magnitudes that can fit at all alignments; all excess splits around exactly full; all tails up to 2^19; all values of two adjacent bytes at chosen offsets; every single bit flip",
    "note": "Complete within the stated bounds for both N; interactions of more than two unusual coefficients only along the listed patterns.",
}
PROPS["C09"] = {
    "parts": [{"name": "ntt", "src": "c09.cpp", "libs": []}],
    "how": "real ntt/intt/polynomial routines against naive arithmetic in Z_q[x]/(x^N+1)",
    "bounds": "every residue at every monomial (quick: every third residue, the class rotating with the position), every evaluation unit vector, every pair of monomials (product), dense patterns, all constants",
    "note": "The maps are linear, so monomials and unit vectors span them; all residues at butterfly inputs plus dense extreme patterns cover the data-dependent reductions. Trusts the C08-checked reading that operator results are exact only through explicit comparison here as well.",
}
PROPS["C10"] = {
    "parts": [{"name": "fft", "src": "c10.cpp", "libs": []}],
    "how": "real fft/ifft/split/merge/adjoint/element-wise routines against long double evaluation at the roots of x^N+1",
    "bounds": "all ten sizes; all monomials times 14 complex scalars, all evaluation unit vectors, all pairs of monomials (product), dense patterns with magnitudes up to 2^53; element-wise operations for all magnitudes 2^-80..2^80",
    "note": "Transform, inverse, split and merge are linear, and every basis vector of each is checked to 1e-13 relative accuracy; element-wise operations to 1e-14. Rounding-level (below 1e-13) deviations are not considered wrong.",
}
PROPS["C11"] = {
    "parts": [{"name": "h2p", "src": "c11.cpp", "libs": []}],
    "how": "the XOF is an environment whose answers (16-bit words) the explorer chooses; the resulting polynomial is compared with the specified rejection process; the absorb side is compared with real SHAKE256",
    "bounds": "all 65536 words at every position; all single and pairs of rejected positions; runs up to 4096 rejects; all 12-bit reject masks at each block boundary and at the end; message lengths 0..699 and selected up to 2^18 (absorbed length recorded up to 2^33); all single bits of salt and message",
    "assumptions": ["the shim's SHAKE256 stands in for the absent sha3 submodule"],
    "note": "Deviation-bounded: default stream all-accepted, all 1- and 2-rejection deviations and all patterns in windows around block boundaries.",
}
PROPS["C20"] = {
    "parts": [{"name": "arith", "src": "c20.cpp"}],
    "how": "real 72-bit and 64x64 arithmetic against unsigned __int128 on every combination of boundary limbs",
    "bounds": "all 256x256 high bytes times 57x57 boundary low limbs; all byte values at all byte positions; 24^4 half-limb products; all table entries",
    "note": "Exhaustive over carry/borrow/limb-boundary classes, not over all 2^144 operand pairs.",
}
PROPS["C23"] = {
    "parts": [{"name": "hex", "src": "c23.cpp", "libs": []}, {"name": "len", "src": "c23b.cpp"}],
    "how": "real helpers against table conversion; key and signature operations on guarded buffers of exactly the advertised lengths",
    "bounds": "all strings up to 2 bytes, all byte values at all positions for lengths < 130 (thorough: 2400), all digit pairs; signing and verification with message lengths 0..139 (thorough 699) and inaccessible pages on every combination of sides of the four buffers",
    "note": "Exhaustive within length bounds.",
}
PROPS["C01"] = {
    "parts": [{"name": "v512", "src": "c01.cpp", "defs": ["512"]}, {"name": "v1024", "src": "c01.cpp", "defs": ["1024"]}],
    "how": "real verification (both interfaces) on triples whose hash value is an environment answer, so that (s1, s2) lies exactly on, inside or outside the bound; verdict compared with an integer-arithmetic reference",
    "bounds": "squared norms bound-3..bound+3 with the large coefficient at every position of s1/s2; every value of a coefficient of h; every pair of monomials (s2, h) (quick, N=1024: a quarter); every decodable value of an s2 coefficient; every residue of s1; totals around every multiple of 2^31 up to the maximum; all 256x256 headers; all out-of-range positions; every single bit flip of an honest signature, key, message; single, neighbouring and runs of special bytes at every place of salt and message; message lengths 0..600 and up to 2^33+3",
    "note": "Deviation-bounded enumeration around the acceptance boundary for both N. Message bytes beyond the hash input are covered by C11.",
}
PROPS["C12"] = {
    "parts": [{"name": "sampler", "src": "c12.cpp", "prefer": DIRECT}],
    "how": "the random bytes are environment answers: for every (centre, width, base sample, sign) the 256-ary decision tree of the Bernoulli trial is walked along its boundary, which yields the exact 64-bit acceptance threshold of the real code, compared with ccs*exp(-x)",
    "bounds": "18x2049 base values around the table thresholds, any one / two bytes replaced; x around every multiple of ln 2 and on a grid of [0, 70]; 40 centres x 5..13 widths x 19 base samples x 2 signs; attempt sequences up to depth 3, runs of up to 100000 rejections; all truncations of the byte array",
    "assumptions": ["the threshold may deviate from ccs*exp(-x) by 2^-44 relative plus 4 units of 2^-64 (rounding of the specified approximation and of double arithmetic)"],
    "note": "All byte values at every decision along the boundary; centres and widths are sampled on a grid that contains the extremes.",
}
PROPS["C13"] = {
    "parts": [{"name": "tree", "src": "c13.cpp"}],
    "how": "every node and leaf of the real tree compared with a long double reference in its own evaluation order",
    "bounds": "N=2: every basis with coefficients in {-1..2}; N=4: every 0/1 basis; gram matrix: pairs of monomials in every pair of entries for all N (quick: 16 of them per entry above N=16); patterned well-conditioned bases for all N = 2..1024; fixture and generated keys",
    "note": "Tolerance 1e-12 times the condition of the decomposition (1e-9 for real keys). Leaf range checked on every fixture and generated key of the bounded seed set.",
}
PROPS["C14"] = {
    "parts": [{"name": "ffs", "src": "c14.cpp", "prefer": DIRECT}],
    "how": "the random bytes are environment answers; the real recursion and the reference recursion read the same bytes, results are compared as integer polynomials together with the number of bytes used",
    "bounds": "N=2: all 8^4 sequences of sampler answers, N=4: 3^8 (thorough 5^8), N=8: 2^16, each with several trees and targets; N = 2..1024: one unusual answer at every sampler call; patterned trees and targets; targets on and next to the lattice with acceptance draws next to the threshold at every call (N = 2..32); fixture keys with hashed targets",
    "note": "Decisions closer than 1e-8 to a rounding boundary are skipped (counted).",
}
PROPS["C02"] = {
    "parts": [{"name": "s512", "src": "c02.cpp", "defs": ["512"]}, {"name": "s1024", "src": "c02.cpp", "defs": ["1024"]}],
    "how": "directed exploration: by choosing the hash value and the sampler's random bytes the explorer decides which lattice point each signing attempt of the real code produces; every returned signature is judged by a reference verifier",
    "bounds": "squared norms bound-5..bound+5; compressed lengths limit-12..limit+12 bits; large s2 coefficients at every position; every history of up to 3 (thorough 4) rejected attempts out of 5 kinds, followed by 3 kinds of success; the same rejection(s) 17..65537 times; one extreme sampler answer at every sampler call; extreme hash values; message lengths 0..419; both interfaces; 3 fixture keys (one with |F| = 127, one with |G| > 127) and generated keys per N",
    "note": "Deviation-bounded: all single deviations and all rejection histories to the stated depth.",
}
PROPS["C16"] = {
    "parts": [{"name": "kara", "src": "c16.cpp"}],
    "how": "real Karatsuba routines against schoolbook multiplication over exact integers",
    "bounds": "N=1, 2: all pairs/quadruples of boundary values (quick: rotating fourth); N=2: [-4,4]^4; N=4: {-1,0,1}^8; every pair of monomials up to N=512 (strided above 64); dense patterns with coefficients up to 6400 bits up to N=1024; coefficients up to 2^21 bits for N<=64; squares of the same object",
    "note": "The routines are bilinear, monomial pairs span them; dense patterns cover carries and cancellation.",
}
PROPS["C15"] = {
    "parts": [{"name": "solve", "src": "c15.cpp"}],
    "how": "the real solver on every small instance; equation, coprimality of norms, reducedness and the multiple subtracted are checked in exact arithmetic",
    "bounds": "N=1: [-60,60]^2; N=2: [-4,4]^4 (thorough [-9,9]^4); N=4: {-1,0,1}^8 (thorough [-2,2]^8); N=8: {0,1}^16; patterned instances up to N=128 and the fixture pairs; reduction of multiples of 0..2000 bits, for N <= 32 up to 20000",
    "note": "Exhaustive for small N, where ties and cycles of the rounding occur; larger N along patterns. Each execution must end within 20 s (typically < 1 ms).",
}
PROPS["C19"] = {
    "parts": [{"name": "prng", "src": "c19.cpp"}],
    "how": "the system random device is the environment: the explorer supplies every word it returns, varies them one and two bits at a time, and compares the resulting streams; reads are compared with SHAKE256 of the absorbed seed",
    "bounds": "5 device backgrounds x instances 1, 2, 3, 8 of a process: every single bit, every pair of effective bits, every low-byte value of every word, every exchange of two words; all compositions of 12 bytes, all pairs of read sizes 0..289 (thorough 699) across block boundaries, all interleavings of 10 reads on two instances; streams of up to 2^32+2^20 (thorough 2^34) bytes; device failing at each word; every word of 1st..3rd signing call",
    "assumptions": ["entropy of the operating system's device itself is outside of the check", "the shim's SHAKE256 stands in for the absent sha3 submodule"],
    "note": "Flip sets up to size two; maps of lower rank that only collide for larger sets would be missed unless they use fewer than 256 bits.",
}
PROPS["C22"] = {
    "parts": [{"name": "salt", "src": "c22.cpp"}],
    "how": "all random bytes come from one logged stream owned by the explorer; each signature's salt is located among the bytes drawn, none of which may have served in a salt before; drawn bytes are altered one at a time while the hash value is held fixed",
    "bounds": "all sequences of 4 (thorough 5) operations out of 10 (both interfaces, both N, two generators, verification, calls with a forced norm or length rejection); every operation repeated 300 times, four of them 2000..66000 times; all values of all 40 salt bytes; other drawn bytes altered one at a time (quick: every 5th / 23rd)",
    "note": "Exhaustive over histories to the stated depth and over single altered bytes.",
}
PROPS["C21"] = {
    "parts": [{"name": "reload", "src": "c21.cpp"}],
    "how": "real decoding, recomputation and signing; exact integer arithmetic decides G, the two key generation and the two signing interfaces are run on the same random bytes (environment answers) and compared",
    "bounds": "G for F + m x^j f at all j, m = +-1..3, and two-term multiples, on 3 fixture keys per N (one with |G| > 127, one with |F| = 127); 16 / 8 generated keys (thorough 200); 900 streams (thorough 15000), single altered random bytes, all histories of up to 2 rejected attempts out of 5 kinds; message lengths and special salts",
    "note": "Matrix and tree are compared to 1e-9 relative. Key space covered by fixture keys, their shifted solutions and the bounded set of generation streams.",
}
PROPS["C18"] = {
    "parts": [{"name": "hist", "src": "c18.cpp"}],
    "how": "every sequence of operations of the real code runs in a child process started fresh; each result is compared with the result of the same operation as the first thing a process does; inputs lie in read-only pages that end at an inaccessible page, outputs and stack are prefilled",
    "bounds": "29 operations (signing, verification, codecs, hashing at both N, valid and refused inputs, rejected attempts): all sequences of 3 (thorough: 4 over half of them), 7 x 12 prefills, 300 repetitions of each and 2600..66000 of eight of them; key generation in pairs",
    "note": "Exhaustive over operation sequences to the stated depth with fixed random bytes per operation.",
}
PROPS["C03"] = {
    "parts": [{"name": "kg512", "src": "c03.cpp", "defs": ["512"]}, {"name": "kg1024", "src": "c03.cpp", "defs": ["1024"]},
              {"name": "filters", "src": "c03i.cpp"}],
    "how": "directed exploration: the explorer chooses each candidate (f, g) of the real key generation through the random bytes of the sampler; every key that is returned is judged in exact arithmetic, a rejected candidate ends the execution",
    "bounds": "17 kinds of candidates (each violating exactly one condition, or lying exactly at a limit), moved by the symmetries x -> x^k and x^j to every position and every root; every history of up to 2 (N=1024: 1; thorough 3/2) rejected candidates of every kind followed by a good one; the same rejected candidate 9..1001 (N=1024: 257; thorough 4097) times; all three key generation interfaces; bounded pseudo random streams; filters in isolation for N=4..1024 with a root at every place",
    "note": "Candidate kinds cover each rejection reason at its boundary; |F| > 127 and unsolvable pairs come from a committed table checked on use.",
}


def _msan(c):
    m = c["tmp"] + "/c07m"
    return [[c["cxx"]] + c["base"] + ["-O1", "-g1", "-fsanitize=memory", "-fno-omit-frame-pointer",
                                      c["here"] + "/checks/c07m.cpp", "-o", m, "-lgmpxx", "-lgmp"],
            [c["cxx"]] + c["base"] + ["-O1", f'-DMSAN_EXE="{m}"', c["src"], "-o", c["exe"], "-lpthread"]]


def _s(name, src, stride, defs=(), **k):
    return dict(name=name, src=src, kind="san", defs=list(defs), args=["--stride", stride, "--faults-only", 1] + k.pop("extra", []), **k)


PROPS["C07"] = {
    "parts": [
        {"name": "h512", "src": "c07.cpp", "kind": "san", "defs": ["512"]},
        {"name": "h1024", "src": "c07.cpp", "kind": "san", "defs": ["1024"]},
        {"name": "uninit", "src": "c07u.cpp", "steps": _msan},
        _s("s_verify512", "c01.cpp", 13, ["512"]), _s("s_verify1024", "c01.cpp", 29, ["1024"]),
        _s("s_sign512", "c02.cpp", 31, ["512"], extra=["--skip", "freshly|long histories"]),
        _s("s_sign1024", "c02.cpp", 61, ["1024"], extra=["--skip", "freshly|long histories"]),
        _s("s_pkey", "c04.cpp", 29), _s("s_skey", "c05.cpp", 13), _s("s_codec", "c06.cpp", 61),
        _s("s_hash", "c11.cpp", 29), _s("s_sampler", "c12.cpp", 29, prefer=DIRECT),
        _s("s_solve", "c15.cpp", 397, extra=["--skip", "fixture|patterned pairs|reduction of K"]),
        _s("s_u72", "c20.cpp", 29, libs=[]), _s("s_filters", "c03i.cpp", 29),
        _s("s_fft", "c10.cpp", 31, thorough_only=True), _s("s_ntt", "c09.cpp", 31, thorough_only=True),
        _s("s_tree", "c13.cpp", 997, thorough_only=True), _s("s_ffs", "c14.cpp", 101, thorough_only=True, prefer=DIRECT),
        _s("s_kara", "c16.cpp", 997, thorough_only=True), _s("s_keygen512", "c03.cpp", 101, ["512"], thorough_only=True, extra=["--skip", "long histories"]),
        _s("s_keygen1024", "c03.cpp", 101, ["1024"], thorough_only=True, extra=["--skip", "long histories"]),
    ],
    "how": "hostile contents in buffers of exactly the declared sizes, and every k-th execution of the other properties' explorers, on builds with AddressSanitizer + UndefinedBehaviorSanitizer (any report fails the execution); signing, verification and codecs also on a MemorySanitizer build with uninitialised output buffers",
    "bounds": "every byte value at every offset of both keys on three backgrounds; all headers; every bit of the signature as start of constant tails, all values of the last two bytes; large coefficients at every position in compression and signing; every kind of rejected attempt; message lengths 0..299; byte arrays of 0..63 bytes times 36 contents; constant random bytes of every value; degenerate secret keys",
    "note": "Deviation-bounded; a read inside another live object of the same allocation is not visible to the sanitizers. GMP is not instrumented (its heap is).",
}


def _sched(c):
    o, r = c["tmp"] + "/c17.o", c["tmp"] + "/c17rt.o"
    return [[c["cxx"]] + c["base"] + ["-O1", "-fsanitize=thread", "-c", c["src"], "-o", o],
            [c["cxx"], "-std=c++20", "-w", "-O2", "-c", c["here"] + "/checks/c17rt.cpp", "-o", r],
            [c["cxx"], "-rdynamic", o, r, "-o", c["exe"], "-lgmpxx", "-lgmp", "-lpthread", "-ldl"]]


PROPS["C17"] = {
    "parts": [{"name": "threads", "src": "c17.cpp", "steps": _sched}],
    "how": "real threads under a scheduler that decides every switch; the compiler's thread instrumentation reports every memory access of the library to a happens-before monitor; results are compared with each thread's results alone; accesses to memory that two threads use and one writes become scheduling points and all schedules with up to two switches there are explored",
    "bounds": "all pairs of 27 operations, two operations per thread, three threads, key generation; switches at environment calls (one at up to 40 places, two at 12); up to 2 preemptions at synchronisation and shared accesses; every execution in a fresh process",
    "assumptions": ["GMP and the C++ runtime are thread safe", "the random device is replaced by a stand-in that counts as a mutable object"],
    "note": "Where no memory is shared and written, the operations of different threads commute and one schedule represents all of them; this is established per combination by observing every access. Compiler-level data races inside uninstrumented libraries are out of reach.",
}
PROPS["C27"] = {
    "parts": [{"name": "refuse", "src": "c27.cpp"}],
    "how": "real signing from stored bytes; for every key that the explorer writes an exact oracle (ranges, norms, NTRU equation over the integers) says whether it can sign; refused keys must leave the signature buffer alone, accepted ones must give a signature that verifies under g/f",
    "bounds": "every value of every byte (quick: a third of the values at N=512, a seventh at N=1024) and every bit of fixture keys; pairs of altered or exchanged coefficients; shifted, rotated and mapped keys; all candidate kinds at the limits of the conditions; keys of constants; all headers; keys mixed from two",
    "note": "Keys at a limit within rounding, with the most negative field value, or with f not invertible may be decided either way.",
}
PROPS["C28"] = {
    "parts": [{"name": "draw512", "src": "c28.cpp", "defs": ["512"], "prefer": DIRECT}, {"name": "draw1024", "src": "c28.cpp", "defs": ["1024"], "prefer": DIRECT}],
    "how": "the explorer dictates the random bytes of the real candidate generation and compares every coefficient and the number of bytes taken with a reference sampler; whole key generation runs are replayed by the reference from the bytes they drew",
    "bounds": "one unusual attempt (19 base samples at both ends of their range x 2 signs x draw just above/below the acceptance threshold) at each of the 4096 sampler calls (quick: a third of the combinations, rotating); all sequences of 5 (thorough 7) attempts out of 5 kinds at 4 places; runs of up to 1025 rejections; pseudo random key generations; candidates of every good kind, alone and after rejected ones, through all three interfaces",
    "note": "Decisions within rounding of the acceptance threshold are left open. Earlier candidates of a run that fulfil the norm conditions are completed with the library's solver, which C15 decides.",
}
PROPS["C26"] = {
    "parts": [{"name": "keep512", "src": "c26.cpp", "defs": ["512"]}, {"name": "keep1024", "src": "c26.cpp", "defs": ["1024"]}],
    "how": "the heap is interposed: every block taken and given back by the real code is counted, as are mappings, descriptors and threads; histories of calls (succeeding, refused, with rejected attempts, ended by a failure of the random device) are repeated and what is held after 8, 24 and 40 repetitions is compared; the deepest stack and the largest heap of calls with few and with many rejections are compared",
    "bounds": "39 operations, all ordered pairs of the cheap ones; signing with every kind of rejected attempt; key generation with every kind of rejected candidate; solver instances at N=1..64; the random device fails at each word; 8 against 1500 (thorough 20000) rejected attempts, 8 against 129 (thorough 2000) rejected candidates",
    "note": "Growth is judged between repetitions of one history, so that caches of bounded size are no alarm.",
}
