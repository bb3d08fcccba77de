import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
I="include/"
p("C01","Verification accepts exactly the valid signatures",
 "For a public key, a message of any length and signature bytes, verification returns true if and only if the public key and the signature are canonically encoded for that parameter set and the squared Euclidean norm of (s1, s2) is at most the parameter set's bound, where s1 = c - s2*h mod (q, x^N+1) with coefficients centered in [-6144, 6144] and c is the hash of salt and message. No encoding error, arithmetic wrap-around, coefficient position, key value or message length changes that verdict.",
 ["inputs","configurations"],"all public keys, messages, signatures and both parameter sets; in particular norms at and next to the bound, norms beyond 2^31 and 2^32, every residue, every decodable coefficient value and position, every malformed header or padding",
 "the repository only verifies honestly produced signatures and one kind of bit flip; it never reaches the bound, an overflowing norm, a non-canonical encoding or a chosen hash value (and these tests do not even build here)",
 [I+"verification.hpp",I+"decoding.hpp",I+"hashing.hpp",I+"falcon.hpp"],
 [("norm computation and comparison",I+"verification.hpp: verify"),("strict decoding",I+"decoding.hpp: decode_pkey, decode_sig")],
 ["return value of falcon::verify and verification::verify"])
p("C02","Every signature that signing produces verifies",
 "For every key pair produced by key generation, every message of any length and every sequence of random bytes, signing returns only signatures of exactly 666/1280 bytes that start with the right header, carry the drawn salt, decode canonically and verify under the matching public key. This holds whatever the history of rejected attempts (norm too large, compressed form too long) before the returned one, for both the byte-key and the precomputed-key interface.",
 ["inputs","histories","fault_sequences"],"all keys, messages, random byte sequences and all finite sequences of failed attempts inside one signing call",
 "tests sign a few random messages with fresh random keys; attempts that fail are rare (about one in several thousand) and never forced, extreme coefficients and exactly-full compressed signatures are never reached",
 [I+"signing.hpp",I+"falcon.hpp",I+"encoding.hpp",I+"ffsampling.hpp"],
 [("retry loop",I+"signing.hpp: sign"),("compression",I+"encoding.hpp: compress_sig")],["signature bytes, verdict of verification"])
p("C03","Key generation yields consistent, encodable key pairs",
 "Every key pair that key generation returns satisfies f*G - g*F = q exactly in Z[x]/(x^N+1), h = g/f mod q with f invertible, Gram-Schmidt norm of the basis at most 1.17*sqrt(q), and coefficients of f, g, F inside the range the secret key encoding can represent, so that the encoded secret key decodes to the same f, g, F. This holds for every sequence of rejected candidates (f not invertible, norm too large, NTRU equation without solution, coefficient out of range) before the accepted one.",
 ["inputs","histories","fault_sequences"],"all random byte sequences and all sequences of rejected candidate polynomials in one key generation",
 "tests generate a handful of random keys; most rejection reasons (non-invertible f, out-of-range coefficient, unsolvable equation at a chosen position in the sequence) practically never occur in them",
 [I+"ntru_gen.hpp",I+"keygen.hpp",I+"falcon.hpp"],
 [("candidate loop",I+"ntru_gen.hpp: ntru_gen"),("public key",I+"keygen.hpp: compute_public_key")],["pkey/skey bytes and f, g, F, G, h, B, T outputs"])
p("C04","Public key encoding is a canonical bijection",
 "Encoding a public key polynomial gives the header byte log2(N) followed by the N coefficients as 14-bit little-endian fields, and decoding returns exactly that polynomial. Decoding succeeds exactly for byte strings that are the encoding of some polynomial over Z_q: a wrong header or any coefficient >= q is refused and leaves an all-zero polynomial.",
 ["inputs","configurations"],"all polynomials, all byte strings of the public key length, both parameter sets",
 "the encoding tests do a round trip of random keys only; out-of-range fields, each coefficient position and each header value are not enumerated",
 [I+"encoding.hpp",I+"decoding.hpp"],[("bit packing",I+"encoding.hpp: encode_pkey"),("range check",I+"decoding.hpp: decode_pkey")],["output bytes, return value, output polynomial"])
p("C05","Secret key encoding round-trips every representable key",
 "For all f, g with coefficients in [-31, 31] (N=512) or [-15, 15] (N=1024) and F in [-127, 127], decoding an encoded secret key gives back exactly f, g, F, and re-encoding what was decoded gives back exactly the same bytes. Decoding refuses every header byte other than the one of its own parameter set and then leaves all-zero polynomials.",
 ["inputs","configurations"],"all coefficient values at all positions, all header bytes, both parameter sets",
 "round-trip tests use random keys whose coefficients are small; extreme values at each bit alignment and wrong headers are not enumerated",
 [I+"encoding.hpp",I+"decoding.hpp"],[("bit packing",I+"encoding.hpp: encode_skey"),("sign extension",I+"decoding.hpp: decode_skey")],["output bytes, return value, output polynomials"])
p("C06","Signature compression is a canonical bijection",
 "Compressing a polynomial writes, for each coefficient, sign bit, 7 low bits, and the rest in unary, followed by zero padding; it succeeds exactly when that fits the fixed signature size and zero-fills the body otherwise. Decompression accepts exactly the byte strings compression can produce, returning the original polynomial, and refuses everything else (minus zero, nonzero padding, truncated coefficient) with an all-zero polynomial, so no polynomial has two encodings.",
 ["inputs"],"all integer polynomials (including oversized coefficients and exactly-full encodings) and all byte strings",
 "tests compress honest signatures only: coefficients beyond about 1000, exactly-full buffers, every bit alignment, bad padding and minus zero never occur",
 [I+"encoding.hpp",I+"decoding.hpp"],[("bit writer",I+"encoding.hpp: compress_sig"),("bit reader",I+"decoding.hpp: decompress_sig")],["output bytes, return value, output polynomial"])
p("C07","No input makes the library touch memory it was not given",
 "For every byte content of keys, signatures, messages and random bytes, and every message length including zero, the public operations read only the buffers they were given, write only the declared output bytes, and execute no undefined behaviour (out-of-bounds or uninitialised access, signed overflow, invalid shift or conversion).",
 ["inputs","configurations"],"arbitrary attacker-controlled public keys and signatures, arbitrary random bytes, all message lengths, oversized polynomials for compression",
 "tests run without sanitizers on honest data; hostile signatures and buffers placed at the end of an allocation are never tried",
 [I+"decoding.hpp",I+"encoding.hpp",I+"verification.hpp",I+"samplerz.hpp",I+"hashing.hpp",I+"signing.hpp"],
 [("index arithmetic",I+"decoding.hpp: decompress_sig, extract_8_contiguous_bits"),("buffer bound",I+"encoding.hpp: compress_sig")],["AddressSanitizer/UBSan reports on exactly sized heap buffers, guard bytes"])
p("C08","Arithmetic over Z_12289 is exact and canonical",
 "For all operands in [0, 12289), addition, subtraction, negation, multiplication, inversion, division (with inverse and quotient by zero being zero), exponentiation by any 64-bit exponent, the compound assignments and the comparisons give the exact result of arithmetic modulo 12289, always as the canonical representative in [0, 12289). The constructor reduces any 16-bit value to its canonical representative.",
 ["inputs"],"all 12289^2 operand pairs of every operation, all 65536 constructor arguments, exponents over the 64-bit range",
 "the unit test samples random elements and checks a few identities; wrong results on single operand pairs survive",
 [I+"ff.hpp"],[("Barrett reduction",I+"ff.hpp: operator*"),("extended Euclid",I+"ff.hpp: inv")],["value of the returned element"])
p("C09","NTT multiplication is exact in Z_q[x]/(x^N+1)",
 "For both N, the inverse transform undoes the transform for every polynomial over Z_q, and transforming two polynomials, multiplying (or adding, negating, dividing by an invertible one) element-wise and transforming back gives exactly the product (sum, negation, quotient) in Z_q[x]/(x^N+1). All results are canonical.",
 ["inputs","configurations"],"all polynomials over Z_q of degree < 512 and < 1024",
 "the unit test multiplies a few random polynomials; the claim is about the whole space, including each basis monomial and each residue",
 [I+"ntt.hpp",I+"polynomial.hpp"],[("butterflies and twiddle tables",I+"ntt.hpp: ntt, intt"),("element-wise operations",I+"polynomial.hpp")],["coefficients after the inverse transform"])
p("C10","FFT-domain arithmetic matches Q[x]/(x^N+1)",
 "For every N = 2..1024 the FFT evaluates a real polynomial at the N roots of x^N+1 up to floating-point rounding, the inverse undoes it, and element-wise add, subtract, multiply and divide correspond to the ring operations. Splitting gives the transforms of the even and odd coefficient halves, merging is the exact inverse of splitting, and the adjoint is the transform of a(1/x).",
 ["inputs","configurations"],"all sizes 2..1024, all basis polynomials and products, coefficient magnitudes up to those used by signing and key generation",
 "unit tests use one random polynomial per size with a loose tolerance; a wrong table entry for one size or position can pass",
 [I+"fft.hpp",I+"polynomial.hpp"],[("table of powers of zeta",I+"fft.hpp: POWERS_OF_ζ"),("butterflies",I+"fft.hpp: fft, ifft, split_fft, merge_fft, adj_poly")],["complex outputs"])
p("C11","Hash-to-point is SHAKE256 rejection sampling of salt then message",
 "For every salt and message of any length, hashing to a point absorbs salt then message, reads the output as consecutive big-endian 16-bit words, drops exactly the words >= 61445 and maps the others mod 12289, in order, until all N coefficients are filled. The result is canonical, depends on nothing else, and does not depend on where rejections or squeeze-block boundaries fall.",
 ["inputs","fault_sequences"],"all salts, messages, and all XOF output streams (any pattern of rejected words, any number of blocks)",
 "no test compares against the specification; rejections at particular places of particular blocks (about 6% of words) and long runs of rejections are not forced",
 [I+"hashing.hpp"],[("rejection loop",I+"hashing.hpp: hash_to_point")],["output polynomial, bytes absorbed and squeezed"])
p("C12","The integer sampler has exactly the specified distribution",
 "For every centre, every sigma' in [sigma_min, sigma_max] and every stream of random bytes, the integer sampler decides as specified: base sample by comparing 72 random bits with the reverse cumulative table, a sign bit, then acceptance with probability ccs*exp(-x) (up to the rounding of the specified fixed-point approximation) by lazy comparison of bytes, consuming exactly 9+1+(1..8) bytes per attempt and retrying until accepted. The byte-array and generator interfaces agree, stay inside the given bytes, and the result is the accepted candidate shifted by floor(centre).",
 ["inputs","fault_sequences"],"all random byte streams (any number of rejected attempts), centres of either sign, sigma' over its range",
 "known-answer tests cover a few dozen byte strings; a biased threshold, a mishandled tie byte or a wrong rare table entry changes no sampled answer",
 [I+"samplerz.hpp",I+"u72.hpp"],[("table comparison",I+"samplerz.hpp: base_sampler"),("Bernoulli trial",I+"samplerz.hpp: ber_exp, approx_exp"),("rejection loop",I+"samplerz.hpp: samplerz")],["returned integers and number of bytes consumed"])
p("C13","The Falcon tree is the normalized LDL* tree of the secret basis",
 "For every secret basis B, the computed Gram matrix is B times its adjoint, every tree node holds the l10 of the LDL* decomposition of its 2x2 Gram block, children come from splitting the two diagonal entries (left from d00, right from d11), and each leaf is sigma divided by the square root of its diagonal value. For keys from key generation all leaves lie in [sigma_min, sigma_max].",
 ["inputs","configurations"],"all bases at small sizes, generated keys at N=512 and N=1024",
 "no test checks tree contents; a wrong node only degrades the signature distribution (a security failure) while signatures still verify",
 [I+"falcon_tree.hpp",I+"keygen.hpp",I+"falcon.hpp"],[("recursion",I+"falcon_tree.hpp: ldl, ffldl, normalize_tree"),("Gram matrix",I+"keygen.hpp: compute_gram_matrix")],["tree contents"])
p("C14","Fast Fourier sampling follows nearest-plane order with tree widths",
 "For every target (t0, t1), tree and sequence of random bytes, fast Fourier sampling returns transforms of integer polynomials, calls the integer sampler once per leaf and coordinate with that leaf's width and with the centre obtained by correcting t0 by (t1 - z1) times the node's l10, sampling the right child before the left one. At every size the pair (z0, z1) is the one that the recursive definition yields for the same random bytes.",
 ["inputs","fault_sequences","configurations"],"all sizes 1..1024, all sequences of sampler outcomes at small sizes, single deviations at full size",
 "the one test checks only an aggregate property of random runs; swapped children or a missing correction still give integers and verifying signatures",
 [I+"ffsampling.hpp"],[("recursion",I+"ffsampling.hpp: ff_sampling")],["z0, z1 and the sampler's inputs"])
p("C15","The NTRU solver is sound, terminates and reduces",
 "For every pair f, g in Z[x]/(x^N+1) with N >= 2 the solver terminates, and whenever it reports a solution, f*G - g*F = q holds exactly over the integers with F, G size-reduced against f, g; it reports no solution only if the resultants of f and g with x^N+1 have a common factor. Reduction changes F, G only by a common multiple of f, g.",
 ["inputs","configurations"],"all f, g with small coefficients at N = 2, 4, 8 and generated candidates at full size",
 "tests check the equation on random large keys only; small, degenerate and tie-producing inputs (and termination on them) are never explored",
 [I+"ntru_gen.hpp"],[("recursive tower",I+"ntru_gen.hpp: ntru_solve, field_norm, lift, galois_conjugate, xgcd"),("Babai reduction",I+"ntru_gen.hpp: reduce")],["returned F, G and status"])
p("C16","Big-integer polynomial multiplication is exact",
 "For every power-of-two N and all integer polynomials of any coefficient size and sign, the Karatsuba routines return the exact product (2N coefficients) and the exact product modulo x^N+1. Inputs are not modified, and both operands may be the same object.",
 ["inputs","configurations"],"all small polynomials for N <= 4, all pairs of monomials with multi-limb coefficients for larger N",
 "only exercised indirectly by random key generation tests, which do not build here",
 [I+"karatsuba.hpp"],[("recursion",I+"karatsuba.hpp: karatsuba, karamul")],["returned coefficients"])
p("C17","Concurrent calls on separate buffers do not interfere",
 "Key generation, signing and verification calls running concurrently in different threads on different output buffers (and possibly the same read-only keys and messages) return, under every interleaving, the results they would return alone, without data races. No operation keeps mutable state shared between calls.",
 ["schedules"],"all interleavings of two or three concurrent calls up to a preemption bound, for every pair of operations and parameter sets",
 "the tests are single-threaded; a scratch buffer hoisted to static storage passes all of them",
 [I+"falcon.hpp",I+"signing.hpp",I+"verification.hpp",I+"ntru_gen.hpp"],[("all state on the stack",I+"*.hpp")],["results of concurrent calls, ThreadSanitizer reports, writable static memory"])
p("C18","Every call is a function of its inputs and random bytes only",
 "The result of every operation depends only on its input bytes and the random bytes it draws: not on earlier calls, on the other parameter set having been used, or on the previous contents of output buffers or of the stack. Inputs (keys, messages, signatures) are left unmodified.",
 ["histories","inputs"],"all sequences of operations up to a depth over two keys, two messages and both parameter sets, output buffers prefilled with different contents",
 "each test runs one operation on fresh, usually zeroed buffers; stale-state or history-dependent results are invisible",
 [I+"falcon.hpp",I+"decoding.hpp",I+"encoding.hpp",I+"signing.hpp",I+"verification.hpp"],[("local state, explicit initialisation",I+"*.hpp")],["outputs after a history versus in a fresh process"])
p("C19","The random generator is seeded with full system entropy and never repeats",
 "Every random generator instance is seeded with at least 256 bits taken directly from the system random device, so that changing any single word obtained from the device changes the generated stream. Successive reads of any sizes return consecutive, non-overlapping parts of one SHAKE256 stream, and two instances with different device output give different streams.",
 ["inputs","histories"],"all device outputs (each word, each bit), all splits of a stream into reads",
 "the tests only use the generator as a source of randomness; a 32-bit or constant seed passes everything",
 [I+"prng.hpp"],[("seeding",I+"prng.hpp: prng_t"),("reading",I+"prng.hpp: read")],["bytes hashed as seed, bytes returned"])
p("C20","72-bit and 128-bit helper arithmetic is exact",
 "Addition, subtraction, negation and comparison of 72-bit integers are exact modulo 2^72, conversions to and from 9 bytes in both byte orders are exact inverses of each other, and the 64x64-bit multiplication and its top-63-bit extraction return the exact bits of the product. The cumulative table equals the sums of the probability table and the reverse table its complement to 2^72.",
 ["inputs"],"all combinations of limb boundary values, carries and borrows; all byte positions",
 "never tested directly; a lost carry affects the sampler with negligible frequency",
 [I+"u72.hpp",I+"samplerz.hpp"],[("carry logic",I+"u72.hpp: u72_t"),("wide product",I+"samplerz.hpp: full_mul_u64, top_63_bits")],["returned limbs and bytes"])
p("C21","A reloaded secret key signs exactly like the original",
 "For every key pair, decoding the stored secret key and recomputing G, the basis matrix and the tree gives the same f, g, F, G as at generation time and a matrix and tree equal to the generated ones up to floating-point rounding. With the same random bytes, signing from the stored bytes and signing from the precomputed matrix and tree return identical signatures.",
 ["inputs","histories"],"all generated keys including those with extreme coefficients, all messages and random byte sequences",
 "tests sign with one interface at a time and never compare recomputed G, B, T with those of key generation",
 [I+"falcon.hpp",I+"keygen.hpp"],[("G = (q + gF)/f",I+"falcon.hpp: recompute_G"),("matrix and tree",I+"falcon.hpp: compute_matrix_B, compute_falcon_tree")],["G, B, T, signature bytes"])
p("C22","Every signature uses a fresh 40-byte random salt",
 "The 40 salt bytes of every signature are random bytes drawn from the generator during that very call, never used for anything else and never reused: signing the same message twice, with either interface and after any history of earlier calls or failed attempts, uses disjoint random bytes for the salt. The hashed salt is the one stored in the signature.",
 ["histories","fault_sequences"],"all sequences of signing calls and in-call retries over both interfaces up to a depth",
 "tests never look at the salt; a constant, truncated or cached salt passes all of them although it breaks the security proof",
 [I+"signing.hpp",I+"prng.hpp"],[("salt drawn from the generator",I+"signing.hpp: sign")],["salt bytes of the signature versus bytes drawn"])
p("C23","Hex and length helpers are exact",
 "Converting any byte string to hex gives two lowercase digits per byte in order, and converting back any even-length hex string (upper or lower case) gives exactly those bytes. The length helpers return the exact sizes of public keys (897/1793), secret keys (1281/2305) and signatures (666/1280), and the operations read and write exactly those many bytes.",
 ["inputs","configurations"],"all byte values at all positions, all lengths up to a bound, both parameter sets",
 "only used for printing in tests; never compared",
 [I+"common.hpp",I+"utils.hpp"],[("hex conversion",I+"common.hpp: to_hex, to_byte_array"),("lengths",I+"utils.hpp")],["returned strings, bytes, lengths"])
p("C24","Signatures cannot be forged without the secret key",
 "Nobody who does not hold the secret key can produce a message and a signature that verify under the public key, even after seeing signatures of messages of their choice.",
 ["inputs","histories"],"all adversaries of bounded computing power",
 "a computational claim about all adversaries",
 [I+"falcon.hpp"],[("hardness of NTRU/SIS",I+"falcon.hpp")])
p("C25","Execution time and memory access do not reveal secrets",
 "The running time and the memory access pattern of signing and key generation are independent of the secret key and of the random values drawn, apart from the number of rejected attempts.",
 ["inputs"],"all pairs of secrets and all micro-architectures",
 "tests observe results, not timing",
 [I+"samplerz.hpp",I+"signing.hpp"],[("none claimed by the code",I+"samplerz.hpp")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
