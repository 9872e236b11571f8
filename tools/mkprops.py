import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
V="--cfg onion_sim view of the private modules"
prop("C01","A PIR query retrieves exactly the requested record",
 "A client that encodes a hypercube position, encrypts it under its own key and sends it with its evaluation key to a server gets back one answer ciphertext that decrypts, in every coefficient, to exactly the database record stored at that position. This holds for every database shape (first dimension, further dimensions, number of dimensions) and content, every position and every client key, whatever the order, duplication, loss and retransmission of messages and whatever server or client restarts lie between, and every query completes once faults stop.",
 ["inputs","schedules","fault_sequences","crash_points","configurations"],
 "all database shapes, contents, positions, keys and entropy outcomes whose worst-case noise fits the parameters; all delivery orders, duplicates, losses, restarts and key rotations of several clients sharing one server",
 "The only end-to-end test (evaluations::tests::query) uses one shape, one position, prints instead of asserting, and panicked on the pinned commit; no test has two clients, a repeated query or a restart.",
 ["src/evaluations.rs","src/rgsw.rs","src/ksk.rs","src/bfv.rs"],
 [("query encoding","src/evaluations.rs Client::encode"),("expansion, first dimension product, RGSW folding","src/evaluations.rs Server::decode, Evaluation::unpack")],
 [dict(name="db_scaled",meaning="records as polynomials modulo q",where="Server"),dict(name="gk, sk_rgsw",meaning="the client's evaluation key held by the server",where="Evaluation")],
 ["decrypted answer of each simulated query"],V)
prop("C02","Server answers depend only on database, query and evaluation key",
 "The answer ciphertexts a server returns are a function of its current database contents, the query and the evaluation key alone: bit for bit the same whether the query is the first or the hundredth, is delivered twice, is retried after a restart, or is processed interleaved with, preempted by or abandoned next to queries of other clients under other keys or other databases. Processing a request never changes what any other request gets.",
 ["histories","schedules","crash_points","fault_sequences"],
 "all histories of requests by several clients, duplicates, preemptions inside request processing, abandoned requests, database replacements and restarts",
 "No test processes two requests with one server object, let alone interleaved, so state carried from one request into another is invisible.",
 ["src/evaluations.rs","src/rgsw.rs","src/ksk.rs","src/rq.rs"],
 [("stateless request processing over shared references","src/evaluations.rs Server::decode(&self), Evaluation::unpack(&self)")],
 None,["digest of every answer against a pristine process that handles that request alone"],V)
prop("C03","Oblivious expansion recovers every packed coefficient",
 "Expanding a ciphertext that encrypts a polynomial yields exactly as many ciphertexts as the ring has coefficients, the i-th of which encrypts the i-th coefficient as a constant (every other coefficient zero), for plaintext-encoded messages and for messages scaled by the residue-number-system gadget alike. The noise of each result stays within the worst case implied by one key switch per expansion level.",
 ["inputs","configurations","schedules","fault_sequences"],
 "all messages, degrees, moduli, keys and entropy outcomes within the worst-case noise budget, with several clients' expansions interleaved",
 "The three expansion tests print error counts instead of asserting them and panicked on the pinned commit.",
 ["src/evaluations.rs","src/bfv.rs","src/rq.rs"],
 [("even/odd split with Galois keys and X^-(2^i)","src/evaluations.rs Evaluation::unpack, gen_x_pows"),("evaluation key contents","src/evaluations.rs Evaluation::build")],
 None,["phase of every expanded ciphertext"],V)
prop("C04","Decryption inverts encryption for every key, level and entropy outcome",
 "Encrypting a plaintext under a secret key and decrypting the result under the same key returns the original values, for coefficient and slot (SIMD) encodings, at every level of the modulus chain, and for every outcome of the entropy source including extreme noise and stuck or failing entropy. The ciphertext and the decrypted plaintext carry the level of the plaintext that was encrypted.",
 ["inputs","configurations","fault_sequences","schedules"],
 "all plaintexts, parameter sets, levels, encodings, keys and byte streams of the entropy source",
 "bfv::tests::encrypt_decrypt covers level 0 of one parameter set with random noise, and failed on the pinned commit; no test encrypts at another level or controls the entropy.",
 ["src/bfv.rs","src/rq.rs","src/rns.rs","src/utils.rs"],
 [("encoding and scaling","src/bfv.rs Plaintext::new, to_poly, decode"),("encryption and decryption","src/bfv.rs SecretKey::encrypt, encrypt_poly, decrypt"),("slot index map","src/bfv.rs BfvParameters::new")],
 None,["decoded plaintext"],V)
prop("C05","Homomorphic evaluation tracks the plaintext ring across histories",
 "For every sequence of additions, subtractions, additions of encoded plaintexts, multiplications by plaintexts, polynomials or integers, inner products, and ciphertext multiplications with or without relinearisation, every intermediate ciphertext decrypts to the result of the same sequence on plaintext polynomials modulo X^N+1 and the plaintext modulus, as long as the worst-case noise fits. This holds for ciphertexts of two or more components at every level and leaves the operands unchanged.",
 ["histories","inputs","configurations","fault_sequences","schedules"],
 "all operation histories, operands, levels, parameter sets and entropy outcomes within the worst-case noise budget",
 "The existing tests check one operation at a time, ciphertext multiplication is only printed, and no test composes operations.",
 ["src/bfv.rs","src/omr.rs","src/rns.rs","src/rq.rs"],
 [("operator implementations","src/bfv.rs Add/Sub/Mul for BfvCipherText, multiply_with_strategy"),("basis extension and t/q scaling","src/rns.rs RnsScaler, src/rq.rs RqScaler"),("inner product","src/omr.rs inner_product")],
 None,["decryption of every ciphertext after every operation"],V)
prop("C06","Galois keys apply exactly the requested automorphism and slot permutation",
 "Applying the Galois key of an odd exponent k to a ciphertext of message m(X) yields a ciphertext of m(X^k) under the original secret key, at every level with at least two moduli. On slot-encoded messages the exponent 3^j rotates both slot rows by j places and the exponent 2N-1 swaps the rows, and any sequence of such operations composes accordingly.",
 ["inputs","configurations","histories","fault_sequences"],
 "all odd exponents, levels, messages, parameter sets, entropy outcomes and sequences of automorphisms within the noise budget",
 "bfv::tests::galois_key checks exponent 3 at degree 8, level 0; the slot rotation test prints instead of asserting.",
 ["src/bfv.rs","src/rq.rs","src/ksk.rs"],
 [("key generation and application","src/bfv.rs GaliosKey::new, relinearize"),("substitution","src/rq.rs Substitution::new, Poly::substitute")],
 None,["decryption after the automorphism, decoded slots"],V)
prop("C07","RGSW external products multiply by the encrypted selector",
 "The external product of an RGSW encryption of a polynomial with a ciphertext decrypts to the product of the two messages, for chains of products and at every level with at least two moduli. An RGSW ciphertext assembled on the server from expanded query ciphertexts and the encrypted secret key behaves like one the client encrypted directly.",
 ["inputs","configurations","histories","fault_sequences"],
 "all selector and data polynomials, levels, parameter sets, keys, entropy outcomes and chains within the worst-case noise budget",
 "rgsw::tests::external_product checks one parameter set and single products; assembly from halves is only printed or panicked on the pinned commit.",
 ["src/rgsw.rs","src/ksk.rs","src/evaluations.rs"],
 [("external product","src/rgsw.rs RgswCt::external_product"),("assembly","src/ksk.rs Ksk::try_from_decomposed_rlwes, src/rgsw.rs RgswCt::try_from_ksks")],
 None,["decryption of the product"],V)
prop("C08","Noise stays within its worst case and is reported honestly",
 "After every operation of every history the noise of a ciphertext (distance of its phase from the scaled message) is at most the worst case implied by the operands' noise, the parameters and the bounds of the error distribution, for every entropy outcome. The noise the library reports for a ciphertext agrees to within one bit with the noise computed independently from the secret key.",
 ["histories","inputs","configurations","fault_sequences"],
 "all histories of fresh encryption, addition, plaintext and ciphertext multiplication, key switching, automorphism, external product and modulus switching, for all entropy outcomes",
 "The tests never assert on noise except one key-switch bound with unexplained constant; reported noise is only printed.",
 ["src/bfv.rs","src/ksk.rs","src/rgsw.rs","src/rns.rs"],
 [("noise measurement","src/bfv.rs SecretKey::measure_noise"),("error sampling bound","src/utils.rs sample_vec_cbd"),("rounding in scaling","src/rns.rs RnsScaler::scale")],
 None,["exact phase of each ciphertext, library-reported noise"],V)
prop("C09","Every ciphertext and key row carries its own fresh mask and error",
 "Every ciphertext, every row of every key-switching, Galois, relinearisation and RGSW key, and every PVW public key row and clue is masked with its own uniformly drawn mask that comes from at least 128 bits of new entropy, and every ring ciphertext, ring key row and PVW public key row carries its own error, drawn anew, not identically zero and within the declared bound. No mask, error or secret is ever repeated within or across clients, sessions, retries or restarts, and even an encryption of zero is masked.",
 ["histories","inputs","schedules","configurations"],
 "all histories of key generations and encryptions by several parties under an entropy source that behaves; all messages including zero",
 "All tests check decryption only; a reused mask, a dropped error or a fixed seed decrypts perfectly.",
 ["src/bfv.rs","src/ksk.rs","src/rgsw.rs","src/pvw.rs","src/rq.rs"],
 [("seeded masks","src/bfv.rs encrypt_poly, src/ksk.rs Ksk::new, src/rq.rs Poly::random_from_seed"),("error sampling","src/rq.rs Poly::random_small"),("PVW keys and clues","src/pvw.rs gen_sk, gen_pk, encrypt")],
 None,["masks and errors recomputed from the secret key; bytes drawn from the entropy source"],V)
prop("C10","What a server sees besides encrypted payload is independent of the query",
 "For the same client entropy, two runs that differ only in the queried position (or in the encrypted message) send the same number, kind, shape and order of messages, with identical evaluation keys and masks and the same entropy consumption, and their ciphertexts differ by exactly the encodings' difference. The server's answers have the same number and shape for every position.",
 ["inputs","histories","configurations"],
 "all pairs of positions or messages and all entropy outcomes, database shapes and parameter sets",
 "Privacy is a statement about pairs of executions under equal randomness; the tests neither control randomness nor compare executions.",
 ["src/evaluations.rs","src/bfv.rs","src/ksk.rs","src/rgsw.rs"],
 [("message-independent mask and error sampling","src/bfv.rs encrypt_poly, src/ksk.rs Ksk::new"),("fixed-length query encoding","src/evaluations.rs Client::encode")],
 None,["paired executions under one entropy stream"],V)
prop("C11","A PVW clue decrypts to its message for the recipient it was made for",
 "A clue encrypted under a recipient's public key decrypts with that recipient's secret key to exactly the message bits, for every message, every choice of dimensions and modulus whose worst-case error fits, and every entropy outcome, with any number of recipients' and senders' key generations and encryptions interleaved. Each public key row is the secret key applied to its mask plus a bounded error.",
 ["inputs","configurations","schedules","fault_sequences"],
 "all messages, parameters with worst-case error below a quarter of the modulus, entropy outcomes and interleavings of several parties",
 "pvw::tests::encrypt_decrypt tries five random messages with the default parameters and one party.",
 ["src/pvw.rs","src/modulus.rs"],
 [("key generation, encryption, decryption","src/pvw.rs PvwSk::gen_sk, gen_pk, decrypt, PvwPk::encrypt")],
 None,["decrypted clue, public key rows"],V)
prop("C12","Secrets and errors are bounded and follow the declared distribution",
 "Every coefficient of a sampled secret key or error lies within twice the declared variance in absolute value for every byte stream the entropy source can produce, and under uniform entropy the coefficients are independent with mean zero, exactly the declared variance and the centred binomial shape. Uniformly sampled residues are always below their modulus and cover its whole range evenly, and expanding the same seed always gives the same polynomial while different seeds give different ones.",
 ["inputs","fault_sequences","configurations"],
 "all variances 1..16, vector lengths, moduli and entropy byte streams including stuck and biased ones",
 "No test looks at a sampled value; the tests use the operating system's entropy and cannot produce extreme streams.",
 ["src/utils.rs","src/modulus.rs","src/rq.rs","src/bfv.rs"],
 [("centred binomial sampler","src/utils.rs sample_vec_cbd"),("uniform sampler","src/modulus.rs random_vec"),("seed expansion","src/rq.rs random_from_seed")],
 None,["sampled values for a recorded entropy stream"],V)
prop("C13","Concurrent and interrupted callers get what they would get alone",
 "Callers that share parameters, secret keys or evaluation keys and run key generation, encryption, evaluation and decryption concurrently, preempted at arbitrary points, obtain bit for bit the results each would obtain running alone with the same entropy. An operation that dies part-way because the entropy source fails leaves nothing behind: the shared objects still work and a retry succeeds with a correct result.",
 ["schedules","fault_sequences","crash_points"],
 "all interleavings at allocation, entropy-draw and lock granularity of several callers, and entropy failures at every draw",
 "The tests are single-threaded per object and never fail an operation half-way.",
 ["src/bfv.rs","src/ksk.rs","src/rgsw.rs","src/rq.rs","src/ntt.rs"],
 [("immutable shared contexts","src/bfv.rs BfvParameters behind Arc, src/rq.rs RqContext"),("no global state","all modules")],
 None,["digest of each caller's results against its solo run in a pristine process"],V)
prop("C14","Modulus switching keeps the message and moves down the level chain",
 "Switching a ciphertext to any lower level of the modulus chain, in one or several steps, yields a ciphertext at exactly that level which decrypts to the same message, interoperates with ciphertexts and keys created at that level, and has noise scaled down in proportion plus at most the rounding error. This holds for every history of operations before and after the switch that fits the noise budget.",
 ["histories","inputs","configurations","fault_sequences"],
 "all messages, modulus chains, switch sequences and surrounding operation histories, for all entropy outcomes",
 "rq::tests::mod_switch checks bare random polynomials of one chain; no test switches a ciphertext or continues computing at a lower level.",
 ["src/rq.rs","src/bfv.rs"],
 [("rounded division by the last modulus","src/rq.rs Poly::mod_switch_down_next, mod_switch_to"),("per-level parameters","src/bfv.rs BfvParameters::new, ctx_level")],
 None,["decryption and phase after switching"],V)
prop("C15","Malformed or mismatched requests are refused, never answered wrongly",
 "A query with a missing or surplus ciphertext, a position outside the database's shape, or a database (named by the client or given to the server) whose size contradicts the shape is refused rather than encoded or answered. So is every ciphertext operation (addition, subtraction, product, product with a plaintext, relinearised product, encryption and decryption under a secret key, RGSW encryption and assembly) whose operands differ in level, ring or parameters, every query or database record of other parameters than the server's, every message with more values than the plaintext has places, every secret key with more coefficients than the ring, every key applied to a ciphertext or polynomial of another level or ring or to a ciphertext that still has a third component, every operand in the wrong representation, and every substitution with an even exponent. Values beyond the plaintext modulus (in messages, records and clues) are taken modulo it or refused. Refusal has no side effects: well-formed requests by the same or other clients keep being served correctly afterwards.",
 ["inputs","histories","fault_sequences"],
 "all truncations and mismatches of the listed kinds that a lossy or confused peer can produce, at every point of a history of well-formed requests",
 "No test feeds a malformed request.",
 ["src/evaluations.rs","src/bfv.rs","src/ksk.rs","src/rq.rs"],
 [("argument assertions","src/evaluations.rs Client::encode, Server::decode; src/bfv.rs operators; src/ksk.rs key_switch; src/rq.rs operators, Substitution::new")],
 None,["panic (refusal) or returned value of each call"],V)
prop("C16","Key switching re-encrypts products under the target key at every level",
 "Given a key-switching key for a source polynomial, switching any input polynomial yields a pair whose phase under the secret key is the product of input and source polynomial, up to the worst-case error of one bounded error per residue digit. This holds at every level of the modulus chain, for keys made from polynomials and from plaintexts, and for every entropy outcome; relinearising a three-component ciphertext with such a key preserves its message.",
 ["inputs","configurations","fault_sequences","histories"],
 "all inputs, sources, levels, parameter sets and entropy outcomes",
 "ksk::tests::ksk checks level 0 of one two-modulus parameter set; the plaintext variant is only printed.",
 ["src/ksk.rs","src/bfv.rs"],
 [("digit decomposition against gadget rows","src/ksk.rs Ksk::new, key_switch"),("relinearisation","src/bfv.rs RelinearizationKey")],
 None,["exact phase of the switched pair"],V)
prop("C17","Parameter sets are usable or refused",
 "Whatever degree, plaintext modulus, ciphertext moduli and variance a user asks for, either parameters are built under which encryption, decryption, sums, products and substitutions in both encodings and at every level with room for them are right, or the request is refused before any value comes out. Refused are moduli that are repeated, composite (pseudoprimes included), beyond 62 bits or not congruent to one modulo twice the degree, an empty chain, a plaintext modulus that is not such a prime below every ciphertext modulus, degrees that are not powers of two, and variances outside 1 to 16; well-formed requests are never refused, however close the moduli are to the plaintext modulus. Generated moduli are distinct primes of exactly the requested sizes congruent to one modulo twice the degree, and generation reports failure only when none is left. Refusals leave other parameter sets of the process working.",
 ["inputs","configurations","histories","fault_sequences"],
 "all requested parameter sets and modulus sizes, between the work of healthy tenants, for all entropy outcomes",
 "The tests build a handful of well-formed parameter sets.",
 ["src/bfv.rs","src/rq.rs","src/rns.rs","src/ntt.rs","src/modulus.rs","src/utils.rs"],
 [("construction","src/bfv.rs BfvParameters::new, src/rq.rs RqContext::new, src/ntt.rs supports_ntt, src/rns.rs RnsContext::new"),("prime search","src/utils.rs generate_prime, is_prime, src/bfv.rs generate_moduli"),("variance check","src/utils.rs sample_vec_cbd")],
 None,["panic (refusal) or parameters, and every result under them"],V)
# pure functions: stated, not claimed
pure="a pure function of its input: no schedule, clock, fault, randomness or second party can influence it"
prop("N01","Modular arithmetic equals integer arithmetic reduced by the modulus",
 "Addition, subtraction, multiplication, exponentiation, inversion, negation and reduction of machine, signed and big integers modulo any supported modulus equal the mathematical result, fully reduced.",
 ["inputs"],"all operands and all moduli below 2^62","The tests exercise modular arithmetic only indirectly.",
 ["src/modulus.rs"],[("Barrett and Shoup reduction","src/modulus.rs")])
prop("N02","The number-theoretic transform turns products into negacyclic convolutions",
 "The backward transform inverts the forward one, and pointwise multiplication between them is multiplication modulo X^N+1.",
 ["inputs","configurations"],"all polynomials, sizes and NTT-friendly primes","ntt::tests::bijection tries one size and prime and never checks convolution.",
 ["src/ntt.rs"],[("butterflies","src/ntt.rs forward, backward")])
prop("N03","Residue representation lifts, projects and scales exactly",
 "Projection followed by lifting is the identity below the product of the moduli, and scaling by a rational factor between bases yields the correctly rounded value.",
 ["inputs","configurations"],"all values, bases and factors used by the parameters","Only modulus switching is compared with exact arithmetic.",
 ["src/rns.rs","src/rq.rs"],[("CRT and scaler","src/rns.rs")])
prop("N05","Polynomial substitution is the ring automorphism in both representations",
 "Substituting X by X^k in coefficient and in transformed representation gives the same polynomial, and substitutions compose by multiplying exponents.",
 ["inputs"],"all polynomials and odd exponents","rq::tests::substitute prints instead of asserting.",
 ["src/rq.rs"],[("substitution","src/rq.rs Poly::substitute")])
prop("N06","Bit decomposition and wide-integer helpers are exact",
 "Bit vectors and digit decompositions recompose to the original value, and 256-bit helper arithmetic is exact modulo 2^256.",
 ["inputs"],"all values, widths and shift amounts","Two tests try one value each; the wide integer has none.",
 ["src/utils.rs"],[("helpers","src/utils.rs bit_vector, decompose_bits, U256")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
