prop("P18", "Binary gates compute their truth tables on encrypted bits",
 "Each binary gate (NOT, AND, NAND, OR, NOR, XOR, XNOR) maps any two ciphertexts whose phases are within 1/16 of the torus of +1/8 (true) or -1/8 (false) to a ciphertext whose phase is exactly +1/8 or -1/8 of the torus according to the gate's truth table (up to the bootstrapping noise), for every key, in both bootstrap orders, with block keys and extended tables; NOT negates the phase exactly. The To-form gives the same result, also when the output is one of the inputs; inputs are otherwise unchanged, and a SafeCopy evaluates the same gates.",
 ["inputs", "configurations"], "every key of the listed dimensions; every pair of truth values that the key makes of the chosen masks and bodies, with errors up to the edge of 1/16",
 "Tests evaluate each gate on two fixed bits with fresh, small-noise encryptions and only one output form.",
 ["tfhe/binary_evaluator.go", "tfhe/binary_encoder.go", "tfhe/bootstrap.go"], [("gates", "tfhe/binary_evaluator.go")], ["phase of the gate's output"],
 "ring degree 16, LWE dimension 2..4, exact gadgets, zero key noise; masks and bodies from a list, so that one run covers several truth-value pairs")

prop("P19", "Integers survive encryption as vectors of bits",
 "Encrypting an integer as a vector of bits encrypts bit i of its two's complement representation in position i for any vector length from 0 to 64, with the secret key and with the public key, and decrypting the vector returns the integer modulo two to the length; the To-form overwrites whatever the output held.",
 ["inputs"], "every assignment of the varied bits of the message (all of them for short vectors, selected positions around bits 31, 32, 62 and 63 for long ones)",
 "Tests encrypt one 5-bit or 8-bit constant.",
 ["tfhe/binary_encryptor.go", "tfhe/binary_encryptor_public.go", "tfhe/binary_encoder.go"], [("bit encryption", "tfhe/binary_encryptor.go"), ("public bit encryption", "tfhe/binary_encryptor_public.go")],
 ["phase of each bit", "decrypted integer"], "vector lengths 0, 1, 5, 6, 63, 64 (and 8 in the thorough tier); ring degree 16")

prop("P20", "Serialization round-trips every object exactly",
 "For every serializable type (parameters, gadget parameters, secret and public keys, plaintexts, LWE, Lev, GSW, GLWE, GLev, GGSW ciphertexts and their Fourier forms, key switching, blind rotation and evaluation keys with or without a key switching part): MarshalBinary and WriteTo emit exactly ByteSize bytes in the documented field order, every field big-endian; UnmarshalBinary and ReadFrom restore an equal object, also into an object of another size that held other data; ReadFrom consumes and counts exactly one encoding from a stream, whatever pieces the reader delivers, and leaves the rest.",
 ["inputs", "configurations"], "every value of every coefficient (floating-point bit patterns included) for the listed shapes",
 "Tests round-trip through a single buffer with equal shapes, so counts, partial reads, reused objects and stream position are never observed.",
 ["tfhe/lwe_marshal.go", "tfhe/glwe_marshal.go", "tfhe/fft_glwe_marshal.go", "tfhe/encryptor_key_marshal.go", "tfhe/keyswitch_key_marshal.go", "tfhe/bootstrap_key_marshal.go", "tfhe/params.go"],
 [("encoders and decoders", "tfhe/*_marshal.go"), ("parameters", "tfhe/params.go")], ["encoded bytes", "decoded object", "returned byte counts", "reader position"],
 "ranks 1..3, ring degrees 16 and 32, levels 1..4, dimensions 1..5; readers delivering 1, 5 or 4096 bytes at a time")

prop("P21", "Truncated input and failing writers are reported as errors",
 "Reading any serializable type from a strict prefix of its encoding returns an error without panicking and counts exactly the bytes consumed; writing to a writer that fails after any number of bytes returns an error and counts exactly the bytes accepted.",
 ["crash points", "inputs"], "every truncation point and every failure point of the listed shapes (every seventh inside long value sections), every coefficient value",
 "Tests never truncate an encoding or make a writer fail.",
 ["tfhe/lwe_marshal.go", "tfhe/glwe_marshal.go", "tfhe/fft_glwe_marshal.go", "tfhe/encryptor_key_marshal.go", "tfhe/keyswitch_key_marshal.go", "tfhe/bootstrap_key_marshal.go", "tfhe/params.go"],
 [("encoders and decoders", "tfhe/*_marshal.go")], ["returned error", "returned byte count"],
 "as P20 with rank 1; input that is not a prefix of an encoding (corrupted headers) is outside: such headers are compiled like literals and may panic")

prop("P22", "Parameter compilation accepts exactly the valid literals",
 "Compiling a parameter or gadget literal panics exactly when a documented constraint is violated (dimensions, ranks, block and table sizes, power-of-two ring degree and base, deviations, base to the level at most Q, bootstrap order), and otherwise gives parameters whose accessors and derived values (scale Q/2p rounded, default dimension and deviation, block count, extension factor, gadget values) follow from the literal, and whose Literal compiles to the same parameters. The default parameter sets compile.",
 ["inputs", "configurations"], "every 32-bit value of the dimension, rank, size, block, order, base and level fields; listed deviations and moduli",
 "Tests only compile the default parameter sets.",
 ["tfhe/params.go", "tfhe/params_list.go"], [("compilation", "tfhe/params.go")], ["panic or compiled parameters", "accessors"],
 "integer fields range over 32 bits (products that overflow 64 bits are outside), two or three fields vary at a time; deviations from a list (not NaN)")

prop("P23", "Copies are equal and independent",
 "For every type with Copy, CopyFrom and Clear (polynomials, Fourier polynomials, plaintexts, ciphertexts of every kind, secret and public keys, key switching, blind rotation and evaluation keys, lookup tables): Copy returns an equal object that shares no memory with the original, CopyFrom makes the receiver equal to its source without sharing memory, and Clear zeroes every value, keeps the shape and touches nothing else. From extends or truncates a coefficient slice to the rank and copies it; Equals on polynomials holds exactly when all coefficients agree.",
 ["inputs", "histories"], "every value of every coefficient of the listed shapes, every order of mutations of original and copy used",
 "Tests never mutate a copy and look at the original.",
 ["math/poly/poly.go", "math/vec/vec.go", "tfhe/lwe.go", "tfhe/glwe.go", "tfhe/fft_glwe.go", "tfhe/encryptor_key.go", "tfhe/keyswitch_key.go", "tfhe/bootstrap_key.go", "tfhe/bootstrap_lut.go"],
 [("copying", "tfhe/*.go, math/poly/poly.go")], ["values of original and copy after each mutation"],
 "objects of equal shape; ranks 1..3, ring degrees 16 and 32, levels 1..3, dimensions 1..4; Equals decided for ring degree 16")

prop("P24", "Samplers map the random stream to values as defined",
 "Uniform samples are the successive words of the seeded key stream, each byte used once and never reused after the buffer is refilled; bounded samples take each residue for equally many words and reject the rest; binary samples are stream bits, each used once; a block-binary vector has at most one one per block at a bounded sample's position. Gaussian samples follow the ziggurat (sign, strip, wedge and tail) scaled by the deviation and rounded; vector, polynomial, adding and subtracting forms draw the same values; negative deviations are refused.",
 ["inputs"], "every key-stream byte of the words examined; every old output; every 24-bit strip position of the listed layers; stream refills at both buffer ends",
 "The one existing test compares mean and deviation of 1024 samples.",
 ["math/csprng/uniform_sampler.go", "math/csprng/binary_sampler.go", "math/csprng/gaussian_sampler.go"], [("samplers", "math/csprng/*.go")],
 ["sampled values as a function of the stream"], "AES-CTR and SHA-384 are trusted (replaced by an arbitrary stream); bounds 1, 2, 3, 4, 6, 8 and three large ones; blocks of 2, 3 and 8; layers 0, 2, 5, 64, 126, 127 for every word, slow paths for listed words, table constants against their definition")

prop("P34", "Parallel key generation and safe copies are free of races",
 "GenBlindRotateKeyParallel and GenDefaultKeySwitchKeyParallel return keys that decrypt to the same messages as the serial ones under every interleaving of their workers; an Evaluator, Encryptor, PublicEncryptor, Binary encryptor or evaluator, Decomposer, GLWETransformer or polynomial evaluator and its SafeCopy can work at the same time on shared inputs without two of them touching the same memory unsynchronized, and both give the results they give alone.",
 ["schedules", "inputs"], "every interleaving of two workers at channel and wait-group operations for the scheduled harness (others: one interleaving with vector-clock race detection, which covers every interleaving with the same synchronization order); every key and message of the listed shapes",
 "Tests run each parallel function once and never use an object and its copy at the same time.",
 ["tfhe/bootstrap_keygen.go", "tfhe/evaluator.go", "tfhe/encryptor.go", "tfhe/encryptor_public.go", "tfhe/decomposer.go", "tfhe/glwe.go", "math/poly/poly_evaluator.go"],
 [("parallel key generation", "tfhe/bootstrap_keygen.go"), ("SafeCopy", "tfhe/*.go")], ["memory accesses of each goroutine", "decrypted keys", "results"],
 "two CPUs (as many workers as runtime.NumCPU allows is modelled as two), two goroutines per object pair, ring degree 16, LWE dimension 1..3")

prop("P26", "Multi-key linear operations act exactly on phases",
 "Adding, subtracting, negating, scaling, accumulating, plaintext addition, polynomial and monomial products and index permutations on multi-key scalar and polynomial ciphertexts, in coefficient or frequency form, change the phase under all parties' keys by exactly the stated map, touching the parts of every party. Outputs may alias inputs, inputs are otherwise unchanged, and allocating, To- and accumulating forms agree.",
 ["inputs", "programs"], "every ciphertext, key, scalar and polynomial; monomial degrees -2N..2N; two- and three-party shapes",
 "Tests bootstrap fresh multi-key ciphertexts; most of these operations are never called.",
 ["mktfhe/lwe_ops.go", "mktfhe/glwe_ops.go", "mktfhe/fft_glwe_ops.go"], [("multi-key operations", "mktfhe/*_ops.go")],
 ["phases and ciphertext words"], "ring degree 16, one to three parties (GLWE rank 1 per party), LWE dimension per party up to 5")

prop("P27", "Multi-key encryption and decryption agree for every party",
 "A ciphertext encrypted by any party (secret key or public key, scalar or polynomial, coefficient or frequency form) is, in the layout of all parties, a ciphertext whose phase under the joint key is the encoded message plus only the sampled noise, and whose parts of other parties are zero; embedding a single-key ciphertext preserves its phase. A decryptor holding the keys of the parties involved, given together, one by one or through a SafeCopy, returns the message; uni-encryptions decrypt to the message reduced modulo the message modulus; party indices outside the party count are refused.",
 ["inputs", "configurations"], "every key, message, mask and noise value; one to three parties, every listed subset of parties; both bootstrap orders; message moduli dividing Q or not",
 "Tests encrypt with all parties present, small non-negative messages and one key set.",
 ["mktfhe/encryptor.go", "mktfhe/encryptor_public.go", "mktfhe/decryptor.go", "mktfhe/glwe_enc.go", "mktfhe/fft_glwe_enc.go", "mktfhe/lwe.go", "mktfhe/glwe.go"],
 [("encryption and embedding", "mktfhe/encryptor.go, mktfhe/glwe.go"), ("decryption", "mktfhe/decryptor.go")],
 ["phase under the joint key", "decrypted messages", "panics"], "ring degree 16, 2..3 parties, LWE dimension 2..4 per party")

prop("P28", "Multi-key products multiply phases by the encrypted message",
 "The hybrid product of a single-key polynomial part and the multi-key external product of a multi-key ciphertext with a party's uni-encryption multiply the phase by the encrypted message, for every party index, key set and message; To-, add- and sub-forms give exactly the product, the accumulator plus and minus the product, also in place, and leave their inputs unchanged.",
 ["inputs", "configurations"], "every ciphertext, message polynomial coefficient, uni-encryption randomness and public key; keys with three free bits (quick) or all bits free (thorough)",
 "Tests only reach these products inside a whole bootstrap with the first add path; add and sub forms are never called.",
 ["mktfhe/product.go", "mktfhe/bootstrap_keygen.go", "mktfhe/encryptor.go"], [("products", "mktfhe/product.go")], ["phase of the product"],
 "ring degree 16, 2..3 parties with full or partial key sets, gadgets covering the whole torus, zero key noise; the noise growth is outside")

prop("P29", "Multi-key bootstrapping evaluates the function",
 "Multi-key blind rotation rotates the lookup table by the joint rounded phase (sequential and parallel forms agree), default key switching preserves the phase up to its gadget's truncation, and bootstrapping in either order, by function or lookup table, allocating, To or parallel, returns a ciphertext of the table value at the encrypted message, for full and partial sets of parties, with evaluation keys given at once or added one by one, and in a SafeCopy.",
 ["inputs", "configurations"], "every key of the listed dimensions, lookup table content and old output content; masks and bodies from a grid",
 "Tests run two parties, one message, one function, one default parameter set.",
 ["mktfhe/bootstrap.go", "mktfhe/evaluator.go", "mktfhe/product.go", "mktfhe/bootstrap_keygen.go"],
 [("blind rotation and bootstrap", "mktfhe/bootstrap.go"), ("evaluation keys", "mktfhe/bootstrap_keygen.go")], ["phases of outputs"],
 "ring degree 16, LWE dimension 1..2 per party, one to three parties, gadgets covering the torus, zero key noise; key switching up to dimension 14")

prop("P35", "Multi-key gates and bits compute and decrypt correctly",
 "Every multi-key binary gate (NOT, AND, NAND, OR, NOR, XOR, XNOR; sequential, parallel and To-forms, also in place and in a SafeCopy) maps ciphertexts whose errors together stay below the gate's margin to a ciphertext of the truth table's value. Booleans and integers encrypted bit by bit by any party, with the secret or the public key, decrypt to the same values, for vector lengths from 0 to 64.",
 ["inputs", "configurations"], "every key of the listed dimensions; every truth-value pair the keys make of the chosen masks; errors up to a sum of 1/8 of the torus; every assignment of the varied message bits",
 "Tests evaluate each gate once on two fresh, small-noise bits, so a halved noise margin goes unseen.",
 ["mktfhe/binary_evaluator.go", "mktfhe/binary_encryptor.go", "mktfhe/binary_encryptor_public.go", "mktfhe/binary_decryptor.go"],
 [("gates", "mktfhe/binary_evaluator.go"), ("bits", "mktfhe/binary_encryptor*.go, mktfhe/binary_decryptor.go")], ["phase of gate outputs", "decrypted bits and integers"],
 "ring degree 16, LWE dimension 2 per party, two or three parties, exact gadgets, zero key noise; vector lengths 0, 3, 4, 64")

prop("P30", "Multi-key objects serialize and copy faithfully",
 "Every serializable multi-key type (parameters, plaintexts, LWE, GLWE and uni-encryption ciphertexts and their Fourier forms, secret, public and evaluation keys) round-trips exactly through WriteTo/ReadFrom, also from readers that deliver few bytes at a time and into used objects of another shape; counts and stream positions are exact. A truncated input or failing writer yields an error and the bytes actually processed. Copy and CopyFrom give equal, independent objects and Clear zeroes every value.",
 ["inputs", "configurations", "crash points"], "every value of every coefficient of the listed shapes, every truncation and failure point (every seventh inside long value sections)",
 "Tests round-trip no multi-key object into a used one and never truncate an encoding or mutate a copy.",
 ["mktfhe/lwe_marshal.go", "mktfhe/glwe_marshal.go", "mktfhe/fft_glwe_marshal.go", "mktfhe/encryptor_key_marshal.go", "mktfhe/bootstrap_key_marshal.go", "mktfhe/glwe_enc.go", "mktfhe/params.go"],
 [("encoders and decoders", "mktfhe/*_marshal.go"), ("copies", "mktfhe/*.go")], ["encoded bytes", "decoded object", "returned byte counts", "values after mutation"],
 "2..5 parties, LWE dimension 1..4 per party, ring degrees 16 and 32, levels 1..4; corrupted headers are outside")

prop("P31", "Packed integer arithmetic on ciphertexts is exact",
 "For BFV-style polynomial ciphertexts, Tensor multiplies phases (scaled by the plaintext modulus over Q) into a tensor ciphertext over products of key parts, Relinearize preserves the phase of any such ciphertext, Mul does both, Permute with the Galois keys applies X -> X^d to the phase, and Pack turns an LWE ciphertext into a polynomial ciphertext of its phase as constant. Allocating and To-forms agree, overwrite whatever the output held, may work in place where documented, and leave inputs unchanged; an evaluator and its safe copy can work at the same time.",
 ["inputs", "configurations"], "every key of the listed ranks, every ciphertext (for products: every multiple of the square root of Q), every relinearization and Galois key randomness",
 "Tests use one rank and small positive messages, and the To-forms only with the evaluator's own buffers.",
 ["xtfhe/bfv_evaluator.go", "xtfhe/bfv_keygen.go"], [("tensor and relinearization", "xtfhe/bfv_evaluator.go"), ("Galois keys", "xtfhe/bfv_keygen.go")],
 ["phases of outputs"], "ring degree 16, GLWE rank 1..2, gadgets covering the torus, zero key noise, product operands multiples of the square root of Q; rounding divisions summarised by their identity with bounded error and that identity proved for each width")

prop("P32", "Many-table bootstrapping evaluates every table",
 "Bootstrapping with several lookup tables packed in one returns, for each table j, a ciphertext whose phase is the j-th function's value at the encrypted message, for function and full-range tables, fewer functions than slots, allocating and To-forms, block and single-key rotations and both orders, leaving the input unchanged. Its modulus switch rounds every torus value to the nearest multiple of the table count.",
 ["inputs", "configurations"], "every key of the listed dimensions, every table entry, every old output content; masks and bodies from a grid up to the edge of the slot; every torus value for the modulus switch",
 "Tests run one parameter set with two linear functions and fresh noise.",
 ["xtfhe/manylut_bootstrap.go", "xtfhe/manylut_evaluator.go", "xtfhe/manylut_params.go"], [("many-table bootstrap", "xtfhe/manylut_bootstrap.go")], ["phases of the outputs"],
 "ring degree 16 and 32, LWE dimension 2..4, 1, 2 and 4 tables whose count divides N/2p, gadgets covering the torus, zero key noise")

prop("P33", "Circuit bootstrapping outputs a gadget encryption of the message",
 "Circuit bootstrapping an LWE encryption of a message returns a Fourier GGSW ciphertext each row of which has the phase of the corresponding gadget component of that message times the secret key part, for both bootstrap orders, also into used outputs, in a safe copy, with the input unchanged.",
 ["inputs", "configurations"], "every key of the listed dimensions, every message value with errors up to the slot edge, key randomness",
 "Tests check one bit through one CMux.",
 ["xtfhe/circuit_bootstrap.go", "xtfhe/circuit_bootstrap_key.go", "xtfhe/circuit_bootstrap_params.go"], [("circuit bootstrapping", "xtfhe/circuit_bootstrap.go")],
 ["phase of every row"], "32-bit torus, ring degree 16, rank 1, LWE dimension 1..2, gadgets covering the torus, zero key noise; masks and bodies from a grid")

prop("P36", "Multi-key safe copies and parallel forms are free of races",
 "Parallel multi-key blind rotation and bootstrapping give the sequential result under every interleaving of their workers and touch no memory unsynchronized; a multi-key Evaluator, BinaryEvaluator, Encryptor, Decryptor or transformer and its SafeCopy can work at the same time on shared inputs and give the results they give alone.",
 ["schedules", "inputs"], "every interleaving of the workers at channel and wait-group operations for the scheduled harness (others: one interleaving with vector-clock race detection, which covers every interleaving with the same synchronization order); every key and message of the listed shapes",
 "Tests run each parallel function once and never use an object and its copy at the same time.",
 ["mktfhe/bootstrap.go", "mktfhe/evaluator.go", "mktfhe/encryptor.go", "mktfhe/decryptor.go", "mktfhe/binary_evaluator.go", "mktfhe/glwe.go"],
 [("parallel rotation", "mktfhe/bootstrap.go"), ("SafeCopy", "mktfhe/*.go")], ["memory accesses of each goroutine", "results"],
 "two CPUs modelled, two goroutines per object pair, two or three parties, ring degree 16, LWE dimension 1..2 per party")

prop("P37", "Automorphism-based bootstrapping evaluates the function",
 "Blind rotation with signed-digit keys and automorphism steps rotates the lookup table by the encrypted phase rounded to odd multiples, for every window size of the rotation index map, and bootstrapping by function or table returns a ciphertext of the function's value at the message in both orders, allocating and To-forms, leaving inputs unchanged. The generated secret key is bounded as stated, its views agree, and ciphertexts under it carry the message.",
 ["inputs", "configurations"], "every lookup table content, every free part of the GLWE key and of key randomness; LWE keys and ciphertexts from a grid of signed values",
 "Tests run one parameter set, one message and one function.",
 ["xtfhe/fhew_bootstrap.go", "xtfhe/fhew_bootstrap_keygen.go", "xtfhe/fhew_enc.go", "xtfhe/fhew_evaluator.go"], [("rotation and bootstrap", "xtfhe/fhew_bootstrap.go"), ("keys", "xtfhe/fhew_enc.go, xtfhe/fhew_bootstrap_keygen.go")],
 ["phases of outputs", "phases of keys"], "ring degree 16 and 32, GLWE rank 1..2, LWE dimension 1..4, window sizes 1, 3, 4 and 10, gadgets covering the torus, zero key noise")

prop("P38", "Sanitization re-randomizes without changing the message",
 "Re-randomizing adds to a ciphertext exactly an encryption of zero made from fresh public-key randomness plus the sampled noise, so that masks change and the phase changes only by noise; sanitizing by function or table returns a ciphertext of the table's value at the message, allocating, To- and in-place forms, inputs unchanged. The table of the discrete Gaussian sampler is the cumulative distribution around its center, and samples are its inverse.",
 ["inputs", "configurations"], "every key, public key noise, randomness value and noise value of the listed shapes; every 64-bit draw of the sampler",
 "Tests sanitize one message with one parameter set and only look at the decrypted value.",
 ["xtfhe/sanitization.go", "xtfhe/sanitization_params.go", "xtfhe/sanitization_sampler.go"], [("sanitization", "xtfhe/sanitization.go"), ("table sampler", "xtfhe/sanitization_sampler.go")],
 ["phase and mask of outputs", "sampled integers"], "ring degree 16, LWE dimension 1, gadgets covering the torus; the bootstrap inside runs with zero re-randomization noise, which is proved separately; centers 0, -0.25, 37.5")

prop("P42", "Objects have their parameters' shape and survive changes of form",
 "Every constructor of a plaintext, ciphertext or key, from parameters or from custom sizes, gives an all-zero object of exactly the dimensions, ranks, level counts and gadget parameters asked for, no two values of which share storage. Converting a secret key or a ciphertext of any kind (single- and multi-key) to frequency form transforms every component of every row and level, converting back returns the original, the allocating and the in-place conversions agree whatever the output held before, and the argument is never changed.",
 ["inputs", "configurations"], "every coefficient value; ranks one to four, one to four levels, degrees 16 to 64, both torus widths",
 "Tests convert objects only as a step of encryption, always of one shape, and never look at single components.",
 ["tfhe/fft_glwe_conv.go", "mktfhe/fft_glwe_conv.go", "tfhe/lwe.go", "tfhe/glwe.go", "tfhe/fft_glwe.go", "tfhe/keyswitch_key.go", "tfhe/bootstrap_key.go", "mktfhe/glwe.go", "mktfhe/fft_glwe.go", "mktfhe/bootstrap_key.go"],
 [("conversion", "tfhe/fft_glwe_conv.go, mktfhe/fft_glwe_conv.go"), ("construction", "New* of tfhe and mktfhe")], ["components of the result", "sizes and gadget parameters"],
 "ranks 1..4, 1..4 levels, ring degrees 16, 32 and 64")

prop("P43", "Multi-key and extension parameters accept exactly valid literals",
 "Compiling a multi-key, many-table, circuit bootstrapping, automorphism bootstrapping or sanitization literal panics exactly when its base literal does not compile or one of its own documented constraints is violated (party count, rank one, unextended tables, power-of-two table count, block size one, positive and bounded deviations, positive window, bootstrap order, valid gadgets); otherwise the accessors, per-party totals and scaled deviations follow from the literal, the With methods change only their field, and Literal compiles to the same parameters. The shipped sets compile.",
 ["inputs", "configurations"], "every 32-bit value of the party count, rank, dimension, table count and window and of each gadget's base and level; listed deviations, block and table sizes and orders",
 "Tests only compile the shipped parameter sets.",
 ["mktfhe/params.go", "mktfhe/params_list.go", "xtfhe/manylut_params.go", "xtfhe/circuit_bootstrap_params.go", "xtfhe/fhew_params.go", "xtfhe/sanitization_params.go"],
 [("compilation", "mktfhe/params.go, xtfhe/*_params.go")], ["panic or compiled parameters", "accessors"],
 "one field family symbolic at a time, the others from valid values; deviations from a list")

prop("P39", "Fresh noise rarely spoils decryption for the default parameters",
 "With the parameter sets shipped in the parameter lists, fresh encryption, bootstrapping and gates decrypt correctly except with the stated negligible probability.",
 ["inputs", "configurations"], "probability over Gaussian noise at full dimension", "Tests sample a few noise values.",
 ["tfhe/params_list.go", "mktfhe/params_list.go", "xtfhe/params_list.go"], [("parameters", "*/params_list.go")], ["failure probability"], "",
 na="the property is a probability over Gaussian sums at dimension about 1000; a solver decides for-all statements over bounded values, and every statement with a hard bound fails for some noise value; the algebra that carries the noise is decided in P03-P18, the probability is not")

prop("P40", "Floating-point error of FFT products stays below the noise",
 "The rounding error of Fourier-domain products over the whole chain of transforms stays below the noise the parameters allow for every operand.",
 ["inputs"], "every operand at ring degree 1024 and above", "Tests compare a few random products.",
 ["math/poly/fft.go", "math/poly/asm_fft.go"], [("FFT", "math/poly")], ["difference of FFT and exact products"], "",
 na="bit-precise floating-point reasoning over hundreds of dependent double operations is out of reach of the installed solvers (a single butterfly takes seconds, a transform of degree 16 does not finish); checks execute the FFT over exact algebraic numbers instead, so rounding itself is not decided")

prop("P41", "Samplers follow their distributions and reveal nothing",
 "Uniform, binary, block-binary and Gaussian samplers are computationally indistinguishable from their distributions, the seeded generator is forward secure, and running time does not depend on secrets.",
 ["inputs"], "statistical and computational distance, timing", "Statistical tests on a sample.",
 ["math/csprng/csprng.go", "math/csprng/gaussian_sampler.go"], [("samplers", "math/csprng")], ["distribution of samples", "running time"], "",
 na="distributional distance and computational indistinguishability are not for-all statements over program states, and timing is not visible in the encoding; the deterministic part of the samplers (which random words map to which outputs) is P24")
