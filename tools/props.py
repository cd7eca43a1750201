#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json.  Run: python3 tools/props.py"""
import json, os, glob
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, q, why, files, mech, observe, note, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files,
                  mech=mech, observe=observe, note=note, state=state, na=na))

prop("P01", "Gadget decomposition recomposes and has balanced digits",
 "Decomposing any scalar or polynomial with a gadget gives one digit per level, each digit balanced (absolute value at most half the base), whose gadget-weighted sum differs from the input by at most half of the smallest gadget factor. Scalar and polynomial decomposition, every build variant of the kernels, and the reusable-buffer and freshly allocated forms all give the same digits, and recomposing returns that sum.",
 ["inputs", "configurations"], "every 32- and 64-bit torus value, gadgets with base 2..2^16 and one to several levels (exact and truncating), all three build variants",
 "Existing tests check a handful of random values; the carry chain at half-base boundaries and the truncation boundary need specific values.",
 ["tfhe/decomposer.go", "tfhe/asm_decompose.go", "tfhe/asm_decompose_amd64.go", "tfhe/asm_decompose_amd64.s"],
 [("scalar decomposition", "tfhe/decomposer.go DecomposeScalarTo"), ("polynomial kernel", "tfhe/asm_decompose*.go, asm_decompose_amd64.s")],
 ["digits returned by the decomposer", "recomposed values"],
 "gadgets listed in the harness; one polynomial of 16 coefficients for the kernels")

prop("P02", "Decoding recovers the message under any tolerable noise",
 "Encoding any integer message, negative or not, and decoding it after adding any error smaller than half of the scale (less the rounding of the scale, where the message modulus does not divide the torus modulus) returns the message reduced modulo the message modulus. This holds for scalar and polynomial plaintexts, default and custom message modulus and scale, and encoding fewer messages than slots leaves the remaining slots zero.",
 ["inputs", "configurations"], "every message value, every error below half the scale, 32- and 64-bit torus, power-of-two and other message moduli",
 "Tests encode a few small messages with the sampled noise; the rounding boundary and the wrap-around at the modulus are never reached.",
 ["tfhe/encoder.go", "tfhe/binary_encoder.go", "math/num/num.go"],
 [("encode/decode", "tfhe/encoder.go"), ("rounded division by the scale", "math/num/num.go DivRound, DivRoundBits")],
 ["decoded messages"], "message moduli and scales listed in the harness")

prop("P03", "Secret-key encryption has the right phase and decrypts",
 "A ciphertext produced with a secret key has a phase equal to the encoded plaintext plus only the sampled noise, for scalar, polynomial, levelled and gadget-matrix ciphertexts in both coefficient and frequency form, whatever the key, the mask and the message. Decryption with the same key therefore returns exactly the encrypted messages reduced modulo the message modulus (negative ones included), and every mask and noise value is freshly sampled.",
 ["inputs", "configurations"], "every key, mask, noise and message; 32- and 64-bit torus; ranks one and two; both bootstrap orders",
 "Tests encrypt a few messages under one random key and only look at the rounded result, so phase errors hidden by rounding, or wrong key parts, go unseen.",
 ["tfhe/lwe_enc.go", "tfhe/glwe_enc.go", "tfhe/fft_glwe_enc.go", "tfhe/encryptor.go"],
 [("LWE encryption and phase", "tfhe/lwe_enc.go"), ("GLWE, GLev, GGSW", "tfhe/glwe_enc.go"), ("frequency-domain ciphertexts", "tfhe/fft_glwe_enc.go")],
 ["phase of the ciphertext under the key", "decrypted messages"],
 "LWE dimension 3, polynomial rank 16, GLWE rank <=2; the samplers are replaced by unconstrained values")

prop("P04", "Public-key encryption is decryptable by the secret key",
 "A public key generated from a secret key encrypts scalar and polynomial plaintexts such that the phase under the secret key is the encoded plaintext plus only products and sums of the small sampled values. Parameters that do not support public-key encryption are rejected instead of producing undecryptable ciphertexts.",
 ["inputs", "configurations"], "every key, message, and sampled value; 32- and 64-bit torus; GLWE rank one and two",
 "Tests encrypt a few messages and decode, so phase terms hidden by rounding, and the conversions between ciphertext kinds, are only sampled.",
 ["tfhe/encryptor_public.go", "tfhe/lwe_enc_public.go", "tfhe/glwe_enc_public.go", "tfhe/fft_glwe_enc_public.go", "tfhe/encryptor_key.go"],
 [("public key generation", "tfhe/encryptor_key.go"), ("public encryption", "tfhe/*_enc_public.go")],
 ["phase of the ciphertext under the secret key", "decrypted messages"],
 "rank 16, GLWE rank <=2; binary auxiliary key chosen freely, Gaussian terms bounded or zero as stated in the harness")

prop("P05", "LWE linear operations act exactly on phases",
 "Adding, subtracting, negating, scaling, scaled accumulation and plaintext addition of scalar ciphertexts change the phase exactly as the operation says, for every key and every ciphertext. Outputs may alias inputs, inputs are otherwise unchanged, and the allocating and in-place forms agree.",
 ["inputs", "programs"], "every ciphertext, key, scalar and plaintext; 32- and 64-bit torus; all aliasing patterns of the operands",
 "Tests only run a few operations on fresh ciphertexts and compare rounded messages, without aliasing.",
 ["tfhe/lwe_ops.go", "math/vec/vec.go", "math/vec/asm_vec.go"],
 [("LWE operations", "tfhe/lwe_ops.go")], ["phases and ciphertext words"], "LWE dimension 5 (one vector block plus a tail)")

prop("P06", "GLWE operations act exactly on phases",
 "Linear operations, plaintext addition, polynomial products, monomial products and index permutations on polynomial ciphertexts, in coefficient or frequency form and in their accumulating and subtracting variants, transform the phase by exactly the stated map, for every key and ciphertext. Outputs may alias inputs where the operation allows it, inputs are otherwise unchanged, and allocating and in-place forms agree.",
 ["inputs", "programs"], "every ciphertext, key, scalar and polynomial; all monomial degrees and odd permutation indices listed; ranks one and two",
 "Tests cover a few operations on single random ciphertexts; signs at wrap-around degrees and accumulate/subtract variants are mostly unexercised.",
 ["tfhe/glwe_ops.go", "tfhe/fft_glwe_ops.go", "math/poly/poly_ops.go", "math/poly/fft_ops.go"],
 [("coefficient-form operations", "tfhe/glwe_ops.go"), ("frequency-form operations", "tfhe/fft_glwe_ops.go")],
 ["phases and ciphertext words"], "rank 16, GLWE rank <=2")

prop("P07", "Polynomial ring operations implement the negacyclic ring",
 "Addition, subtraction, negation, scaling, monomial multiplication and substitution X -> X^d on polynomials over the torus integers compute the exact result in the ring modulo X^N+1 for all coefficients, including the accumulate and subtract variants. Outputs may alias inputs where documented, and allocating and in-place forms agree.",
 ["inputs", "configurations"], "every coefficient vector, scalar, monomial degree in [-2N,2N] and odd substitution index, 32- and 64-bit, each build variant",
 "Tests compare few random polynomials; sign handling at each wrap-around degree is never enumerated.",
 ["math/poly/poly_ops.go", "math/poly/poly.go", "math/poly/poly_evaluator.go"],
 [("coefficient operations", "math/poly/poly_ops.go")], ["output coefficients"], "ring degree 16 (32 thorough)")

prop("P08", "Vector kernels agree with the elementwise definition on every path",
 "Every vector operation (linear, scaled, elementwise, dot product, rotation, reversal, bit-reversal and format conversion) computes the elementwise definition for all values and for vector lengths on both sides of the SIMD width. The portable code, the assembly and the runtime-dispatched fallback give identical words, and outputs may alias inputs.",
 ["inputs", "configurations"], "every vector content, lengths 1 to 13 (33 thorough), 32- and 64-bit, three build variants",
 "Tests compare one length with random data; tail handling and lane mistakes depend on length and specific values.",
 ["math/vec/vec.go", "math/vec/asm_vec.go", "math/vec/asm_vec_amd64.go", "math/vec/asm_vec_amd64.s"],
 [("portable kernels", "math/vec/asm_vec.go"), ("AVX2 kernels", "math/vec/asm_vec_amd64.s")], ["output words"],
 "lengths listed; AVX2 instructions modelled by the engine's lane semantics")

prop("P09", "Frequency-domain products equal ring products",
 "Transforming polynomials to the frequency domain, combining them there by addition, scaling, product, accumulation, substitution or monomial factors, and transforming back equals the same ring operation on coefficients whenever no rounding occurs, for every input. The result is the same for the portable, assembly and fallback kernels.",
 ["inputs", "configurations"], "every coefficient in the exactly representable range, every accumulate/subtract variant and fold option, three build variants",
 "Tests check a few products with tolerance; a wrong twiddle, lane or accumulate variant used only by some callers is missed.",
 ["math/poly/fft.go", "math/poly/fft_ops.go", "math/poly/asm_fft.go", "math/poly/asm_fft_amd64.s", "math/poly/asm_fold.go", "math/poly/asm_fold_amd64.s", "math/poly/asm_vec_cmplx.go"],
 [("transform", "math/poly/asm_fft.go, asm_fft_amd64.s"), ("folding", "math/poly/asm_fold.go"), ("complex kernels", "math/poly/asm_vec_cmplx.go")],
 ["coefficients after the inverse transform"], "ring degree 16 (32 thorough); floating rounding is outside: the transform is executed over exact algebraic numbers")

prop("P10", "Polynomial multiplication is exact for full-range operands",
 "Multiplying two polynomials with arbitrary full-width coefficients, or a full-width polynomial by a short one, gives exactly the product in the ring modulo X^N+1, for the plain, accumulating and subtracting forms. The operands are not modified.",
 ["inputs", "configurations"], "every coefficient value of both operands, 32- and 64-bit, each build variant",
 "Tests multiply a few random polynomials; errors in the splitting of large coefficients at chunk boundaries need specific values.",
 ["math/poly/poly_mul.go", "math/poly/asm_fold.go"], [("split multiplication", "math/poly/poly_mul.go")], ["product coefficients"],
 "ring degree 16; floating rounding outside")

prop("P11", "Extraction and key views agree between ciphertext kinds",
 "Reading any coefficient of a polynomial ciphertext as a scalar ciphertext preserves the phase: under the flattened key it equals that coefficient of the polynomial phase. Flattened and polynomial views of a secret key describe the same key, including its frequency form and the short key embedded in the large one.",
 ["inputs"], "every ciphertext, every key, every coefficient index; ranks one to three",
 "Tests only decrypt index zero of random ciphertexts.",
 ["tfhe/glwe.go", "tfhe/lwe.go", "tfhe/encryptor_key.go"], [("sample extraction", "tfhe/glwe.go"), ("key conversion", "tfhe/lwe.go, tfhe/glwe.go")],
 ["phases"], "rank 16, GLWE rank <=2")

prop("P12", "Key switching preserves the phase",
 "Switching a scalar or polynomial ciphertext to another key leaves its phase unchanged up to the decomposition error of the gadget times the input key and the noise of the switching key. The default switching key converts from the large key to the bootstrapping key, leaves its input unmodified, and allocating and in-place forms agree.",
 ["inputs", "configurations"], "every ciphertext and key pair, 32- and 64-bit torus, several gadgets, both bootstrap orders",
 "Tests only exercise it inside a full bootstrap and look at rounded messages.",
 ["tfhe/keyswitch.go", "tfhe/keyswitch_keygen.go", "tfhe/keyswitch_key.go", "tfhe/product.go"], [("key switching", "tfhe/keyswitch.go"), ("switching keys", "tfhe/keyswitch_keygen.go")],
 ["phases"], "LWE dimension 3, rank 16; noise of the switching key is zero")

prop("P13", "External products and multiplexing act correctly on phases",
 "The external product of a gadget-matrix ciphertext of a message with a scalar or polynomial ciphertext multiplies the phase by that message, the gadget product multiplies a plaintext polynomial, and the multiplexer returns the phase of the input selected by an encrypted bit, up to the gadget's decomposition error. Accumulating and subtracting variants add or subtract exactly that product and inputs are unchanged.",
 ["inputs", "configurations"], "every ciphertext, key, message and control bit, 32- and 64-bit torus, ranks one and two, exact and truncating gadgets",
 "Tests check few random products after rounding and none of the subtracting variants.",
 ["tfhe/product.go", "tfhe/fft_glwe_conv.go", "tfhe/decomposer.go"], [("products", "tfhe/product.go")], ["phases"],
 "rank 16, GLWE rank <=2; gadget noise zero; FFT over exact numbers")

prop("P14", "Lookup tables encode the function at every message",
 "A lookup table built for a function holds, at every position that a ciphertext of message x with tolerable noise can select, the encoding of f(x), for every message modulus, scale and table size, including negative wrap-around positions. All forms of table generation agree, and short tables of extended size keep the same layout.",
 ["inputs", "configurations"], "every function (as an arbitrary table), every rotation within half a slot of each message",
 "Tests use one function and random messages with typical noise, so slot boundaries are not reached.",
 ["tfhe/bootstrap_lut.go", "tfhe/bootstrap.go"], [("table generation", "tfhe/bootstrap_lut.go")], ["table entries at every selectable position"],
 "ring degree 16..32, message moduli 2..8, LUT size up to 4N")

prop("P15", "Modulus switching rounds to nearest and stays in range",
 "Modulus switching maps every torus value to the nearest multiple index of the doubled table size, reduced into range, for every value and table size (up to the 53-bit precision of its double-precision product for 64-bit values). The result never leaves the valid range, also for values that round up to the modulus.",
 ["inputs", "configurations"], "every 32- and 64-bit value, table sizes 16 to 2^16",
 "Tests never examine rounding ties or values near the top of the range.",
 ["tfhe/bootstrap.go"], [("modulus switch", "tfhe/bootstrap.go ModSwitch")], ["switched value"], "IEEE double arithmetic is encoded exactly")

prop("P16", "Blind rotation rotates the table by the encrypted phase",
 "Blind rotation of a lookup table by a scalar ciphertext yields a polynomial ciphertext whose phase is the table multiplied by X to the negated, modulus-switched phase, for every key and every mask. This holds for the plain, block-key and extended-table algorithms, in all combinations of block size, rank and extension factor.",
 ["inputs", "configurations"], "every binary (or block-binary) key, every table, every tuple of modulus-switched mask values in the listed dimensions",
 "Tests run default parameters with random messages; extended tables with odd body rotations and single-block keys are never checked exactly.",
 ["tfhe/bootstrap.go", "tfhe/bootstrap_keygen.go", "tfhe/product.go"], [("blind rotation", "tfhe/bootstrap.go"), ("rotation key", "tfhe/bootstrap_keygen.go")],
 ["phase of the rotated table"], "ring degree 16, LWE dimension <=4, gadget exact, noise zero, mask values chosen from a grid of modulus-switched tuples")

prop("P17", "Programmable bootstrapping evaluates the function",
 "Bootstrapping a ciphertext of any message with any tolerable noise under a function returns a fresh ciphertext whose phase encodes the function of that message, in both bootstrap orders and with block or extended tables. The input is unchanged, the output has the input's format, and the function and table forms agree.",
 ["inputs", "configurations"], "every message, key, function table, and noise below the tolerance; both orders",
 "Tests bootstrap a few messages of one function under default noise.",
 ["tfhe/bootstrap.go", "tfhe/bootstrap_lut.go", "tfhe/keyswitch.go", "tfhe/evaluator.go"], [("bootstrap", "tfhe/bootstrap.go")], ["phase of the output"],
 "ring degree 16, LWE dimension <=3, exact gadgets, zero key noise")

prop("P25", "Integer helper functions match their mathematical definition",
 "The integer helpers (absolute value, minimum and maximum, exact and rounded division including shift forms, powers and logarithms of two, size and sign queries, modular inverse and exponentiation) return the mathematically exact value whenever it is representable, for every input in their documented domain. Outside the domain they panic instead of returning a wrong value.",
 ["inputs"], "every value of the integer types instantiated (all widths 8 to 64, signed and unsigned)",
 "Tests sample a few small values of one type; overflow and signedness corner cases are never hit.",
 ["math/num/num.go", "math/num/generics.go"], [("number helpers", "math/num/num.go")], ["returned value or panic"],
 "divisions and modular arithmetic are decided at 8/16 bits symbolically and at full width where the solver closes the query")

def have(id):
    for f in glob.glob(os.path.join(D, "harness", "**", "*.go"), recursive=True):
        if "func VH_%s_" % id in open(f).read(): return True
    return False

exec(open(os.path.join(D, "tools", "props2.py")).read()) if os.path.exists(os.path.join(D, "tools", "props2.py")) else None
P.sort(key=lambda p: p["id"])
out, checks, na = [], [], []
for p in P:
    if not p["na"] and not have(p["id"]):
        print("skip (no harness)", p["id"]); continue
    a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=False)
    if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
    out.append(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"], anchors=a))
    assert len(p["title"]) <= 80, p["id"]
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"])); continue
    checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
        technique="symbolic execution of the Go SSA and AVX2 assembly with an SMT solver (Z3)",
        level="model_checking", level_note=p["note"]))
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na,
    notes="Every check regenerates its encoding from /repo's current Go source (go/ssa) and AVX2 assembly on each run. "
          "Harnesses are in harness/, the engine in engine/. No hooks in /repo. Known findings: known_findings.json.")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
