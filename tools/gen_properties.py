#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

A1, A2, A3 = "AggregatorVerifierStep1.go", "AggregatorVerifierStep2.go", "AggregatorVerifierStep3.go"
LIB, CIR, FR, KYC, MSM, PAIR, MAIN, HASH, UT = "aggregator_lib_circuit.go", "circuit.go", "fr.go", "kyc.go", "msm.go", "pairing_circuit.go", "main.go", "hash.go", "utils.go"
ONE = "The only end-to-end test feeds one honest proof and expects acceptance; nothing in the suite feeds a bad one."

prop("C01", "Every challenge is the enforced hash of everything sent before it",
 "Each Fiat-Shamir challenge used by the aggregation circuit is the SHA-256 digest, reduced modulo the scalar field, of the previous (unreduced) digest followed by every proof element sent since, in transcript order, each as a 32-byte big-endian word, closed by one zero byte; the chain starts from the verifying-key digest and the instance commitment. Every accepting run has enforced each of these digests with the in-circuit SHA-256 constraint over the whole preimage and all 32 digest bytes. No proof element used before a challenge is left out of it, for any values of the elements.",
 ["inputs"], "all proofs, instances and auxiliary values; all eight challenges; all element values including short ones with leading zero bytes",
 ONE + " A missing element, unpadded encoding or dropped hash constraint still accepts that proof.",
 [LIB, CIR], [("transcript absorption", LIB+":GetChallengesShPlonkCircuit"), ("challenge squeezing", LIB+":SqueezeChallenge"), ("in-circuit SHA-256", LIB+":VerifySha256")])
prop("C02", "Every prover-supplied curve point is checked to be on the curve",
 "Every accepting run of the aggregation circuit has checked each of the 24 curve points of the proof, on the coordinate values that are used later, against the BN254 G1 equation, and a failed check rejects. The stand-alone point-check circuits reject every pair of coordinates that is not a curve point and every coordinate they cannot read.",
 ["inputs"], "all proofs and all coordinate pairs",
 "Tests only pass points that are on the curve, so a skipped, mis-paired or ignored check is invisible to them.",
 [LIB, PAIR], [("point check", LIB+":VerifyCheckOnCurve"), ("point check (variable form)", LIB+":VerifyCheckOnCurveVar"), ("callers", LIB+":GetChallengesShPlonkCircuit")])
prop("C03", "The accepted evaluations satisfy the PLONK quotient identity",
 "The scalar that multiplies the fixed G1 generator in the final accumulator equals, for every proof, what the halo2 verifier derives from the challenges and the claimed evaluations: all gate terms, the permutation argument over all its columns and chunks and both lookup arguments, folded by powers of y, divided by x^n-1 with n=2^23, combined with all other claimed evaluations by the multi-opening batching. Every claimed evaluation takes part in it with the coefficient the protocol gives it.",
 ["inputs"], "all proof evaluations and challenges, as a rational-function identity over the scalar field",
 "One accepted proof checks one point of this identity; a term that happens to vanish there, or a coefficient wrong in a direction that proof does not excite, is not seen, and soundness needs the identity everywhere.",
 [A1, A2, A3], [("gate, permutation and lookup evaluation", A1+":VerifyProof1"), ("batched opening", A2+":VerifyProof2"), ("final multi-scalar sum", A3+":VerifyProof3")])
prop("C04", "Every commitment enters the final accumulator with its protocol scalar",
 "Every commitment of the proof, the instance commitment and every verifying-key commitment enters the pairing accumulator exactly with the scalar the halo2 multi-opening protocol assigns to it as a function of the challenges, and no other point enters; the first pairing operand is exactly the last opening point. Both hold for every proof, not only for honest ones.",
 ["inputs"], "all proofs: the scalar of each of the commitments, as a rational function of the challenges",
 ONE + " With a single proof a commitment dropped together with a compensating term, or one whose scalar is wrong only for other challenges, cannot be told apart.",
 [A1, A2, A3, FR], [("multi-scalar accumulation", A3+":VerifyProof3"), ("accumulate step", FR+":ecc_mul_add")])
prop("C05", "Prover-supplied inverses are pinned to a unique value",
 "Each auxiliary value the prover supplies to stand for a quotient in the aggregation circuit is constrained, in every accepting run, by a product equation with the protocol's divisor, so it can only equal the true quotient (the divisors x^n-1 and x-w^i vanish only if the hashed challenge x is itself a root of unity). The divisors are the expressions the protocol requires, and no auxiliary value is used unconstrained or in place of another.",
 ["inputs"], "all proofs and all auxiliary values, including adversarial ones",
 "Tests supply only the correct inverses, which satisfy the circuit whether or not the product equation is enforced.",
 [FR, A1, A2], [("division by advice", FR+":fr_div"), ("uses", A1+":VerifyProof1"), ("uses", A2+":VerifyProof2")])
prop("C06", "Hinted group results and reductions are pinned by constraints",
 "Every value that is computed outside the constraints (scalar multiples, point sums, modular reductions) and then used by the aggregation circuit is tied by an enforced constraint to the operation and the very operands it stands for, in both coordinates. Point addition is constrained with the complete formula, so equal, opposite or infinite operands are handled, and no hinted value reaches the final check unconstrained.",
 ["inputs"], "all proofs and all values a dishonest prover may return in place of a hint's output",
 "The test engine always runs the honest hint, so a dropped or half-written constraint never shows.",
 [LIB, FR, MSM], [("scalar multiplication", LIB+":CalcVerifyBN256Msm"), ("addition", LIB+":CalcVerifyBN256Add"), ("constraint", MSM+":VerifyBN254ScalarMul"), ("constraint", MSM+":VerifyBN254Add"), ("reduction", FR+":mod")])
prop("C07", "Acceptance means the final pairing equation was enforced",
 "The aggregation circuit accepts only after enforcing that the four accumulator coordinates are non-zero field elements at least one and that the product of the pairings of the first accumulator with the verifying key's fixed G2 point and of the second accumulator with the negated fixed G2 generator is one, each G1 operand being checked to be on the curve. A failure of any of these, at any stage, rejects.",
 ["inputs"], "all proofs and instances; every way out of the circuit definition",
 ONE + " A final check that is skipped, applied to the wrong operands or whose failure is ignored accepts that proof as well.",
 [CIR, PAIR, LIB], [("final check", CIR+":AggregatorCircuit.Define"), ("pairing", PAIR+":VerifyBN256Pairing"), ("operands", PAIR+":FillVerifyCircuitsG1"), ("constants", PAIR+":GetVerifyCircuitsG2Jac"), ("non-zero", LIB+":VerifyNotZero")])
prop("C08", "The instance hash commits to every public target value",
 "The instance scalar used by the aggregation circuit is the Keccak-256 digest, taken as a big-endian number modulo the scalar field, of all target instances followed by all inner instances, each as a 32-byte big-endian word. The constraints of every accepting run tie both the digest bytes and all the preimage bytes to those instance values, so a prover cannot hash anything else, and the instance commitment is that scalar times the verifying key's instance base point.",
 ["inputs"], "all instance vectors and all values a dishonest prover may return for hinted bytes",
 "The honest hint always returns the right bytes and the honest prover the right instance; the binding only matters against a dishonest prover.",
 [CIR, LIB, UT], [("instance hash", CIR+":VerifyInstanceHash"), ("hint", CIR+":Keccak256Hint"), ("packing", UT+":PackUInt8Variables"), ("instance commitment", LIB+":CalcVerifyCircuitLagrange")])
prop("C09", "Exactly the intended inputs are public",
 "The public inputs of the aggregation circuit are exactly its target instances, and those of the KYC circuit are exactly all the conditions (age bounds, countries, levels, times); proofs, auxiliary values, inner instances, signatures, hashes and personal attributes stay private. The range-check circuit exposes only the checked value.",
 ["configurations"], "every field, at every nesting depth, of every circuit type",
 "Tests build the public witness from the same struct they compile, so a value silently moved between the public and the private part still verifies.",
 [CIR, KYC, LIB], [("visibility tags", CIR+":AggregatorCircuit"), ("visibility tags", KYC+":Circuit"), ("visibility tags", LIB+":RangeCheckCircuit")])
prop("C10", "No reported failure is swallowed",
 "Whenever a step used while defining a circuit, computing a hint or driving a proof reports failure (an error, a failed conversion or a negative validity answer), the enclosing circuit definition, hint or driver does not succeed: it returns an error or aborts. No recovery handler turns an abort into success.",
 ["fault_sequences", "inputs"], "every call that can report failure, on every path from every circuit definition, hint and the driver",
 "None of the failures occur on the inputs the tests use, so an ignored result is never exercised.",
 [CIR, LIB, FR, MSM, PAIR, KYC, HASH, MAIN], [("error propagation", LIB+":CalcVerifyBN256Msm"), ("error propagation", FR+":ecc_mul_add"), ("error propagation", PAIR+":FillVerifyCircuitsG1"), ("driver", MAIN+":main")])
prop("C11", "The enforced constraints do not depend on the witness values",
 "For every circuit, the set of constraints enforced by an accepting run is the same whatever the input values are: an input may make the definition reject, but never makes it skip, replace or shorten a check, leave a loop early or return success early. This includes special-looking values such as zero, one, duplicates or the point at infinity.",
 ["inputs"], "all witness assignments; every branch and loop bound in code reachable from a circuit definition",
 "A shortcut taken for one special value is missed unless a test happens to use that value; the tests use one assignment each.",
 [CIR, LIB, FR, MSM, PAIR, KYC], [("definitions", CIR+":AggregatorCircuit.Define"), ("definitions", KYC+":Circuit.Define"), ("field and curve steps", FR+":ecc_mul")])
prop("C12", "Hints are registered and respect the solver's calling contract",
 "Every hint a circuit requests is registered with the constraint solver, is requested with as many inputs and outputs as it expects, and on success has set every output to a freshly allocated or in-place number without changing or aliasing its inputs or any package variable. Its outputs depend only on its inputs.",
 ["inputs", "histories"], "every hint function, every request site, all input values, any order and repetition of calls",
 "The test engine calls hints directly and sequentially and ignores registration; a missing registration, an unset output or shared scratch state only shows in the real solver or on other inputs.",
 [CIR, LIB, FR], [("registration", LIB+":init"), ("hints", LIB+":MsmHint"), ("hints", LIB+":AddHint"), ("hints", FR+":modHint"), ("hints", CIR+":Keccak256Hint")])
prop("C13", "Hints compute the group, modular and hash results they stand for",
 "On success the multiplication hint returns both affine coordinates of scalar times point, the addition hint those of the sum, the reduction hint the quotient and remainder by the scalar-field modulus, and the instance-hash hint the Keccak-256 digest as a number, its 32 bytes, then the 32-byte big-endian encoding of each input in order. They do so for all valid inputs, and report an error for coordinates that are not a curve point.",
 ["inputs"], "all hint inputs",
 "Only a handful of operand values occur in the tests; values with leading zero bytes, zero scalars or coordinates and equal operands do not.",
 [LIB, FR, CIR], [("multiplication hint", LIB+":MsmHint"), ("addition hint", LIB+":AddHint"), ("reduction hint", FR+":modHint"), ("hash hint", CIR+":Keccak256Hint"), ("decoding", LIB+":extractAndConvert")])
prop("C14", "The hash gadgets compare the whole digest of the whole input",
 "The Keccak-256 and SHA-256 circuits accept an input and a claimed digest only if every one of the 32 claimed bytes equals the corresponding byte of the hash of the complete input, for every input length including the empty one and lengths around the block size. A claimed digest of fewer than 32 bytes is never accepted.",
 ["inputs"], "all input byte strings of any length, all claimed digests",
 "Tests hash one 32-byte string with the right digest; a comparison that stops early or an input that is truncated passes.",
 [LIB], [("Keccak-256 gadget", LIB+":VerifyKeccak256"), ("SHA-256 gadget", LIB+":VerifySha256")])
prop("C15", "The KYC circuit enforces the issuer's signature",
 "Every accepting run of the KYC circuit has enforced that the supplied ECDSA signature over secp256k1 is valid for the supplied KYC hash under the issuer's fixed public key, which comes from constants and never from the witness. The signature check is not conditional on any input. (The signed hash is meant to bind the attributes the circuit checks.)",
 ["inputs"], "all signatures, hashes and KYC records",
 "The test supplies one valid signature; a circuit that does not check it, or checks it against a different hash or key, accepts it too.",
 [KYC], [("signature check", KYC+":Circuit.Define")])
prop("C16", "The KYC circuit enforces the age range and the country list exactly",
 "The KYC circuit accepts only if the age lies between both age bounds inclusive and the country equals at least one entry of the public country list, wherever in the list it stands, whatever the list's length and also if the match is with zero or the list contains duplicates; and it imposes no stricter condition on age and country than that. The level and time attributes are meant to be constrained by their conditions as well.",
 ["inputs", "configurations"], "all attribute values and all condition lists of every length",
 "The test uses one assignment: age strictly inside the range and the country in the middle of a five-entry list.",
 [KYC, LIB], [("conditions", KYC+":Circuit.Define"), ("range check", LIB+":VerifyRangeCheck")])
prop("C17", "The emulated curve gadgets check every term and both coordinates",
 "The multi-scalar-multiplication gadget accepts only if the claimed point equals the sum over all supplied points of each point times its own scalar, for any number of points; the BN254 scalar-multiplication and addition gadgets only if the claimed point equals the product, respectively the sum by the complete formula, of exactly the supplied operands. The comparison covers both coordinates.",
 ["inputs", "configurations"], "all points, scalars, claimed results and list lengths",
 "Tests use a single point and a correct result, so terms beyond the first, operand order and the comparison itself are unchecked.",
 [MSM], [("multi-scalar multiplication", MSM+":VerifyMultiScalarMul"), ("scalar multiplication", MSM+":VerifyBN254ScalarMul"), ("addition", MSM+":VerifyBN254Add")])
prop("C18", "The pairing gadget checks all operand pairs and never mis-pairs them",
 "The pairing circuit accepts only if the product of the pairings of all its G1/G2 operand pairs, in the given order, is one, and any failure of the pairing engine rejects. The helpers that fill its operands put the first and second given point, verified to be on the curve, and the two fixed G2 points in their order.",
 ["inputs"], "all operand points, on or off the curve",
 "The test uses one valid pair list; a helper that validates only one point or ignores a conversion failure behaves the same on it.",
 [PAIR], [("pairing check", PAIR+":VerifyBN256Pairing"), ("G1 operands", PAIR+":FillVerifyCircuitsG1"), ("G2 operands", PAIR+":FillVerifyCircuitsG2")])
prop("C19", "The scalar-field helpers compute exact field operations",
 "For all operands the scalar-field helpers return the sum, difference, product, negated product, negation, power, reduction and (given the right inverse) quotient in the scalar field, leave their operands unchanged, and constrain every reduction they introduce. The power helper is exact for every exponent from one up.",
 ["inputs"], "all operands, including zero, one and modulus minus one; all exponents",
 "Helpers are reached only through one proof; zero, boundary operands and unused helpers are never exercised.",
 [FR], [("field helpers", FR+":fr_mul, fr_add, fr_sub, fr_neg, fr_mul_neg, fr_pow, fr_div, mod"), ("constants", FR+":fr_from_string")])
prop("C20", "Range and non-zero checks are exact at their boundaries",
 "The range check enforces lower bound <= value <= upper bound, both inclusive, as unsigned field elements, and the non-zero check enforces value >= 1; each is enforced for every value and rejects everything outside.",
 ["inputs"], "all values and bounds",
 "Tests use one interior value; boundary values and rejections are not exercised.",
 [LIB], [("range check", LIB+":VerifyRangeCheck"), ("non-zero check", LIB+":VerifyNotZero")])
prop("C21", "The native curve circuits check both coordinates and keep operands intact",
 "The native multiplication and addition circuits over BN254 G1 accept only if the claimed point equals scalar times point, respectively the sum of both points, in both coordinates. They leave the caller's points and scalar unmodified.",
 ["inputs", "histories"], "all points, scalars and claimed results; repeated use of the same operands",
 "The test's witness is not connected to the values compared, and the addition circuit has no test at all.",
 [LIB], [("native multiplication", LIB+":VerifyBN256Msm"), ("native addition", LIB+":VerifyBN256Add")])
prop("C22", "The driver reports success only for a proof it verified itself",
 "The command-line driver terminates normally only after setting up keys for the compiled aggregation circuit, proving it for the embedded proof data and verifying the resulting proof with the verifying key of the same setup against the public part of the same witness. A failure in any of these steps aborts it.",
 ["fault_sequences"], "every step that can fail, in every combination",
 "The driver is not run by any test.",
 [MAIN], [("driver", MAIN+":main")])
prop("C23", "Package state is immutable once initialised",
 "After program initialisation no circuit definition, hint or driver step modifies any package-level variable or anything reachable from it, so circuits and hints can run concurrently and repeatedly with identical results. The modulus and the embedded proof data in particular keep their values.",
 ["schedules", "histories"], "any interleaving and repetition of circuit definitions and hint calls",
 "Tests run sequentially and once; a corrupted shared constant or a shared scratch buffer shows only on a later or concurrent call.",
 [LIB, FR, MAIN], [("modulus", LIB+":MODULUS, FrModulus, FpModulus"), ("embedded data", MAIN+":proofStr, auxStr")])
prop("C24", "Circuit definitions treat their inputs as opaque",
 "A circuit definition uses its inputs only through the circuit API and its gadgets; it does not read their concrete values, convert them to native numbers or inspect their dynamic type, so the compiled constraint system cannot bake in or depend on witness values.",
 ["inputs", "configurations"], "all circuit definitions and the code they reach",
 "The test engine hands real numbers to the definition, so native computations on inputs work in tests while the compiled circuit would be empty, unbuildable or fixed to one witness.",
 [CIR, LIB, FR, MSM, PAIR, KYC], [("definitions", LIB+":Sha256Circuit.Define, Keccak256Circuit.Define"), ("definitions", MSM+":MultiScalarMul.Define"), ("definitions", KYC+":Circuit.Define")])
prop("C25", "Byte, hex and decimal conversions are exact and big-endian",
 "Packing bytes yields the big-endian number of all of them, for any count; decoding a printed curve point yields both its coordinates in decimal, in order, for coordinates of any magnitude; malformed text is reported as an error and never decoded to a value.",
 ["inputs"], "all byte strings and all printed points",
 "Tests reach these conversions with a few full-length values only.",
 [UT, LIB], [("packing", UT+":PackUInt8Variables"), ("decoding", LIB+":extractAndConvert, hexToDecimalString")])
prop("C26", "No circuit or hint rejects what its statement allows",
 "The aggregation circuit accepts whenever the 24 proof points are on the curve, the accumulated pair passes the pairing check with non-zero coordinates and the prover supplies the inverses the constraints determine: no further range, non-zero, distinctness, size or format condition is put on proof elements, instances, challenges or intermediate values, and every hint it requests succeeds on such inputs with values that satisfy all constraints. Likewise the stand-alone hash, group, on-curve and pairing circuits accept every input with its correct result. (Exceptional operands inside gnark's own gadgets, such as the point at infinity, and intermediate coordinates that are not below the scalar modulus are not covered.)",
 ["inputs"], "all proof elements, instances and challenges; instance counts and input lengths enumerated",
 "The tests contain one proof and a handful of short inputs; a condition that only other valid inputs violate, a hint that fails for a rare value or a constraint that honest values miss for some inputs stays unseen.",
 [CIR, LIB, FR, MSM, PAIR], [("acceptance", CIR+":AggregatorCircuit.Define"), ("hints", LIB+":MsmHint, AddHint"), ("reduction hint", FR+":modHint"), ("stand-alone circuits", MSM+":MultiScalarMul.Define")])
prop("C27", "Forging an accepted statement is computationally infeasible",
 "No efficient prover can make the circuits accept a false statement except with negligible probability, given the hardness of the underlying hash, curve and commitment assumptions and a trustworthy setup.",
 ["programs"], "all efficient adversaries",
 "A probability over adversaries cannot be sampled by tests.",
 [CIR, KYC, MAIN], [("acceptance", CIR+":AggregatorCircuit.Define"), ("setup", MAIN+":main")])
prop("C28", "Compilation and proving finish within practical time and memory",
 "Compiling, setting up and proving each circuit terminates within the memory and time of an ordinary machine for every supported input size.",
 ["configurations"], "all circuits and list sizes",
 "Only a few sizes are run, and the aggregation circuit is never compiled.",
 [CIR, FR], [("definition", CIR+":AggregatorCircuit.Define"), ("power by repeated multiplication", FR+":fr_pow")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
