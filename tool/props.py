#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "observe_at": list(observe), "hook_needed": None}})


U = "src/uint/"
p("C01", "Bounded signed integers compute exactly or fail",
  "Negation, absolute value, sign, addition, subtraction, multiplication (also by a public or wider operand), widening and narrowing of bounded big integers give the exact mathematical result, and the bound attached to the result really bounds its magnitude. When the bounds say that the result may not fit its type the checked forms return nothing and the operators panic, and they never return a wrapped value.",
  ["inputs", "configurations"], "all values and bounds allowed by the type invariant |v| < 2^bound < 2^width, all integer widths, all operand forms (secret/public, by value/by reference)",
  "The unit tests multiply and add a few hand-picked U128/U1024 values; the carry, sign and bound cases near the capacity of each type are quantified over all values and widths.",
  [U + "secret_signed.rs", U + "public_signed.rs", U + "secret_unsigned.rs", U + "traits.rs"],
  [("checked_add/checked_sub/checked_mul and the operator impls", U + "secret_signed.rs"), ("mul_wide, to_wide, try_from_wide", U + "traits.rs"), ("neg, abs, is_negative", U + "public_signed.rs")],
  ["public and crate-level operations on the signed and unsigned integer types"], [("bound", "log2 bound on the magnitude", U + "secret_signed.rs")])
p("C02", "Range checks accept exactly the stated interval",
  "A range check of a signed integer against an exponent e accepts exactly the values in [-2^(e-1)+1, 2^(e-1)], for every integer width and every representable exponent. The asserting form fails exactly when the check does, and re-bounding a value succeeds exactly for values in the range and leaves the value unchanged.",
  ["inputs", "configurations"], "all integer values, all bounds and all exponents the function is defined for, all widths",
  "One unit test probes a handful of exponents on one width; acceptance of proof responses depends on the exact end points for every width.",
  [U + "secret_signed.rs", U + "public_signed.rs"],
  [("in_range_bits, assert_exponent_range, ensure_exponent_range", U + "secret_signed.rs"), ("is_in_exponent_range", U + "public_signed.rs")])
p("C03", "Integer constructors and samplers respect their ranges",
  "Constructing a bounded integer from a word, a residue or another representation gives exactly the represented number (two's complement, non-negative, or centred residue) or is refused when the number does not fit the given bound. Random signed integers drawn for an exponent e lie in [-2^(e-1)+1, 2^(e-1)] (times the scale for scaled draws), every value of the range can occur, and requests for ranges that do not fit the type are refused.",
  ["inputs", "configurations"], "all words, bounds, moduli and scales; all outcomes of the random source; all widths",
  "Tests sample one width and a few seeds; whether the range end points, the sign and the refused cases are right is quantified over all words, bounds and random outcomes.",
  [U + "secret_signed.rs", U + "public_signed.rs", U + "secret_unsigned.rs", "src/params/traits.rs"],
  [("new_from_unsigned, new_positive, new_modulo, zero, one", U + "secret_signed.rs"), ("random_in_exponent_range and the scaled variants", U + "secret_signed.rs"), ("SecretUnsigned::new", U + "secret_unsigned.rs")])
p("C04", "Hash-derived values are in range and cover the range",
  "A value derived from an extendable hash output (a scalar, a signed integer for an exponent, a string of bits, or an invertible residue) is a deterministic function of the output bytes, always lies in the prescribed range and uses enough bytes to reach every value of it. Deriving never fails on any hash output.",
  ["inputs", "configurations"], "all contents of the hash output stream, all parameter sets, all exponents and lengths",
  "No test fixes the hash stream; the properties are about every byte string the hash could give, including those that reduce to zero.",
  ["src/curve/arithmetic.rs", U + "public_signed.rs", U + "traits.rs", "src/tools/bitvec.rs", "src/paillier/params.rs", "src/paillier/rsa.rs"],
  [("Scalar::from_xof_reader", "src/curve/arithmetic.rs"), ("from_xof_reader, from_xof_reader_in_range", U + "traits.rs"), ("BitVec::from_xof_reader", "src/tools/bitvec.rs"), ("invertible residue from a hash", "src/paillier/rsa.rs")])
p("C05", "Serialization round-trips and rejects malformed encodings",
  "Deserializing the serialized form of an integer, scalar, curve point, or bit string gives back an equal value (with the same bound or length). An encoding of the wrong length, out of range (scalar not below the order, magnitude not below the bound, bound not fitting the type, fewer bytes than the bits of a bit string), or that is not the compressed form of a point other than the neutral one is rejected, and never produces a value that violates the type's invariant.",
  ["inputs", "configurations"], "all values of the types and all byte strings presented as encodings",
  "The only existing test round-trips one scalar and point; rejection is quantified over all byte strings.",
  ["src/curve/arithmetic.rs", U + "public_signed.rs", U + "public_uint.rs", "src/tools/bitvec.rs"],
  [("try_from_be_bytes, try_from_compressed_bytes, to_be_bytes, to_compressed_bytes", "src/curve/arithmetic.rs"), ("PackedSigned conversion", U + "public_signed.rs"), ("PublicUint serialization", U + "public_uint.rs"), ("BitVec serialization", "src/tools/bitvec.rs")])
p("C06", "Transcript hashing separates domains and is unambiguous",
  "Two hash transcripts that differ in the domain tag, in any input value, in the division of the inputs into items, or in their order are fed to the hash as different byte strings, while equal transcripts give equal digests. Digests have the length that the parameter set's security level requires.",
  ["inputs", "configurations"], "all sequences of byte strings and serializable values, all splittings, all parameter sets",
  "There is no test of the hasher; injectivity of the encoding is a statement about all pairs of transcripts.",
  ["src/tools/hashing.rs", "src/curve/arithmetic.rs", U + "public_signed.rs"],
  [("Hasher::chain_bytes, chain_serializable, Chain", "src/tools/hashing.rs"), ("HashingSerializer", "src/tools/hashing.rs")])
p("C07", "Scalar and point arithmetic match the group",
  "Scalars form the field of integers modulo the group order and points a group of that order: addition, subtraction, negation, multiplication, inversion, sums, products, generator multiples and additive splitting agree with that for secret and public operands in every operand form. Conversions between scalars and signed integers preserve the value modulo the order (also for negative and double-width integers), and the x coordinate of a point is reduced modulo the order.",
  ["inputs", "configurations"], "all scalars, points and signed integers of every width, all operand forms",
  "Existing tests cover one random round trip; negative and wide conversions are not covered by any stable test.",
  ["src/curve/arithmetic.rs", "src/curve/ecdsa.rs", "src/params/conversion.rs", "src/tools/secret.rs"],
  [("operator impls, invert, split, sum, product", "src/curve/arithmetic.rs"), ("scalar/integer conversions", "src/params/conversion.rs"), ("operators on secret values", "src/tools/secret.rs")])
K = "src/paillier/"
p("C08", "Paillier decryption inverts encryption",
  "For every key pair and every signed plaintext in [-(N-1)/2, (N-1)/2], decrypting an encryption returns the plaintext with its sign, whatever the randomizer. Encryption of any integer (secret or public, single or double width) is (1+N)^m * rho^N modulo N^2, and decrypting any ciphertext gives the centred residue of the encrypted integer modulo N.",
  ["inputs", "configurations"], "all valid keys, plaintexts of both signs and all widths, randomizers",
  "The round-trip test draws one key and one plaintext; sign handling at the edges of the plaintext space and the wide forms are quantified over all plaintexts.",
  [K + "encryption.rs", K + "keys.rs", K + "params.rs"],
  [("Ciphertext::new_*_with_randomizer, decrypt", K + "encryption.rs"), ("key precomputation", K + "keys.rs")])
p("C09", "Recovered and masked randomizers are correct",
  "The randomizer recovered with the secret key from a ciphertext is the residue modulo N with which that ciphertext was encrypted. Masking a randomizer rho with a coefficient r and an exponent e (of either sign) gives rho^e * r modulo N, and randomizers survive conversion to and from their public form.",
  ["inputs"], "all keys, ciphertexts, randomizers, coefficients and exponents of either sign",
  "One test recovers one randomizer; masking with negative exponents is untested.",
  [K + "encryption.rs", K + "keys.rs"],
  [("derive_randomizer", K + "encryption.rs"), ("Randomizer::to_masked, to_wire, to_precomputed", K + "encryption.rs")])
p("C10", "Ciphertext operations act homomorphically on plaintexts",
  "Adding ciphertexts adds the plaintexts modulo N, multiplying a ciphertext by a signed integer (secret or public, single or double width, of either sign) multiplies the plaintext by it, and re-randomizing or adding a public plaintext changes nothing but what it says. Ciphertexts under different keys are never combined: the attempt fails.",
  ["inputs"], "all keys, ciphertexts and signed factors of all widths",
  "Three tests use one random key and one or two plaintexts each.",
  [K + "encryption.rs"],
  [("homomorphic_add, homomorphic_mul and operator impls", K + "encryption.rs")])
p("C11", "Paillier keys are well formed and precomputations are right",
  "A generated secret key is a product of two distinct primes congruent to 3 modulo 4 of the prescribed size. The totient, the inverses, the split into residues modulo the prime factors and their recombination, and the square roots computed with a key are those of its primes for every key; sampled invertible residues are invertible and sampled non-square residues have Jacobi symbol -1.",
  ["inputs", "configurations"], "all keys, all residues, all outcomes of the random source, all parameter sets",
  "Tests generate a single small key and look at three of its accessors.",
  [K + "keys.rs", K + "rsa.rs", "src/params/traits.rs"],
  [("SecretKeyPaillier::random, into_precomputed, rns_split, rns_join, rns_sqrt, random_nonsquare_residue", K + "keys.rs"), ("SecretPrimes, PublicModulus::random_invertible_residue", K + "rsa.rs")])
p("C12", "Signed exponents and ring-Pedersen commitments are correct",
  "Raising a residue to a bounded integer exponent gives g^x modulo m for every signed exponent, negative ones included (for invertible bases), whatever the width of the exponent. A ring-Pedersen commitment to (a, b) is s^a * t^b modulo N for all signed a and b, and generated setup parameters satisfy s = t^lambda for a square t modulo a product of two safe primes.",
  ["inputs", "configurations"], "all moduli, bases, exponents of either sign and any width, all parameter sets",
  "No stable test covers exponentiation with signed exponents or the commitments.",
  [U + "traits.rs", K + "ring_pedersen.rs", "src/tools/secret.rs"],
  [("pow/Exponentiable", U + "traits.rs"), ("RPParams::commit*, RPSecret, RPParams::random", K + "ring_pedersen.rs")])
Z = "src/zk/"


def zk(id, title, rel, checks, files, extra=""):
    p(id, title, f"An honestly generated proof that {rel} is accepted by the verifier for the same statement and auxiliary data. The verifier accepts a presented proof exactly when {checks}; changing the statement, the auxiliary data or the parameters changes the challenge. {extra}".strip(),
      ["inputs", "configurations"], "all statements, witnesses in the stated ranges, auxiliary data, random outcomes, and all (also malicious) proofs presented to the verifier; statements with invertible ciphertexts and non-neutral points",
      "The proof tests (one accepting run each on one random statement) are not among the stable tests here, and tests with one honest proof cannot show that no check is missing, wrong in one sign, or vacuous for malicious proofs.",
      [Z + f for f in files], [("new, verify", Z + f) for f in files], ["result of verifying a deserialized proof"])


zk("C13", "Encryption proof with ElGamal commitment is complete and exact", "a Paillier ciphertext encrypts an integer in range which is also committed to by an ElGamal pair",
   "its challenge is the hash of the whole statement and first message, its integer response is in the prescribed range, and the verification equations of the protocol (Paillier, both group equations, ring-Pedersen) hold", ["enc_elg.rs"])
zk("C14", "Affine-operation proof with group commitment is complete and exact", "a ciphertext was obtained by an affine operation with coefficients in range, one of them committed to in the group and the other encrypted",
   "its challenge is the hash of the whole statement and first message, both integer responses are in their prescribed ranges, and the five verification equations of the protocol hold", ["aff_g.rs"])
zk("C15", "Batched affine-operation proof is complete and exact", "a ciphertext was obtained by an affine operation with coefficients in range, for every round of the batch",
   "it has the prescribed number of rounds, its challenge bits are the hash of the whole statement and all first messages, and in every round both integer responses are in their ranges and the three verification equations for that challenge bit hold", ["aff_g_star.rs"])
zk("C16", "Batched decryption proof is complete and exact", "a combination of ciphertexts decrypts to a value committed to in the group",
   "it has the prescribed number of rounds, its challenge bits are the hash of the whole statement and all first messages, and in every round both integer responses are in their ranges (the second depending on the number of parties) and the three verification equations for that challenge bit hold", ["dec.rs"])
zk("C17", "Discrete-log and ElGamal proofs are complete and exact", "the prover knows a discrete logarithm (Schnorr), or the exponents of an ElGamal pair consistent with a second base",
   "its challenge is the hash of the whole statement and first message and the group equations of the protocol hold", ["elog.rs", "sch.rs"])
zk("C18", "No-small-factor proof is complete and exact", "a Paillier modulus has two factors of about equal size",
   "its challenge is the hash of the whole statement and first message, both integer responses are in the prescribed range, and the three verification equations of the protocol hold", ["fac.rs"])
zk("C19", "Paillier-Blum modulus proof is complete and exact", "a modulus is a product of two primes congruent to 3 modulo 4",
   "the modulus is odd and composite, the commitment is invertible, the challenges are the hash of statement and commitment, there is exactly one response per challenge, and for every challenge y the responses satisfy z^N = y and x^4 = (-1)^a w^b y modulo N", ["mod_.rs"])
zk("C20", "Ring-Pedersen parameter proof is complete and exact", "one ring-Pedersen generator is a power of the other",
   "the numbers of first messages and responses are as prescribed, the challenge bits are the hash of statement and first messages, and t^z = a * s^e modulo N in every round", ["prm.rs"])
S = "src/tools/sss.rs"
p("C21", "Shamir sharing reconstructs exactly and hides below threshold",
  "Splitting a secret with threshold t gives one share per requested party at distinct non-zero points, any t or more of the shares recombine to the secret, both as scalars and in the exponent, and sets of fewer shares do not determine it (the polynomial has degree exactly t-1 with random coefficients). The public polynomial evaluates, at every point, to the generator multiple of the secret polynomial's value.",
  ["inputs", "configurations"], "all secrets, thresholds 1..n, numbers of parties, subsets and evaluation points",
  "The module's test uses a single 2-of-4 example (and is not among the stable tests); the claim is for all subsets and thresholds.",
  [S], [("shamir_evaluation_points, shamir_split, shamir_join_scalars, shamir_join_points, interpolation_coeff", S), ("Polynomial, PublicPolynomial", S)])
p("C22", "Threshold and additive key shares represent the same key",
  "Threshold shares created for a signing key, and additive shares derived from any t of them, correspond to the same verifying key, sum (or interpolate) to the same secret, and carry public shares equal to the generator multiples of the matching secrets and the same for all owners. Converting additive shares to threshold form and back changes neither the key nor the shares.",
  ["inputs", "histories", "configurations"], "all keys, thresholds, party sets, chosen subsets, and sequences of conversions",
  "The conversion test uses one 2-of-3 case and is not compiled in the stable set.",
  ["src/entities/threshold.rs", "src/entities/full.rs"],
  [("ThresholdKeyShare::new_centralized, to_key_share, from_key_share, verifying_key", "src/entities/threshold.rs"), ("KeyShare::verifying_key", "src/entities/full.rs")])
p("C23", "Key-share generation and refresh preserve the key",
  "Centrally generated key shares sum to the signing key, are independent of one another, and all carry the same public shares, which are the generator multiples of the secret ones. Applying a refresh whose changes sum to zero preserves the verifying key, adds each party's change to its secret and public share, and is refused when it belongs to another owner or does not cover exactly the same parties; auxiliary data holds each party's own key material for exactly the requested parties.",
  ["inputs", "histories", "configurations"], "all keys, party sets, changes, and sequences of refreshes",
  "The tests apply one refresh to one example; the claim is for all histories and party sets, including refused changes.",
  ["src/entities/full.rs", "src/entities/internal.rs"],
  [("KeyShare::new_centralized, update, verifying_key", "src/entities/full.rs"), ("AuxInfo::new_centralized, subset", "src/entities/full.rs"), ("KeyShareChange", "src/entities/full.rs")])
p("C24", "Assembled signatures verify, recover the key and are normalized",
  "Assembling a recoverable signature from scalars that satisfy the ECDSA equation for a key and message gives a normalized (low-s) signature that verifies under the key and whose recovery identifier recovers that key. Scalars that are not a signature of the message under the key are never turned into one that verifies or recovers to another key.",
  ["inputs", "configurations"], "all keys, messages, nonces, and pairs of scalars",
  "The existing test signs once at random; the parity and normalization cases are quantified over all nonces.",
  ["src/curve/ecdsa.rs", "src/curve/arithmetic.rs"],
  [("RecoverableSignature::from_scalars", "src/curve/ecdsa.rs")])
p("C25", "Derived key shares match the derived public key",
  "For every non-hardened derivation path, deriving every threshold share gives shares that interpolate to the secret key of the derived verifying key, with matching public shares for all owners, unchanged identities and threshold, and the same result as deriving the verifying key directly. Hardened paths are refused and different paths give different keys.",
  ["inputs", "histories", "configurations"], "all keys, share sets, thresholds and derivation paths",
  "The test derives one path for one 2-of-3 key and is not compiled in the stable set.",
  ["src/curve/bip32.rs", "src/entities/threshold.rs"],
  [("derive_tweaks, apply_tweaks", "src/curve/bip32.rs"), ("derive_bip32", "src/entities/threshold.rs")])
N = "src/protocols/"
p("C26", "Malformed protocol messages never crash the verifying party",
  "Whatever well-typed but malicious values a peer sends in a proof, ciphertext, commitment or public key, processing them ends in acceptance or rejection and never in a panic.",
  ["inputs"], "all deserializable messages, including non-invertible ciphertexts and commitments and even moduli",
  "Tests only send messages of honest or slightly misbehaving peers.",
  [Z + "enc_elg.rs", K + "encryption.rs", K + "rsa.rs"], [("verify functions and wire-to-precomputed conversions", Z)])
p("C27", "Protocol executions end with a common key or a provable culprit",
  "When all parties follow a protocol (key initialization, auxiliary data generation, refresh, resharing, presigning and signing) every party ends with consistent results; when a party deviates, the others identify it and can produce evidence that any third party accepts, and nobody can produce acceptable evidence against an honest party.",
  ["schedules", "fault_sequences", "inputs"], "all message schedules, sets of parties and deviations",
  "Tests run a few honest sessions and a list of hand-written deviations.",
  [N + f for f in ("key_init.rs", "aux_gen.rs", "key_refresh.rs", "key_resharing.rs", "interactive_signing.rs")], [("round implementations and evidence verification", N)])
p("C28", "Secret values do not leak through timing or residual memory",
  "Operations on values marked secret take time independent of the value, secrets are erased when dropped, and debug output does not show them.",
  ["inputs"], "all secret values",
  "Only one test checks that debug output of one key is redacted.",
  ["src/tools/secret.rs", "src/private_benches/secret_is_ct.rs"], [("Secret wrapper, constant-time selection", "src/tools/secret.rs")])

p("C29", "Key and aux generation accept what they must and convict only what they reject",
  "In key initialization and auxiliary data generation, for every number of parties and every message of a participant: a message is accepted exactly if it has the parts of its round, opens the sender's commitment and its proofs and sizes pass; an honest party's messages are accepted; a message that is rejected is convicted by the evidence assembled from it, an accepted message by none; commitments bind the session, the sender and all committed data; and the result consists of the party's own secret and of the accepted public data of every party under its name.",
  ["inputs", "histories"], "all messages, numbers of parties, earlier messages and views of the other parties",
  "Tests run one honest session and a handful of hand-written deviations with three parties.",
  [N + f for f in ("key_init.rs", "aux_gen.rs")], [("receive_message, finalize and make_* of the rounds, verification of evidence", N + "key_init.rs"), ("the same", N + "aux_gen.rs")])
p("C30", "Signing is correct, accepts what it must, convicts only what it rejects",
  "In interactive signing, rounds 1 to 4, for every number of parties, message to sign and message of a participant: a message is accepted exactly if it has the parts of its round, names the right parties and its proofs pass for the values of that sender; a message that is rejected is convicted by the evidence assembled from it, an accepted message by none; nothing a participant sends makes a receiver panic or fail with a local error. The presigning data and the signature shares are computed only from a nonce that is consistent with the published values and the key, and the result is only ever a signature of the message under the key of the shares.",
  ["inputs", "histories"], "all messages, numbers of parties, earlier messages and views of the other parties; rounds 5 and 6 (only entered after a failure) are not covered",
  "Tests run one honest session and a handful of hand-written deviations with three parties.",
  [N + "interactive_signing.rs", "src/entities/full.rs"], [("receive_message, finalize of rounds 1-4, verification of evidence", N + "interactive_signing.rs")])
p("C31", "Refresh changes shares only as committed and blames only what it rejects",
  "In key refresh, for every number of parties and every message of a participant: a message is accepted exactly if it has the parts of its round, opens the sender's commitment, names exactly the participants, the sender's share changes add up to nothing, the change it reveals to the receiver matches the committed one, and its proofs and sizes pass; a message that is rejected is convicted by the evidence assembled from it, an accepted message by none; nothing a participant sends makes a receiver panic or fail with a local error; commitments bind the session, the sender and all committed data. The result is the sum of the accepted changes, secret and public, for every party, together with this party's secret key and everyone's accepted public data.",
  ["inputs", "histories"], "all messages, numbers of parties, earlier messages and views of the other parties",
  "Tests run one honest session and a handful of hand-written deviations with three parties.",
  [N + "key_refresh.rs"], [("receive_message, finalize, verification of evidence", N + "key_refresh.rs")])
p("C32", "Resharing and refresh keep the key, and the new shares can sign",
  "A full life of a key - generation, auxiliary data, signing, refresh, signing, resharing to a new set of holders, signing - ends every phase, for honest parties, with results on which all agree: the verifying key never changes, shares match their public counterparts, and every signature verifies under the key.",
  ["histories", "configurations"], "sets of parties and thresholds; random keys and messages (bounded)",
  "Each protocol is tested alone with three parties; no test continues with the results of an earlier protocol.",
  [N + f for f in ("key_resharing.rs", "key_refresh.rs", "interactive_signing.rs")], [("all rounds of all protocols", N)])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
