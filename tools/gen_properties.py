#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

# ---------------------------------------------------------------- fields
prop("C01", "BN254 prime-field arithmetic is exact modulo the field order",
  "For both BN254 prime fields, addition, subtraction, multiplication, negation, doubling, squaring, inversion, division, exponentiation and powers of two return exactly the result in the integers modulo the field order, always in canonical reduced form (equal values compare equal and encode identically). Owned, by-reference and assigning forms of every operator agree. Inversion fails exactly on zero, and zero/one/equality/zero-test behave as the field identities.",
  ["inputs"], "every pair of field elements, including values whose limbs or Montgomery limbs sit on word or modulus boundaries, and every 64-bit exponent",
  "Existing tests draw a few uniformly random elements and check algebraic laws; carry and final-reduction boundaries have probability ~2^-60 under uniform sampling, and the by-reference forms are not compared with anything.",
  ["zkstd/src/arithmetic/limbs/bits_256/normal.rs","zkstd/src/macros/field.rs","zkstd/src/macros/field/group.rs","bn254/src/fq.rs","bn254/src/fr.rs"],
  [("carry chains and Montgomery reduction","zkstd/src/arithmetic/limbs/bits_256/normal.rs"),("operator forms","zkstd/src/macros/field/group.rs")])
prop("C02", "Field encodings are canonical, injective and reject out-of-range input",
  "For both BN254 prime fields, the byte encoding is the 32-byte little-endian canonical integer; decoding accepts exactly the encodings of integers below the field order and returns that element, and rejects everything else. Wide (64-byte) reduction, integer conversion, conversion between the two fields and hash-to-field equal the integer reduced modulo the order; binary and non-adjacent-form digit expansions and the hexadecimal rendering denote exactly the element's canonical integer. Structured (SCALE and serde) encodings round-trip.",
  ["inputs"], "every 32-byte and 64-byte string, every field element",
  "Tests round-trip a handful of random elements; they do not try non-canonical encodings or the boundary p-1, p, p+1, 2^256-1.",
  ["bn254/src/fq.rs","bn254/src/fr.rs","zkstd/src/arithmetic/limbs/bits_256/represent.rs","zkstd/src/arithmetic/limbs/bits_256/normal.rs","zkstd/src/macros/field.rs"],
  [("canonicity check in byte decoding","bn254/src/fr.rs"),("wide reduction","zkstd/src/arithmetic/limbs/bits_256/represent.rs"),("bit / NAF expansion","zkstd/src/arithmetic/limbs/bits_256/normal.rs")])
prop("C03", "Square roots exist exactly for squares and are correct",
  "For both BN254 prime fields and the quadratic extension of the base field, taking a square root returns a value whose square is the input whenever the input is a square (zero included), and returns nothing otherwise. For every non-zero base-field or quadratic-extension element exactly one of the element and its negation is reported as lexicographically largest, and the report matches the ordering of canonical integers (most significant extension coordinate first).",
  ["inputs"], "all field elements: squares, non-squares, zero, elements of the subfield and of the purely imaginary line, roots of unity of every 2-power order",
  "Tests sample squares of random elements; subfield elements, zero, and elements of small 2-power order take different branches and are never sampled.",
  ["bn254/src/fq.rs","bn254/src/fr.rs","bn254/src/fqn.rs"],
  [("square-root algorithms","bn254/src/fr.rs"),("quadratic extension square root","bn254/src/fqn.rs")])
prop("C04", "The ff-compatibility interface obeys the ff contract",
  "Through the generic field interface, representation decoding accepts exactly canonical encodings, representation round-trips, parity matches the canonical integer, inversion of zero yields none, square roots and square-root-of-ratio terminate and follow their contract. The published constants (bit length, capacity, 2-adicity, multiplicative generator, root of unity and its inverse, 1/2, delta) satisfy the defining relations.",
  ["inputs"], "all field elements and all 32-byte strings, for both fields",
  "No test calls this interface with non-canonical, zero or non-square input; the constants are not checked against their definitions.",
  ["bn254/src/ff_compat.rs"],
  [("ff::Field / ff::PrimeField implementations","bn254/src/ff_compat.rs")])
prop("C05", "Extension-field tower arithmetic matches the quotient-ring definition",
  "In the degree 2, 6 and 12 extensions, addition, subtraction, multiplication, squaring, negation, conjugation, inversion, division and multiplication by the non-residue agree with arithmetic in the defining polynomial quotient rings over the base field. Inversion fails exactly on zero, the Frobenius map of any power equals raising to that power of the characteristic, sparse-operand multiplications equal the full multiplication by the embedded sparse element, and owned, by-reference and assigning operator forms agree.",
  ["inputs"], "all extension elements, including those with zero, one or repeated coordinates and those in proper subfields",
  "Tests check ring laws on uniformly random elements only, never by-reference operators, sparse/degenerate coordinates or Frobenius powers.",
  ["bn254/src/fqn.rs","zkstd/src/macros/extension_field.rs","zkstd/src/macros/extension_field/group.rs","bn254/src/params.rs"],
  [("Karatsuba / complex formulas","bn254/src/fqn.rs"),("operator forms","zkstd/src/macros/extension_field/group.rs"),("Frobenius coefficients","bn254/src/params.rs")])
# ---------------------------------------------------------------- curves
prop("C06", "Elliptic-curve group law is complete on G1, G2 and Grumpkin",
  "For every pair of curve points in any representation (affine, projective, arbitrary projective scaling, identity), addition, subtraction, negation and doubling in every owned, by-reference, assigning and mixed form return the point given by the chord-and-tangent group law. Equal points, opposite points and the identity are handled; results are on the curve; equality of points is equality of the represented group elements, and results convert to the same affine point whichever representation was used.",
  ["inputs"], "all ordered pairs of points and representations including P+P, P+(-P), identity operands and projective rescalings",
  "Tests use random distinct points; exceptional pairs have negligible probability and most operator forms (mixed, by-reference, subtracting) are never executed.",
  ["zkstd/src/arithmetic/points/weierstrass.rs","zkstd/src/macros/curve.rs","zkstd/src/macros/curve/weierstrass/group.rs","bn254/src/g1.rs","bn254/src/g2.rs","grumpkin/src/curve.rs"],
  [("addition / doubling formulas","zkstd/src/arithmetic/points/weierstrass.rs"),("mixed operators","zkstd/src/macros/curve.rs")])
prop("C07", "Scalar multiplication and point conversions respect the group structure",
  "On G1, G2 and Grumpkin, multiplying a point by any scalar equals repeated addition (computed by an independent reference), is additive and multiplicative in the scalar, and is the identity for scalar zero or identity point; every operator form agrees. Affine/projective conversion, batch normalisation, raw-byte and structured encodings round-trip every point including the identity. Curve-membership tests accept exactly points satisfying the curve equation and subgroup tests accept exactly points of the prime-order subgroup; random points are valid subgroup points.",
  ["inputs"], "all points (incl. identity, arbitrary projective scaling, points off the curve, on-curve points outside the subgroup) and all scalars incl. 0, 1, -1 and sparse/dense patterns",
  "Tests multiply a few random points; boundary scalars, identity operands, batches containing identities and non-subgroup points are not sampled.",
  ["zkstd/src/arithmetic/points/weierstrass.rs","zkstd/src/macros/curve/weierstrass.rs","zkstd/src/macros/curve/weierstrass/group.rs","bn254/src/g1.rs","bn254/src/g2.rs","grumpkin/src/curve.rs"],
  [("double-and-add","zkstd/src/arithmetic/points/weierstrass.rs"),("batch inversion","bn254/src/g1.rs"),("subgroup check","bn254/src/g2.rs")])
prop("C08", "Generic field and curve macros are correct for user-supplied parameters",
  "A prime field instantiated from the library with any supported modulus (four-limb or six-limb) computes exact modular arithmetic and canonical conversions. A twisted Edwards curve (Jubjub) instantiated from the library computes the complete Edwards group law, scalar multiplication, membership test and representation conversion in every operator form.",
  ["inputs","configurations"], "all elements of several instantiated 4-limb and 6-limb prime fields (incl. BLS12-381 base and scalar, Jubjub scalar, 2^255-19, other primes below 2^255 for four and 2^383 for six limbs, the widest the limb code supports), all Jubjub points in any extended scaling and all scalars",
  "Tests instantiate one curve and check a few random points; six-limb arithmetic is only spot-checked on fixed vectors.",
  ["zkstd/src/arithmetic/limbs/bits_384/normal.rs","zkstd/src/arithmetic/limbs/bits_256/normal.rs","zkstd/src/arithmetic/points/edwards.rs","zkstd/src/macros/curve/edwards/group.rs","zkstd/src/macros/field.rs"],
  [("384-bit limbs","zkstd/src/arithmetic/limbs/bits_384/normal.rs"),("Edwards formulas","zkstd/src/arithmetic/points/edwards.rs")])
prop("C09", "The pairing is bilinear, non-degenerate and handles identities",
  "For all G1 and G2 points P, Q and scalars a, b the pairing satisfies e(aP, bQ) = e(P, Q)^(ab) and is additive in each argument; it is one exactly when an argument is the identity, and its values have the subgroup order. A product of pairings computed jointly over any list of pairs equals the product of the individual pairings, whatever the order and whichever entries are identities. The target-group operations (add, subtract, negate, double, scalar multiple) are the group operations of the order-r subgroup.",
  ["inputs"], "all point pairs, scalars, and lists of pairs of length 0..n with identities interleaved",
  "Tests evaluate a few random pairings; identity arguments inside a multi-pairing and boundary scalars are not covered, and nothing is compared with an independent pairing.",
  ["bn254/src/pairing.rs","bn254/src/gt.rs","bn254/src/g2.rs","bn254/src/fqn.rs"],
  [("Miller loop and final exponentiation","bn254/src/pairing.rs"),("line coefficients","bn254/src/g2.rs"),("target group","bn254/src/gt.rs")])
# ---------------------------------------------------------------- r1cs
prop("C10", "R1CS satisfaction and linear algebra are exact",
  "A constraint system reports satisfied if and only if every recorded constraint holds for its assignment: product gates, addition, subtraction and equality gates mean exactly that relation between the given linear combinations. Linear combinations form a vector space (sum, difference, negation, scaling evaluate pointwise; zero terms vanish; constant detection is right), dense vector operations are elementwise, and the column view, row evaluation, matrix-vector product and structured encoding all describe the same three matrices.",
  ["inputs","programs"], "all constraint systems built from random gates over random sparse linear combinations of instance and witness wires with matching indices, with satisfying and violating assignments",
  "Tests use one fixed cubic example circuit with three parameters.",
  ["zkstd/src/r1cs.rs","zkstd/src/r1cs/wire.rs","zkstd/src/matrix.rs","zkstd/src/matrix/row.rs","zkstd/src/matrix/vector.rs"],
  [("satisfaction check","zkstd/src/r1cs.rs"),("sparse rows","zkstd/src/matrix/row.rs")])
prop("C11", "Circuit gadgets compute the intended values (completeness)",
  "For every input, the in-circuit field, boolean, comparison, selection, bit-decomposition, range-check and equality gadgets yield assignments whose values equal the native computation, and the resulting constraint system is satisfied exactly when the asserted relation is true of the inputs (equality, range, conditional equality). The number and layout of constraints do not depend on the witness values.",
  ["inputs","programs"], "random gadget programs over random and boundary inputs (0, 1, -1, equal operands, bounds at powers of two and at order-1, all bit lengths)",
  "Tests exercise each gadget with one or a few random values and one fixed violating value.",
  ["zkstd/src/circuit/gadget/field.rs","zkstd/src/circuit/gadget/binary.rs"],
  [("field gadgets","zkstd/src/circuit/gadget/field.rs"),("boolean gadgets","zkstd/src/circuit/gadget/binary.rs")])
prop("C12", "Circuit gadgets are sound: no wrong output satisfies the constraints",
  "Whatever values a dishonest prover assigns to the witness wires a gadget allocates, if the constraint system is satisfied and the gadget's boolean inputs are bits, then the gadget's output equals the function of its inputs: products and sums, negation and conjunction of bits, equality and inequality flags, selection, bit decomposition, range checks and conditional equality.",
  ["inputs","programs"], "all gadget programs and all assignments to their internal wires, searched by targeted mutation, constraint-respecting re-solving and exhaustive flag flipping",
  "Tests only evaluate the honest assignment (or a wrong public value), never a dishonest assignment to internal wires.",
  ["zkstd/src/circuit/gadget/field.rs","zkstd/src/circuit/gadget/binary.rs"],
  [("constraints emitted by each gadget","zkstd/src/circuit/gadget/field.rs")])
prop("C13", "In-circuit point arithmetic matches the native curve and is sound",
  "For every pair of points (identity, equal and opposite points included) and every scalar, in-circuit addition, doubling, scalar multiplication, selection and normalisation give the native group result, and the equality assertion against a public point is satisfied exactly when the points are equal. No altered assignment of the internal wires satisfies the constraints with a different resulting point.",
  ["inputs"], "all point pairs and scalars on both cycle curves, with boundary scalars and exceptional point pairs; dishonest assignments by mutation",
  "Tests use random distinct points and random scalars, one identity case, and never a wrong expected point.",
  ["zkstd/src/circuit/gadget/curve.rs"],
  [("complete addition formulas","zkstd/src/circuit/gadget/curve.rs"),("normalisation","zkstd/src/circuit/gadget/curve.rs")])
# ---------------------------------------------------------------- groth16
prop("C14", "FFT and polynomial operations agree with their definitions",
  "For every supported domain size and every vector, the forward transform equals evaluation at all powers of the domain's root of unity, the inverse undoes it, and the coset variants evaluate on the shifted domain and undo each other. Polynomial addition, subtraction, multiplication, scaling, evaluation, division by a linear factor, vanishing-polynomial evaluation and Lagrange evaluation agree with the schoolbook definition for operands of any (also different or zero) degree.",
  ["inputs"], "all vectors of length 0..2^k for k up to 10 quick / 14 thorough, incl. zero, constant, trailing-zero and full-length vectors and different-degree operand pairs",
  "Tests check a round trip and one product at a fixed size with random full-length vectors.",
  ["groth16/src/fft.rs","groth16/src/poly.rs"],
  [("butterfly network and twiddles","groth16/src/fft.rs"),("polynomial operators","groth16/src/poly.rs")], hook="re-export of the crate-private FFT/polynomial types")
prop("C15", "Multi-scalar multiplication equals the sum of scalar multiples",
  "For any lists of points and scalars, the multi-scalar multiplication used by the prover and the Pedersen commitment return the sum of the individual scalar multiples, for every length (also 0 and 1), with identity points, repeated points, opposite points, and zero, small, or maximal scalars. The commitment is additively homomorphic in the message.",
  ["inputs"], "all lists up to a few hundred entries over G1, G2 and Grumpkin with adversarial scalars and points",
  "Tests use one length with random points; window boundaries, length-dependent window choice and exceptional additions in buckets are not sampled.",
  ["groth16/src/msm.rs","nova/src/pedersen.rs"],
  [("bucket method","groth16/src/msm.rs"),("Pedersen commitment","nova/src/pedersen.rs")], hook="re-export of the crate-private MSM and commitment functions")
prop("C16", "Groth16 accepts every honestly generated proof (completeness)",
  "For every circuit (any number of constraints, public inputs and witnesses, any linear combinations, any wire occurrence pattern, unused inputs) and every satisfying assignment, setup succeeds, proving succeeds, and verification with the matching public inputs accepts, for any randomness.",
  ["programs","inputs"], "random satisfiable circuits with 1..n constraints (all residues modulo powers of two), 0..k public inputs, random witnesses, random toxic waste and blinding",
  "Tests run one fixed circuit with four constraints and two public inputs.",
  ["groth16/src/zksnark.rs","groth16/src/prover.rs","groth16/src/verifier.rs","groth16/src/fft.rs","groth16/src/msm.rs"],
  [("key generation","groth16/src/zksnark.rs"),("quotient polynomial and proof assembly","groth16/src/prover.rs"),("pairing equation","groth16/src/verifier.rs")])
prop("C17", "Groth16 rejects wrong inputs, altered proofs and unsatisfied witnesses",
  "Verification rejects (false or an error, never acceptance) any public-input vector different from the proved one that is not also satisfied, any vector of the wrong length, any proof with an element replaced, negated, swapped or reused from another statement or another key, and any proof produced from an assignment violating at least one constraint. A proof accepted under a key is accepted exactly when the verification equation, recomputed independently from the published key, holds.",
  ["inputs","programs","fault_sequences"], "random circuits and proofs with single and combined mutations of inputs, proof elements, keys and witnesses",
  "Tests check one wrong public input on one circuit.",
  ["groth16/src/verifier.rs","groth16/src/prover.rs","groth16/src/zksnark.rs","groth16/src/proof.rs"],
  [("verification equation and input-length check","groth16/src/verifier.rs")], hook="construction of proofs from chosen elements")
prop("C18", "Groth16 keys encode the circuit's QAP at consistent secrets",
  "For every circuit, the generated proving and verification keys are mutually consistent: each per-wire key element equals, under the pairing with the published group elements, the wire's A, B and C polynomials at one common secret point, the input and auxiliary query elements carry the right combination divided by the right secret, and the powers-of-secret elements divided by the last secret carry the vanishing polynomial. The five secrets are non-zero, distinct, and fresh for every setup.",
  ["programs","configurations"], "random circuits, keys generated with random secrets",
  "Tests never look at the keys; an inconsistent element for an unused or single wire would go unnoticed.",
  ["groth16/src/zksnark.rs","groth16/src/params.rs","groth16/src/fft.rs"],
  [("key generation","groth16/src/zksnark.rs")])
prop("C26", "Groth16 proofs are blinded by fresh independent randomness",
  "For every circuit and satisfying assignment, two proofs of the same statement made with different randomness (different seeds, or one random source used twice) differ in all three elements; no element A or B equals the unblinded value computable from the key and the assignment; and the blinding of A is unrelated to the blinding of B (neither equal nor opposite, within a proof or between proofs).",
  ["programs","inputs"], "random circuits and assignments, all random sources",
  "Tests create one proof and only look at acceptance; an unblinded proof is accepted just as well.",
  ["groth16/src/prover.rs"],
  [("choice and use of the blinding factors r and s","groth16/src/prover.rs")])
# ---------------------------------------------------------------- nova
prop("C19", "Random oracle: native and in-circuit hashing agree and bind every input",
  "For every absorbed sequence of scalars and points (identity included) and every output length, the native hash, the in-circuit hash and an independent implementation of the specified cipher give the same value; the output is the requested number of low bits of the sponge state; conversions between the two fields map an element to the residue of its integer in the target field. Changing, dropping, appending or reordering any absorbed element changes the output (for outputs of at least 96 bits).",
  ["inputs","histories"], "all absorb sequences up to a few dozen elements over both cycle curves, output lengths 1..254",
  "Tests hash one random sequence at one length.",
  ["nova/src/hash.rs","nova/src/hash/helper.rs","nova/src/circuit/transcript.rs","nova/src/gadget/mimc.rs","nova/src/driver.rs"],
  [("MiMC sponge","nova/src/hash.rs"),("in-circuit sponge","nova/src/circuit/transcript.rs")], hook="wrappers around the crate-private hash types")
prop("C20", "Non-native integer gadgets compute exact modular arithmetic",
  "For all naturals of up to four 64-bit limbs, in-circuit non-native multiplication modulo m, addition, reduction modulo m (m of full width, as for the two field orders), limb decomposition and recomposition, selection and equality give the exact integer result with a satisfied system, and a system with any altered quotient, remainder, carry or limb assignment is unsatisfied unless the result it denotes is the same residue modulo m.",
  ["inputs"], "all operand triples incl. zero, one, m-1, m, maximal limbs, and products whose carries are maximal; dishonest assignments by mutation",
  "Tests use a few fixed or random operands and never a dishonest assignment.",
  ["nova/src/gadget/big_nat.rs"],
  [("limb polynomials and carry equality","nova/src/gadget/big_nat.rs")], hook="wrappers around the crate-private gadget")
prop("C21", "Folding is complete and prover and verifier agree",
  "For every circuit shape, every satisfying relaxed instance-witness pair and every satisfying plain pair, folding yields a pair that satisfies the relaxed relation with openings matching its commitments; the verifier, given only the instances and the cross-term commitment, computes the identical folded instance. Any sequence of foldings preserves this, and the in-circuit folding verifier computes the same folded instance as the native one.",
  ["histories","programs","inputs"], "random circuits, folding histories of any length, identity commitments and zero cross terms included",
  "Tests fold one fixed cubic circuit, at most ten times, always from the same running instance.",
  ["nova/src/prover.rs","nova/src/verifier.rs","nova/src/relaxed_r1cs.rs","nova/src/relaxed_r1cs/instance.rs","nova/src/relaxed_r1cs/witness.rs","nova/src/circuit/nifs.rs"],
  [("cross term and fold","nova/src/prover.rs"),("verifier fold","nova/src/verifier.rs"),("in-circuit fold","nova/src/circuit/nifs.rs")], hook="wrappers around crate-private instance and witness types")
prop("C22", "Folding is sound: unsatisfied or mismatched claims never fold to a valid pair",
  "The plain and relaxed satisfaction predicates hold exactly when every row satisfies its equation (and, for the plain form, the commitment opens to the witness). Folding in an instance whose witness violates a constraint, or with a cross-term commitment, challenge or instance different from the honest one, gives a pair that does not satisfy the relaxed relation with matching commitments.",
  ["inputs","histories","fault_sequences"], "random circuits with single or multiple violated rows, altered public inputs, scalars, error vectors, commitments and cross terms",
  "Tests contain no negative folding case.",
  ["nova/src/relaxed_r1cs.rs","nova/src/prover.rs","nova/src/verifier.rs","nova/src/relaxed_r1cs/instance.rs"],
  [("relaxed satisfaction","nova/src/relaxed_r1cs.rs"),("challenge derivation","nova/src/verifier.rs")], hook="wrappers around crate-private instance and witness types")
prop("C23", "Recursive proofs verify and carry the correct state after any number of steps",
  "For any step functions, any initial states and any number of steps, the proof returned after each step verifies under the public parameters, its counter equals the number of steps performed, and its claimed states equal the step function iterated that many times on the initial states. Proofs of earlier steps stay valid, and the shape of the step circuit is the same for every step and every input.",
  ["histories","inputs","programs"], "random step functions (polynomials with constants, also trivial ones), initial states incl. 0, 1, -1, histories of several steps",
  "The test runs one function from one initial state.",
  ["nova/src/ivc.rs","nova/src/proof.rs","nova/src/circuit/augmented.rs","nova/src/circuit/nifs.rs"],
  [("recursion driver","nova/src/ivc.rs"),("augmented circuit","nova/src/circuit/augmented.rs")])
prop("C24", "Recursive proof verification rejects any altered claim or witness",
  "Verification returns false, without crashing, for a proof in which the step counter, any initial or current state, any commitment, scalar, public input, witness or error entry of any contained pair differs from the honest proof, for parts mixed from different proofs, and for a proof checked under other parameters. In particular an accepted proof's relaxed pairs open their commitments.",
  ["inputs","fault_sequences","histories"], "valid proofs of random step counts with every field mutated singly and in combination, including compensated mutations that keep the algebraic relation",
  "The test never checks a modified proof.",
  ["nova/src/proof.rs","nova/src/relaxed_r1cs.rs","nova/src/relaxed_r1cs/instance.rs"],
  [("hash checks and satisfaction checks","nova/src/proof.rs")])
prop("C25", "Proof-system objects survive structured encoding unchanged",
  "Encoding then decoding any recursion public parameters, circuit shape, recursive proof, commitment key, matrix, field element or curve point yields an equal object that behaves identically (a decoded proof verifies under decoded parameters), consumes exactly the encoded bytes, and truncated encodings are rejected without crashing.",
  ["inputs","fault_sequences"], "random circuits' shapes, keys and proofs; every truncation point sampled",
  "Tests encode only field elements and points.",
  ["nova/src/proof.rs","nova/src/ivc.rs","nova/src/relaxed_r1cs.rs","nova/src/relaxed_r1cs/instance.rs","nova/src/relaxed_r1cs/witness.rs","nova/src/pedersen.rs","zkstd/src/matrix.rs","zkstd/src/matrix/row.rs","zkstd/src/matrix/vector.rs","zkstd/src/r1cs/wire.rs","bn254/src/g2.rs"],
  [("derived codecs","nova/src/proof.rs")])
prop("C27", "The step circuit admits only the honest transition",
  "For every assignment that satisfies the recursion's step circuit, the public outputs are determined by the step's inputs: the first equals the second public input of the incoming plain instance, and the second is the hash of the next counter, the initial state, the step function of the current state and the next running instance. At counter zero the current state is the initial state and the next running instance is the base one (the empty instance in the primary circuit, the incoming instance with scalar one and no error in the secondary); at any other counter the incoming instance must carry the hash of counter, states and running instance, and the next running instance is the fold of the two by the transcript challenge. No dishonest assignment of the circuit's other wires yields other outputs.",
  ["inputs","fault_sequences"], "both circuits, counters zero and not zero, random states, running and incoming instances (identities and limits included) and cross-term commitments; dishonest assignments by solver-guided mutation",
  "Tests build one satisfied circuit of the base case and never a dishonest assignment.",
  ["nova/src/circuit/augmented.rs","nova/src/circuit/nifs.rs","nova/src/gadget/relaxed_instance.rs","nova/src/gadget/instance.rs"],
  [("step circuit","nova/src/circuit/augmented.rs"),("in-circuit fold","nova/src/circuit/nifs.rs"),("selection and hashing of instances","nova/src/gadget/relaxed_instance.rs")], hook="access to the crate-private step circuit and folding gadget")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
