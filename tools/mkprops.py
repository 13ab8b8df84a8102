#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept in step with the checks)."""
import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe=(),hook=None,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qt),why_tests_cant=why,
      anchors=dict(files=list(files),state=list(state),
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))
Z='zkstd/src/'
p('P01','Field addition, subtraction, negation and doubling are exact and canonical',
 'For every pair of canonical elements of a prime field, addition, subtraction, negation and doubling return the canonical (reduced, below the modulus) representative of the mathematically correct residue. This holds for both BN254 fields and for the exported 256-bit and 384-bit limb arithmetic with the moduli the toolkit is used with.',
 ['inputs'],'all pairs of canonical elements of Fq and Fr (and of the Jubjub / BLS12-381 limb instances)',
 'Tests draw a few random elements; carry/borrow boundary cases (operands whose sum is exactly p, p-1, limbs of all ones) have negligible probability of being drawn.',
 [Z+'arithmetic/limbs/bits_256/normal.rs',Z+'arithmetic/limbs/bits_384/normal.rs',Z+'macros/field/group.rs','bn254/src/fq.rs','bn254/src/fr.rs'],
 [('limb add/sub/neg/double with conditional correction by p',Z+'arithmetic/limbs/bits_256/normal.rs'),('384-bit analogue',Z+'arithmetic/limbs/bits_384/normal.rs')])
p('P02','Field multiplication, squaring and Montgomery conversion are exact and canonical',
 'For every pair of canonical elements, multiplication and squaring return the canonical representative of the correct product, and conversion into and out of the internal representation are exact inverses. This holds for both BN254 fields and for the exported 256-bit and 384-bit limb arithmetic.',
 ['inputs'],'all pairs of canonical elements of Fq, Fr and the 256/384-bit limb instances',
 'A dropped carry in a 4x4-limb product or in the reduction shows only for operand pairs of probability about 2^-64; random tests cannot reach them.',
 [Z+'arithmetic/limbs/bits_256/normal.rs',Z+'arithmetic/limbs/bits_384/normal.rs',Z+'arithmetic/limbs/bits_256/represent.rs','bn254/src/fq.rs','bn254/src/fr.rs'],
 [('schoolbook product + Montgomery reduction','zkstd/src/arithmetic/limbs/bits_256/normal.rs: mul, square, mont'),('constants R, R2, INV','bn254/src/fq.rs, bn254/src/fr.rs')])
p('P03','Field byte encodings round-trip and reject every non-canonical string',
 'Encoding any field element to its 32-byte little-endian form and decoding it gives the same element, the bytes are the canonical integer value of the element, and decoding accepts a 32-byte string exactly when its integer value is below the modulus. This holds for every byte codec a field type offers.',
 ['inputs'],'all field elements and all 32-byte strings',
 'Tests round-trip random elements; strings in [p, 2^256) close to the modulus and per-limb borrow boundaries are never sampled.',
 ['bn254/src/fq.rs','bn254/src/fr.rs','bn254/src/ff_compat.rs',Z+'macros/field.rs'],
 [('from_bytes borrow test against the modulus','bn254/src/fq.rs, bn254/src/fr.rs'),('repr codec','bn254/src/ff_compat.rs')])
p('P04','Every operator form of a field type computes the same operation',
 'For every pair of field elements, the by-value, by-reference, mixed and assigning forms of addition, subtraction, multiplication, negation and division agree with each other, and the neutral elements behave as neutral elements. No form diverges or panics on defined inputs.',
 ['inputs'],'all pairs of elements of Fq and Fr; all operator impls exposed by the field types',
 'Each form is a separate macro-generated body; most are never called by any test.',
 [Z+'macros/field/group.rs',Z+'macros/field/ring.rs',Z+'macros/field.rs','bn254/src/fr.rs','bn254/src/ff_compat.rs'],
 [('macro-generated operator impls',Z+'macros/field/group.rs')])
p('P05','Field equality and ordering are consistent with the element',
 'Equality on field elements holds exactly when they represent the same residue, and the comparison operators and the three-way comparison form one total order that agrees with equality. Zero and parity tests agree with the value.',
 ['inputs'],'all pairs of canonical elements of Fq and Fr',
 'Ordering is decided at the first differing limb; tests use random elements, which always differ in the top limb.',
 [Z+'macros/field/ring.rs',Z+'macros/field/group.rs',Z+'macros/field.rs','bn254/src/fr.rs'],
 [('limb-wise comparison, most significant first',Z+'macros/field/ring.rs')])
p('P06','Integer-to-field conversions and wide reductions are exact',
 'Building a field element from a 64-bit integer, from 64 uniformly random bytes or from a 64-byte hash gives the canonical residue of the integer those bytes denote, and converting between the two BN254 fields preserves the integer value modulo the target modulus.',
 ['inputs'],'all 64-bit integers, all 64-byte strings, all elements of either field',
 'Only random wide values are sampled; the operands of these conversions are deliberately not canonical, so they are exactly where reduction bounds could be exceeded.',
 [Z+'arithmetic/limbs/bits_256/represent.rs',Z+'macros/field.rs','bn254/src/fq.rs','bn254/src/fr.rs'],
 [('from_u512 / to_mont_form',Z+'arithmetic/limbs/bits_256/represent.rs')])
p('P07','Bit and signed-digit expansions reconstruct the value',
 'For every field element, the binary expansion has its fixed length and sums to the canonical integer value, and the non-adjacent form uses digits -1, 0, 1 with no two adjacent nonzero digits and sums to the same value.',
 ['inputs'],'all canonical elements (all 256-bit values below the modulus)',
 'Carry chains across the whole scalar and the topmost digit occur for special scalars only; tests sample random scalars.',
 [Z+'arithmetic/limbs/bits_256/represent.rs',Z+'arithmetic/limbs/bits_384/represent.rs',Z+'arithmetic/utils.rs'],
 [('to_bits / to_nafs',Z+'arithmetic/limbs/bits_256/represent.rs')])
p('P08','Inversion, division, powers and square roots are correct',
 'Inversion of every nonzero field element returns its multiplicative inverse and reports failure on zero; exponentiation computes the mathematically defined power for every exponent; a reported square root squares to the input. Division agrees with multiplication by the inverse.',
 ['inputs'],'all field elements; all exponents of the exponentiation API',
 'The exponent chains are data: one wrong exponent bit or a wrong zero/identity special case is only visible on particular exponents or at zero.',
 [Z+'arithmetic/limbs/bits_256/normal.rs',Z+'macros/field/group.rs',Z+'macros/field.rs','bn254/src/fq.rs','bn254/src/fr.rs','bn254/src/ff_compat.rs'],
 [('Fermat inversion, square-and-multiply',Z+'arithmetic/limbs/bits_256/normal.rs: invert, pow'),('sqrt exponents','bn254/src/fq.rs, bn254/src/fr.rs')])
p('P09','Scalar multiplication computes the scalar multiple',
 'For every point and every scalar, multiplying the point by the scalar gives the sum of that many copies of the point, including scalar zero, scalar minus one and the identity point. Every multiplication entry point (affine, projective, scalar on either side) gives the same point.',
 ['inputs'],'all scalars of Fr (all signed-digit expansions) and all points of G1, G2, Grumpkin, Edwards curves',
 'Scalars with extreme digit patterns are never drawn by random tests.',
 [Z+'arithmetic/points/weierstrass.rs',Z+'arithmetic/points/edwards.rs',Z+'macros/curve/weierstrass/group.rs','bn254/src/g1.rs','bn254/src/g2.rs','grumpkin/src/curve.rs'],
 [('double-and-add over the non-adjacent form',Z+'arithmetic/points/weierstrass.rs: scalar_point')])
p('P10','Weierstrass point addition and doubling implement the group law',
 'For all pairs of curve points, in every combination of affine and projective form, addition and doubling return the point prescribed by the chord-and-tangent group law, and the result is on the curve. This includes the identity on either side, equal points, opposite points, and different projective representatives of the same point.',
 ['inputs'],'all pairs of points (all coordinates satisfying the curve equation, all nonzero projective scalings) of G1, G2 and Grumpkin',
 'Random points never collide, so equal/opposite/identity operands and rescaled representatives are reached only by the few special cases tests spell out.',
 [Z+'arithmetic/points/weierstrass.rs',Z+'macros/curve/weierstrass/group.rs',Z+'macros/curve.rs','bn254/src/g1.rs','bn254/src/g2.rs','grumpkin/src/curve.rs'],
 [('add_affine_point, add_mixed_point, add_projective_point, double_*',Z+'arithmetic/points/weierstrass.rs')])
p('P11','Coordinate conversions, point equality and curve membership are exact',
 'Converting a point between affine and projective form and back preserves it; two projective points are equal exactly when they denote the same curve point; the membership test accepts exactly the points satisfying the curve equation, identity included. The published generators and curve constants satisfy these predicates.',
 ['inputs'],'all affine and projective coordinate tuples, including the identity and rescaled representatives',
 'Equality of projective points must hold over all rescalings; tests compare few representatives and do not try off-curve coordinates.',
 [Z+'macros/curve/weierstrass.rs',Z+'macros/curve/weierstrass/group.rs',Z+'macros/curve/edwards.rs','bn254/src/g1.rs','bn254/src/g2.rs','grumpkin/src/curve.rs'],
 [('is_on_curve, to_affine, PartialEq',Z+'macros/curve/weierstrass/group.rs')])
p('P12','Twisted Edwards arithmetic implements the Edwards group law',
 'For all pairs of points on a twisted Edwards curve with a=-1, in every combination of affine and extended form, addition and doubling return the point given by the Edwards addition law with a consistent auxiliary coordinate. Conversion between affine and extended form preserves the point.',
 ['inputs'],'all pairs of points satisfying the curve equation and all extended representatives',
 'Tests use one concrete curve and random multiples of its generator; the law must hold for every point and representative.',
 [Z+'arithmetic/points/edwards.rs',Z+'macros/curve/edwards.rs',Z+'macros/curve/edwards/group.rs'],
 [('add/double in affine, mixed and extended coordinates',Z+'arithmetic/points/edwards.rs')])
p('P13','Every operator form on points and extension fields computes its operation',
 'For points and for extension-field elements, the by-value, by-reference, mixed-coordinate and assigning forms of addition, subtraction, negation and multiplication agree with the corresponding value form, for all operands. Subtraction is addition of the negation in every form.',
 ['inputs'],'all operand pairs, all operator impls of G1, G2, Grumpkin, Fq2, Fq6, Fq12 and the target group',
 'Dozens of macro-generated impls are never called by tests.',
 [Z+'macros/curve.rs',Z+'macros/curve/weierstrass/group.rs',Z+'macros/extension_field/group.rs',Z+'macros/extension_field/ring.rs','bn254/src/gt.rs'],
 [('macro-generated operator impls',Z+'macros/curve.rs, '+Z+'macros/extension_field/group.rs')])
p('P14','Extension-field ring arithmetic is exact',
 'In each level of the BN254 tower, addition, subtraction, multiplication, squaring, doubling, multiplication by the tower non-residues and the sparse multiplications agree with polynomial arithmetic modulo the defining polynomial of that level, for all operands.',
 ['inputs'],'all elements of Fq2, Fq6, Fq12',
 'Karatsuba-style formulas and sparse shortcuts are identities over all inputs; tests sample a handful and leave the sparse forms almost untested.',
 ['bn254/src/fqn.rs',Z+'macros/extension_field.rs',Z+'macros/extension_field/field.rs'],
 [('mul_ext_field, square_ext_field, mul_by_nonres, mul_by_01, mul_by_034','bn254/src/fqn.rs')])
p('P15','Extension-field inversion, conjugation and Frobenius are exact',
 'Inversion at every tower level returns the multiplicative inverse of every nonzero element and fails on zero; conjugation and every Frobenius power are exactly the p-power maps they denote.',
 ['inputs'],'all elements of Fq2, Fq6, Fq12 and all Frobenius powers used',
 'The Frobenius constants are tables of data of which tests exercise a few entries, and only with random elements.',
 ['bn254/src/fqn.rs','bn254/src/params.rs'],
 [('get_invert, conjugate, frobenius_map(s)','bn254/src/fqn.rs'),('FROBENIUS_COEFF tables','bn254/src/params.rs')])
p('P16','The Miller loop evaluates the right lines and multiplies over pairs',
 'For every pair of points, each step of the prepared pairing computes the tangent or chord line through the running point and advances that point by the group law, and the Miller loop value is the product of the per-pair values, pairs with an identity contributing one. The loop follows the signed digits of the curve parameter and ends with the two Frobenius-twisted points.',
 ['inputs'],'all G1 and G2 points (symbolic coordinates), 1 to 3 pairs, identity in any position',
 'Tests check bilinearity on random points; a wrong line at degenerate points, or interaction between pairs, is not sampled.',
 ['bn254/src/pairing.rs','bn254/src/g2.rs','bn254/src/fqn.rs'],
 [('double_eval, add_eval','bn254/src/g2.rs'),('multi_miller_loop, untwist','bn254/src/pairing.rs, bn254/src/fqn.rs')])
p('P17','Final exponentiation raises to a valid multiple of (p^12-1)/r',
 'The final exponentiation maps every nonzero Miller value f to f raised to one fixed exponent that is a multiple of (p^12-1)/r and coprime to r, so the result always has order dividing r, is multiplicative in f, and the cyclotomic squaring shortcut equals ordinary squaring on the cyclotomic subgroup.',
 ['inputs'],'all nonzero elements of Fq12; all unitary elements for the cyclotomic squaring',
 'A wrong addition chain can still be bilinear on samples, and a shortcut square is only valid on the subgroup.',
 ['bn254/src/fqn.rs','bn254/src/params.rs'],
 [('final_exp, cyclotomic_square','bn254/src/fqn.rs')])
p('P18','Constraint-system satisfaction and linear-combination algebra are exact',
 'A constraint system reports satisfied exactly when every one of its constraints (A.z)*(B.z)=C.z holds for its assignment, and each gate constructor adds exactly the constraint it names. Linear combinations (one coefficient per wire) add, subtract, negate, scale and evaluate as linear forms, whatever their terms.',
 ['inputs','programs'],'all assignments and coefficients for systems of bounded shape (rows of up to 3 terms, up to 3 constraints)',
 'Tests run satisfied systems built by the honest path; violated constraints in any row and cancelling, repeated or zero coefficients are not enumerated.',
 [Z+'r1cs.rs',Z+'matrix.rs',Z+'matrix/row.rs',Z+'matrix/vector.rs',Z+'r1cs/wire.rs'],
 [('is_sat, gates',Z+'r1cs.rs'),('sparse row algebra',Z+'matrix/row.rs')])
p('P19','Circuit gadgets accept every honest assignment and output the right value',
 'For all input values, building a field, boolean or curve gadget from them yields a satisfied constraint system, and the value of the gadget output equals the native operation on the inputs.',
 ['inputs'],'all field values of the gadget inputs (including equal, zero, and constant operands), bit inputs 0/1, all curve points',
 'Tests use random inputs; equal operands, zero differences, constants and identity points take different branches.',
 [Z+'circuit/gadget/field.rs',Z+'circuit/gadget/binary.rs',Z+'circuit/gadget/curve.rs'],
 [('FieldAssignment, BinaryAssignment, PointAssignment',Z+'circuit/gadget/')])
p('P20','Circuit gadgets admit no assignment with a wrong output',
 'For every assignment that satisfies the constraints a gadget adds, and whose inputs lie in the gadget domain (bits are 0 or 1), the gadget output equals the native operation on the assigned inputs. Equality enforcement gadgets are satisfiable only when the enforced relation holds.',
 ['inputs'],'all satisfying assignments of the constraints emitted for a gadget, not only the one the honest prover writes',
 'Tests only ever evaluate the honest assignment; a missing constraint is invisible to them.',
 [Z+'circuit/gadget/field.rs',Z+'circuit/gadget/binary.rs',Z+'circuit/gadget/curve.rs'],
 [('constraints emitted by each gadget',Z+'circuit/gadget/')])
p('P21','FFT and polynomial operations are exact',
 'The transform of a coefficient vector is its evaluation on the domain (or coset), the inverse transform undoes it, division by the vanishing polynomial on the coset is exact, and polynomial addition, subtraction, product by scalar, evaluation and division by a linear factor agree with polynomial arithmetic, for all coefficient values and operand lengths.',
 ['inputs'],'all coefficient vectors of each length up to the bound (domain sizes 2 to 16), all evaluation points',
 'Tests use random full-length vectors of one or two sizes; shorter, empty and unequal-length operands and every subtraction order are not covered.',
 ['groth16/src/fft.rs','groth16/src/poly.rs'],
 [('classic_fft_arithmetic, cosets','groth16/src/fft.rs'),('Coefficients / PointsValue operators','groth16/src/poly.rs')])
p('P22','Multi-scalar multiplication equals the sum of scalar multiples',
 'For every list of bases and scalars, the multi-scalar multiplication returns the sum of each base times its scalar, for every window size selected by the number of bases, including empty lists, repeated bases and zero scalars.',
 ['inputs'],'all bases; all 256-bit scalars for the digit extraction, and for the bucket sums scalars covering every digit vector of four bases and list lengths selecting each window size up to the bound',
 'One test compares random lists of one length; digits at window boundaries and the last partial window need special scalars.',
 ['groth16/src/msm.rs'],[('windowed bucket method','groth16/src/msm.rs: msm_curve_addition, get_at')])
p('P23','Groth16 proofs of satisfied circuits always verify',
 'For every satisfiable circuit, every satisfying assignment, every setup randomness and every proving randomness, the proof produced under the generated parameters satisfies the verification equation for the public inputs of that assignment. This holds for every number of constraints. The parameters are the documented elements for independent random trapdoors, and every proof is blinded by fresh randomness of its own.',
 ['inputs','programs'],'all assignments and all setup and prover randomness (symbolic), for circuits of bounded size (0 to 6 constraints, 0 to 3 public inputs)',
 'One circuit with one assignment is tested; the number of constraints, public inputs and shape of the matrices all change the key layout.',
 ['groth16/src/zksnark.rs','groth16/src/prover.rs','groth16/src/proof.rs','groth16/src/verifier.rs'],
 [('setup, create_proof, verify','groth16/src/zksnark.rs, groth16/src/prover.rs, groth16/src/proof.rs')])
p('P24','Groth16 verification accepts exactly the verification equation',
 'The verifier accepts a proof if and only if the pairing equation e(A,B) = e(alpha,beta) e(IC(inputs),gamma) e(C,delta) holds, with IC the public-input combination of the verifying key; any wrong number of public inputs is rejected with an error. Changing one public input whose element of the key is not the identity, or one proof element whose partner in the equation is not the identity, makes an accepted proof rejected.',
 ['inputs'],'all proofs, all public input vectors up to the bound, all keys',
 'No test checks rejection at all.',
 ['groth16/src/proof.rs','groth16/src/verifier.rs'],[('Proof::verify','groth16/src/proof.rs')])
p('P25','Nova folding preserves relaxed satisfiability and commitment openings',
 'Folding a satisfied relaxed instance with a satisfied instance gives, for every challenge, a satisfied relaxed instance whose commitments open to the folded witness; the verifier computes the same folded instance as the prover from public data. Folding an unsatisfied pair is unsatisfied except for finitely many challenges. The challenge depends on the cross term and on every part of the running instance.',
 ['inputs','programs'],'all assignments, error vectors and challenges for systems of bounded shape',
 'Tests fold honest instances at a single pseudo-random challenge.',
 ['nova/src/prover.rs','nova/src/verifier.rs','nova/src/relaxed_r1cs/instance.rs','nova/src/relaxed_r1cs/witness.rs'],
 [('cross term and fold','nova/src/prover.rs, nova/src/relaxed_r1cs/')])
p('P26','Relaxed constraint satisfaction is decided exactly',
 'The relaxed satisfaction check accepts exactly when (A.z)*(B.z) = u*(C.z)+E holds in every row, and the strict check accepts exactly when every constraint holds and the commitment opens to the witness; vectors whose length differs from the structure are rejected; a strict pair and its relaxed form are accepted alike.',
 ['inputs','programs'],'all instances, witnesses and error vectors for systems of bounded shape',
 'Tests only present satisfied instances.',
 ['nova/src/relaxed_r1cs.rs'],[('is_sat_relaxed, is_sat','nova/src/relaxed_r1cs.rs')])
p('P27','Pedersen commitments are linear and bind every entry',
 'The commitment to a vector within the key length is the sum of each entry times its own generator, hence additively homomorphic, and changing any single entry changes the commitment whenever the corresponding generator is not the identity. A generated key has an independently drawn generator for every entry it is generated for.',
 ['inputs'],'all vectors up to the bound, all generators',
 'Tests never compare commitments of different vectors or at the key-length boundary.',
 ['nova/src/pedersen.rs'],[('commit','nova/src/pedersen.rs')])
p('P28','In-circuit hashing and transcripts agree with native ones',
 'For all inputs, the hash and transcript computed inside the circuit yield a satisfied constraint system and the same digest as the native hash and transcript, and the native hash is the specified MiMC permutation in the specified sponge mode, sensitive to every absorbed element.',
 ['inputs'],'all field inputs, absorb sequences up to the bound',
 'Tests compare a few random inputs and one absorb length.',
 ['nova/src/hash.rs','nova/src/hash/helper.rs','nova/src/gadget/mimc.rs','nova/src/circuit/transcript.rs'],
 [('Mimc, MimcRO, MimcAssignment, MimcROCircuit','nova/src/hash.rs, nova/src/circuit/transcript.rs')])
p('P29','Recursive proofs verify after every step and tampering is rejected',
 'After any number of honest steps the recursive proof verifies, and a proof in which any bound component (step counter, start or current state, instance, witness, error vector or commitment) has been altered is rejected. Verification never panics on a well-typed proof.',
 ['histories','inputs'],'all step counts up to the bound; all single-component alterations of an honest proof',
 'The in-crate tests never run the recursive verifier; rejection is never tested.',
 ['nova/src/ivc.rs','nova/src/proof.rs','nova/src/circuit/augmented.rs','nova/src/circuit/nifs.rs'],
 [('RecursiveProof::verify','nova/src/proof.rs')])
p('P30','In-circuit big-integer arithmetic agrees with integer arithmetic',
 'For all operand values within the declared limb bounds, the big-integer gadgets (limb splitting, addition, multiplication, modular reduction, equality under carries) yield a satisfied constraint system whose value is the integer result, and an assignment representing a different integer is not accepted.',
 ['inputs'],'all operands within the declared limb widths (bounded number of limbs)',
 'Tests use a few random operands; limb-carry boundaries and equality modulo carries need special values.',
 ['nova/src/gadget/big_nat.rs'],[('BigNatAssignment','nova/src/gadget/big_nat.rs')])
p('P31','Serialized objects decode to what was encoded',
 'For every field element, wire, matrix row, vector, curve point, instance and witness, decoding its binary encoding returns an equal object and consumes exactly the bytes that were written; raw point decoding returns the coordinates stored in the bytes.',
 ['inputs'],'all values of the encodable types, collection lengths up to the bound',
 'No test encodes or decodes anything but field bytes.',
 [Z+'r1cs/wire.rs',Z+'matrix.rs',Z+'matrix/row.rs','bn254/src/g1.rs','bn254/src/g2.rs','nova/src/relaxed_r1cs/instance.rs'],
 [('derived and hand-written codecs',Z+'r1cs/wire.rs')])
p('P32','The pallet accepts exactly the proofs the verifier accepts',
 'A signed verify call succeeds exactly when the recursive verifier accepts the proof under the given public parameters, and an unsigned call is always rejected.',
 ['inputs','histories'],'all origins, proofs and parameters',
 'Tests submit honest proofs only.',
 ['pallet/nova/src/lib.rs'],[('dispatchable verify','pallet/nova/src/lib.rs')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
