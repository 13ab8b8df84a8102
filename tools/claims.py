TR = ' Trusts rustc up to unoptimised LLVM IR, the IR executor (cross-checked against the native code on concrete inputs in every run) and the solver.'
CLAIMS.update({
    'P03': (LIN, 'Every 32-byte string and every canonical element; SCALE, ff and native codecs.' + TR),
    'P04': (LIN, 'Every canonical operand pair, every operator form; each form is compared with the value form decided by P01/P02.' + TR),
    'P05': (BV, 'Every pair of canonical elements (antisymmetry/transitivity by integer semantics of the comparison).' + TR),
    'P06': (LIN, 'Every 64-byte string, every u64, every canonical element. Canonicity of the wide reduction cuts the two Montgomery multiplications, each proved canonical for every 256-bit left operand.' + TR),
    'P07': (BV, 'Every 256-bit value for bits_256 digits; Fq/Fr/bits_384 NAF: quick decides the stated value ranges, thorough all. The Montgomery exit is cut (P02).' + TR),
})
CLAIMS.update({
    'P08': (LIN, 'Every operand; loops of invert/pow decided by tokens for powers of a symbolic base.' + TR),
    'P09': (LIN, 'Every point (abstract group element) and every digit string of the stated lengths; digits and group operations are cut at their own properties (P07, P10-P12).' + TR),
})
POLY = 'symbolic execution of the real source over field-element graphs, all paths, polynomial identities modulo p certified by SMT (cvc5)'
TB = ' Trusts the field layer (P01-P08), the source overlay that replaces it, and the solver; counterexamples are replayed on the unmodified crates.'
CLAIMS.update({
    'P10': (POLY, 'All points of BN254 G1/G2 and Grumpkin, all projective representatives, identities and equal/opposite operands included.' + TB),
    'P11': (POLY, 'All points and coordinates of G1, G2, Grumpkin and the Edwards instance of zkstd/tests.' + TB),
    'P12': (POLY, 'All points of the Edwards instance of zkstd/tests (the only instance in the repository), all consistent extended representatives.' + TB),
    'P13': (POLY, 'All operands for every operator form of the points and of Fq2/Fq6/Fq12/Gt.' + TB),
    'P14': (POLY, 'All elements of Fq2, Fq6, Fq12.' + TB),
    'P15': (POLY, 'All elements of Fq2, Fq6, Fq12, all Frobenius powers.' + TB),
})
CLAIMS.update({
    'P16': (POLY, 'Every pair of points and every number of pairs 0..3; the Miller loop is decided by step lemmas (tangent, chord, line evaluation) plus a symbolic account of the loop\'s divisor modulo verticals. Bilinearity itself follows from that divisor by Weil reciprocity (paper argument).' + TB),
    'P17': (POLY, 'Every Miller value (as a formal power of a symbolic element with conjugation, inversion and Frobenius as the group-ring action).' + TB),
})
CLAIMS.update({
    'P18': (POLY, 'All coefficients and assignments; linear combinations of up to 3 terms and systems of up to 3 constraints over listed wire patterns.' + TB),
    'P19': (POLY, 'All operand values for listed operand shapes; decompositions and range checks over all bit strings (z3); scalar multiplication as a composition.' + TB),
    'P20': (POLY, 'Every assignment of field elements to the wires of each gadget; decompositions and range checks over all bit strings (z3); scalar multiplication as a composition.' + TB),
})
CLAIMS.update({
    'P21': (POLY, 'All coefficients and points; domains up to 2^5, polynomials up to length 4 (evaluation and division up to 12).' + TB),
})
CLAIMS.update({
    'P22': (POLY, 'All bases (as abstract group elements) for the listed scalars, which cover every vector of four 3-bit digits, edge scalars and every digit width up to the bound; digit extraction for every 32-byte string (z3 on LLVM IR).' + TB),
    'P23': (POLY, 'Six circuits of 0 to 6 constraints and 0 to 3 public inputs; every satisfying assignment, every trapdoor and all prover randomness symbolic, outside accidental zeros of intermediate coefficients.' + TB),
    'P24': (POLY, 'Every key, proof and input list, for 0 to 3 public inputs (thorough: 8), over an abstract bilinear group.' + TB),
})
CLAIMS.update({
    'P25': (POLY, 'All assignments, error vectors, keys and challenges for systems of 0 to 4 rows over listed wire patterns, both sides of the cycle; the random oracle is a fresh symbol per absorbed sequence.' + TB),
    'P26': (POLY, 'All instances, witnesses, error vectors and commitments for systems of 0 to 4 rows over listed wire patterns, vectors of the right length and one off; both sides of the cycle.' + TB),
    'P27': (POLY, 'All vectors up to 9 entries and all keys (abstract group elements), both curves; generated keys with symbolic randomness.' + TB),
    'P28': (POLY, 'Every input of the 46-round permutation on both fields; sponges over sequences of up to 3 elements (6 thorough) of listed kinds; truncation to 0..256 bits for every digest by integer SMT over LLVM IR. Round constants are recomputed with hashlib.' + TB),
    'P29': (POLY, 'Honest runs of 1 to 4 steps (8 thorough) with the real setup, circuits, prover and verifier; the step circuit from arbitrary inputs; verify on arbitrary small systems; every single-component alteration. One field models both fields of the cycle, points are discrete logarithms, the sponge is an oracle, big-integer and point gadgets compute what they stand for (P19, P20, P28, P30).' + TB),
})
