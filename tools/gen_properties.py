#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long JSON lines stay reviewable)."""
import json, os
F = ["src/field/mod_e221_3.rs", "src/field/mod_e222_117.rs", "src/field/mod_e251_9.rs",
     "src/field/mod_e255_19.rs", "src/field/mod_e382_105.rs", "src/field/mod_e383_187.rs",
     "src/field/mod_e414_17.rs", "src/field/mod_e511_187.rs", "src/field/mod_e521_1.rs"]
PF = ["src/field/prime_field.rs"]
ED = ["src/curve/edwards.rs"]
CV = ["src/curve/e_222.rs", "src/curve/curve1174.rs", "src/curve/e_382.rs",
      "src/curve/curve41417.rs", "src/curve/e_521.rs"]
LIMB = {"name": "limb array", "meaning": "lazily normalised i64 limbs; the bits of the top limb above the field size are a pending (signed) carry", "where": "struct of each src/field/mod_e*.rs"}
COORD = {"name": "x, y, z, t", "meaning": "extended twisted Edwards coordinates (X:Y:Z:T), T*Z = X*Y", "where": "EdwardsExtended in src/curve/edwards.rs"}
P = []
def p(id, title, statement, text, why, files, mech, state=None, over=("inputs", "histories"), observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [LIMB],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

REP = "every pair of field elements in every internal representation that any sequence of public operations can produce, for each of the nine prime fields"
T0 = "The unit tests evaluate a few dozen small constants (2..16 and their negatives, a handful of bit patterns) per field, nearly all of them freshly normalised; "

p("C01", "Field addition is exact modulo the prime",
  "For each of the nine prime fields, adding two elements (in place, by value or by reference) gives an element whose residue modulo the field's prime is the sum of the operands' residues. This holds for operands in any internal state that earlier operations can leave behind, including values above the modulus, negative carries and pending carries, and the right-hand operand is not changed.",
  REP, T0 + "the carry-in path (both operands with pending carries of either sign) is never exercised, and 2^2n operand pairs cannot be sampled.",
  F, [("AddAssign<&Self>", "add_assign in each src/field/mod_e*.rs"), ("carry folding", "carry_out()*C_VAL added to limb 0")],
  observe=["pack()/packed() of the result", "normalize_eq"])
p("C02", "Field subtraction is exact modulo the prime",
  "For each of the nine prime fields, subtracting one element from another (in place, by value or by reference) gives an element whose residue is the difference of the operands' residues. This holds for operands in any internal state that earlier operations can leave behind, in particular when the subtrahend itself carries an unreduced surplus or deficit.",
  REP, T0 + "no test subtracts a value that has a pending carry, which is exactly where the carry of the subtrahend must be subtracted rather than added.",
  F, [("SubAssign<&Self>", "sub_assign in each src/field/mod_e*.rs")], observe=["packed()", "normalize_eq"])
p("C03", "Field negation yields the additive inverse",
  "For every element of each of the nine prime fields, unary minus gives an element which added to the original gives zero modulo the prime. Negating twice gives back the original residue, and negating zero gives zero.",
  "every element of each field in every reachable internal representation", "No existing test calls unary minus at all, and the result depends on the element.",
  F, [("Neg", "neg in each src/field/mod_e*.rs")], observe=["packed()"])
p("C04", "Field multiplication is exact modulo the prime",
  "For each of the nine prime fields, multiplying two elements (in place, by value or by reference) gives an element whose residue is the product of the operands' residues. This holds for every pair of operands, including operands that hold pending carries, are negative, or exceed the modulus.",
  REP, T0 + "a wrong partial product, carry or fold in one of up to 400 digit products shows only for operands whose digits are non-zero in the right places or carry at the right moment.",
  F, [("MulAssign<&Self>", "mul_assign: digit products, carry chain, pseudo-Mersenne fold")], observe=["packed()"])
p("C05", "Squaring is exact modulo the prime and equals self-multiplication",
  "For every element of each of the nine prime fields, squaring (in place or as a new value) gives an element whose residue is the product of the element with itself. This holds for every internal state that earlier operations can leave behind.",
  "every element of each field in every reachable internal representation", T0 + "squaring is a separately written digit table, so a slip in one entry is independent of multiplication.",
  F, [("PrimeField::square/squared", "square in each src/field/mod_e*.rs")], observe=["packed()"])
p("C06", "Adding or subtracting a machine integer is exact for every i32",
  "For each of the nine prime fields and every 32-bit signed integer, the small addition and small subtraction operations change the element's residue by exactly that integer. This includes the extreme values of the integer and elements with pending carries of either sign.",
  "every element of each field in every reachable representation, times all 2^32 integers", T0 + "only a few small positive integers are tried.",
  F, [("small_add_assign/small_add/small_sub_assign/small_sub", "each src/field/mod_e*.rs")], observe=["packed()"])
p("C07", "Multiplying by a machine integer is exact for every i32",
  "For each of the nine prime fields and every 32-bit signed integer, the small multiplication operations give an element whose residue is the product of the element's residue and that integer. This includes the extreme values of the integer and elements with pending carries of either sign.",
  "every element of each field in every reachable representation, times all 2^32 integers", T0 + "only multipliers up to 8 are tried and only on normalised elements, so pending carries and wide multipliers are never reached.",
  F, [("small_mul_assign/small_mul", "each src/field/mod_e*.rs")], observe=["packed()"])
p("C08", "All operator forms denote the same field operation",
  "For each of the nine prime fields, every operator form of addition, subtraction, multiplication and division (value or reference operands, 8-, 16- or 32-bit integer operands on either side where offered, assigning or not) gives the residue of the corresponding mathematical operation on its operands. Integer operands are taken with their sign, and a by-reference operand keeps its value.",
  "every operator implementation of the nine field types times every element and integer", "The tests use a fraction of the roughly forty operator implementations per field and only small positive integers, so a swapped operator or a lost sign in one of them goes unnoticed.",
  F + PF, [("operator impls", "impl Add/Sub/Mul/Div(+Assign) blocks of each src/field/mod_e*.rs")], observe=["packed()"])
p("C09", "Normalisation gives the unique canonical representative",
  "For each of the nine prime fields and for an element in any internal state that public operations can produce, normalising leaves the residue unchanged and makes the internal value the unique integer in [0, p), so that two elements with equal residues become identical. Normalising twice is the same as normalising once.",
  "every reachable representation (any history of operations, including values that went negative or exceed the modulus)", T0 + "they never normalise a value whose folded representation is negative or whose pending carry is large.",
  F + ["src/normalize.rs"], [("Normalize::normalize", "each src/field/mod_e*.rs")], observe=["packed()", "bit_normalized", "Debug output"])
p("C10", "Equality tests decide equality of residues",
  "For each of the nine prime fields, comparing two elements with the normalise-and-compare operation returns true exactly when their residues modulo the prime are equal, whatever internal state either is in. The variant that normalises only the left operand does so whenever the right operand is already normalised, and neither variant changes the residue of an operand.",
  REP, T0 + "a limb left out of the comparison only matters for pairs that differ in that limb alone.",
  F + ["src/normalize.rs"], [("NormalizeEq", "normalize_eq/normalize_self_eq in each src/field/mod_e*.rs")], observe=["return value"])
p("C11", "No operation overflows, loses bits or panics, whatever came before",
  "Starting from any packed, constant or random element and applying any sequence of public field operations and point operations with any in-range arguments, no arithmetic in the library overflows its machine word, no left shift discards significant bits, and no operation panics. The internal pending carry stays within a fixed bound, so arbitrarily long computations stay correct without explicit normalisation.",
  "every finite history of public operations on every element", "Tests run one or two operations from normalised values; an overflow needs carries accumulated by particular chains of operations and particular digits, and a lost high bit of a shift is silent.",
  F + ED, [("lazy carry discipline", "carry masks and fold in every arithmetic method of src/field/mod_e*.rs")], observe=["panic in debug builds", "wrong residue in release builds"])
p("C12", "Packing writes the canonical little-endian encoding",
  "For each of the nine prime fields, packing an element in any internal state writes the little-endian base-256 digits of its canonical residue in [0, p), with every output byte determined; the variant for already normalised elements does so for every normalised element. Hence two elements pack to the same bytes exactly when their residues are equal.",
  "every element in every reachable representation", T0 + "each output byte is assembled from hand-written shifts and masks, and a wrong bit position only shows for values with that bit set.",
  F + ["src/pack.rs"], [("Pack::pack/pack_normalized and packed", "each src/field/mod_e*.rs")], observe=["output buffer"])
p("C13", "Unpacking reads the little-endian value and inverts packing",
  "For each of the nine prime fields, unpacking a byte string of the field's packed size that encodes, little-endian, a number below the modulus gives the element with exactly that residue, in normalised form. Unpacking then packing returns the same bytes, and packing then unpacking returns an equal element.",
  "every byte string encoding a number below the modulus; every element", T0 + "round trips are tried on a dozen periodic bit patterns per field.",
  F + ["src/pack.rs"], [("Pack::unpack/unpacked", "each src/field/mod_e*.rs")], observe=["packed()", "bit_normalized"])
p("C14", "Packing and unpacking touch exactly the advertised number of bytes",
  "For each of the nine prime fields the advertised packed size is the least number of bytes that can hold the modulus, or the documented fixed size of that field, and pack, unpack and the byte-array form agree on it. Packing into or unpacking from any buffer of at least that length never panics, writes every byte of that prefix and no byte beyond it, and reads no byte beyond it.",
  "all buffer lengths and contents", "Tests always use a buffer of exactly the right size held in a fixed array.",
  F + ["src/pack.rs"], [("Pack::nbytes, index expressions", "each src/field/mod_e*.rs")], observe=["output buffer", "panic"])
p("C15", "Hexadecimal formatting prints the canonical value, most significant first",
  "For each of the nine prime fields, lower- and upper-case hexadecimal formatting of an element in any internal state prints the bytes of its canonical encoding from most to least significant, each as exactly two digits of the requested case. Formatting does not change the element, and reports a write error of the sink.",
  "every element in every reachable representation and every formatter", "No test formats an element.",
  F, [("LowerHex/UpperHex", "each src/field/mod_e*.rs")], observe=["formatted string"])
p("C16", "Inversion and division are exact for every non-zero element",
  "For each of the nine prime fields, inverting an element gives the element whose product with it is one, for every non-zero element, and gives zero for zero. Dividing by an element gives the product with its inverse, in every operator form.",
  "every element (pair) in every reachable representation", T0 + "the exponent is a hand-unrolled chain of several hundred squarings; tests check it on a few small numbers, which does settle the chain only if every step works for every intermediate value.",
  F, [("PrimeField::invert/inverted, Div", "each src/field/mod_e*.rs")], observe=["packed()"])
p("C17", "The Legendre symbol separates squares from non-squares",
  "For each of the nine prime fields, the Legendre operation returns an element equal to one for every non-zero square, to minus one for every non-square, and to zero for zero, whatever internal state the argument is in. It does not change its argument.",
  "every element in every reachable representation", T0 + "no sampling distinguishes a wrong exponent that agrees on the samples.",
  F, [("PrimeField::legendre", "each src/field/mod_e*.rs")], observe=["normalize_eq with one/m_one"])
p("C18", "Square root returns a root of every square",
  "For each of the nine prime fields and every element that is a square (including zero), the square-root operation returns an element whose square has the same residue as the argument. It does not change its argument.",
  "every quadratic residue in every reachable representation", T0 + "the fields congruent to 5 mod 8 combine a quartic character with constants, and both branches must be right for every square.",
  F, [("PrimeField::sqrt", "each src/field/mod_e*.rs"), ("quartic character and constants", "quartic_legendre, COEFF, M_HALF")], observe=["packed()"])
p("C19", "Bit access reads the binary digits of the canonical value",
  "For each of the nine prime fields, asking for bit i of an element, for every i below the field's advertised bit count, returns binary digit i of its canonical residue; the variant for normalised elements does so for every normalised element. The advertised bit count is the bit length of the modulus, and no index below it panics.",
  "every element in every reachable representation, every index below the bit count", "No test calls the bit accessors.",
  F + PF, [("PrimeField::bit/bit_normalized/nbits", "each src/field/mod_e*.rs")], observe=["return value"])
p("C20", "Masks select or clear whole elements",
  "For each of the nine prime fields, combining an element with the all-ones mask by bitwise-and leaves its value unchanged, combining it with the all-zeros mask gives zero, and bitwise-or of an element with zero leaves its value unchanged, for every internal state of the element. The fill and filled operations of field and mask types produce exactly these masks for true and false, and the normalising variants act on the canonical representation.",
  "every element in every reachable representation, both mask values", "No test uses the masks or bitwise operations.",
  F + PF, [("fill/filled/normalized_bitand/normalized_bitor and normalising variants", "each src/field/mod_e*.rs")], observe=["packed()"])
p("C21", "Field constants denote the values they document",
  "For each of the nine prime fields, the published constants and accessor functions for zero, one, minus one, minus one half and the modulus hold exactly those values for the documented prime 2^n - c, each in canonical form, and that modulus is prime.",
  "each exported field constant", "Most tests compare against these constants, so a wrong constant shifts both sides of the comparison.",
  F, [("ZERO, ONE, M_ONE, MODULUS, M_HALF; zero(), one(), m_one(), modulus()", "each src/field/mod_e*.rs")], over=("inputs", "configurations"), observe=["packed()"])
p("C22", "Published curve parameters are those of the safe curves they name",
  "Every exported curve constant (Edwards coefficient, base point coordinates, subgroup order) holds the value of the named curve: the base point satisfies the curve equation, the order is prime, lies in the range of the Hasse bound divided by the cofactor, and annihilates the base point. Documented decimal or hexadecimal values agree with the stored digits.",
  "each exported curve constant", "No test uses any curve constant.",
  F + CV, [("*_D, *_BASE_X, *_BASE_Y, *_ORDER", "constants of src/field/mod_e*.rs")], over=("inputs", "configurations"), observe=["packed()"])
p("C23", "The identity and affine initialisation give well-formed points",
  "For every supported Edwards curve, the zero point is the neutral element of the group and initialising a point from affine coordinates x, y gives a representation of the point (x, y), whatever the point held before. Both are well formed: using them as operands of addition, doubling, tripling and scalar multiplication gives the results the group law prescribes.",
  "every pair of coordinates on every curve; every subsequent use", "There are no tests of the curve layer at all.",
  ED + CV, [("Point::zero, Point::init", "src/curve/edwards.rs")], state=[COORD], observe=["sums and doublings of the point"])
p("C24", "Point addition implements the complete Edwards group law",
  "For every supported Edwards curve and every two well-formed points on it, adding them (any operator form) gives a well-formed representation of their sum under the Edwards addition law, including equal, opposite and identity operands, and independent of the projective scale of the operands. The right-hand operand is unchanged.",
  "every pair of well-formed points, in every projective scaling and internal representation", "There are no tests of the curve layer at all.",
  ED + CV, [("AddAssign/Add for points", "src/curve/edwards.rs")], state=[COORD], observe=["affine coordinates of the result"])
p("C25", "Doubling and tripling agree with repeated addition",
  "For every supported Edwards curve and every well-formed point on it, doubling gives the point added to itself and tripling gives the point added to its double, in place or as a new value. The results are well formed, so they can be used as operands of any further operation.",
  "every well-formed point, in every projective scaling and internal representation", "There are no tests of the curve layer at all.",
  ED + CV, [("double/doubled/triple/tripled", "src/curve/edwards.rs")], state=[COORD], observe=["affine coordinates of the result"])
p("C26", "Scalar multiplication computes the multiple for every scalar",
  "For every supported Edwards curve, every well-formed point and every scalar, scalar multiplication replaces the point by the sum of k copies of it, where k is the canonical integer value of the scalar; the variant for normalised scalars does so for every normalised scalar. Every bit of the scalar counts, including the most and least significant, and the result is well formed.",
  "every point times every scalar up to the modulus", "There are no tests of the curve layer; a ladder that mishandles one bit position or starts one bit late is invisible to small samples.",
  ED + CV, [("scalar_mult/scalar_mult_normalized", "src/curve/edwards.rs")], state=[COORD], observe=["affine coordinates of the result"])
p("C27", "Control flow and memory access do not depend on secret values",
  "In every field and point operation, the sequence of branches taken, the number of loop iterations and the addresses accessed depend only on the field or curve and on public arguments (bit index, buffer length), never on the value of an element, a point coordinate, a scalar or a scalar bit. No division or remainder is performed on such values.",
  "every pair of secret inputs with equal public arguments, over all operations except formatting and random generation", "Unit tests compare results, not execution traces.",
  F + ED + PF, [("branch-free limb arithmetic and masks", "src/field/mod_e*.rs, scalar_mult_normalized in src/curve/edwards.rs")], over=("inputs", "programs"), observe=["execution trace"])
p("C28", "Random elements are canonical and can take every value",
  "For each of the nine prime fields, a randomly generated element is in canonical form, and every residue is a possible outcome: whatever residue is wanted, some output of the supplied random source produces it. All randomness comes from the supplied source.",
  "every output sequence of the random source; every residue", "No test generates a random element, and reachability of each of 2^n values cannot be sampled.",
  F, [("Rand::rand", "each src/field/mod_e*.rs")], observe=["packed()"])
p("C29", "Elements are opaque, self-contained values",
  "Outside the library no program can build or modify a field element or point except through the public constructors and operations, so every element satisfies the internal carry bound. Elements are plain values: copies are independent, operations have no hidden shared or global state, operands passed by shared reference never change, and the library contains no unsafe code.",
  "every client program", "A test cannot show that no client program can break the invariant.",
  F + ED + PF + CV, [("private limb and coordinate fields", "struct definitions"), ("absence of unsafe, statics and interior mutability", "whole crate")], over=("programs",), observe=["compile errors of violating programs"])
p("C30", "Each curve is wired to its own field and coefficient",
  "Every supported Edwards curve uses the prime field of that curve and its own coefficient d, and d is a non-square in that field, so that the addition law has no exceptional cases. The coefficient handed to the group law equals the published coefficient constant of the curve.",
  "each supported curve", "There are no tests of the curve layer, and with a foreign or square coefficient the formulas still compile and look plausible.",
  CV + ED, [("EdwardsCurve impls", "src/curve/{e_222,curve1174,e_382,curve41417,e_521}.rs")], over=("configurations", "inputs"), observe=["d_val()"])
p("C31", "In-place and value-returning variants agree and leave their source intact",
  "Every operation offered both in place and as a value-returning variant (square, invert, small add, subtract and multiply, unpack, fill, point doubling and tripling, assigning and non-assigning operators) gives results of the same residue or the same point in both forms. The value-returning form leaves its source element unchanged.",
  "every element and point in every reachable representation, every pair of variants", "The tests exercise mostly one of the two forms, on few values.",
  F + ED, [("squared, inverted, small_add, small_sub, small_mul, unpacked, filled, doubled, tripled", "src/field/mod_e*.rs, src/curve/edwards.rs")], observe=["packed()"])
p("C32", "Every operation terminates after a fixed number of steps",
  "Every field and point operation terminates, for every input, after a number of loop iterations fixed by the field or curve alone, without recursion and without allocating from the heap. The only exceptions are formatting and random generation, which additionally depend on the supplied sink and source.",
  "every input to every operation", "Termination for all inputs is not observable from finitely many runs.",
  F + ED, [("constant-bound loops", "exponentiation loops of src/field/mod_e*.rs, ladder in src/curve/edwards.rs")], over=("inputs", "programs"), observe=["termination"])
p("C33", "Compiled release code has no secret-dependent branches",
  "In the optimised x86-64 machine code that the installed stable compiler produces for a release build, no conditional or indirect jump, no memory address, no length of a memory operation and no operand of a division instruction depends on the values of field elements, points, scalars, packed bytes, bits to fill with or small operands. Bit indices and lengths are public; formatting and random generation are not covered.",
  "every pair of secret inputs; every public operation of every field and curve; the build configurations analysed", "Unit tests compare results, not execution traces, and are not run on release code.",
  F + ED, [("branch-free limb arithmetic and masks", "src/field/mod_e*.rs")], over=("inputs", "configurations"), observe=["machine code"])
p("C34", "Random elements are uniformly distributed",
  "Given an ideal random source, whose draws are independent and uniform over the range asked for, the residue that Rand::rand returns is uniformly distributed up to a statistical distance of at most 2^-64, for every field.",
  "the distribution of the random source", "A handful of samples says nothing about a distribution over 2^221 or more values.",
  F, [("Rand::rand", "each src/field/mod_e*.rs")], observe=["distribution of packed()"])
p("C35", "Results are the same on 32-bit and big-endian platforms",
  "Compiled for a platform with 32-bit pointers, with big-endian byte order, or of another processor architecture, every field and point operation, the byte encodings and the formatted digits are the same as on a 64-bit little-endian x86 platform, for every input; no operation overflows or panics there that does not here.",
  "every input on every supported kind of platform", "The tests run on one platform only.",
  F + ED, [("limb arithmetic, Pack, bit access", "src/field/mod_e*.rs")], over=("inputs", "configurations"), observe=["results", "packed()"])
p("C36", "Calls that are refused leave every element usable",
  "For each of the nine prime fields: packing into or unpacking from a buffer shorter than the packed size panics, it is never silently accepted; asking for a bit at or beyond the bit count panics or reads as false, for every index. A caller that survives the panic (catch_unwind, another thread) finds the element it packed or asked unchanged in value, and the element it was unpacking into still a valid element within the carry bounds, good for all further operations. The message of the panic contains nothing that depends on the value of an element.",
  "every element, every buffer shorter than the packed size, every bit index", "No test makes a call that is refused, let alone goes on afterwards.",
  F, [("Pack", "each src/field/mod_e*.rs"), ("PrimeField::bit/bit_normalized", "each src/field/mod_e*.rs")], over=("inputs", "histories"), observe=["panic", "elements after the panic"])
p("C37", "Debug formatting shows the internal limbs exactly",
  "For each of the nine prime fields, {:?} prints the type's name and every limb of the internal representation as it is, in the form 'Mod_eN_C: [ l0, l1, ... ]', each limb in plain lower-case hexadecimal of its 64-bit two's complement, least significant limb first. It does not change the element, and reports a write error of the sink at the write where it happens.",
  "every element in every reachable representation and every sink", "No test formats an element.",
  F, [("Debug", "each src/field/mod_e*.rs")], observe=["formatted string"])
for q in P:
    assert len(q["title"]) <= 80, q["id"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
