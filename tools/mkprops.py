import json
T="include/thls/tops/"
def P(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None))
IC=["inputs","configurations"]
FW=T+"fw_uint.hpp"; MU=T+"fw_uint_on_masked_uint.hpp"; FL=T+"fp_flopoco.hpp"
L=[]
L.append(P("P01","Fixed-width unsigned integer arithmetic is exact and never leaves its width",
"Every arithmetic, bitwise, shift and comparison operation on fixed-width unsigned integers returns exactly the mathematical result: sums, differences and negation modulo two to the width, products at the full combined width, shifts dropping exactly the bits that leave the word. No value ever holds a bit above its width, whatever native word it is stored in. No operation on in-range operands trips an internal assertion or executes undefined behaviour.",
IC,"all operand values at every width from 1 to 128 bits (0 where the operation admits it), including both sides of the 32- and 64-bit storage boundaries",
"the bit test draws some random operands at a few widths and only compares against native arithmetic below 64 bits; storage-boundary widths and carries out of the top bit are hit by luck",
[FW,MU],[("arithmetic, shift and comparison operators",MU),("mask and storage selection per width",MU),("generic helpers over the storage class",FW)],
[("stored word","native integer holding the value; bits above the width are zero",MU)],["returned values"]))
L.append(P("P02","Slicing, concatenation, extension and selection preserve every bit",
"Taking, dropping, padding, extending, concatenating, replicating and converting fixed-width integers moves every source bit to its documented place and fills the rest with zeros, ones or the sign as documented. Slices followed by concatenation give the original word back, and a selection returns exactly the alternative chosen by its conditions, first true condition first. Converting to native integers and back, and parsing or building constants, is lossless.",
IC,"all values, all widths up to 128 and all slice positions of the instantiated grid, including slices crossing the 64-bit boundary and zero-width ends",
"tests touch a handful of widths and slice positions; each width/position pair is a distinct instantiation with its own masks and shifts",
[FW,MU],[("slicing, padding and concatenation helpers",FW),("select with several conditions",FW),("bit extraction and concatenation on the storage word",MU)],None,["returned values"]))
L.append(P("P03","Default floating-point addition is correctly rounded",
"Adding two numbers of the same format returns the exact sum rounded to nearest, ties to even, with results above the largest finite value becoming infinity and results below the smallest normal becoming zero. Infinities, NaNs and signed zeros combine as in IEEE arithmetic (infinity minus infinity is NaN, exact cancellation gives positive zero). The result does not depend on payload bits carried by zeros, infinities or NaNs, and addition is commutative up to NaN payload.",
IC,"all pairs of encodable operands, including non-canonical encodings of zero, infinity and NaN, for every exponent/fraction width of the grid",
"the tests draw random operands from a fixed seed; rounding ties, one-bit cancellations and exponent limits need coincidences of many bits that random operands essentially never produce, and non-canonical encodings are never generated",
[T+"fp_flopoco_add_dual_v1.hpp",T+"fp_flopoco_primitives.hpp",FL],[("near/far dual-path adder",T+"fp_flopoco_add_dual_v1.hpp"),("leading-zero count and normalisation shift",T+"fp_flopoco_add_dual_v1.hpp"),("dispatch of the default adder",T+"fp_flopoco_primitives.hpp")],None,["value returned by the default addition"]))
L.append(P("P04","Every alternative single-path adder is correctly rounded",
"Each of the alternative single-path adder implementations returns the correctly rounded sum (nearest, ties to even, underflow to zero, overflow to infinity, IEEE rules for zeros, infinities and NaNs) for operands of one common format. They therefore all agree with each other and with the default adder on every input. No valid input makes any of them trip an assertion or execute undefined behaviour.",
IC,"all operand pairs, for each adder version and every supported exponent/fraction width of the grid",
"each version is tested at one or two formats with seeded random operands; agreement on ties, cancellation depths and exponent boundaries is never forced",
[T+"fp_flopoco_add_single_v%d.hpp"%i for i in range(1,6)],[("single-path adder and its shifters, version %d"%i,T+"fp_flopoco_add_single_v%d.hpp"%i) for i in range(1,6)],None,["value returned by each adder"]))
L.append(P("P05","Mixed-format addition rounds once into the result format",
"Adding operands whose exponent or fraction widths differ returns the exact sum of the two values rounded once, to nearest with ties to even, into the wider result format. Underflow, overflow and special values follow the rules of the result format. Neither operand is rounded or truncated before the sum is formed.",
IC,"all operand pairs for every supported combination of two operand formats in the grid",
"three tests cover a few combinations with random inputs; each combination is a separate alignment network",
[T+"fp_flopoco_add_single_v1.hpp",T+"fp_flopoco_add_single_v5.hpp",T+"fp_flopoco_add_dual_v1.hpp",T+"fp_promote.hpp"],[("operand widening before alignment",T+"fp_flopoco_add_single_v1.hpp"),("mixed-fraction adder",T+"fp_flopoco_add_single_v5.hpp")],None,["value returned by the addition"]))
L.append(P("P06","Multiplication is correctly rounded in every combination of formats",
"Multiplying two numbers returns the exact product rounded to nearest, ties to even, into the result format, or the exact product when the result fraction is wide enough to hold it. Products outside the exponent range become signed infinity or signed zero, and infinity times zero or any NaN gives NaN. Payload bits of special operands never influence the numeric result.",
IC,"all operand pairs, for equal and mixed operand fraction widths, both narrow (rounding) and wide (exact) results, over the format grid",
"random operands from a fixed seed practically never land on ties or on the exponent limits where rounding itself overflows or underflows; mixed and exact-width instantiations are covered by one small test",
[T+"fp_flopoco_mul_v1.hpp",T+"fp_flopoco_primitives.hpp"],[("rounding multiplier and exact-product multiplier",T+"fp_flopoco_mul_v1.hpp")],None,["value returned by the multiplication"]))
L.append(P("P07","Division is correctly rounded",
"Dividing two numbers returns the exact quotient rounded to nearest, ties to even, with out-of-range quotients becoming signed infinity or signed zero. Zero over zero, infinity over infinity and any NaN operand give NaN, and a finite non-zero value over zero gives signed infinity. Both available dividers satisfy this on every input.",
IC,"all operand pairs for every fraction/exponent width of the grid, i.e. every quotient-digit sequence of the digit recurrence",
"the digit-selection table and recurrence are exercised by seeded random divisions only; a wrong table cell is reached for very few divisor/remainder prefixes (the classic division-table bug)",
[T+"fp_flopoco_div_v1.hpp",T+"fp_flopoco_div_v2.hpp"],[("digit selection table and recurrence",T+"fp_flopoco_div_v1.hpp"),("second digit-recurrence divider",T+"fp_flopoco_div_v2.hpp")],[("partial remainder","bounded by a fixed fraction of the divisor after every step",T+"fp_flopoco_div_v1.hpp")],["value returned by the division"]))
L.append(P("P08","Reciprocals are correctly or faithfully rounded as promised",
"The reciprocal operation returns one over its operand correctly rounded to nearest, ties to even. The faithful reciprocal returns one of the two representable numbers bracketing the exact reciprocal, and the exact one when it is representable. Both handle zero, infinity, NaN, overflow and underflow like a division of one by the operand.",
IC,"every operand of every format of the grid",
"the exact reciprocal has no test at all, and the faithful one is sampled at a few formats",
[T+"fp_flopoco_inv_v1.hpp",T+"fp_flopoco_inv_nr.hpp"],[("digit-recurrence reciprocal",T+"fp_flopoco_inv_v1.hpp"),("table plus Newton step",T+"fp_flopoco_inv_nr.hpp")],None,["returned reciprocal"]))
L.append(P("P09","Negation flips the sign and nothing else",
"Negating a number returns the same value with the opposite sign: the same kind (zero, normal, infinity, NaN), the same exponent and the same fraction. Negating twice returns the original number exactly. Widening a number to a larger format keeps its value, kind and sign exactly.",
IC,"every encodable operand for every format, and every pair of formats for widening",
"no test negates or widens anything directly",
[T+"fp_flopoco_neg_v1.hpp",T+"fp_promote.hpp"],[("sign flip",T+"fp_flopoco_neg_v1.hpp"),("exponent re-bias and fraction padding",T+"fp_promote.hpp")],None,["returned value"]))
L.append(P("P10","Format conversion rounds correctly and preserves special values",
"Converting a number between two formats returns the nearest number of the destination format, ties to even; values too large become infinity of the same sign and values too small become zero of the same sign. Zeros, infinities and NaNs stay zeros, infinities and NaNs with the same sign whatever payload bits they carry. Converting to a format at least as wide in both fields is exact, so converting there and back returns the original value.",
IC,"all source values including non-canonical special encodings, for all combinations of wider, equal and narrower exponent and fraction fields in the grid",
"the conversion test samples random normal values for a few pairs of formats; carries out of the rounded fraction at the exponent limits and special values with payloads are not generated",
[T+"fp_convert.hpp",T+"fp_flopoco_convert.hpp"],[("fraction rounding with carry",T+"fp_convert.hpp"),("exponent re-bias with range checks",T+"fp_convert.hpp")],None,["converted value"]))
L.append(P("P11","Conversion between IEEE encodings and the native format is faithful",
"Converting an IEEE-encoded number to the native format of the same widths keeps the exact value of every normal number, keeps sign, zero, infinity and NaN, and flushes subnormals to zero of the same sign. Converting back gives the bit-identical encoding for zeros, normals and infinities, saturates native values with no IEEE counterpart to signed infinity or zero, and turns NaN into NaN. The kind predicates of both representations partition all encodings.",
IC,"all bit patterns of all formats of the grid in both directions",
"tests convert random values at a few formats; the two native exponents without IEEE counterpart and subnormals are rarely or never drawn",
[T+"fp_convert.hpp",T+"fp_ieee.hpp",FL,T+"fp_promote.hpp"],[("field-wise conversion",T+"fp_convert.hpp"),("kind predicates and flags of encodings",T+"fp_ieee.hpp")],None,["converted value","kind predicates"]))
L.append(P("P12","Comparisons order all numbers as the extended reals",
"The six comparison operations return exactly what comparing the real values (with signed infinities) returns; both zeros compare equal, and any comparison with NaN is false except inequality. Less-than is a strict weak order on non-NaN values, consistent with equality and with the reversed and negated forms. The answers hold across operands of different formats and do not depend on payload bits of zeros and infinities.",
IC,"all pairs of encodable operands, same and mixed formats",
"tests compare a few hundred canonical values at one format; mixed formats and non-canonical encodings are never compared",
[T+"fp_flopoco_ordering.hpp",T+"fp_promote.hpp"],[("comparison functions",T+"fp_flopoco_ordering.hpp"),("widening to a common format",T+"fp_promote.hpp")],None,["comparison results"]))
L.append(P("P13","Neighbour stepping and numeric limits describe the representable set",
"Stepping up (down) from a number returns the next representable number above (below) it, passing from negative to positive through the two zeros and saturating at infinity; stepping up then down returns to the start. The advertised smallest, largest and lowest values, infinity and NaN are exactly those of the format, and machine epsilon is the gap above one. NaN steps to NaN.",
IC,"every encodable value of every format of the grid",
"tests step through a few values; the fraction wrap on downward steps and the ends of the exponent range are single points among billions",
[FL],[("next-up and next-down",FL),("numeric limits",FL)],None,["stepped value","limit constants"]))
L.append(P("P14","Fused multiply-add rounds exactly once",
"Multiply-add returns the exact value of product plus addend rounded once, to nearest with ties to even, into the result format. It never returns the twice-rounded value, and cancellation between product and addend loses nothing. Overflow, underflow, zeros, infinities and NaNs follow the same rules as multiplication followed by addition.",
IC,"all triples of operands for the formats of the grid",
"one test with random operands; double-rounding and deep cancellation need operands related bit by bit",
[T+"fp_flopoco_fma.hpp"],[("exact product followed by a wide addition",T+"fp_flopoco_fma.hpp")],None,["returned value"]))
L.append(P("P15","Dot products of positive vectors are the exact sum rounded down",
"The two- and four-term dot products of positive normal numbers return the exact sum of the exact products rounded once towards minus infinity: the largest representable number not above it, never above the sum and never a unit below that number, whatever the alignment of the terms and whichever term is largest. Sums below the smallest normal number give zero and sums at or above the first power of two past the largest give infinity.",
IC,"all tuples of positive normal operands (the functions assert that) for the formats of the grid",
"two tests with random operands of similar magnitude; alignment distances at the window edge, carries through a run of ones made of dropped parts, and the final normalisation are hit by luck",
[T+"fp_flopoco_dot2_pos_rndd.hpp",T+"fp_flopoco_dot4_pos_rndd.hpp"],[("two-term dot product",T+"fp_flopoco_dot2_pos_rndd.hpp"),("four-term dot product",T+"fp_flopoco_dot4_pos_rndd.hpp")],None,["returned value"]))
L.append(P("P16","Bit-heap compression preserves the represented sum",
"Building a bit heap from integers, merging, padding, shifting and compressing heaps preserves the represented sum modulo two to the heap width. Compression always ends with at most two bits per column, and collapsing it returns that sum. Tiled multiplication through heaps equals the full product.",
IC,"all bit contents of every heap shape in the grid",
"the test compresses random heaps of a few shapes; each shape is a different carry-wiring network",
[T+"bit_heap.hpp",T+"bit_heap_mul.hpp"],[("column compression and carry routing",T+"bit_heap.hpp"),("tiled multiplier",T+"bit_heap_mul.hpp")],None,["collapsed integer"]))
L.append(P("P17","Row-heap compression preserves the represented sum",
"Adding rows to a row heap and compressing it three-to-two preserves the sum of all rows modulo two to the heap width. Compression of any heap with at least two rows ends with exactly two rows whose sum is the sum of the original rows. Rows narrower than the heap are zero-extended, never sign-extended or truncated.",
IC,"all row contents for every width and depth of the grid",
"the test samples random rows for some shapes",
[T+"row_heap.hpp"],[("three-to-two compression step",T+"row_heap.hpp"),("merging heaps of different widths",T+"row_heap.hpp")],None,["collapsed integer"]))
L.append(P("P18","The LUT-optimised generator steps by an invertible linear map",
"One step of the LUT-optimised random generator is a linear map over the bits of its state: the step of an exclusive-or is the exclusive-or of the steps, and zero steps to zero. Each output bit depends on at most the configured number of state bits. For the shipped configuration the map is invertible, so distinct states never merge.",
IC,"all states of the generator for the instantiated configurations",
"the test steps one state sequence; linearity and injectivity are statements over all states",
[T+"lut_opt.hpp",T+"ct/ct_vec_unique.hpp",T+"ct/ct_vec_permute.hpp"],[("per-bit exclusive-or of selected taps",T+"lut_opt.hpp")],None,["next state"]))
L.append(P("P19","Software floating-point addition matches IEEE 754",
"Software single- and double-precision addition returns the IEEE 754 round-to-nearest-even sum for every pair of encodings, subnormals included. Infinities of opposite sign give NaN and any NaN operand gives NaN. Signed zero rules are those of IEEE 754.",
["inputs"],"all pairs of 32-bit and all pairs of 64-bit encodings",
"one policy test compares a few hundred value pairs with the hardware; subnormal alignment and tie rounding are essentially unsampled",
[T+"softfloat/src/f32_add.c",T+"softfloat/src/s_addMagsF32.c",T+"softfloat/src/s_subMagsF32.c",T+"softfloat/src/f64_add.c",T+"softfloat/src/s_addMagsF64.c",T+"softfloat/src/s_subMagsF64.c",T+"softfloat/src/primitives.h"],[("magnitude addition and subtraction",T+"softfloat/src/s_addMagsF32.c"),("round and pack",T+"softfloat/src/s_roundPackToF32.c")],None,["returned encoding"]))
L.append(P("P20","Software floating-point multiplication matches IEEE 754",
"Software single- and double-precision multiplication returns the IEEE 754 round-to-nearest-even product for every pair of encodings, including subnormal operands and results. Infinity times zero and any NaN operand give NaN. The sign is the exclusive-or of the operand signs for every non-NaN result.",
["inputs"],"all pairs of 32-bit and all pairs of 64-bit encodings",
"one policy test with a few hundred value pairs; gradual underflow rounding is essentially unsampled",
[T+"softfloat/src/f32_mul.c",T+"softfloat/src/f64_mul.c",T+"softfloat/src/s_mul64To128.c" if False else T+"softfloat/src/primitives.h"],[("significand product and rounding",T+"softfloat/src/f32_mul.c"),("wide product",T+"softfloat/src/primitives.h")],None,["returned encoding"]))
L.append(P("P21","Software floating-point division matches IEEE 754",
"Software single- and double-precision division returns the IEEE 754 round-to-nearest-even quotient for every pair of encodings, including subnormal operands and results. Zero over zero, infinity over infinity and any NaN operand give NaN; a finite value over zero gives signed infinity.",
["inputs"],"all pairs of 32-bit and all pairs of 64-bit encodings",
"one policy test with a few hundred value pairs; the sticky-correction branch after the reciprocal approximation is taken for few quotients",
[T+"softfloat/src/f32_div.c",T+"softfloat/src/f64_div.c",T+"softfloat/src/s_approxRecip32_1.c"],[("quotient estimate and sticky correction",T+"softfloat/src/f64_div.c")],None,["returned encoding"]))
L.append(P("P22","Software floating-point comparisons match IEEE 754",
"Software single- and double-precision equal, less-than and less-or-equal return the IEEE 754 relation for every pair of encodings: false when either is NaN, equal zeros of either sign. The derived operators not-equal, greater and greater-or-equal are consistent with them on every pair.",
["inputs"],"all pairs of 32-bit and all pairs of 64-bit encodings",
"one policy test with a few hundred value pairs; not-a-number operands and mixed-sign zeros are barely sampled",
[T+"softfloat/src/f32_lt.c",T+"softfloat/src/f32_le.c",T+"softfloat/src/f32_eq.c",T+"softfloat/src/f64_lt.c",T+"softfloat/src/f64_le.c",T+"softfloat/src/f64_eq.c",T+"policy_softfloat.hpp"],[("comparison functions",T+"softfloat/src/f32_lt.c"),("operator overloads",T+"policy_softfloat.hpp")],None,["comparison results"]))
L.append(P("P23","Operator wrappers compute the operation their spelling says",
"For each number wrapper type, the operators for sum, product, quotient and the six comparisons, and their compound-assignment forms, give the correctly rounded result or relation for that type's format on every operand pair. Wrappers that store IEEE encodings but compute natively give the IEEE result with subnormals flushed to zero. Compound assignment leaves the left operand holding exactly the value the binary operator returns.",
IC,"all operand pairs for the formats of the grid",
"the policy tests compare a few hundred operand pairs per type",
[T+"policy_flopoco.hpp",T+"policy_ieee_on_flopoco.hpp",T+"policy_softfloat.hpp"],[("operator overloads of the native wrapper",T+"policy_flopoco.hpp"),("operator overloads of the IEEE-storage wrapper",T+"policy_ieee_on_flopoco.hpp")],None,["operator results"]))
L.append(P("P24","Classification and field access agree with the encoding",
"For every encoding, exactly one of zero, subnormal (IEEE only), normal, infinite and NaN is reported, and sign and sign-specific predicates agree with the sign bit. Field accessors return exactly the sign, exponent and fraction fields, and rebuilding a number from its fields gives the identical encoding. Encoding equality of IEEE records and IEEE neighbour stepping and limits agree with the encoded values.",
IC,"all bit patterns of all formats of the grid",
"tests classify random values at a few formats",
[T+"fp_ieee.hpp",FL],[("kind predicates and field accessors",T+"fp_ieee.hpp"),("kind predicates and field accessors of the native format",FL)],None,["predicates","fields"]))
L.append(P("P25","Conversion to and from native floating point is exact",
"Building a number from a native double keeps sign, kind and exact value whenever the format can represent it, and converting a number to a native double returns its exact value whenever a double can hold it. Infinities, NaNs and signed zeros survive in both directions. Converting to a double and back returns the original number whenever a double can hold its value.",
IC,"all values of formats no wider than native double, all doubles exactly representable",
"native conversion is used by tests only for printing and a few constants",
[FL,T+"policy_flopoco.hpp"],[("construction from double",FL),("conversion to double",FL)],None,["converted value"]))
with open('/verif/properties.jsonl','w') as f:
    for p in L:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in L: jsonschema.validate(p,s)
print(len(L))
