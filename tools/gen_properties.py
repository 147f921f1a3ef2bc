#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in git; this is only its source form)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {})}})
IC = ["inputs", "configurations"]
PH, UH = "include/posit.h", "include/unpacked.h"
p("C01", "Decoding: every bit pattern denotes the value the posit format assigns to it",
  "For every posit type (width, exponent size, holder, fraction type, special-value policy) and every legal pattern, unpacking yields the class (zero, NaN, infinity with its sign, or regular) and, for regular patterns, exactly the sign, the power of two given by regime and exponent fields, and the fraction that the posit definition assigns to that pattern, with fields cut off by the end of the word read as zero. The unpacked fraction is left aligned and loses no bit when the fraction type is at least as wide as the posit's fraction.",
  IC, "all 2^N patterns of each instantiated posit type",
  "Tests decode a handful of patterns of a few types; the 32- and 64-bit types have too many patterns to enumerate.",
  [PH, "include/bithippop.hpp"], [("unpack_posit / unpack_low / unpacked_low2full", PH), ("decode_posit_rs (regime scan)", PH), ("findbitleftmostC, bitset_leftmost_get_const, cast_msb", "include/bithippop.hpp")], ["Posit::unpack()"])
p("C02", "Encoding truncates toward zero and saturates, never to zero, NaN or infinity",
  "Packing any unpacked regular value (any sign, exponent and fraction) gives the posit of largest magnitude not exceeding the value's magnitude, with the value's sign; a magnitude above the largest finite posit gives the largest finite posit and one below the smallest positive posit gives the smallest positive posit. Zero packs to zero, NaN to the NaN pattern (or to infinity where the type has no NaN), infinity to the infinity of its sign (or to NaN where the type has no infinity).",
  IC, "all unpacked values (class, sign, every exponent, every fraction) for each posit type",
  "The exponent/fraction space is 2^40..2^128; the tests pack a few dozen values, none at the saturation limits of full-width types.",
  [PH, UH], [("pack_posit / unpacked_full2low / pack_low", PH), ("clamp", UH), ("split_reg_exp, msb_exp, cast_msb", PH)], ["Posit(UnpackedT)", "pack_posit"])
p("C03", "Unpack/pack round trip is the identity and every result is a legal pattern",
  "Packing what unpacking gives returns the original pattern, for every legal pattern of every posit type. Every operation that returns a posit (constructors, arithmetic, negation, absolute value, inverse, halving, doubling, neighbours, constants) returns a legal pattern: an N-bit two's complement number, sign extended in its holder.",
  IC, "all patterns / all operand tuples for each posit type",
  "A pattern outside the N-bit range appears only for particular operands (for instance the NaN pattern of a type narrower than its holder); tests do not look at the holder's upper bits.",
  [PH], [("pack_posit / unpack_posit", PH), ("neg, abs, half, twice, next, prev, inv, operators", PH)], ["Posit::v after every public operation"])
p("C04", "Construction from float and double truncates the exact value",
  "Constructing a posit from any float or double (normal, subnormal, zero of either sign, infinity, any NaN payload) gives the posit of largest magnitude not exceeding the argument's, with its sign, saturated at the smallest and largest finite posit. Infinities and NaNs map to the type's infinity or NaN as in encoding, both zeros map to zero, and constructing from the raw bits of a float gives the same posit as constructing from the float.",
  IC, "all 2^32 floats and 2^64 doubles for each posit type",
  "Tests convert a few decimal constants; subnormals, NaN payloads and values near the saturation limits are never tried for all types.",
  [UH, PH, "include/floattraits.hpp"], [("unpack_xfloat / unpack_xfloati", UH), ("Posit(float), Posit(double), Posit(single_tag,..)", PH)], ["Posit(float).v", "Posit(double).v"])
p("C05", "Conversion to float and double is exact whenever the target can hold it",
  "Converting a posit to float or double gives exactly its real value when the target format can represent it, and otherwise the value truncated toward zero, clipped to the target's largest finite number; NaN converts to NaN, infinity to an infinity (of the same sign where infinities are signed) and zero to zero. Consequently converting any posit whose fraction and exponent fit the target format there and back returns the same posit.",
  IC, "all patterns of each posit type, both target formats",
  "Tests print or compare a few conversions; wide exponents (below 2^-126 or above 2^127) and narrow exponent types are not sampled.",
  [UH, PH], [("pack_xfloat / pack_xfloati", UH), ("operator float / operator double / as_float_bin", PH)], ["(float)p", "(double)p", "as_float_bin"])
p("C06", "Integer conversions truncate toward zero and saturate",
  "Constructing a posit from any int gives the posit of largest magnitude not exceeding it, with its sign. Converting a posit to int gives its value truncated toward zero, or the nearest int limit when out of range, and 0 for NaN and infinity; ints that are exactly representable survive the round trip.",
  IC, "all 2^32 ints; all patterns of each posit type",
  "Tests convert a few small integers; the exponent boundaries (magnitudes in [1,2) and at or above 2^31) are not among them.",
  [UH, PH, "include/fixedtraits.hpp"], [("unpack_int / unpack_xfixed", UH), ("pack_xfixed", UH), ("Posit(int), operator int", PH)], ["Posit(int).v", "(int)p"])
p("C07", "Negation and absolute value are exact",
  "Negation of a posit denotes exactly minus its value and is its own inverse; absolute value denotes exactly the magnitude and is never negative for a number. Zero is its own negative, NaN stays NaN, an unsigned infinity stays infinity and signed infinities exchange (or become positive under absolute value).",
  IC, "all patterns of each posit type, member and free-function forms",
  "Only a few patterns are negated by tests; the special pattern at the top of a type narrower than its holder is not.",
  [PH, "include/bithippop.hpp"], [("neg, abs, operator-, std::abs", PH), ("pcabs", "include/bithippop.hpp")], ["Posit::neg", "Posit::abs", "std::abs"])
p("C08", "Comparison operators order posits exactly as their real values",
  "For any two posits that are not NaN, the six comparison operators give exactly the order of the denoted real values (negative infinity below, positive infinity above all numbers), and equality holds exactly when the values are equal. When either operand is NaN every ordering comparison and equality are false and inequality is true; minimum and maximum return one of the operands, the smaller or larger one when neither is NaN.",
  IC, "all operand pairs of each posit type",
  "Tests compare few pairs; agreement of integer order with value order for every pair is a universal statement.",
  [PH], [("operator ==, !=, <, <=, >, >=", PH), ("std::min / std::max", PH)], ["comparison results"])
p("C09", "Multiplication returns the exact product truncated toward zero",
  "For any two numbers the product operator (and its compound-assignment form) returns the posit of largest magnitude not exceeding the exact real product, with the product's sign, saturating at the smallest and largest finite posit; zero times a number is zero. Multiplication is commutative bit for bit.",
  IC, "all operand pairs of each posit type whose fraction type holds the operands' fractions",
  "There are 2^64 pairs for 32-bit types; tests multiply a few dozen.",
  [PH, UH, "include/typehelpers.hpp"], [("operator* / operator*=", PH), ("Unpacked operator*", UH), ("extramul", "include/typehelpers.hpp")], ["(a*b).v"])
p("C10", "Division returns the exact quotient truncated toward zero",
  "For any number and any non-zero number the quotient operator (and its compound-assignment form) returns the posit of largest magnitude not exceeding the exact real quotient, with the quotient's sign, saturating at the smallest and largest finite posit. Zero divided by a non-zero number is zero and any number divided by one is itself.",
  IC, "all operand pairs with non-zero divisor of each posit type whose fraction type holds the operands' fractions",
  "There are 2^64 pairs for 32-bit types; tests divide a few dozen.",
  [PH, UH, "include/typehelpers.hpp"], [("operator/ / operator/=", PH), ("Unpacked operator/", UH), ("extradiv", "include/typehelpers.hpp")], ["(a/b).v"])
p("C11", "Addition and subtraction are faithful, and exact when representable",
  "For any two numbers, sum and difference (and compound addition) return the exact result when it is representable, and otherwise one of the two posits adjacent to it, saturating at the smallest and largest finite posit; when the added magnitudes have the same sign the result is the exact sum truncated toward zero. Adding zero returns the other operand unchanged, x minus x is zero, and addition is commutative bit for bit.",
  IC, "all operand pairs of each posit type whose fraction type is at least as wide as the posit",
  "There are 2^64 pairs for 32-bit types; operand pairs whose exponents differ by more than the word size are not in the tests.",
  [PH, UH], [("operator+, operator-, operator+=", PH), ("Unpacked operator+ / normalized", UH)], ["(a+b).v", "(a-b).v"])
p("C12", "The reciprocal is the truncated exact reciprocal",
  "The reciprocal of any non-zero number is the posit of largest magnitude not exceeding the exact reciprocal, with the operand's sign, saturating at the smallest and largest finite posit; it equals dividing one by the operand, and is exact for powers of two whose reciprocal is in range. The reciprocal of zero is what one divided by zero gives, the reciprocal of infinity is zero and NaN stays NaN.",
  IC, "all patterns of each posit type",
  "Tests invert a few values; the extreme regimes and special patterns are not included.",
  [PH, UH], [("Posit::inv, operator~, inv()", PH), ("Unpacked::inv", UH)], ["Posit::inv"])
p("C13", "Halving and doubling equal truncated multiplication by 1/2 and 2",
  "Halving (doubling) a number returns the posit of largest magnitude not exceeding exactly half (twice) its value, with its sign, saturating at the smallest positive and largest finite posit; zero, NaN and infinities are returned unchanged. The result never crosses zero or reaches NaN or infinity from a finite number.",
  IC, "all patterns of each posit type",
  "The carries between exponent and regime and the saturation at both ends occur for single patterns that the tests do not contain.",
  [PH], [("half, twice", PH)], ["Posit::half", "Posit::twice"])
p("C14", "Next and previous step to the adjacent posit and stop at the ends",
  "For every finite posit, next returns the smallest representable number greater than it and previous the largest one smaller, except that next of the largest finite and previous of the lowest finite posit return their argument; NaN and infinities are returned unchanged. Hence next and previous undo each other strictly inside the finite range, and repeated next from the lowest reaches every finite posit.",
  IC, "all patterns of each posit type",
  "The end points of each format are single patterns; tests walk only a few steps.",
  [PH], [("next, prev", PH)], ["Posit::next", "Posit::prev"])
p("C15", "NaN, infinity and zero follow the documented special-value algebra",
  "In sum, difference, product, quotient and fused multiply-add, a NaN operand always gives NaN; infinity minus an equal infinity, zero times infinity, infinity over infinity and zero over zero give NaN; infinity plus or times a non-zero number is an infinity of the proper sign, a number over infinity is zero and a non-zero number over zero is an infinity of its sign. In types without infinity those infinities are the single NaN, in types without NaN every such NaN is the single infinity; classification predicates agree with the format, and no arithmetic on finite operands (division by zero apart) gives NaN or infinity.",
  IC, "all operand tuples with at least one special operand, all three special-value policies",
  "Tests cover the special cases of one policy and a few operand orders only.",
  [PH, UH], [("UnpackedDualSel switches", UH), ("pack_low special cases, isNaN, isinfinity", PH)], ["results and predicates for special operands"])
p("C16", "Fused multiply-add rounds only once",
  "With a fraction type at least twice as wide as the posit, the fused multiply-add of any three numbers returns the exact value of a*b+c when representable and otherwise one of the two posits adjacent to it, saturating like addition; for every fraction type it is the packed sum of the unpacked product and the addend, the product never being rounded to posit precision. With a zero addend it equals the product, and with a unit factor it equals the sum (for non-zero operands).",
  IC, "all operand triples of each posit type",
  "The triple space is 2^96 for 32-bit types; tests contain no cancellation cases.",
  [PH, UH], [("fma", PH), ("Unpacked operator*, operator+", UH)], ["fma(a,b,c).v"])
p("C17", "Dot product accumulates unpacked and rounds once, for any length",
  "For any length n and any two sequences, the dot product is the left-to-right sum of the unpacked element products, each partial sum kept in unpacked precision and packed once at the end; it is zero for n below one and equals the plain product for n equal to one. It reads exactly the first n elements of each sequence, in order.",
  ["inputs", "configurations", "histories"], "all lengths and all element sequences",
  "Length is unbounded; the only test uses one short vector.",
  [PH], [("Posit::dot", PH), ("Unpacked operator+=", UH)], ["dot(..).v"])
p("C18", "Named constants and numeric limits denote what their names say",
  "In every posit type the constants zero, one, two, minus one and one half denote exactly those numbers, max, min and lowest denote the largest finite, smallest positive and lowest finite value, and NaN and the infinities are recognised by the matching predicates where the type has them. The standard numeric limits agree with these constants, report the extreme exponents of the format, say whether infinity and NaN exist, and give as epsilon the gap between one and the next posit.",
  ["configurations"], "every instantiated posit type including those narrower than their holder",
  "Constants are template expressions: they can be right for one configuration and wrong for another; tests check one or two configurations.",
  [PH, "include/posit8.hpp", "include/posit10.hpp", "include/posit12.hpp"], [("PositTrait constants", PH), ("numeric_limits<Posit>", PH)], ["Posit::one() etc."])
p("C19", "Unpacked soft-float converts IEEE formats losslessly, truncating otherwise",
  "Unpacking any bit pattern of a binary format (half, single, double, and the alternative 16- and 8-bit layouts) yields its exact class, sign, exponent and fraction (fraction truncated only when the fraction type is narrower), subnormals normalised. Packing gives the exact pattern when the value is representable, otherwise the value truncated toward zero and clipped to the largest finite number, with subnormals where the format has them; unpack followed by pack is the identity on every non-NaN pattern (up to the sign of zero).",
  IC, "all bit patterns of each format; all unpacked values; several fraction types",
  "Formats have up to 2^64 patterns; tests contain a few values and no subnormal round trip.",
  [UH, "include/floattraits.hpp"], [("unpack_xfloati, pack_xfloati, fraction_bit_extract", UH), ("single_trait, double_trait, half_trait, any_floattrait", "include/floattraits.hpp")], ["Unpacked::make_floati / pack_xfloati"])
p("C20", "Unpacked soft-float arithmetic is truncated exact arithmetic",
  "For unpacked operands with exponents away from the ends of the exponent type, quotient and reciprocal are the exact results truncated to the fraction width, and so is the product except that its last two fraction bits may be lost. For operands whose two lowest fraction bits are clear, the sum differs from the exact sum by less than four units in the last place of the larger operand (and is never larger in magnitude than the exact sum when signs agree). Negation flips exactly the sign of numbers and infinities, equality and inequality are complements with NaN unequal to everything, and special classes follow the same algebra as for posits.",
  IC, "all unpacked operand pairs, fraction types of 8 to 64 bits",
  "The operand space is 2^80 and up; tests compare a few values.",
  [UH, "include/typehelpers.hpp"], [("Unpacked operators + - * / inv == != unary -", UH), ("normalized", UH), ("nextintop", "include/typehelpers.hpp")], ["Unpacked results"])
p("C21", "Fixed-point conversion truncates toward zero and saturates",
  "Unpacking a fixed-point number with any number of fraction bits yields exactly its value (fraction truncated only when the fraction type is narrower); packing an unpacked value to fixed point yields it truncated toward zero to a multiple of the resolution, clipped to the format's limits, with 0 for NaN and infinity. Hence every fixed-point number whose significant bits fit the fraction type survives the round trip.",
  IC, "all fixed-point words and all unpacked values; several splits between integer and fraction bits",
  "Tests use a few small constants.",
  [UH, "include/fixedtraits.hpp"], [("unpack_xfixed, pack_xfixed", UH)], ["Unpacked::make_fixed / pack_xfixed"])
p("C22", "Tabulated 8-, 10- and 12-bit posits agree with the format for all operands",
  "For the table-driven posit types every unary operation (reciprocal, half, double, square, negation, conversion to and from float, double and int) and every sum, difference, product and quotient, over all operands, denotes the exact result truncated toward zero (sums and differences: faithful), with NaN propagated and division by zero giving NaN. Every table index used is inside its table, the named constants denote their numbers and the underlying generic posit of a tabulated value is the same pattern.",
  IC, "all 256, 1024, 4096 operands and all 65536 / 1048576 operand pairs",
  "The table tests only run the binaries; no expected value is checked for most entries.",
  ["include/posit8.hpp", "include/posit10.hpp", "include/posit12.hpp", "src/posit8.cpp", "src/posit10.cpp", "src/posit12.cpp", "src/posit8_gen.cpp", "src/posit10_gen.cpp", "src/posit12_gen.cpp"],
  [("table generators", "src/posit{8,10,12}_gen.cpp"), ("index computation uu()", "include/posit{8,10,12}.hpp")], ["posit8/10/12 operators"])
p("C23", "No operand makes the library execute undefined behaviour",
  "No public operation on posits or unpacked numbers shifts by the operand width or more, overflows signed arithmetic, divides by zero or counts leading zeros of zero, for any posit operands and for unpacked operands whose exponents are away from the ends of the exponent type (shifting a negative number left is not counted: compilers define it). Results therefore do not depend on the compiler or optimisation level.",
  IC, "all operands of every public operation of each posit type",
  "Undefined shifts happen to give plausible results on the test machine and only for extreme operands.",
  [PH, UH, "include/bithippop.hpp", "include/typehelpers.hpp"], [("shift amounts in pack_low, operator+, pack_xfixed, pack_xfloati", PH), ("findbitleftmostC preconditions", "include/bithippop.hpp")], ["UBSan-visible behaviour"])
p("C24", "Posits computed through native floating point truncate the native result",
  "For posit types that compute through float or double, conversion to the native type is exact for posits that fit it, and sum, product, quotient and reciprocal return the native IEEE result truncated toward zero to the posit format (saturating; half and double are exact when the native type holds every posit of the type), with zero operands of a sum returning the other operand. Unpacking, packing, ordering, negation and constants agree bit for bit with the integer-computed posit of the same format.",
  IC, "all operand pairs of each such type, IEEE operations taken as given",
  "Tests only instantiate the type.",
  ["include/positf.h"], [("PositF operators and conversions", "include/positf.h")], ["PositF results"])
p("C25", "Unit-range and activation shortcuts stay in range and keep their identities",
  "For posits without exponent bits, the unit-range complement of any x in [0,1] is exactly 1-x, and the unit-range predicate holds exactly for patterns denoting values in [0,1]. The fast sigmoid of any number lies in [0,1], is monotone non-decreasing in its argument and gives one half at zero (no exponent bits); the fast softplus of a number is never negative and never NaN (it may reach positive infinity only for the largest number of a type with signed infinities) and is monotone non-decreasing.",
  IC, "all patterns of each posit type, and all ordered pairs for monotonicity",
  "Not tested at all for negative arguments or for types narrower than their holder.",
  [PH], [("isUnitRange, urOneMinus, pseudosigmoid, pseudosoftplus", PH)], ["Posit::urOneMinus etc."])
p("C26", "Deferred-product mode fuses without changing plain products",
  "When the library is built with deferred products, a product used as a posit is the same pattern as without the option, a product plus or with a posit addend equals the fused multiply-add, and the sum or difference of two products is packed once from the unpacked products. Converting a deferred product to float, double or int equals converting the plain product.",
  IC, "all operand tuples of each posit type with the option on",
  "The test suite never compiles this option.",
  [PH], [("PositMul", PH)], ["expressions over products with the option on"])
p("C27", "Emulated small floats convert exactly and round trip",
  "For the emulated 8-, 16- (both layouts), 32- and 64-bit floats, conversion to the native type is exact for every pattern, construction from a native number truncates toward zero and clips to the largest finite value (infinity and NaN kept), and converting there and back is the identity on every non-NaN pattern up to the sign of zero. Negation and absolute value change only the sign bit, the portable half-float conversions agree with the same rules, and arithmetic is the truncated native result.",
  IC, "all patterns of each format and all native numbers, IEEE operations taken as given",
  "Tests print a few constants.",
  ["include/anyfloat.hpp", "include/float16native32.hpp", UH], [("anyfloat_emu conversions", "include/anyfloat.hpp"), ("float16nto32 / float32to16n portable path", "include/float16native32.hpp")], ["anyfloat_emu values"])
p("C28", "Bit-field helpers compute what their names promise for every input",
  "For every word of every supported width: the leading-zero count of a non-zero word is its number of leading zeros; the mask of n ones has exactly the n low bits set; field extraction, field insertion, leftmost-field extraction and the left- and right-aligned width changes move exactly the named bits and keep or clear exactly the others; integer absolute value is exact except for the most negative word. The full-width product and quotient helpers return the exact double-width product and the exact truncated quotient.",
  IC, "all words of 8, 16, 32 and 64 bits and all field positions",
  "Tests print a few examples and compare nothing.",
  ["include/bithippop.hpp", "include/typehelpers.hpp"], [("findbitleftmostC, bitmask, bitset_get, bitset_part, bitset_leftmost_get_const, cast_msb, cast_right_to_left, pcabs, pabs", "include/bithippop.hpp"), ("nextintop, int_least_bits", "include/typehelpers.hpp")], ["helper results"])
p("C29", "The tabulated 8-bit float gives the truncated native result for all operands",
  "For every operand or operand pair of the table-driven 8-bit float (5 exponent, 2 fraction bits): sum, product, quotient, reciprocal, halving, doubling and square denote the native single-precision result of the operands' values truncated toward zero to the format and clipped to its largest finite number (infinities and NaN kept), conversion to float is exact and converting back restores every number. Construction from int, float and double truncates, negation and absolute value change only the sign bit, and the comparisons order the denoted numbers, with every comparison involving NaN false except inequality.",
  IC, "all 256 patterns and 65536 pairs; all 2^32 ints and floats and 2^64 doubles",
  "The table-driven 8-bit float has no test at all.",
  ["include/binary8.hpp", "src/binary8.cpp", "src/binary8_gen.cpp", "include/anyfloat.hpp"], [("table operators", "include/binary8.hpp"), ("table generator", "src/binary8_gen.cpp"), ("constructors", "src/binary8.cpp")], ["binary8tab values"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
