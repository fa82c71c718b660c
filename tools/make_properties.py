#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property list)."""
import json, os
G, H, C = "grisu_exact.h", "fp_to_chars.h", "fp_to_chars/fp_to_chars.cpp"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CORE = [("rounding-interval selection per mode, sign and parity", G + ": grisu_exact_rounding_modes::*::delegate and operator()"),
        ("multiplier choice, endpoint and interval-length computation", G + ": grisu_exact_impl::compute step 1, compute_mul, compute_delta, cache_holder"),
        ("digit-count search (decreasing, then binary increasing)", G + ": grisu_exact_impl::compute step 2, increasing_search, is_zf_smaller_than_deltaf, is_zf_equal_to_deltaf"),
        ("boundary adjustment", G + ": grisu_exact_impl::compute, boundary_adjustment_label")]
RND = [("correct-rounding search", G + ": grisu_exact_impl::compute step 3, correct_rounding_search_label, correct_rounding_search_when_kappa_is_0_label")]
OBS = ["return value of jkj::grisu_exact"]
SAMPLE = "The existing test draws one million uniformly random values, default mode only, and looks at the round trip and at the number of digits"

prop("C01", "Round trip in every round-to-nearest mode",
     "For every finite non-zero float and double, every round-to-nearest mode (the six dynamic ones and the four static-boundary ones) and every correct-rounding setting, the decimal significand * 10^exponent that is returned is a real number that a correct reader applying that same rounding rule converts back to exactly the original value. In particular a result that lies exactly on the midpoint between two neighbouring values is returned only if that rule resolves the tie towards the input.",
     ["inputs", "configurations"], "all 2^32-2^25-2 finite non-zero floats and all finite non-zero doubles, times ten modes, times five settings",
     SAMPLE + " through this library's own default; the other nine modes, midpoints, subnormals and power-of-two edges are practically never met by uniform sampling.",
     [G], CORE, OBS)
prop("C02", "Shortest output in every round-to-nearest mode",
     "For every finite non-zero float and double, every round-to-nearest mode and every correct-rounding setting, no decimal with fewer significant digits than the one returned reads back, under that rounding rule, as the input. The number of digits and the decimal exponent do not depend on whether correct-rounding search is enabled.",
     ["inputs", "configurations"], "all finite non-zero inputs, ten modes, five settings",
     SAMPLE + "; a lost opportunity to drop a digit happens only when an interval endpoint is (nearly) a short decimal.",
     [G], CORE, OBS)
prop("C03", "Correctly rounded output in every round-to-nearest mode",
     "With correct-rounding search enabled (any tie policy) the decimal returned in a round-to-nearest mode is at least as close to the exact value of the input as every other decimal of the same, minimal, number of digits that reads back as the input.",
     ["inputs", "configurations"], "all finite non-zero inputs, ten modes, four tie policies",
     "No existing test compares the distance of alternatives with exact arithmetic in any mode but the default, and the verify_* programs re-derive bounds rather than run the conversion.",
     [G], CORE + RND, OBS)
prop("C04", "Tie-breaking policies do exactly what they say",
     "When two shortest candidates of minimal distance are equally far from the input, tie_to_even returns the one with the even significand, tie_to_odd the odd one, tie_to_up the larger magnitude and tie_to_down the smaller; when there is no such tie the four policies return the same decimal.",
     ["inputs", "configurations"], "all finite non-zero inputs, all fourteen modes, four policies; ties exist only for dyadic values of moderate exponent",
     "Only the default policy is ever run by the tests, and exact ties are a vanishing fraction of random inputs.",
     [G], [("tie-break policy tags", G + ": grisu_exact_correct_rounding::tie_to_*"),
           ("tie detection in the correct-rounding search", G + ": grisu_exact_impl::compute step 3 (equality of displacement and fractional parts; product-integer checks)")], OBS)
prop("C05", "Round trip in every directed rounding mode",
     "For toward_plus_infinity, toward_minus_infinity, toward_zero and away_from_zero, every finite non-zero float and double of either sign and every correct-rounding setting, the decimal returned lies in the half-open interval of reals that the directed rule maps to the input, so a reader applying that rule recovers it exactly. The side on which the interval extends depends on mode and sign, its closed end being the input itself.",
     ["inputs", "configurations"], "all finite non-zero inputs of both signs, four directed modes, five settings (the largest finite value's upper neighbour taken as if the exponent range continued)",
     "No test runs a directed mode at all.",
     [G], CORE + [("directed-mode sign dispatch", G + ": grisu_exact_rounding_modes::toward_plus_infinity/toward_minus_infinity/toward_zero/away_from_zero"),
                  ("successor of an all-ones significand", G + ": grisu_exact_impl::compute, fr == 0")], OBS)
prop("C06", "Shortest output in every directed rounding mode",
     "In the four directed modes, for either sign and every correct-rounding setting, no decimal with fewer significant digits than the one returned lies in the interval that the directed rule maps to the input.",
     ["inputs", "configurations"], "all finite non-zero inputs of both signs, four directed modes, five settings",
     "No test runs a directed mode at all; missing a shorter decimal needs an interval endpoint that is exactly or nearly a short decimal.",
     [G], CORE, OBS)
prop("C07", "Correctly rounded output in every directed rounding mode",
     "In the four directed modes, with correct-rounding search enabled, the decimal returned is the one closest to the input among all decimals of minimal length in the interval that the directed rule maps to the input; as these lie on one side of the input the four tie policies agree.",
     ["inputs", "configurations"], "all finite non-zero inputs of both signs, four directed modes, four policies",
     "No test runs a directed mode at all.",
     [G], CORE + RND, OBS)
prop("C08", "Results are canonical and bounded",
     "Whatever the mode, setting and sign, the significand returned is positive, has no trailing decimal zero, has at most 9 digits for float and 17 for double, and the exponent is such that significand * 10^exponent has the decimal magnitude of the input (scientific exponents -45..38 for float and -324..308 for double).",
     ["inputs", "configurations"], "all finite non-zero inputs, all fourteen modes, five settings, both return forms",
     "The string generator relies on these bounds (it asserts them and sizes its output by them); tests see them only through random default-mode output.",
     [G, C], [("minimal kappa and single final digit", G + ": grisu_exact_impl::compute"),
              ("digit-count precondition", C + ": decimal_length")], OBS)
prop("C09", "Static-boundary modes equal their dynamic counterparts",
     "Each of the four *_static_boundary modes returns, for every input of either sign and every correct-rounding setting, exactly the same result as the dynamic mode it is a specialisation of.",
     ["inputs", "configurations"], "all finite non-zero inputs, four mode pairs, five settings",
     "No test runs a static-boundary mode.",
     [G], [("static dispatch on significand parity or sign", G + ": grisu_exact_rounding_modes::*_static_boundary::delegate"),
           ("dynamic interval types", G + ": grisu_exact_rounding_modes::interval_type")], OBS)
prop("C10", "Sign handling and mirror symmetry",
     "The signed form reports the sign of the input and the unsigned form returns the same significand and exponent as the signed form; negating the input leaves significand and exponent unchanged in the sign-symmetric modes, and in the infinity-directed modes is equivalent to exchanging plus and minus infinity.",
     ["inputs", "configurations"], "all finite non-zero inputs, fourteen modes, five settings, signed and unsigned form",
     "The tests mostly exercise the default mode, in which sign cannot influence the digits.",
     [G], [("sign capture", G + ": grisu_exact_impl::compute, fp_t<Float,true>"),
           ("sign-dependent intervals", G + ": nearest_toward_plus_infinity, nearest_toward_minus_infinity, toward_plus_infinity, toward_minus_infinity")], OBS)
prop("C11", "Generated text denotes exactly the converted decimal",
     "For every finite non-zero input and every mode and correct-rounding setting, fp_to_chars and fp_to_chars_n write an optional minus sign, the decimal digits of the significand with a point after the first digit exactly when there are more, the letter E and the scientific exponent with neither plus sign nor leading zero; the digits and exponent are those of the converted decimal under the same mode and setting.",
     ["inputs", "configurations"], "all finite non-zero inputs, all modes and settings; every digit count 1..9/1..17, every digit pair at every position and every exponent width",
     "Tests parse default-mode text back; a wrong digit pair, a dropped inner zero or an ignored mode argument shows only for particular digit counts and positions.",
     [H, C], [("digit generation by pairs, 8-digit split", C + ": fp_to_chars_impl, radix_100_table, decimal_length"),
              ("mode forwarding", H + ": fp_to_chars_n, fp_to_chars")], ["bytes written by fp_to_chars / fp_to_chars_n"])
prop("C12", "Text is written within its bounds and terminated as documented",
     "For every bit pattern and mode, fp_to_chars_n returns the end of the text and modifies no byte outside [buffer, end); fp_to_chars returns the position of, and writes, exactly one additional NUL; the text with NUL fits the documented 31-byte buffer, and no address alignment, previous buffer content or exact-size buffer changes the result.",
     ["inputs", "configurations"], "all bit patterns including zeros, infinities and NaNs, all modes, arbitrary alignment and prior buffer content",
     "Tests use one oversized, aligned buffer and look only at the string.",
     [H, C], [("pointer arithmetic and fixed-width copies from the end of the digit run", C + ": fp_to_chars_impl"),
              ("termination", H + ": fp_to_chars")], ["memory around the caller's buffer", "returned pointer"])
prop("C13", "Zeros, infinities and NaNs are rendered as documented",
     "In every mode and setting, positive zero is rendered \"0E0\", negative zero \"-0E0\", the infinities \"Infinity\" and \"-Infinity\", and any NaN pattern renders as \"NaN\" (preceded by a minus sign at most where its sign bit is set) whatever its sign, payload or quiet bit; every finite non-zero value, however small or large, is rendered as a number.",
     ["inputs", "configurations"], "all 2^24-ish float and all double special patterns; the classification of all patterns",
     "No test feeds zero, infinity or NaN.",
     [H, G], [("classification before conversion", H + ": fp_to_chars_n"), ("bit tests", G + ": bit_representation_t")], ["text written"])
prop("C14", "Bit-level inspection classifies every pattern correctly",
     "For every bit pattern of either format, the inspection functions agree, at run time and in constant evaluation, with the IEEE-754 definition: finite, non-zero, subnormal (zeros included), sign, the infinities, NaN, quiet versus signalling, NaN payload, extracted significand and exponent fields, and conversion to and from the floating-point type preserves the pattern.",
     ["inputs"], "all 2^32 float patterns and all 2^64 double patterns",
     "No test calls these functions except indirectly for random finite values.",
     [G], [("bit_representation_t members", G + ": bit_representation_t"), ("get_bit_representation", G + ": get_bit_representation")], ["return values of bit_representation_t members"])
prop("C15", "Text reads back through standard parsers to the original bits",
     "Reading the generated text with a correctly rounding standard parser returns bit-for-bit the original value: under round-to-nearest-even for the default mode, and under the matching floating-point environment for the directed modes. Default-mode text has the same digits count as the platform's own shortest conversion.",
     ["inputs", "configurations"], "all finite values and the special ones, default and directed modes, as text through strtof/strtod/from_chars",
     "Tests do this for a million uniform random values in the default mode only, without short, subnormal, boundary or hard values.",
     [G, H, C], CORE + [("digit generation", C + ": fp_to_chars_impl")], ["text written, parsed by the C library"])
prop("C16", "Results depend on nothing but the arguments",
     "The result of a conversion is a function of its arguments alone: it is unaffected by earlier conversions in any order, mode, format or sign, by concurrent conversions in other threads, by the floating-point environment (rounding direction, flush-to-zero) or the locale, and it leaves that environment unchanged; concurrent use is free of data races.",
     ["histories", "schedules", "configurations"], "all histories of calls mixing values, formats, modes, settings and forms, on any number of threads, under any floating-point environment",
     "Tests call one function for independent random values on one thread in the default environment.",
     [G, H, C], [("stateless conversion over immutable tables", G + ": grisu_exact_impl, cache_holder, divisibility_test_table_holder"), ("static digit table", C + ": radix_100_table")],
     ["return values and text over call histories", "fenv flags and control words"])
prop("C17", "Same results on every platform path and build configuration",
     "Every supported build yields identical results for identical inputs: with native 128-bit arithmetic, with the portable 32-bit-limb arithmetic, with the compiler-intrinsic paths of the other supported compiler, for 32-bit and 64-bit targets, with any optimisation level, with assertions on or off, and with either compiler.",
     ["inputs", "configurations"], "all inputs, modes and settings, times the platform paths selected by the preprocessor",
     "The tests run on x86-64 and i686, default mode, uniform random values; carries between limbs that decide a digit are too rare for that.",
     [G], [("128-bit product paths", G + ": umul64, umul128, umul128_upper64, umul192_upper64, umul96_upper32, uint128"),
           ("count-trailing-zero paths", G + ": divisible_by_power_of_2"),
           ("path selection by preprocessor", G + ": #if blocks")], ["results of the differently built libraries on the same input"])
prop("C18", "No undefined behaviour, assertion failure or hang",
     "For every finite non-zero input, mode, setting and return form, and for every bit pattern given to the text functions and the inspection functions, execution is free of undefined behaviour and of failed internal assertions, and it terminates.",
     ["inputs", "configurations"], "all inputs, modes, settings and forms, in sanitized and assertion-enabled builds",
     "The tests are not sanitized, and cover only the default mode on random values.",
     [G, C], [("range assertions", G + ": assert() in compute, get_cache, floor_log*, divisible_by_power_of_*"),
              ("shift amounts and table indices", G + ": compute_mul, compute_delta, get_cache, umul*"),
              ("buffer offsets", C + ": fp_to_chars_impl")], ["process exit, sanitizer reports"])
prop("C19", "Integer logarithm helpers are exact over their documented ranges",
     "The helpers that compute floor(log10(2^e)), floor(log2(10^e)) and floor(log5(2^e)) return the exact floor for every integer e in the range documented for each (1650, 642 and 65536 in absolute value), both when evaluated at compile time and at run time.",
     ["inputs"], "every integer in the documented ranges (finite: enumerated completely by the generator)",
     "The existing verification recomputes them with the same fixed-point constants and reports a reached range without comparing it to the documented one.",
     [G], [("fixed-point log computations", G + ": floor_log10_pow2, floor_log2_pow10, floor_log5_pow2")], ["return values"])
prop("C20", "Power-of-ten tables are exact and cover every exponent",
     "Each entry of the precomputed power-of-ten tables is the normalised value of that power of ten at its full width, truncated for non-negative powers and rounded up for negative ones, and the tables cover exactly the powers that any finite input can require; consequently the conversion is exact even for the inputs nearest to a decision boundary at each power.",
     ["inputs", "configurations"], "every power of ten of both tables, and for each the inputs whose decisions depend on the most bits of it",
     "The cache generation test recomputes the entries but never compares them with the ones the conversion uses; a wrong low bit changes results only for a few inputs per exponent.",
     [G], [("tables", G + ": cache_holder<float>::cache, cache_holder<double>::cache"), ("indexing", G + ": get_cache, common_info::min_k, max_k")],
     ["table entries", "results of jkj::grisu_exact for hard inputs of every exponent"])
prop("C21", "Wide multiplication and divisibility helpers are exact",
     "The helpers that multiply 64-bit and 128-bit integers and those that test divisibility by a power of two or five agree with exact integer arithmetic for all operands in their domain, on the native and on the portable code path.",
     ["inputs", "configurations"], "all operands (64x64, 64x128, 32x64 bits; divisor exponents within the tables), each preprocessor path",
     "No test calls them directly; the operands reached through random conversions rarely produce carries between limbs or near-divisible values.",
     [G], [("products", G + ": umul128, umul128_upper64, umul192_upper64, umul96_upper32"), ("divisibility", G + ": divisible_by_power_of_2, divisible_by_power_of_5")], ["return values"])
prop("C22", "Tags, call forms and case handlers honour their contract",
     "The documented defaults (nearest-to-even, tie-to-even, assert-finite, signed form) apply when arguments are omitted; passing tags as temporaries, named or const objects makes no difference to the result; and a caller-supplied case handler is invoked exactly once per conversion, before it, with the exact bits of the input, without influencing the result. The returned object has the documented members: significand (an unsigned integer of the format's width), exponent (int), and is_negative in the signed form only.",
     ["inputs", "configurations", "programs"], "all finite non-zero inputs, all modes and settings, every way of omitting or passing tags and handlers",
     "Tests use one call form each and never supply a case handler.",
     [G, H], [("tag dispatch with forwarding references", G + ": grisu_exact, delegate"), ("case handlers", G + ": grisu_exact_case_handlers")], ["return values", "observed handler invocations"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
