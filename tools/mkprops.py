#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))
S, A, D, C, R, U = ("src/serde.rs", "src/arith.rs", "src/decimal.rs", "src/cmp.rs", "src/round.rs", "src/utils.rs")
UNITS = [("intg / frac / lsu", "declared integral and fractional digits and nine little-endian base-10^9 units", D)]
prop("C01", "Parsing yields exactly the written number",
 "Whenever a numeric text is accepted, the decimal obtained denotes exactly the number written (sign, digits and power-of-ten exponent), nothing rounded, truncated or shifted. Its number of fractional digits is the count of written fractional digits minus the exponent, or zero if that is negative.",
 ["inputs"], "every accepted byte string: any placement of sign, point, exponent, leading and trailing zeros, up to 65 digits",
 "test_from_str asserts only that 14 strings parse, test_from_str_rand that parsing succeeds; about 50 sampled strings in test_to_string; digit positions that cross nine-digit groups and combine with exponents are an unbounded family",
 [S, U], [("from_bytes_str digit accumulation per nine-digit unit", S), ("exponent normalisation", S)], ["from_ascii_str / from_bytes_str / str::parse, then the textual and arithmetic observations"], UNITS)
prop("C02", "Parsing accepts exactly the documented numeric syntax",
 "A byte string is accepted exactly when it is an optional sign, digits with at most one point and at least one digit, optionally followed by e/E with an optionally signed exponent between -30 and 65, and the number of digits after applying the exponent (written leading zeros count; zeros supplied by the exponent count) is at most 65. Every other byte string, of any length and content, is refused with the conversion-syntax error. Parsing never panics.",
 ["inputs"], "all byte strings, including empty, non-ASCII, hundreds of digits, and exponents with arbitrarily many digits",
 "18 rejected and 14 accepted strings are sampled; the language is infinite and the limits interact (digits, point, exponent)",
 [S], [("single scan with dot/sign/exponent state", S), ("MAX_DIGITS and MAX_FRAC limits", S)], ["Result of from_ascii_str, from_bytes_str and FromStr"])
prop("C03", "A failed parse leaves the target clean",
 "When parsing into an existing decimal fails, the target holds zero if resetting was requested and otherwise is unchanged; no partial digits, sign or scale of the refused text are ever left behind. A later successful resetting parse into that same target gives the same decimal as parsing into a fresh one.",
 ["inputs", "histories"], "every refused text (refused at any position), every previous content of the target, both reset modes, and every following parse",
 "the tests look only at is_err() and never at the target afterwards",
 [S], [("validation before any unit is written; set_zero on reset", S)], ["target observed after Err and after the next Ok"])
prop("C04", "Printing shows exactly the value",
 "Printing without a precision yields a minus sign exactly for negative values, the integral digits without superfluous leading zeros (a single 0 if there are none), and, when the decimal has fractional digits, a point followed by exactly that many digits. The printed digits are exactly those of the value, for values produced in any way (parsing, integers, arithmetic, rounding).",
 ["inputs", "histories"], "all reachable decimals: every combination of zero and non-zero nine-digit groups and every scale",
 "tests print a few dozen hand-picked values, mostly one or two groups wide",
 [S, U], [("append_str_buf / append_frac three-digit table walk", S), ("BIN2CHAR table and d3_to_str", U)], ["to_string(-1), append_str_buf(buf, -1)"], UNITS)
prop("C05", "Printing at a precision truncates or pads, never rounds",
 "Printing with precision n >= 0 yields the same sign and integral digits as the full printing, no point when n is 0, and otherwise a point followed by exactly n digits: the value's own digits cut off after n places, padded with zeros beyond its scale. Appending to a buffer adds exactly these characters after the bytes already there.",
 ["inputs"], "every reachable decimal and every precision n from 0 to beyond the storage width",
 "16 sampled (value, precision) pairs, none beyond two fractional groups",
 [S], [("append_str_buf precision branches", S)], ["to_string(n), append_str_buf(buf, n)"])
prop("C06", "Print then parse is the identity",
 "For every decimal whose full printing has at most 65 digits, parsing that printing succeeds and gives a decimal that compares equal to the original, has the same number of fractional digits and prints identically. This holds whatever computation produced the decimal.",
 ["inputs", "histories"], "all decimals reachable through any sequence of operations whose printing has at most 65 digits",
 "no test composes printing and parsing on computed values",
 [S], [("from_bytes_str and append_str_buf being inverse", S)], ["to_string(-1) then from_ascii_str"])
prop("C07", "Addition and subtraction are exact",
 "Whenever the result fits the storage, adding or subtracting succeeds and gives exactly the mathematical sum or difference, for every combination of signs and scales. The result has the larger of the two numbers of fractional digits, except that when one operand is zero it takes the other operand's (either one's when both are zero).",
 ["inputs"], "all pairs of decimals: every alignment of integral and fractional groups, carries and borrows running through any number of groups, all sign combinations",
 "about 30 sampled pairs per operation; carry/borrow chains across misaligned groups are a combinatorial family",
 [A], [("add_abs / sub_abs three-segment walk with carry or borrow", A), ("sign dispatch in add_to / sub_to", A)], ["add_to, sub_to"], UNITS)
prop("C08", "Multiplication is exact unless digits must be dropped",
 "The product has as many fractional digits as the operands together and is exact, as long as those fit in 36 fractional digits and, with the groups of nine needed by the operands' significant integral digits together, in nine groups of storage. Otherwise whole groups of low fractional digits are dropped: the result then has the sign of the exact product unless it is zero, never exceeds it in magnitude, and falls short by less than 20 units in its last kept place. A zero operand gives zero.",
 ["inputs"], "all pairs of decimals, including products at and just beyond the storage limits",
 "25 sampled small products; none truncated, none wider than three groups",
 [A], [("mul_abs schoolbook product with shift_units", A)], ["mul_to"], UNITS)
prop("C09", "Division gives the truncated quotient at the documented scale",
 "For a non-zero divisor the quotient is the exact quotient truncated toward zero at the result scale, with the sign of the exact quotient unless it is zero. The result scale is the sum of the operand scales, each rounded up to a multiple of nine, plus whatever part of the requested extra precision that rounding did not already provide, rounded up to a multiple of nine, limited to 36 and to what the integral part leaves of the nine groups of storage. A zero dividend gives zero.",
 ["inputs"], "all dividends and non-zero divisors, one to nine groups each, all trial-quotient corrections (including add-back), every requested extra precision",
 "about 110 sampled quotients; the rare correction steps of long division occur for a fraction around 1e-9 of random inputs and are not sampled at all",
 [A], [("div_abs: Knuth algorithm D on base-10^9 units", A), ("result scale computation with incr_frac", A)], ["div_to with extra precision, Div"], UNITS)
prop("C10", "Remainder matches truncated division and the dividend's sign",
 "For a non-zero divisor the remainder is exactly dividend minus divisor times the integer-truncated quotient: smaller in magnitude than the divisor and, unless zero, with the dividend's sign, whatever the divisor's sign. A non-zero remainder has the larger of the two numbers of fractional digits.",
 ["inputs"], "all dividends and non-zero divisors with any alignment of groups and scales",
 "about 130 sampled pairs, nearly all with quotients below 10^10",
 [A], [("rem_abs: aligned short/long division and denormalisation", A)], ["rem_to, Rem"], UNITS)
prop("C11", "Division by zero is always and only reported for a zero divisor",
 "Division and remainder report the division-by-zero error exactly when the divisor's value is zero, whatever its scale, sign, or the computation that produced it, and whatever the dividend (also zero). After that error the destination holds zero.",
 ["inputs", "histories"], "all zero divisors however produced (parsed with any scale, cancelled, rounded, truncated) and all non-zero ones however small",
 "no test divides by zero at all",
 [A], [("leading non-zero unit search in div_abs / rem_abs", A)], ["Result of div_to / rem_to, destination afterwards"])
prop("C12", "Arithmetic never panics and reports overflow only when warranted",
 "The fallible add, subtract, multiply, divide and remainder forms always return success or an error, never panic, for all operands and any requested extra precision. Overflow is reported exactly when, leading zeros never counting: for division the integral quotient has more than 81 digits; for multiplication the operands' integral digits together need more than nine groups of nine; for addition and subtraction of non-zero operands the widest integral part of operands and result plus the widest fractional part, in groups, exceed nine. Remainder never overflows.",
 ["inputs", "histories"], "all operand pairs including 81-digit operands, scales up to 81, operands with declared leading zeros, and any extra precision",
 "no test reaches a result wider than five groups and none expects an overflow",
 [A, U], [("MAX_UNITS checks", A), ("get_units table", U)], ["Result of *_to, absence of panics"])
prop("C13", "Rounding is half away from zero at every position",
 "Rounding to n fractional digits (n may be negative to round integral digits) gives the multiple of 10^-n nearest to the value, ties away from zero, carries included; integral rounding that leaves nothing gives zero. The result depends only on the value and n, never on how the value was produced, and rounding to at least the current number of fractional digits leaves the value unchanged. Rounding never panics unless the rounded value does not fit the nine groups of storage.",
 ["inputs", "histories"], "all reachable decimals and all n of any size, positive or negative, including n at multiples of nine and beyond the storage",
 "about 110 samples, with n between -9 and 10 and mostly one-unit values; ties at group boundaries in the integral part and padding to another group are not sampled",
 [R], [("round / round_to segment selection", R), ("round_half_up carry propagation", R)], ["round, round_to"], UNITS)
prop("C14", "In-place and copying rounding agree and set the scale",
 "Rounding in place and rounding into a destination give the same decimal (value, number of fractional digits, printing) and the copying form leaves its source untouched. The result of rounding to n has max(n, 0) fractional digits, n being first limited to what the integral part leaves of the nine groups of storage; the zero left by integral rounding has none.",
 ["inputs", "histories"], "all reachable decimals, all n, any previous destination content",
 "tests compare both forms on the same ~110 samples through printing only",
 [R], [("two separate code paths round and round_to", R)], ["round vs round_to, frac()"])
prop("C15", "Comparison is the numeric total order",
 "Comparing two decimals always agrees with comparing the numbers they denote: sign, scale, trailing fractional zeros and declared leading zeros never matter, and zeros are always equal to each other. Equality, the ordering operators, minimum, maximum and sorting all agree with that order.",
 ["inputs"], "all pairs (and triples for transitivity) of reachable decimals with any mix of group counts",
 "about 30 sampled pairs; computed values with padded integral groups and negative values of different widths are not sampled",
 [C], [("cmp sign dispatch and cmp_abs_lsu unit walk", C)], ["cmp, ==, <, sort"], UNITS)
prop("C16", "Equal decimals hash equally",
 "Any two decimals that compare equal feed identical data to a hasher, so they behave as one key in hash maps and sets, regardless of scale, declared leading zeros or the computation that produced them.",
 ["inputs", "histories"], "all pairs of numerically equal reachable decimals",
 "two sampled pairs that share all group counts",
 [D], [("Hash implementation", D)], ["Hash via HashMap/DefaultHasher"])
prop("C17", "Conversion from integers is exact",
 "Converting any i64 or u64 gives a decimal denoting exactly that integer, with no fractional digits, equal to the decimal parsed from the integer's text and usable in every operation like it.",
 ["inputs"], "all 2^64 values of each type, including both extremes and values at powers of 10^9",
 "14 sampled integers",
 [D], [("From<i64> / From<u64> base-10^9 split", D)], ["From conversions then observations"])
prop("C18", "Conversion to integers rounds half away from zero and checks range",
 "Converting to i64 or u64 succeeds exactly when the decimal's own value lies within the target type's range (for u64 no negative value does), and then returns the value rounded half away from zero to an integer; otherwise it returns the out-of-range error. It never panics, never wraps and leaves the decimal unchanged.",
 ["inputs", "histories"], "all reachable decimals, in particular around the type limits with fractional parts, and fractions around one half",
 "11 + 9 sampled values, none with a fraction near the limits",
 [D], [("range comparison with MIN_I64/MAX_I64/MAX_U64 and lsu_to_i64/lsu_to_u64", D), ("round_to inside as_i64/as_u64", D)], ["as_i64, as_u64"])
prop("C19", "Zero is never negative",
 "No parse, integer conversion, arithmetic operation or rounding ever yields a zero that reports itself negative or prints a minus sign, whatever the signs of the inputs. Such zeros are reported as zero and compare equal to every other zero.",
 ["inputs", "histories"], "all operations and operand signs whose result is zero, including underflow in multiplication and division, cancellation, rounding down to zero and texts like -0.00",
 "two sampled cancellations",
 [D, S, R, A], [("set_neg_and_check_zero", D)], ["is_neg(), is_zero(), printing, comparison"])
prop("C20", "Results do not depend on the destination's previous content",
 "Every operation that writes into a given destination (arithmetic, copying rounding, resetting parse, set to zero or one) leaves there exactly what it would leave in a fresh zero, whatever the destination held before, including leftovers of a failed operation; only after an overflow error is the destination's content unspecified. The operands are never changed by it.",
 ["inputs", "histories"], "all operations, all previous destination contents (wider, narrower, negative, after an error)",
 "tests reuse one destination in a fixed order and look at printing only",
 [A, R, S, D], [("set_zero before writing; whole-struct copies", A)], ["destination observed after writing into dirty and into fresh decimals"])
prop("C21", "Numerically equal operands give numerically equal results",
 "Replacing an operand by another decimal with the same value and the same number of fractional digits, produced by different operations, never changes the value, scale or printing of an addition, subtraction, remainder, rounding, comparison, integer conversion or, as long as everything fits the storage limits, multiplication or division. Internal padding left by earlier operations is never observable there.",
 ["histories", "inputs"], "all pairs of histories that end in the same value and scale, followed by any operation",
 "tests only use freshly parsed operands, never computed ones",
 [A, R, C, D], [("declared integral digits of computed results (multiples of nine) versus parsed ones", A)], ["same operation on a computed and on a freshly parsed operand"], UNITS)
prop("C22", "Operators agree with the fallible forms",
 "The operators +, -, *, /, % return exactly the decimal (value, scale, printing) that the corresponding fallible form stores, division using an extra precision of four digits. They panic exactly when the fallible form returns an error.",
 ["inputs"], "all operand pairs for all five operators",
 "agreement sampled on the test vectors, never for the error cases",
 [A], [("impl Add/Sub/Mul/Div/Rem", A)], ["operators versus *_to"])
prop("C23", "Every decimal stays within its declared digits and capacity does not creep",
 "After any sequence of operations the declared integral digits cover the value's integral digits, the integral and fractional digits in groups of nine total at most nine groups, and no digits exist beyond the declared fraction. The integral groups declared for a sum, difference, quotient or remainder never exceed the largest of one, those its value needs and those an operand declared, and for a product those its operands' significant integral digits together need. So repeating an operation that keeps the value small never runs out of storage or loses digits.",
 ["histories"], "all operation sequences of any length",
 "no test chains two arithmetic operations",
 [A, R, D], [("result intg/frac computation at the end of add_abs, sub_abs, mul_abs, div_abs, rem_abs, round_half_up", A)], ["intg(), frac(), intg_units(), frac_units(), printing at full width"], UNITS)
prop("C24", "Sign and constant setters behave as their names say",
 "Zero and one (created or set) denote exactly 0 and 1 with one integral and no fractional digit; setting the sign negative or positive on a non-zero decimal changes only its sign, giving minus or plus its magnitude, and leaves a zero non-negative. The zero and negative tests report exactly whether the value is zero or negative, for every reachable decimal.",
 ["inputs", "histories"], "all reachable decimals as starting content and all sign-setting sequences",
 "test_one checks two predicates on the constant one",
 [D], [("zero/one/set_zero/set_one/set_neg/set_pos/is_zero/is_neg", D)], ["the predicates and printing after each setter"])
prop("C25", "Exchanging or negating operands changes results only as arithmetic says",
 "A sum and a product do not depend on the order of their operands and a difference only changes its sign when they are exchanged; x - y is x + (-y). Negating both operands negates a sum, difference and remainder and leaves a product and quotient as they are; negating only the divisor leaves the remainder, negating one operand negates a product or quotient. Rounding a negated decimal gives the negated rounding and comparing negated decimals the reversed order. All of this holds for the value, the scale of non-zero results and whether an error (and which) is reported, also where low digits are dropped.",
 ["inputs", "histories"], "all operand pairs and scales, including truncated products and quotients",
 "no test exchanges or negates operands",
 [A, R, C], [("add_to/sub_to/mul_to/div_to/rem_to and the *_abs functions", A), ("round", R), ("cmp", C)], ["results of the operation and of its mirror images"], UNITS)
prop("C26", "Operations have no memory",
 "The same call on the same arguments (operands, content of the destination, precision, text) gives the same answer (value, sign, scale, declared digits, text, order, hash or error) whatever calls were made before it, in whatever order, and whatever calls other threads make at the same time. Values are independent: no call changes another decimal than its destination.",
 ["histories", "schedules", "inputs"], "all sequences and interleavings of calls from any number of threads",
 "every test makes each call once, on one thread",
 [A, R, D, S, C], [("all public operations: pure functions of their arguments", A)], ["calls repeated in other orders and from several threads at once"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
