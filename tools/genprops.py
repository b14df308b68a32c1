#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": list(over), "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": list(files),
                     "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                     "mechanism": [dict(name=a, where=b) for a, b in mech],
                     "observe_at": list(observe), "hook_needed": hook}}
    P.append(d)

F16, F128, F80, PPC, BF = ("binary16/binary16.go", "binary128/binary128.go",
    "float80x86/float80x86.go", "float128ppc/float128ppc.go", "bfloat/bfloat.go")

p("C01", "binary16 decodes every bit pattern to its exact IEEE half value",
  "For every 16-bit pattern, NewFromBits(...).Big() is exactly the number IEEE 754 half precision assigns to that pattern (normal, subnormal, signed zero, signed infinity), and reports nan=true exactly for the NaN patterns, with the sign of the NaN on the returned zero. The returned big float has 11 bits of precision and rounds to nearest even.",
  ["inputs"], "all 65536 bit patterns",
  "TestNewFromBits samples about 50 patterns, mostly powers of two; fractions inside a binade and most subnormals are never decoded.",
  [F16], [("Float.Big", F16), ("Float.Exp/Frac/Signbit", F16)], observe=["binary16.Float.Big"])
p("C02", "bfloat decodes every bit pattern to its exact bfloat16 value",
  "For every 16-bit pattern, bfloat NewFromBits(...).Big() is exactly the number the bfloat16 format assigns to it, that is, the float32 whose upper 16 bits are the pattern (normal, subnormal, signed zero, signed infinity), and reports nan=true exactly for the NaN patterns, with the sign of the NaN on the returned zero. The returned big float has 8 bits of precision and rounds to nearest even.",
  ["inputs"], "all 65536 bit patterns",
  "The only test decodes ten patterns and no subnormal.",
  [BF], [("Float.Big", BF)], observe=["bfloat.Float.Big"])
p("C03", "binary128 decodes every bit pattern to its exact IEEE quad value",
  "For every 128-bit pattern, NewFromBits(...).Big() is exactly the number IEEE 754 quadruple precision assigns to it (normal, subnormal, signed zero, signed infinity), with no rounding, and reports nan=true exactly for the NaN patterns, with the sign of the NaN on the returned zero. The returned big float has 113 bits of precision and rounds to nearest even.",
  ["inputs"], "all 2^128 bit patterns, as (a,b) pairs",
  "About 16 patterns are sampled; most have an all-zero or all-one fraction, so most bit positions of both words, and the joint between them, are not exercised.",
  [F128], [("Float.Big", F128), ("Float.Frac", F128)], observe=["binary128.Float.Big"])
p("C04", "float80x86 decodes every encoding from its explicit lead bit and fraction",
  "For every sign/exponent word and significand word whose exponent is not all ones, Big() is exactly (-1)^sign * 2^(max(exp,1)-16383) * significand/2^63, with the explicit lead bit taken from the encoding (normals, subnormals, pseudo-denormals, unnormals, signed zeros). With an all-ones exponent it is a signed infinity when the significand is exactly the lead bit and otherwise nan=true with the sign of the NaN on the returned zero; the returned big float has 64 bits of precision and rounds to nearest even.",
  ["inputs"], "all 2^80 encodings, as (se,m) pairs",
  "Eight encodings are tested, every one with a zero or saturated fraction; the subnormal and extreme rows are commented out.",
  [F80], [("Float.Big", F80), ("Float.Lead/Frac/Exp", F80)], observe=["float80x86.Float.Big"])
p("C05", "float128ppc decodes every pair of doubles to their exact sum",
  "For every pair of float64 bit patterns, Big() is the exact sum of the two doubles (never rounded, with at least 106 bits of precision, nearest even), an infinity when their sum is one, and -0 when high is -0 and the sum is zero. nan=true exactly when either double is NaN or they are infinities of opposite sign, IsNaN agrees with Big, and when high is a NaN its sign is on the returned zero.",
  ["inputs"], "all pairs of float64 bit patterns: canonical, overlapping, cancelling, far apart, infinite, NaN",
  "14 fixed pairs are tried, none infinite or NaN; that test is not in the stable set because it fails on a pair whose low part is subnormal.",
  [PPC], [("Float.Big", PPC), ("Float.IsNaN", PPC)], observe=["float128ppc.Float.Big", "float128ppc.Float.IsNaN"])
p("C06", "Bits and field accessors partition the encoding and give it back",
  "For every encoding, Bits() of a float built by NewFromBits returns the same words, unchanged, NaN payloads included. Signbit, Exp, Lead and Frac (where the format has them) are exactly the fields of that encoding: reassembling them gives the original words. Two floats made from the same words are == (unless float128ppc NaNs).",
  ["inputs"], "all encodings of binary16, bfloat, binary128, float80x86, float128ppc",
  "No test calls Signbit, Exp, Lead or Frac directly, and none checks Bits on a NaN payload.",
  [F16, BF, F128, F80, PPC], [("NewFromBits / Bits / Signbit / Exp / Lead / Frac", F16)],
  observe=["NewFromBits", "Bits", "Signbit", "Exp", "Lead", "Frac"])
RND = "rounded to nearest with ties to even, subnormals rounded at the subnormal spacing, values below half the smallest subnormal (and exactly half) giving a zero of the same sign, and values at or beyond the overflow threshold giving the infinity of the same sign"
for id, name, f, pk in (("C07", "binary16", F16, 11), ("C08", "binary128", F128, 113), ("C09", "float80x86", F80, 64)):
    p(id, f"{name}.NewFromBig rounds every big float to the nearest value, ties to even",
      f"For every big float x, of any precision, rounding mode and exponent, {name}.NewFromBig(x) is the canonical {name} encoding of x {RND}. Signed zeros and infinities map to themselves.",
      ["inputs"], "all big.Float values: any sign, precision, exponent in the int32 range, rounding mode; in particular values on, just below and just above each rounding boundary, including carries into the next binade, subnormals, and the overflow threshold",
      "NewFromBig is only reached through NewFromFloat64 with about 50 exactly representable values, so no rounding, overflow or subnormal case is ever checked.",
      [f], [("NewFromBig", f)], observe=[f"{name}.NewFromBig"])
p("C10", "float128ppc.NewFromBig gives the nearest double-double",
  "For every finite big float x, the high part of float128ppc.NewFromBig(x) is the float64 nearest x (ties to even) and the low part is the float64 nearest the exact difference x - high. When the nearest float64 is infinite the result is that infinity with a zero low part; signed zeros and infinities map to themselves.",
  ["inputs"], "all big.Float values: any sign, precision, exponent, rounding mode; in particular more than 106 bits, ties in either part, subnormal low parts, and the overflow threshold",
  "NewFromBig is only called on 14 values decoded at 106 bits of precision.",
  [PPC], [("NewFromBig", PPC)], observe=["float128ppc.NewFromBig"])
p("C11", "Reported accuracy is the true sign of the rounding error",
  "The big.Accuracy returned by NewFromBig, NewFromFloat64 and NewFromFloat32 of binary16, binary128, float80x86 and float128ppc is Exact, Below or Above exactly when the value of the returned float equals, is less than, or is greater than the argument. This holds for negative arguments, underflow to zero and overflow to infinity too.",
  ["inputs"], "all big.Float, float64 and float32 arguments of the four encoders",
  "Tests expect Exact almost everywhere, with inputs that are exactly representable; a single underflow row expects Below.",
  [F16, F128, F80, PPC], [("accuracy computation in NewFromBig", F16), ("NewFromFloat64/NewFromFloat32 propagate it", F16)],
  observe=["NewFromBig", "NewFromFloat64", "NewFromFloat32"])
p("C12", "NewFromFloat64 and NewFromFloat32 round once, to the nearest value",
  "For every float64 and float32 x that is not NaN, NewFromFloat64(x) and NewFromFloat32(x) of each encoding package give the value of the format nearest x (ties to even, one rounding only), keeping signed zeros and infinities, so they are lossless wherever the format can hold x. A NaN gives a NaN of the same sign, reported Exact.",
  ["inputs"], "all float64 and all float32 bit patterns, in binary16, binary128, float80x86, float128ppc",
  "Tests use exactly representable inputs, so double rounding, rounding and overflow are unseen; NewFromFloat32 is never called by the tests that run.",
  [F16, F128, F80, PPC], [("NewFromFloat64 / NewFromFloat32", F16)], observe=["NewFromFloat64", "NewFromFloat32"])
p("C13", "Float64 and Float32 narrow to the nearest value with the right accuracy",
  "For every encoding that is not NaN, Float64() and Float32() return the float64/float32 nearest its exact value (ties to even, one rounding, correct in the subnormal range), together with the sign of the rounding error. Magnitudes too small give a zero of the same sign (Below when positive, Above when negative) and magnitudes too large give an infinity (Above when positive, Below when negative).",
  ["inputs"], "all encodings of binary16, binary128, float80x86, float128ppc, in particular those next to float32/float64 rounding boundaries, subnormals and overflow thresholds",
  "Tests narrow only values that are exact in float64; Float32 is never called by the tests that run.",
  [F16, F128, F80, PPC], [("Float32 / Float64", F128)], observe=["Float32", "Float64"])
p("C14", "Decoding and re-encoding through Big preserves every number",
  "For every encoding that is not NaN, NewFromBig(f.Big()) denotes the same number (same sign of zero, same infinity) and is reported Exact, and it has the same bits whenever the encoding is canonical. Canonical means: any IEEE encoding; a float80x86 encoding whose lead bit is set exactly when its exponent is non-zero; a float128ppc pair whose high part is the double nearest the sum and whose low part is not -0. (The only exception: float128ppc pairs that are not canonical and whose sum no double-double holds, because the nearest double is an infinity.)",
  ["inputs"], "all non-NaN encodings of binary16, binary128, float80x86, float128ppc",
  "Only float128ppc has a round-trip test, over 14 pairs, and it is not in the stable set.",
  [F16, F128, F80, PPC], [("Float.Big then NewFromBig", F128)], observe=["Big", "NewFromBig", "Bits"])
p("C15", "NaN and the named special values keep their identity and sign everywhere",
  "The exported NaN, NegNaN, Inf, NegInf, Zero and NegZero of each package decode (Big, Float32, Float64) to the number, or the NaN, and the sign their name says (the zero Float{} of each package is +0), and converting any special value from float64/float32 or from Big gives a float that decodes back to the same kind and sign. For every NaN encoding, Float64 and Float32 return a NaN of the same sign, reported Exact (for float128ppc: the sign of high, when high is a NaN); no finite or infinite value is ever reported as NaN.",
  ["inputs"], "all NaN, infinite and zero encodings (every payload) of the four encoding packages and every named constant; all float64/float32 NaN, infinite and zero patterns",
  "Two NaN payloads per format are tested; float128ppc's special values and its NaN handling are not tested at all.",
  [F16, F128, F80, PPC], [("package constants", F16), ("NaN/Inf/zero cases of Big, NewFromBig, NewFromFloat64", F128)],
  observe=["NaN", "NegNaN", "Inf", "NegInf", "Zero", "NegZero", "Big", "Float64", "Float32"])
p("C16", "Conversions do not modify their argument and depend only on its value",
  "NewFromBig and IsExact16/32/64 leave the value, precision, rounding mode and accuracy of the big float passed to them unchanged. The result depends only on the value passed: the same number held at another (sufficient) precision or rounding mode gives identical bits, accuracy and verdict, and repeating a call or changing an earlier Big() result never changes later results.",
  ["inputs", "histories"], "all big.Float arguments with all (precision, mode) representations of the same value; all histories of calls that share arguments and results",
  "No test looks at an argument after the call, or passes the same value at two precisions or modes.",
  [F16, F128, F80, PPC, "float.go"], [("NewFromBig", PPC), ("IsExact16/32/64", "float.go"), ("Big returns a fresh value", F16)],
  observe=["NewFromBig", "IsExact16", "IsExact32", "IsExact64", "Big"])
p("C17", "Conversion chains through formats that can hold a value never change it",
  "Starting from any value, converting it through any sequence of formats (float32, float64, binary16, binary128, float80x86, float128ppc, via Big, Float32, Float64 and the NewFrom... constructors), each of which can represent it, preserves the number exactly, sign of zero included, with Exact reported at each step. Returning to the first format gives the original canonical bits.",
  ["histories", "inputs"], "all start values and all sequences of conversions between formats able to hold the value",
  "Tests only check one conversion at a time against a literal; no test chains two packages.",
  [F16, F128, F80, PPC, BF], [("Big / NewFromBig / NewFromFloat64 / NewFromFloat32 / Float64 / Float32", F128)],
  observe=["Big", "NewFromBig", "NewFromFloat64", "NewFromFloat32", "Float64", "Float32", "Bits"])
p("C18", "Encoding is monotone and symmetric in sign",
  "In each of binary16, binary128, float80x86 and float128ppc, x <= y implies that the value of NewFromBig(x) is at most the value of NewFromBig(y), and negating x flips exactly the sign of the result and swaps Below with Above. The same relations hold for NewFromFloat64 and NewFromFloat32.",
  ["inputs"], "all pairs of big.Float, float64, float32 arguments, in particular neighbours across binade, subnormal and overflow boundaries",
  "No test compares the encodings of two inputs, and nearly all inputs are positive.",
  [F16, F128, F80, PPC], [("NewFromBig sign and exponent handling", F16)], observe=["NewFromBig", "NewFromFloat64", "NewFromFloat32"])
p("C19", "IsExact16/32/64 never accept a value the format cannot represent",
  "IsExact16, IsExact32 and IsExact64 return true for a big float x only if x is exactly equal to some value of the IEEE 16-, 32- or 64-bit format (signed zeros and infinities included). In particular values that need more precision, a larger or smaller exponent, or finer subnormal spacing than the format has are rejected.",
  ["inputs"], "all big.Float values, in particular those one or a few bits away from a representable value and those just outside the exponent range",
  "The root package and its formatter have no tests at all.",
  ["float.go", "internal/strconv/ftoa.go", F16], [("IsExact16/32/64", "float.go"), ("strconv.FormatFloat shortest", "internal/strconv/ftoa.go")],
  observe=["float.IsExact16", "float.IsExact32", "float.IsExact64"])
p("C20", "IsExact16/32/64 accept every value the format represents",
  "IsExact16, IsExact32 and IsExact64 return true for every big float x that is exactly a value of the IEEE 16-, 32- or 64-bit format, signed zeros, subnormals and infinities included. They never panic.",
  ["inputs"], "all values of the three formats, held at any sufficient precision",
  "The root package has no tests at all.",
  ["float.go", "internal/strconv/ftoa.go", "internal/strconv/extfloat.go"], [("IsExact16/32/64, trimZeros", "float.go"), ("strconv.FormatFloat shortest", "internal/strconv/ftoa.go")],
  observe=["float.IsExact16", "float.IsExact32", "float.IsExact64"])
p("C21", "FormatFloat for 32 and 64 bits prints what Go's strconv prints",
  "For every float64 value, format among b, e, E, f, g, G, precision (negative for shortest, or any digit count) and bit size 32 or 64, the module's strconv FormatFloat returns the same text as the Go standard library: shortest output is the closest shortest text that parses back to the value, and fixed-precision output is the exact decimal value correctly rounded. A bit size other than 16, 32 or 64 panics, and a format letter that is none of these prints as % and the letter (infinities and NaN as ever).",
  ["inputs"], "all float64 bit patterns x formats x precisions x {32,64}",
  "internal/strconv was copied without its tests; nothing exercises it.",
  ["internal/strconv/ftoa.go", "internal/strconv/extfloat.go", "internal/strconv/decimal.go"],
  [("FormatFloat / genericFtoa", "internal/strconv/ftoa.go"), ("Grisu: ShortestDecimal, FixedDecimal", "internal/strconv/extfloat.go"), ("bigFtoa, roundShortest", "internal/strconv/ftoa.go"), ("decimal shifts and rounding", "internal/strconv/decimal.go")],
  observe=["internal/strconv.FormatFloat"])
p("C22", "FormatFloat for 16 bits prints shortest round-trip and exact fixed decimals",
  "With bit size 16, FormatFloat formats the half-precision value nearest its argument: the shortest form has the fewest significant digits that identify that value among all half-precision values and, among those, is the closest to it; a fixed-precision form is its exact decimal value correctly rounded; the b form is its integer significand and binary exponent. Zeros, infinities and NaN print as for the other sizes.",
  ["inputs"], "all 65536 half-precision values (and float64 values that round to them) x formats x precisions",
  "The 16-bit path is this project's own addition to the copied code and has no test.",
  ["internal/strconv/ftoa.go", "internal/strconv/extfloat.go", F16], [("genericFtoa case 16", "internal/strconv/ftoa.go"), ("float16info", "internal/strconv/ftoa.go")],
  observe=["internal/strconv.FormatFloat"])
p("C23", "Integer formatting matches Go's strconv in every base",
  "For every int64 and uint64 and every base from 2 to 36, FormatInt, FormatUint and Itoa return the same text as the Go standard library, so the text parses back to the same number. Any other base panics, as there.",
  ["inputs"], "all 64-bit integers x bases 2..36",
  "internal/strconv was copied without its tests.",
  ["internal/strconv/itoa.go"], [("formatBits, small", "internal/strconv/itoa.go")],
  observe=["internal/strconv.FormatInt", "internal/strconv.FormatUint", "internal/strconv.Itoa"])
p("C24", "Append functions append exactly the formatted text and keep the prefix",
  "AppendFloat, AppendInt and AppendUint return the destination's bytes followed by exactly what the matching Format function returns, whatever the destination's length and spare capacity. Over any sequence of appends to one buffer, earlier contents never change, and bytes of the underlying array beyond the appended text are left alone.",
  ["histories", "inputs"], "all sequences of appends with all values, formats, bases, and destination capacities",
  "internal/strconv was copied without its tests.",
  ["internal/strconv/ftoa.go", "internal/strconv/itoa.go"], [("AppendFloat", "internal/strconv/ftoa.go"), ("AppendInt/AppendUint", "internal/strconv/itoa.go")],
  observe=["internal/strconv.AppendFloat", "internal/strconv.AppendInt", "internal/strconv.AppendUint"])
p("C25", "Every conversion is total: no input panics",
  "No bit pattern, float64, float32 or big float (any precision, any exponent, zero value, infinity) makes NewFromBits, NewFromFloat32, NewFromFloat64, NewFromBig, Big, Float32, Float64, the accessors, IsNaN or IsExact16/32/64 panic, and no number, format letter, precision, base (2 to 36), bit size (16, 32, 64) or destination makes the Format and Append functions of internal/strconv panic.",
  ["inputs"], "all encodings and all arguments of the public API; all numbers, format letters, precisions and destinations of the internal formatting functions",
  "The inputs that lead to the panicking branches (parse failure, infinity arithmetic, missing exponent) are not in the tests.",
  [F16, F128, F80, PPC, BF, "float.go"], [("panic on parse error in Big", F128), ("big.Float arithmetic on infinities", PPC), ("panic in trimZeros", "float.go")],
  observe=["every exported function"])
p("C26", "Results are the same on 32-bit and 64-bit platforms",
  "Built for a 32-bit platform, every public function of the module satisfies the same contracts and returns the same result for the same input as on a 64-bit platform.",
  ["configurations", "inputs"], "word sizes 32 (GOARCH=386) and 64 (GOARCH=amd64), over the inputs of the other properties",
  "The tests run on one architecture only; int truncation, uint shifts and the 32-bit digit loops never execute there.",
  [F128, F80, "internal/strconv/itoa.go", "internal/strconv/decimal.go"], [("int conversions of exponents", F128), ("host32bit path", "internal/strconv/itoa.go"), ("uintSize/maxShift", "internal/strconv/decimal.go")],
  observe=["every exported function, built with GOARCH=386"])
p("C27", "Concurrent conversions of shared values do not race or disturb each other",
  "Any number of goroutines may decode shared floats, format numbers, and encode or test (NewFromBig, IsExact16/32/64) one shared big float at the same time: there is no data race and each call returns what it returns alone.",
  ["schedules", "inputs"], "all interleavings of concurrent calls that share their arguments and the package variables",
  "No test starts a goroutine.",
  [F16, F128, F80, PPC, "float.go", "internal/strconv/ftoa.go"], [("no package-level mutable state, no writes to arguments", PPC)],
  observe=["race detector report", "results of concurrent calls"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
