#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so the text stays readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or []))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title)); P.append(d)
I=["inputs"]
ALL=["binary16/binary16.go","binary128/binary128.go","float80x86/float80x86.go","float128ppc/float128ppc.go","bfloat/bfloat.go"]
FOUR=ALL[:4]
SC="internal/strconv/"
p("C01","Bit patterns survive construction unchanged",
 "Building a number from a raw bit pattern and asking for its bits returns exactly the same pattern, for every pattern of every format that exposes its bits (half, quadruple, x87 extended, double-double), including NaN payloads, signalling NaNs, pseudo-denormals and unnormals.",
 I,"all 2^16, 2^128, 2^80 and 2^128 bit patterns","2^16..2^128 patterns; the tests try at most a few dozen per format and compare values rather than patterns.",
 FOUR,[("NewFromBits / Bits","binary16/binary16.go, binary128/binary128.go, float80x86/float80x86.go, float128ppc/float128ppc.go")])
p("C02","Field accessors return the documented bit fields",
 "For every bit pattern of the half, bfloat16, quadruple and x87 extended formats, the sign, biased exponent, fraction and (x87) explicit lead-bit accessors return exactly the documented bit ranges, so that together they determine the pattern. The double-double NaN predicate is true exactly when either component is NaN or the components are infinities of opposite sign.",
 I,"all bit patterns","The accessors have no tests of their own; the decoding tests sample under 100 patterns.",
 ALL,[("Signbit/Exp/Frac/Lead accessors","all five format packages"),("IsNaN","float128ppc/float128ppc.go")])
DEC="Decoding to arbitrary precision never panics and is exact for every %s pattern: normalized patterns give (-1)^s*2^(e-%s)*1.f, patterns with zero exponent give (-1)^s*2^(%s)*0.f keeping the sign of zero, %s"
p("C03","Half precision decoding is exact for every bit pattern",
 DEC%("16-bit","15","-14","and an all-ones exponent gives a correctly signed infinity when the fraction is zero. The not-a-number indicator is set exactly for an all-ones exponent with non-zero fraction, and then the returned number is a zero carrying the sign bit."),
 I,"all 65536 patterns","All 65536 patterns are quantified over; the committed test samples 60 of them (the generated exhaustive test is not in the tree).",
 ALL[:1],[("Big","binary16/binary16.go Float.Big")])
p("C04","bfloat16 decoding is exact for every bit pattern",
 DEC%("16-bit bfloat16","127","-126","and an all-ones exponent gives a correctly signed infinity when the fraction is zero. The not-a-number indicator is set exactly for an all-ones exponent with non-zero fraction, and then the returned number is a zero carrying the sign bit."),
 I,"all 65536 patterns","Ten patterns are tested, none subnormal, and NaN results are not compared at all.",
 ["bfloat/bfloat.go"],[("Big","bfloat/bfloat.go Float.Big")])
p("C05","Quadruple precision decoding is exact for every bit pattern",
 DEC%("128-bit","16383","-16382","and an all-ones exponent gives a correctly signed infinity when the fraction is zero. The not-a-number indicator is set exactly for an all-ones exponent with non-zero fraction (in either half), and then the returned number is a zero carrying the sign bit."),
 I,"all 2^128 patterns","2^128 patterns; the test samples 17.",
 ["binary128/binary128.go"],[("Big","binary128/binary128.go Float.Big")])
p("C06","x87 extended decoding is exact for every bit pattern",
 "Decoding to arbitrary precision never panics and is exact for every 80-bit pattern: a pattern with exponent field e other than all-ones gives (-1)^s*2^(e-16383)*l.f (with 2^-16382 instead when e is zero), l being the explicit lead bit, so subnormals, pseudo-denormals and unnormals have their literal value and zeros keep their sign. An all-ones exponent gives a correctly signed infinity exactly when the significand is 1 followed by zeros; every other significand sets the not-a-number indicator and returns a zero carrying the sign bit.",
 I,"all 2^80 patterns","2^80 patterns; the test samples 8 and all of its subnormal and extreme cases are commented out.",
 ["float80x86/float80x86.go"],[("Big","float80x86/float80x86.go Float.Big")])
p("C07","Double-double decoding is the exact sum of the two doubles",
 "Decoding a double-double never panics, and for every pair of doubles that is not NaN it returns exactly the sum of the two, an infinity when one of them is infinite, and a zero sum takes the sign of the high part. It reports not-a-number exactly when either double is NaN or both are infinite with opposite signs, and the number returned then is a zero carrying the sign of the high part.",
 I,"all 2^128 pairs of bit patterns","2^128 patterns, and exponent gaps up to 2098 between the halves; the round-trip test has 14 vectors and fails on one in the original tree.",
 ["float128ppc/float128ppc.go"],[("Big","float128ppc/float128ppc.go Float.Big"),("IsNaN","float128ppc/float128ppc.go")])
ENC="Encoding an arbitrary-precision number returns the %s number nearest to it, ties going to the even pattern, with gradual underflow to subnormals and signed zero and overflow to a signed infinity, and never a NaN. The reported accuracy is Exact, Below or Above exactly as the encoded value equals, is less than or is greater than the argument; zeros and infinities keep their sign and are exact."
EQ="all arbitrary-precision numbers: any precision, rounding mode, sign and exponent"
p("C08","Encoding to half precision is correctly rounded, accuracy included",ENC%"half precision",I,EQ,
 "The argument ranges over an infinite set; the tests feed about 60 exactly representable doubles, so rounding, overflow, underflow and accuracy are never exercised.",
 ["binary16/binary16.go"],[("NewFromBig","binary16/binary16.go NewFromBig")])
p("C09","Encoding to quadruple precision is correctly rounded, accuracy included",ENC%"quadruple precision",I,EQ,
 "The argument ranges over an infinite set; the tests feed 10 doubles, all exactly representable.",
 ["binary128/binary128.go"],[("NewFromBig","binary128/binary128.go NewFromBig")])
p("C10","Encoding to x87 extended is correctly rounded, accuracy included",
 (ENC%"x87 extended precision")+" ".rstrip(),I,EQ,
 "The argument ranges over an infinite set; the tests feed 8 doubles, all exactly representable, with the extreme cases commented out.",
 ["float80x86/float80x86.go"],[("NewFromBig","float80x86/float80x86.go NewFromBig")])
P[-1]["statement"]="Encoding an arbitrary-precision number returns the x87 extended number nearest to it in canonical form (lead bit set exactly for normal numbers), ties going to the even significand, with gradual underflow to subnormals and signed zero and overflow to a signed infinity, and never a NaN. The reported accuracy is Exact, Below or Above exactly as the encoded value equals, is less than or is greater than the argument; zeros and infinities keep their sign and are exact."
p("C11","Encoding to double-double splits correctly and reports true accuracy",
 "Encoding an arbitrary-precision number to double-double never panics; the high part is the double nearest to it and, when that is finite, the low part is the double nearest to the exact remainder (overflow gives a signed infinity with a zero low part). The reported accuracy is Exact, Below or Above exactly as the sum of the two parts equals, is less than or is greater than the argument; zeros and infinities keep their sign and are exact.",
 I,"all arbitrary-precision numbers","Infinite input set; the only test (14 round trips, failing in the original tree) checks no inexact, overflowing or underflowing input.",
 ["float128ppc/float128ppc.go"],[("NewFromBig","float128ppc/float128ppc.go NewFromBig")])
p("C12","Conversion from float32/float64 is nearest, with true accuracy",
 "For every float32 and float64, converting to half, quadruple, x87 extended or double-double gives the nearest number of that format (ties to even) together with the accuracy of that conversion, and is exact for the three wider formats. A NaN becomes the format's NaN constant of the same sign, reported Exact.",
 I,"all 2^32 float32 and 2^64 float64 arguments, four formats","2^32 and 2^64 inputs per format; tests use about 80 doubles, all exactly representable, and never call the float32 constructors.",
 FOUR,[("NewFromFloat32 / NewFromFloat64","the four format packages")])
p("C13","Conversion to float32/float64 is correctly rounded, with true accuracy",
 "For every bit pattern of the half, quadruple, x87 extended and double-double formats, converting to float32 or float64 yields the nearest value of that type to the decoded number (ties to even, overflow to infinity, gradual underflow, sign of zero kept) and the matching accuracy; from half precision both are always exact. A not-a-number pattern yields a NaN with the pattern's sign, reported Exact.",
 I,"all bit patterns, both target types, four formats","2^16..2^128 patterns; the tests convert about 80 patterns to float64, none to float32, and none inexactly.",
 FOUR,[("Float32 / Float64","the four format packages")])
p("C14","Decode then encode is the identity",
 "Encoding the decoded value of any non-NaN half, quadruple or canonical x87 extended pattern gives back the identical pattern, reported Exact; the same holds for every double-double whose high part is the double nearest to the pair's sum, up to the sign of a zero low part. Half precision numbers also survive the trip through float32 and float64 unchanged.",
 I,"all non-NaN (canonical) patterns","2^16..2^128 patterns, reached only by the composition of two operations; the only round-trip test has 14 double-double vectors.",
 FOUR,[("Big then NewFromBig","the four format packages"),("Float64 then NewFromFloat64","binary16/binary16.go")])
p("C15","Encoding is monotone and sign-symmetric",
 "For the half, quadruple and x87 extended formats, x <= y implies that the encoding of x is at most the encoding of y (as numbers), and encoding -x gives the encoding of x with the sign flipped and the accuracy mirrored.",
 I,"all pairs of arbitrary-precision numbers","A relation between two runs over infinitely many pairs; no test compares two encodings.",
 FOUR[:3],[("NewFromBig","binary16/binary16.go, binary128/binary128.go, float80x86/float80x86.go")])
p("C16","Conversions have no side effects and share no memory",
 "No exported operation of the five format packages or of the top-level package changes the numbers passed to it (value, precision, rounding mode or accuracy) or the exported special values, and every arbitrary-precision result is freshly allocated. Hence equal inputs always give equal outputs, in any order of calls.",
 ["inputs","histories"],"all inputs and all sequences of calls","A frame condition over every input and call history; tests never look at an argument after a call.",
 ALL+["float.go"],[("NewFromBig","the four format packages"),("IsExact16/32/64","float.go")],
 state=[("exported special values","NaN, NegNaN, Inf, NegInf, Zero, NegZero","package-level variables of the four format packages")])
p("C17","The named special values are what their names say",
 "In each of the half, quadruple, x87 extended and double-double packages, NaN and NegNaN decode as not-a-number of positive and negative sign, Inf and NegInf as the infinities, Zero and NegZero as the signed zeros, and encoding an infinity or a zero yields exactly the corresponding named value.",
 ["inputs","histories"],"the 24 named values, at any point of any call history (nothing reassigns them)","The tests use literal patterns and never mention the named values.",
 FOUR,[("var NaN...NegZero","the four format packages"),("NewFromBig special cases","the four format packages")])
p("C18","IsExact16/32/64 never claim exactness wrongly",
 "If IsExact16, IsExact32 or IsExact64 answers true for a number, then that number converts to the 16-, 32- or 64-bit IEEE format and back without changing its value.",
 I,"all arbitrary-precision numbers","Infinite input set; the top-level package has no tests at all.",
 ["float.go","binary16/binary16.go"],[("IsExact16/32/64","float.go")])
p("C19","IsExact16/32/64 recognise representable numbers",
 "IsExact16, IsExact32 and IsExact64 answer true for every number that is exactly representable in the 16-, 32- or 64-bit IEEE format.",
 I,"all numbers representable in the respective format (2^16, 2^32, 2^64)","2^64 representable values; the top-level package has no tests at all.",
 ["float.go",SC+"ftoa.go",SC+"extfloat.go",SC+"decimal.go"],[("IsExact16/32/64, trimZeros","float.go"),("shortest formatting","internal/strconv/ftoa.go")])
p("C20","IsExact16/32/64 answer for every number",
 "IsExact16, IsExact32 and IsExact64 return normally for every non-nil number, whatever its precision, exponent, sign or rounding mode; both zeros and both infinities are reported exact.",
 I,"all arbitrary-precision numbers","Infinite input set; no tests at all in the top-level package.",
 ["float.go"],[("IsExact16/32/64, trimZeros","float.go")])
p("C21","Integer formatting writes the exact numeral in every base",
 "For every signed or unsigned 64-bit integer and every base from 2 to 36, the formatted text is the canonical numeral of that integer (lower-case digits, leading minus sign for negatives, no leading zeros), and the appending forms append exactly that text after an unchanged prefix. A base outside 2..36 panics.",
 I,"all 2^64 integers, 35 bases, both signednesses","2^64 values times 35 bases; the package has no tests.",
 [SC+"itoa.go"],[("formatBits, small","internal/strconv/itoa.go")])
p("C22","Shortest float formatting round-trips and is shortest",
 "Formatting a finite float with precision -1 for 16, 32 or 64 bits gives a decimal that rounds back (to nearest even) to exactly that float, no decimal with fewer significant digits does, and among the decimals of that length that round back to the float it is the closest to it.",
 I,"all finite 16-, 32- and 64-bit floats","2^64 values and two algorithms with a data-dependent hand-over between them; the package has no tests.",
 [SC+"ftoa.go",SC+"extfloat.go",SC+"decimal.go"],[("fast shortest algorithm","internal/strconv/extfloat.go ShortestDecimal"),("exact fallback","internal/strconv/ftoa.go bigFtoa, roundShortest")])
p("C23","Fixed-precision float formatting is correctly rounded",
 "Formatting a finite float with a non-negative precision in the %e, %f or %g style gives the exact value of the float correctly rounded (ties to even) to the requested number of digits.",
 I,"all finite 16-, 32- and 64-bit floats, all precisions","2^64 values times unbounded precisions; the package has no tests.",
 [SC+"ftoa.go",SC+"extfloat.go",SC+"decimal.go"],[("fast fixed algorithm","internal/strconv/extfloat.go FixedDecimal"),("exact fallback","internal/strconv/ftoa.go bigFtoa, decimal.go Round")])
p("C24","Float text has the documented shape",
 "For every sequence of decimal digits and decimal point, the text is laid out exactly as documented: a minus sign exactly for negative values (including -0), one digit before the point and an exponent of at least two digits in %e, no exponent in %f, the binary mantissa and exponent in %b; NaN and signed infinities print as NaN, +Inf and -Inf. The appending form leaves the bytes already in the buffer unchanged.",
 I,"all floats, format letters and precisions","The package has no tests.",
 [SC+"ftoa.go"],[("fmtE, fmtF, fmtB, formatDigits","internal/strconv/ftoa.go")])
p("C25","Multiprecision decimal arithmetic is exact",
 "The multiprecision decimals used as the exact fallback of float formatting hold exactly the integer assigned to them, multiply or divide by any power of two exactly as long as the result has at most 800 digits (and say so when digits are dropped), and round to n digits to nearest with ties to even, always staying in canonical form.",
 ["inputs","histories"],"all decimals of up to 800 digits, all shift counts, all digit counts, all sequences of these operations","An unbounded family of digit strings and operation sequences; the package has no tests.",
 [SC+"decimal.go"],[("Assign, Shift, Round, RoundUp, RoundDown","internal/strconv/decimal.go")],
 state=[("decimal","digits, digit count, decimal point, truncation flag","internal/strconv/decimal.go")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
