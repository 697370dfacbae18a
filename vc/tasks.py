"""Proof tasks and the properties they decide."""
import fmtspec as fs
import strspec as ss
import layout as ly
import decspec as ds
import fixedspec as fx
import shortspec as sp
import verify
from fmtspec import HALF, BF16, QUAD, X87, PPC

BYNAME = {f.pkg: f for f in fs.ALL}
NFB = [HALF, QUAD, X87, PPC]

TASKS = {}          # id -> function returning the case tuple
CONTRACT = {}       # id of a task -> (function name, handler factory) usable at call sites once it is discharged
PROPS = {}          # property -> {"deps": [task ids], "main": [task ids]}


def task(tid, f):
    TASKS[tid] = f
    return tid


def nfb(f):
    return "NewFromBig/" + f.pkg


def big(f):
    return "Big/" + f.pkg


for f in fs.ALL:
    task(big(f), lambda f=f: fs.case_big(f))
    CONTRACT[big(f)] = (f.meth("Big"), lambda f=f: fs.big_contract(f))
    for n in fs.ACCESSORS[f.pkg]:
        task("%s/%s" % (n, f.pkg), lambda f=f, n=n: fs.case_accessor(f, n))
for f in NFB:
    task("Bits/" + f.pkg, lambda f=f: fs.case_bits(f))
    task(nfb(f), (lambda f=f: fs.case_newfrombig_ppc()) if f is PPC else (lambda f=f: fs.case_newfrombig(f)))
    if f is not PPC:
        CONTRACT[nfb(f)] = (f.fn("NewFromBig"), lambda f=f: fs.newfrombig_contract(f))
        task("Monotone/" + f.pkg, lambda f=f: fs.case_monotone(f))
        task("Regions/" + f.pkg, lambda f=f: fs.case_regions(f))
        task("Symmetric/" + f.pkg, lambda f=f: fs.case_symmetric(f))
    task("Named/" + f.pkg, lambda f=f: fs.case_named(f))
    for w in (32, 64):
        task("NewFromFloat%d/%s" % (w, f.pkg), lambda f=f, w=w: fs.case_fromfloat(f, w))
        task("Float%d/%s" % (w, f.pkg), lambda f=f, w=w: fs.case_tofloat(f, w))
    task("RoundTrip/" + f.pkg, lambda f=f: fs.case_roundtrip(f))
for w in (32, 64):
    task("HalfTrip%d" % w, lambda w=w: fs.case_halftrip(w))
    CONTRACT["NewFromFloat%d/binary16" % w] = (HALF.fn("NewFromFloat%d" % w), lambda w=w: fs.fromfloat_contract(HALF, w))


def frame(name, f, fn, mk, conc):
    return task("Frame/%s/%s" % (name, f.pkg), lambda: fs.case_frame(fn, mk, "frame", conc=conc))


FRAMES = []


def _frames():
    def pats(f):
        return lambda M: [fs.mkfloat(M, f, fs.words(f))]

    def cpat(f, op):
        return lambda M, m, args: {"fmt": f.pkg, "op": op, "ws": [str(fs.ev(m, w)) for w in fs.words(f)]}
    for f in fs.ALL:
        FRAMES.append(frame("Big", f, f.meth("Big"), pats(f), cpat(f, "big")))
        FRAMES.append(frame("NewFromBits", f, f.fn("NewFromBits"), lambda M, f=f: fs.words(f), cpat(f, "big")))
        for n in fs.ACCESSORS[f.pkg]:
            FRAMES.append(frame(n, f, f.meth(n), pats(f), cpat(f, "big")))
    for f in NFB:
        win = [(-1077, -1018), (1022, 1027)] if f is PPC else fs.exp_windows(f)
        FRAMES.append(frame("NewFromBig", f, f.fn("NewFromBig"),
                            lambda M, w=win: [fs.Ptr(M.S.alloc(fs.sym_big(M, windows=w)))],
                            lambda M, m, args, f=f: {"fmt": f.pkg, "op": "enc", "x": fs.conc_big(m)}))
        FRAMES.append(frame("Bits", f, f.meth("Bits"), pats(f), cpat(f, "big")))
        for w in (32, 64):
            FRAMES.append(frame("NewFromFloat%d" % w, f, f.fn("NewFromFloat%d" % w),
                                lambda M, f=f, w=w: [fs.sym_float(M, w, "f%d" % w, fs.float_windows(f, w))],
                                lambda M, m, args, f=f, w=w: {"fmt": f.pkg, "op": "from%d" % w, "bits": str(fs.ev(m, args[0].b))}))
            FRAMES.append(frame("Float%d" % w, f, f.meth("Float%d" % w), pats(f), cpat(f, "big")))


_frames()


def prop(pid, main, deps=()):
    PROPS[pid] = {"main": list(main), "deps": list(deps)}


prop("C01", ["Bits/" + f.pkg for f in NFB])
prop("C02", ["%s/%s" % (n, f.pkg) for f in fs.ALL for n in fs.ACCESSORS[f.pkg]])
prop("C03", [big(HALF)])
prop("C04", [big(BF16)])
prop("C05", [big(QUAD)])
prop("C06", [big(X87)])
prop("C07", [big(PPC)])
prop("C08", [nfb(HALF)])
prop("C09", [nfb(QUAD)])
prop("C10", [nfb(X87)])
prop("C11", [nfb(PPC)])
prop("C12", ["NewFromFloat%d/%s" % (w, f.pkg) for f in NFB for w in (32, 64)],
     [nfb(HALF), nfb(QUAD), nfb(X87), big(PPC)])
prop("C13", ["Float%d/%s" % (w, f.pkg) for f in NFB for w in (32, 64)], [big(f) for f in NFB])
prop("C14", ["RoundTrip/" + f.pkg for f in NFB] + ["HalfTrip32", "HalfTrip64"],
     [big(f) for f in NFB] + [nfb(HALF), nfb(QUAD), nfb(X87)])
prop("C15", [k + f.pkg for f in NFB[:3] for k in ("NewFromBig/", "Regions/", "Monotone/", "Symmetric/")])
task("TrimZeros", fs.case_trim)
CONTRACT["TrimZeros"] = (fs.TRIM, lambda: fs.trim_contract)
for n in (16, 32, 64):
    task("IsExact%d" % n, lambda n=n: fs.case_isexact_sound(n))
    task("IsExactComplete%d" % n, lambda n=n: fs.case_isexact_complete(n))
    task("Frame/IsExact%d" % n, lambda n=n: fs.case_frame_isexact(n))
prop("C16", FRAMES + ["Frame/IsExact%d" % n for n in (16, 32, 64)], ["TrimZeros", "NewFromFloat64/binary16"])
prop("C18", ["IsExact%d" % n for n in (16, 32, 64)], ["TrimZeros", "NewFromFloat64/binary16"])
prop("C20", ["IsExact%d" % n for n in (16, 32, 64)], ["TrimZeros", "NewFromFloat64/binary16"])
prop("C19", ["IsExactComplete%d" % n for n in (16, 32, 64)])
for _b in list(range(2, 37)) + [None]:
    task("Integer/%s" % (_b or "bad base"), lambda b=_b: verify.multi("internal/strconv integer formatting", "base %s" % (b or "outside 2..36"), ss.int_cases(b)))
prop("C21", ["Integer/%s" % (b or "bad base") for b in list(range(2, 37)) + [None]])
for _v in ("e", "E", "f", "g", "G", "other"):
    task("formatDigits/" + _v, lambda v=_v: ly.case_formatdigits(v))
    CONTRACT["formatDigits/" + _v] = (ly.FD, lambda v=_v: ly.formatdigits_for(v))
task("formatBits/10", ly.case_formatbits)
CONTRACT["formatBits/10"] = (ly.FB, lambda: ly.formatbits_contract)
for _f in ("Format", "Append"):
    for _n in (16, 32, 64):
        for _v in ("e", "E", "f", "g", "G", "b", "other"):
            task("%sFloat/%s/%d" % (_f, _v, _n), lambda f=_f, n=_n, v=_v: ly.case_layout(v, n, f == "Append"))
_c24 = ["formatDigits/" + v for v in ("g", "G", "e", "E", "f", "other")] + ["formatBits/10"]
prop("C24", ["%sFloat/%s/%d" % (f, v, n) for v in ("g", "G", "e", "E", "f", "b", "other") for f in ("Append", "Format") for n in (16, 32, 64)],
     _c24)
task("trim", ds.case_trim)
task("decimal.Assign", ds.case_assign)
task("decimal.Shift", ds.case_shift)
task("decimal.Round", ds.case_round)
task("decimal.RoundUp", ds.case_roundup)
task("decimal.RoundDown", ds.case_rounddown)
task("shouldRoundUp", ds.case_should)
for _k in range(61):
    task("leftShift/%d" % _k, lambda k=_k: ds.case_leftshift(k))
    task("rightShift/%d" % _k, lambda k=_k: ds.case_rightshift(k))
for _k in range(8):
    task("prefixIsLessThan/%d" % _k, lambda k=_k: ds.case_prefix(k, 8))
_dec = (["prefixIsLessThan/%d" % k for k in range(8)] + ["rightShift/%d" % k for k in range(60, -1, -1)] +
        ["leftShift/%d" % k for k in range(60, -1, -1)] +
        ["trim", "decimal.Assign", "decimal.Shift", "decimal.Round", "decimal.RoundUp", "decimal.RoundDown", "shouldRoundUp"])
prop("C25", _dec)
task("Normalize", fx.case_normalize)
task("Multiply", fx.case_multiply)
for _k in range(14):
    task("frexp10/%d" % _k, lambda k=_k: fx.case_frexp(k, 14))
for _k in range(32, 61):
    task("adjustLastDigitFixed/%d" % _k, lambda k=_k: fx.case_adjfixed(k))
    task("FixedDecimal/%d" % _k, lambda k=_k: fx.case_fixed_all(k))
for _f in ("Format", "Append"):
    for _n in (16, 32, 64):
        for _v in ("e", "E", "f", "g", "G"):
            task("Fixed/%sFloat/%s/%d" % (_f, _v, _n), lambda f=_f, n=_n, v=_v: ly.case_layout(v, n, f == "Append", "fixed"))
prop("C23", ["Fixed/%sFloat/%s/%d" % (f, v, n) for v in ("g", "G", "e", "E", "f") for f in ("Append", "Format") for n in (64, 32, 16)] +
     ["FixedDecimal/%d" % k for k in range(32, 61)] + _dec + ["adjustLastDigitFixed/%d" % k for k in range(32, 61)] +
     ["frexp10/%d" % k for k in range(14)] + ["Multiply", "Normalize"], _c24)
for _n in (16, 32, 64):
    task("AssignComputeBounds/%d" % _n, lambda n=_n: sp.case_bounds(n))
    task("roundShortest/%d" % _n, lambda n=_n: sp.case_roundshortest(n))
for _k in range(14):
    task("frexp10Many/%d" % _k, lambda k=_k: sp.case_many(k, 14))
task("adjustLastDigit", sp.case_adjust)
task("ShortestDecimal/integers", sp.case_integer)
for _k in range(32, 61):
    task("ShortestDecimal/%d" % _k, lambda k=_k: sp.case_shortest_all(k))
task("Lemmas/shortest", sp.case_lemmas)
for _f in ("Format", "Append"):
    for _n in (16, 32, 64):
        for _v in ("e", "E", "f", "g", "G"):
            task("Shortest/%sFloat/%s/%d" % (_f, _v, _n), lambda f=_f, n=_n, v=_v: ly.case_layout(v, n, f == "Append", "shortest"))
prop("C22", ["roundShortest/%d" % n for n in (64, 32, 16)] +
     ["Shortest/%sFloat/%s/%d" % (f, v, n) for v in ("g", "G", "e", "E", "f") for f in ("Append", "Format") for n in (64, 32, 16)] +
     ["ShortestDecimal/%d" % k for k in range(60, 31, -1)] + ["adjustLastDigit", "ShortestDecimal/integers"] +
     ["AssignComputeBounds/%d" % n for n in (64, 32, 16)] +
     ["frexp10Many/%d" % k for k in range(14)] + ["frexp10/%d" % k for k in range(14)] + ["Multiply", "Normalize", "Lemmas/shortest"] + _dec, _c24)
prop("C17", ["Named/" + f.pkg for f in NFB])
