"""Contracts of the five format packages.

Each spec function below is the mathematical meaning taken from
properties.jsonl; it runs on symbolic numbers (as an obligation of the function
it describes, and as the callee contract at call sites)."""
from fractions import Fraction
import num
from num import L, zand, zor, znot, lo, hi, pow2
from core import GoPanic, Unsupported
from exec import Ptr
from floats import F, Mag, BF, BI, rnd, normexp, inunit, accof, signedadd, magdiff, integral
from verify import feq, bfeq, ev

MOD = "github.com/mewmew/float/"


class Fmt:
    def __init__(self, pkg, p, bias, ebits, words):
        self.pkg, self.p, self.bias, self.ebits, self.words = pkg, p, bias, ebits, words
        self.emax = (1 << ebits) - 1
        self.path = MOD + pkg

    def fn(self, n):
        return self.path + "." + n

    def meth(self, n):
        return "(" + self.path + ".Float)." + n


HALF = Fmt("binary16", 11, 15, 5, [16])
BF16 = Fmt("bfloat", 8, 127, 8, [16])
QUAD = Fmt("binary128", 113, 16383, 15, [64, 64])
X87 = Fmt("float80x86", 64, 16383, 15, [16, 64])
PPC = Fmt("float128ppc", None, None, 11, [64, 64])
IEEE = [HALF, BF16, QUAD]
ALL = [HALF, BF16, QUAD, X87, PPC]


def words(fmt, tag="b"):
    """Fresh symbolic bit pattern."""
    return [memo_fresh("%s_%s%d" % (fmt.pkg, tag, i), 0, (1 << w) - 1) for i, w in enumerate(fmt.words)]


def memo_fresh(name, lo_, hi_, sort="int"):
    kk = ("input", name)
    if kk not in num.MEMO:
        num.MEMO[kk] = num.Atom(name, sort, lo_, hi_, ("input", name))
    return num.atom(num.MEMO[kk])


def mkfloat(M, fmt, ws):
    """The Float value with a given bit pattern, built by the code's own NewFromBits."""
    return M.run(fmt.fn("NewFromBits"), ws)


def bitsof(M, fmt, v):
    r = M.run(fmt.meth("Bits"), [v])
    return list(r) if isinstance(r, tuple) else [r]


def fields(fmt, ws):
    """(sign, exponent, fraction-or-significand) of a bit pattern."""
    if fmt is X87:
        s, e = num.divmodc(ws[0], 1 << 15)
        return s, e, ws[1]
    if len(ws) == 1:
        mb = fmt.p - 1
        h, frac = num.divmodc(ws[0], 1 << mb)
    else:
        h, f1 = num.divmodc(ws[0], 1 << 48)
        frac = num.add(num.scale(f1, 1 << 64), ws[1])
    s, e = num.divmodc(h, 1 << fmt.ebits)
    return s, e, frac


def decode(M, fmt, ws):
    """Mathematical value of a bit pattern: ('nan'|'inf'|'zero', neg) or ('fin', neg, Mag)."""
    br = M.S.br
    if fmt is PPC:
        a = F.frombits(M, 64, ws[0])
        b = F.frombits(M, 64, ws[1])
        return decode_ppc(M, a, b)
    s, e, f = fields(fmt, ws)
    neg = br(num.cmp(s, "==", 1))
    if fmt is X87:
        if br(num.cmp(e, "==", fmt.emax)):
            return ("inf" if br(num.cmp(f, "==", 1 << 63)) else "nan", neg)
        if br(num.cmp(f, "==", 0)):
            # a zero significand denotes a zero whatever the exponent
            return ("zero", neg)
        f = f.tight(1) if isinstance(f, L) else f
        if br(num.cmp(e, "==", 0)):
            return ("fin", neg, Mag(f, -16382 - 63))
        e = e.tight(1, fmt.emax - 1) if isinstance(e, L) else e
        return ("fin", neg, Mag(f, num.sub(e, 16383 + 63)))
    mb = fmt.p - 1
    if br(num.cmp(e, "==", fmt.emax)):
        return ("inf" if br(num.cmp(f, "==", 0)) else "nan", neg)
    if br(num.cmp(e, "==", 0)):
        if br(num.cmp(f, "==", 0)):
            return ("zero", neg)
        f = f.tight(1) if isinstance(f, L) else f
        return ("fin", neg, Mag(f, 1 - fmt.bias - mb))
    e = e.tight(1, fmt.emax - 1) if isinstance(e, L) else e
    return ("fin", neg, Mag(num.add(f, 1 << mb), num.sub(e, fmt.bias + mb)))


def decode_ppc(M, a, b):
    a, b = a.classify(M), b.classify(M)
    if a.kind == "nan" or b.kind == "nan" or a.kind == b.kind == "inf" and a.neg != b.neg:
        return ("nan", a.neg)
    if a.kind == "inf":
        return ("inf", a.neg)
    if b.kind == "inf":
        return ("inf", b.neg)
    if a.kind == b.kind == "zero":
        return ("zero", a.neg)
    if a.kind == "zero":
        return ("fin", b.neg, b.mag)
    if b.kind == "zero":
        return ("fin", a.neg, a.mag)
    s = signedadd(M, a.neg, a.mag, b.neg, b.mag)
    if s is None:
        return ("zero", a.neg)
    return ("fin", s[0], s[1])


# ------------------------------------------------------------------ decoding

def big_contract(fmt):
    """Callee contract of Float.Big: a fresh number with the decoded value."""
    def h(M, f):
        ws = bits_any(M, fmt, f)
        d = decode(M, fmt, ws)
        S = M.S
        n = S.nobj
        prec = memo_fresh("prec_of_Big_%s" % fmt.pkg, fmt.p or 2099, 4294967295)
        b = BF(prec=prec, mode=0, acc=0, form={"nan": 0, "zero": 0, "fin": 1, "inf": 2}[d[0]], neg=d[1],
               mag=d[2] if d[0] == "fin" else None)
        return (Ptr(S.alloc(b)), d[0] == "nan")
    return h


def bits_any(M, fmt, f):
    if fmt is BF16:
        # no Bits method: rebuild the pattern from the accessors
        s = M.run(fmt.meth("Signbit"), [f])
        e = M.run(fmt.meth("Exp"), [f])
        fr = M.run(fmt.meth("Frac"), [f])
        s = 1 if M.S.br(s) else 0
        return [num.add(num.add(s << 15, num.scale(e, 1 << 7)), fr)]
    return bitsof(M, fmt, f)


def case_big(fmt):
    """Float.Big: C03-C07."""
    def setup(M):
        ws = words(fmt)
        M.S.env["ws"] = ws
        return [mkfloat(M, fmt, ws)]

    def post(M, args, out, ob):
        d = decode(M, fmt, M.S.env["ws"])
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        p, nan = out[1]
        S = M.S
        if not isinstance(p, Ptr) or p.path:
            ob("result is a number", False)
            return
        ob("result is freshly allocated", p.obj > S.env["nobj0"])
        ob("Not-a-Number exactly when the pattern says so", num.ziff(nan, d[0] == "nan"))
        x = S.heap[p.obj]
        want = BF(form={"nan": 0, "zero": 0, "fin": 1, "inf": 2}[d[0]], neg=d[1], mag=d[2] if d[0] == "fin" else None)
        ob("value is the decoded value (%s)" % d[0], bfeq(M, x, want), "%r vs %r" % (x, want))
        ob("accuracy of the result is Exact", num.cmp(x.acc, "==", 0))
        ob("precision suffices for every value", num.cmp(fmt.p or 2099, "<=", x.prec) if d[0] == "fin" else True)

    def conc(M, m, args):
        return {"fmt": fmt.pkg, "op": "big", "ws": [str(ev(m, w)) for w in words(fmt)]}
    return (fmt.meth("Big"), "all patterns", setup, post, conc)


# ------------------------------------------------------------------ encoding

def split_int(M, x, windows):
    """Case split: x is one concrete value inside the windows, symbolic between them."""
    br = M.S.br
    lo = None
    for a, b in windows:
        if br(num.cmp(x, "<", a)):
            return x.tight(lo, a - 1) if isinstance(x, L) else x
        while a < b:
            m = (a + b) // 2
            if br(num.cmp(x, "<=", m)):
                b = m
                if a == b:
                    return a
            else:
                a = m + 1
                if a == b:
                    break
        if br(num.cmp(x, "==", b)):
            return b
        lo = b + 1
    return x.tight(lo) if isinstance(x, L) else x


def sym_big(M, name="x", windows=()):
    """An arbitrary big.Float (forks over form and sign; the exponent takes
    each value of the windows in turn, and stays symbolic between them)."""
    S = M.S
    form = memo_fresh(name + "_form", 0, 2)
    sgn = memo_fresh(name + "_neg", 0, 1)
    mode = memo_fresh(name + "_mode", 0, 5)
    acc = memo_fresh(name + "_acc", -1, 1)
    neg = S.br(num.cmp(sgn, "==", 1))
    if S.br(num.cmp(form, "==", 0)):
        prec = memo_fresh(name + "_prec0", 0, 4294967295)
        return BF(prec, mode, acc, 0, neg)
    if S.br(num.cmp(form, "==", 2)):
        prec = memo_fresh(name + "_prec0", 0, 4294967295)
        return BF(prec, mode, acc, 2, neg)
    prec = memo_fresh(name + "_prec", 1, 4294967295)
    m = memo_fresh(name + "_m", Fraction(1, 2), 1, "real")
    S.assume(num.cmp(m, "<", 1))
    e = memo_fresh(name + "_e", -2147483648, 2147483647)
    e = split_int(M, e, windows)
    return BF(prec, mode, acc, 1, neg, Mag(m, e, num.sub(e, prec)))


def conc_big(m, name="x"):
    """Concrete big.Float from a model: the real mantissa is cut to 4000 bits."""
    A = num.MEMO
    g = lambda n: ev(m, num.atom(A[("input", name + "_" + n)])) if ("input", name + "_" + n) in A else 0
    form, neg = g("form"), g("neg")
    d = {"form": form, "neg": neg, "mode": g("mode"), "acc": g("acc")}
    if form != 1:
        d["prec"] = g("prec0")
        return d
    q = Fraction(g("m"))
    e = g("e")
    prec = g("prec")
    # the symbolic-exponent atoms win over (m, e): they carry value constraints
    return dict(d, prec=prec, m=str(q), e=e)


def encode(M, fmt, x):
    """Nearest pattern and accuracy for big.Float x: (words, acc)."""
    br = M.S.br
    p = fmt.p
    if fmt is X87:
        sg = 0x8000 if x.neg else 0
        def pat(e, m):
            return [num.add(sg, e), m]
    else:
        n = fmt.ebits + p           # total bits
        sg = 1 << (n - 1) if x.neg else 0
        def pat(code):
            c = num.add(sg, code)
            if len(fmt.words) == 1:
                return [c]
            a, b = num.divmodc(c, 1 << 64)
            return [a, b]
    if x.form == 0:
        return (pat(0, 0) if fmt is X87 else pat(0)), 0
    infp = pat(fmt.emax, 1 << 63) if fmt is X87 else pat(fmt.emax << (p - 1))
    if x.form == 2:
        return infp, 0
    mag = x.mag
    k = normexp(M, mag.t)
    K = num.add(mag.sh, k)                       # 2^(K-1) <= |x| < 2^K
    E = num.add(K, fmt.bias - 1)                 # biased exponent of a normal result
    ovf = -1 if x.neg else 1
    if br(num.cmp(fmt.emax, "<=", E)):
        return infp, ovf
    if br(num.cmp(1, "<=", E)):
        u = num.scale(mag.t, pow2(p - k))
        N = num.rne(u)
        integral(M, mag, num.sub(K, p), N, u)
        acc = accof(num.sub(N, u), x.neg)
        M.S.env["encoded"] = M.S.env.get("encoded", ()) + ((fmt, x.neg, mag, num.cmp(N, "==", u)),)
        if fmt is X87:
            if br(num.cmp(N, "==", 1 << p)):
                E, N = num.add(E, 1), 1 << (p - 1)
                if br(num.cmp(E, "==", fmt.emax)):
                    return infp, ovf
            return pat(E, N), acc
        code = num.add(num.scale(num.sub(E, 1), 1 << (p - 1)), N)
        if br(zand(num.cmp(N, "==", 1 << p), num.cmp(E, "==", fmt.emax - 1))):
            return infp, ovf
        return pat(code), acc
    s = 1 - fmt.bias - (p - 1)                   # exponent of the smallest subnormal
    if br(num.cmp(K, "<", s)):
        return (pat(0, 0) if fmt is X87 else pat(0)), -ovf
    u = inunit(M, mag, s)
    N = num.rne(u)
    integral(M, mag, s, N, u)
    acc = accof(num.sub(N, u), x.neg)
    M.S.env["encoded"] = M.S.env.get("encoded", ()) + ((fmt, x.neg, mag, num.cmp(N, "==", u)),)
    if fmt is X87:
        E = 1 if br(num.cmp(N, "==", 1 << 63)) else 0
        return pat(E, N), acc
    return pat(N), acc


def encode_ppc(M, x):
    """(high F, low F, acc)"""
    z0 = F(64, "zero", False)
    if x.form == 0:
        return F(64, "zero", x.neg), z0, 0
    if x.form == 2:
        return F(64, "inf", x.neg), z0, 0
    h, acc = rnd(M, 64, x.neg, x.mag)
    h = h.classify(M)
    if h.kind == "inf":
        return h, z0, (-1 if x.neg else 1)
    if h.kind == "zero":
        rem = (x.neg, x.mag)
    else:
        rem = signedadd(M, x.neg, x.mag, not h.neg, h.mag)
    if rem is None:
        return h, z0, 0
    l, _ = rnd(M, 64, rem[0], rem[1])
    return h, l, None


def newfrombig_contract(fmt):
    def h(M, p):
        x = M.load(p)
        ws, acc = encode(M, fmt, x)
        return (mkfloat(M, fmt, ws), acc)
    return h


def newfrombig_ppc_contract(M, p):
    x = M.load(p)
    h, l, acc = encode_ppc(M, x)
    if acc is None:
        raise Unsupported("contract of float128ppc.NewFromBig for inexact values")
    return (M.run(PPC.fn("NewFromBits"), [h.bits(M), l.bits(M)]), acc)


def exp_windows(fmt):
    """Exponents at which the result changes kind."""
    p = fmt.p
    lo = 1 - fmt.bias - (p - 1)
    return [(lo - 2, 2 - fmt.bias + 2), (fmt.emax - fmt.bias - 2, fmt.emax - fmt.bias + 3)]


def case_newfrombig(fmt):
    """NewFromBig: C08-C10, and its share of C16."""
    def setup(M):
        p = Ptr(M.S.alloc(sym_big(M, windows=exp_windows(fmt))))
        return [p]

    def post(M, args, out, ob):
        S = M.S
        x0 = S.env["heap0"][args[0].obj]
        ws, acc = encode(M, fmt, x0)
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        f, a = out[1]
        got = bitsof(M, fmt, f)
        ob("result is the nearest pattern", zand(*[num.cmp(g, "==", w) for g, w in zip(got, ws)]), "%r vs %r" % (got, ws))
        ob("accuracy is the sign of the rounding error", num.cmp(a, "==", acc), "%r vs %r" % (a, acc))
        ob("frame: argument unchanged", M.S.heap[args[0].obj] is x0 or samebf(M.S.heap[args[0].obj], x0))

    def conc(M, m, args):
        return {"fmt": fmt.pkg, "op": "enc", "x": conc_big(m)}
    return (fmt.fn("NewFromBig"), "all numbers", setup, post, conc)


def fromfloat_contract(fmt, w):
    """Callee contract of NewFromFloat32/64."""
    def h(M, x):
        x = x.classify(M)
        if x.kind == "nan":
            return (gval(M, fmt, "NegNaN" if x.neg else "NaN"), 0)
        ws, acc = encode(M, fmt, BF(53, 0, 0, {"zero": 0, "fin": 1, "inf": 2}[x.kind], x.neg, x.mag))
        return (mkfloat(M, fmt, ws), acc)
    return h


def case_newfrombig_ppc():
    """float128ppc.NewFromBig: C11."""
    win = [(-1077, -1018), (1022, 1027)]

    def setup(M):
        return [Ptr(M.S.alloc(sym_big(M, windows=win)))]

    def post(M, args, out, ob):
        S = M.S
        x = S.env["heap0"][args[0].obj]
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        f, a = out[1]
        got = [F.frombits(M, 64, fbits(M, w)).classify(M) for w in bitsof(M, PPC, f)]
        h, l, acc = encode_ppc(M, x)
        ob("high part is the nearest double", feq(M, got[0], h), "%r vs %r" % (got[0], h))
        l = l.classify(M)
        ob("low part is the double nearest to the remainder",
           got[1].kind == l.kind == "zero" or feq(M, got[1], l), "%r vs %r" % (got[1], l))
        if acc is None:
            h = h.classify(M)
            s = (h.neg, h.mag) if h.kind == "fin" else None
            if l.kind == "fin":
                s = signedadd(M, h.neg, h.mag, l.neg, l.mag) if s else (l.neg, l.mag)
            acc = signof(M, s, (x.neg, x.mag))
        ob("accuracy is the sign of (high + low) - x", num.cmp(a, "==", acc), "%r vs %r" % (a, acc))
        ob("frame: argument unchanged", samebf(S.heap[args[0].obj], x))

    def conc(M, m, args):
        return {"fmt": PPC.pkg, "op": "enc", "x": conc_big(m)}
    return (PPC.fn("NewFromBig"), "all numbers", setup, post, conc)


def signof(M, s, x):
    """Sign of the difference of two signed values (None: zero)."""
    if s is None:
        return 1 if x[0] else -1
    if s[0] != x[0]:
        return -1 if s[0] else 1
    return accof(magdiff(M, s[1], x[1]), s[0])


def samebf(a, b):
    """Identical record (frame condition)."""
    if a is b:
        return True
    if a.form != b.form or a.neg != b.neg:
        return False
    if a.form == 1 and a.mag.key != b.mag.key:
        return False
    return zand(num.cmp(a.prec, "==", b.prec), num.cmp(a.mode, "==", b.mode), num.cmp(a.acc, "==", b.acc))


# ------------------------------------------------------------------ bit patterns and fields

def case_bits(fmt):
    """C01: Bits(NewFromBits(b)) = b."""
    def setup(M):
        return words(fmt)

    def post(M, args, out, ob):
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        got = bitsof(M, fmt, out[1])
        ob("Bits of NewFromBits is the pattern", zand(*[num.cmp(g, "==", w) for g, w in zip(got, args)]),
           "%r vs %r" % (got, args))

    def conc(M, m, args):
        return {"fmt": fmt.pkg, "op": "bits", "ws": [str(ev(m, w)) for w in args]}
    return (fmt.fn("NewFromBits"), "all patterns", setup, post, conc)


ACCESSORS = {"binary16": ["Signbit", "Exp", "Frac"], "bfloat": ["Signbit", "Exp", "Frac"],
             "binary128": ["Signbit", "Exp", "Frac"], "float80x86": ["Signbit", "Exp", "Lead", "Frac"],
             "float128ppc": ["IsNaN"]}


def accessor_spec(M, fmt, ws, name):
    if fmt is PPC:
        return decode(M, fmt, ws)[0] == "nan"
    s, e, f = fields(fmt, ws)
    if name == "Signbit":
        return num.cmp(s, "==", 1)
    if name == "Exp":
        return e
    if fmt is X87:
        l, fr = num.divmodc(f, 1 << 63)
        return l if name == "Lead" else fr
    if fmt is QUAD:
        return num.divmodc(f, 1 << 64)
    return f


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return zand(*[same(x, y) for x, y in zip(a, b)])
    isb = lambda v: isinstance(v, bool) or not isinstance(v, (int, L, Fraction))
    if isb(a) or isb(b):
        return num.ziff(a, b)
    return num.cmp(a, "==", b)


def case_accessor(fmt, name):
    """C02."""
    def setup(M):
        ws = words(fmt)
        M.S.env["ws"] = ws
        return [mkfloat(M, fmt, ws)]

    def post(M, args, out, ob):
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        want = accessor_spec(M, fmt, M.S.env["ws"], name)
        ob(name + " is the documented field", same(out[1], want), "%r vs %r" % (out[1], want))

    def conc(M, m, args):
        return {"fmt": fmt.pkg, "op": "fields", "ws": [str(ev(m, w)) for w in words(fmt)]}
    return (fmt.meth(name), "all patterns", setup, post, conc)


# ------------------------------------------------------------------ named values

NAMED = ["NaN", "NegNaN", "Inf", "NegInf", "Zero", "NegZero"]


def gval(M, fmt, n):
    k = fmt.path + "." + n
    if k not in M.globobj:
        raise Unsupported("no package variable " + k)
    return M.baseheap[M.globobj[k]]


def case_named(fmt):
    """C17: by evaluation after package initialisation."""
    def setup(M):
        return []

    def post(M, args, out, ob):
        for n in NAMED:
            ws = [fbits(M, w) for w in bitsof(M, fmt, gval(M, fmt, n))]
            d = decode(M, fmt, ws)
            kind, neg = {"N": "nan", "I": "inf", "Z": "zero"}[n.replace("Neg", "")[0]], n.startswith("Neg")
            ob("%s is what its name says" % n, d[0] == kind and d[1] == neg, "%r" % (ws,))
        for n, form, neg in (("Inf", 2, False), ("NegInf", 2, True), ("Zero", 0, False), ("NegZero", 0, True)):
            for prec in (0, 1, 53, 5000):
                for mode in range(6):
                    for acc in (-1, 0, 1):
                        p = Ptr(M.S.alloc(BF(prec, mode, acc, form, neg)))
                        got = [fbits(M, w) for w in bitsof(M, fmt, M.run(fmt.fn("NewFromBig"), [p])[0])]
                        want = [fbits(M, w) for w in bitsof(M, fmt, gval(M, fmt, n))]
                        ob("encoding gives %s" % n, got == want, "%r vs %r" % (got, want))

    return (None, "named values of " + fmt.pkg, setup, post, lambda M, m, args: {"fmt": fmt.pkg, "op": "named"})


def fbits(M, w):
    return w.bits(M) if isinstance(w, F) else w


# ------------------------------------------------------------------ float32/float64

def float_windows(fmt, w):
    """Biased exponents of float<w> at which conversion to fmt changes kind, or conversely."""
    bias = 127 if w == 32 else 1023
    if fmt is PPC:
        return []
    top = (1 << (8 if w == 32 else 11)) - 1
    out = []
    for a, b in exp_windows(fmt):
        a, b = max(a - 1 + bias, 0), min(b - 1 + bias, top)
        if a <= b:
            out.append((a, b))
    return out


def sym_float(M, w, name, windows):
    """An arbitrary float<w>, by sign, exponent and fraction fields."""
    mb, eb = (23, 8) if w == 32 else (52, 11)
    s = memo_fresh(name + "_s", 0, 1)
    e = memo_fresh(name + "_e", 0, (1 << eb) - 1)
    f = memo_fresh(name + "_f", 0, (1 << mb) - 1)
    e = split_int(M, e, windows)
    b = num.add(num.add(num.scale(s, 1 << (mb + eb)), num.scale(e, 1 << mb)), f)
    return F(w, "bits", b=b)


def case_fromfloat(fmt, w):
    """C12."""
    win = float_windows(fmt, w)

    def setup(M):
        x = sym_float(M, w, "f%d" % w, win)
        M.S.env["x"] = x
        return [x]

    def post(M, args, out, ob):
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        r, a = out[1]
        got = bitsof(M, fmt, r)
        x = M.S.env["x"].classify(M)
        if x.kind == "nan":
            want = bitsof(M, fmt, gval(M, fmt, "NegNaN" if x.neg else "NaN"))
            ob("NaN becomes the NaN constant of the same sign",
               zand(*[num.cmp(fbits(M, g), "==", fbits(M, v)) for g, v in zip(got, want)]), "%r vs %r" % (got, want))
            ob("NaN is reported Exact", num.cmp(a, "==", 0))
            return
        v = BF(53, 0, 0, {"zero": 0, "fin": 1, "inf": 2}[x.kind], x.neg, x.mag)
        if fmt is PPC:
            want, acc = [x.bits(M), 0], 0
            ob("result is the number itself", ppc_same(M, got, v), "%r" % (got,))
        else:
            want, acc = encode(M, fmt, v)
            ob("result is the nearest pattern", zand(*[num.cmp(fbits(M, g), "==", u) for g, u in zip(got, want)]),
               "%r vs %r" % (got, want))
        ob("accuracy is the sign of the rounding error", num.cmp(a, "==", acc), "%r vs %r" % (a, acc))
        if fmt is not HALF:
            ob("wider formats are exact", num.cmp(acc, "==", 0))

    def conc(M, m, args):
        return {"fmt": fmt.pkg, "op": "from%d" % w, "bits": str(ev(m, args[0].b))}
    return (fmt.fn("NewFromFloat%d" % w), "all float%d" % w, setup, post, conc)


def ppc_same(M, ws, v):
    """The double-double ws denotes exactly v (sign of zero included)."""
    d = decode(M, PPC, ws)
    if d[0] == "nan" or {"zero": 0, "fin": 1, "inf": 2}[d[0]] != v.form or d[1] != v.neg:
        return False
    return v.form != 1 or num.cmp(magdiff(M, d[2], v.mag), "==", 0)


def pat_windows(fmt, w):
    """Biased exponents of fmt around the limits of float<w>."""
    lo, hi = (-149, 128) if w == 32 else (-1074, 1024)
    mn = -125 if w == 32 else -1021
    out = []
    for a, b in ((lo - 2, mn + 2), (hi - 2, hi + 2)):
        a, b = max(a - 1 + fmt.bias, 0), min(b - 1 + fmt.bias, fmt.emax)
        if a <= b:
            out.append((a, b))
    return out


def sym_pattern(M, fmt, windows, tag="p"):
    """Words of an arbitrary pattern, by fields."""
    s = memo_fresh(fmt.pkg + tag + "_s", 0, 1)
    e = memo_fresh(fmt.pkg + tag + "_e", 0, fmt.emax)
    e = split_int(M, e, windows)
    if fmt is X87:
        return [num.add(num.scale(s, 1 << 15), e), memo_fresh(fmt.pkg + tag + "_m", 0, (1 << 64) - 1)]
    if fmt is QUAD:
        h = memo_fresh(fmt.pkg + tag + "_h", 0, (1 << 48) - 1)
        return [num.add(num.add(num.scale(s, 1 << 63), num.scale(e, 1 << 48)), h),
                memo_fresh(fmt.pkg + tag + "_l", 0, (1 << 64) - 1)]
    mb = fmt.p - 1
    f = memo_fresh(fmt.pkg + tag + "_f", 0, (1 << mb) - 1)
    return [num.add(num.add(num.scale(s, 1 << (mb + fmt.ebits)), num.scale(e, 1 << mb)), f)]


def case_tofloat(fmt, w):
    """C13."""
    def setup(M):
        if fmt is PPC:
            ws = words(fmt)
        else:
            ws = sym_pattern(M, fmt, pat_windows(fmt, w) if fmt is not HALF else [])
        M.S.env["ws"] = ws
        return [mkfloat(M, fmt, ws)]

    def post(M, args, out, ob):
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        f, a = out[1]
        d = decode(M, fmt, M.S.env["ws"])
        if d[0] == "nan":
            g = f.classify(M)
            ob("not-a-number yields a NaN of the pattern's sign", g.kind == "nan" and g.neg == d[1], "%r %r" % (g, d))
            ob("not-a-number is reported Exact", num.cmp(a, "==", 0))
            return
        if d[0] == "fin":
            want, acc = rnd(M, w, d[1], d[2])
        else:
            want, acc = F(w, d[0], d[1]), 0
        ob("result is the nearest float%d" % w, feq(M, f, want), "%r vs %r" % (f, want))
        ob("accuracy is the sign of the rounding error", num.cmp(a, "==", acc), "%r vs %r" % (a, acc))
        if fmt is HALF:
            ob("half precision converts exactly", num.cmp(acc, "==", 0))

    def conc(M, m, args):
        return {"fmt": fmt.pkg, "op": "to%d" % w, "ws": [str(ev(m, x)) for x in M.S.env["ws"]]}
    return (fmt.meth("Float%d" % w), "all patterns", setup, post, conc)


# ------------------------------------------------------------------ round trips

def case_roundtrip(fmt):
    """C14: NewFromBig(Big(f)) = f."""
    def setup(M):
        if fmt is PPC:
            ws = words(fmt)
        else:
            ws = sym_pattern(M, fmt, [])
        M.S.env["ws"] = ws
        return []

    def post(M, args, out, ob):
        ws = M.S.env["ws"]
        d = decode(M, fmt, ws)
        if d[0] == "nan":
            return
        if fmt is X87:
            s, e, f = fields(fmt, ws)
            canon = num.ziff(num.cmp(e, "==", 0), num.cmp(f, "<", 1 << 63))
            if not M.S.br(canon):
                return
        if fmt is PPC:
            a, b = F.frombits(M, 64, ws[0]).classify(M), F.frombits(M, 64, ws[1]).classify(M)
            if d[0] == "fin":
                if a.kind not in ("fin", "zero") or a.neg != d[1]:
                    return
                h, _ = rnd(M, 64, d[1], d[2])
                if h.kind == "rnd":
                    # precondition: the nearest double is the high part
                    M.S.dec[("rndis", 64, d[1], d[2].key)] = h = a
                h = h.classify(M)
                if h.kind != a.kind or h.neg != a.neg:
                    return
                if a.kind == "fin" and not M.S.br(num.cmp(magdiff(M, h.mag, a.mag), "==", 0)):
                    return
            elif d[0] == "zero":
                if a.kind != "zero":
                    return
            else:
                # infinite sum: the high part must be that infinity
                if a.kind != "inf":
                    return
        try:
            f = mkfloat(M, fmt, ws)
            p, nan = M.run(fmt.meth("Big"), [f])
            ob("decoding does not report Not-a-Number", znot(nan))
            r, acc = M.run(fmt.fn("NewFromBig"), [p])
        except GoPanic as e:
            ob("no panic", False, str(e))
            return
        ob("no panic", True)
        got = bitsof(M, fmt, r)
        if fmt is PPC:
            g = [F.frombits(M, 64, fbits(M, x)).classify(M) for x in got]
            ob("high part returns", fsame(M, g[0], a), "%r vs %r" % (g[0], a))
            if d[0] == "inf":
                ob("low part of an infinity is zero or returns", g[1].kind == "zero" or fsame(M, g[1], b))
            else:
                ob("low part returns (up to the sign of a zero)",
                   g[1].kind == b.kind == "zero" or fsame(M, g[1], b), "%r vs %r" % (g[1], b))
        else:
            ob("the pattern returns", zand(*[num.cmp(fbits(M, g), "==", w) for g, w in zip(got, ws)]), "%r vs %r" % (got, ws))
        ob("reported Exact", num.cmp(acc, "==", 0))

    def conc(M, m, args):
        return {"fmt": fmt.pkg, "op": "roundtrip", "ws": [str(ev(m, x)) for x in M.S.env["ws"]]}
    return (None, "Big then NewFromBig, " + fmt.pkg, setup, post, conc)


def fsame(M, a, b):
    if a.kind != b.kind or a.neg != b.neg:
        return False
    return a.kind != "fin" or num.cmp(magdiff(M, a.mag, b.mag), "==", 0)


def case_halftrip(w):
    """C14: half precision through float32/float64."""
    def setup(M):
        ws = sym_pattern(M, HALF, [])
        M.S.env["ws"] = ws
        return []

    def post(M, args, out, ob):
        ws = M.S.env["ws"]
        d = decode(M, HALF, ws)
        if d[0] == "nan":
            return
        try:
            f = mkfloat(M, HALF, ws)
            x, a1 = M.run(HALF.meth("Float%d" % w), [f])
            r, a2 = M.run(HALF.fn("NewFromFloat%d" % w), [x])
        except GoPanic as e:
            ob("no panic", False, str(e))
            return
        got = bitsof(M, HALF, r)
        ob("the pattern returns", num.cmp(got[0], "==", ws[0]), "%r vs %r" % (got, ws))
        ob("both steps Exact", zand(num.cmp(a1, "==", 0), num.cmp(a2, "==", 0)))

    def conc(M, m, args):
        return {"fmt": "binary16", "op": "halftrip%d" % w, "ws": [str(ev(m, x)) for x in M.S.env["ws"]]}
    return (None, "half through float%d" % w, setup, post, conc)


# ------------------------------------------------------------------ monotonicity and symmetry

def region_code(M, fmt, reg, E, N):
    """Magnitude of an encoding as an ordered code, by region: 0 below the
    normal range (N units of the smallest subnormal), 1 normal (biased exponent
    E, significand N), 2 overflow or infinity.  This is encode() without sign."""
    p = fmt.p
    if reg == 2:
        return num.scale(fmt.emax, 1 << (p - 1))
    if reg == 0:
        return N
    code = num.add(num.scale(num.sub(E, 1), 1 << (p - 1)), N)
    if M.S.br(num.cmp(code, "<=", fmt.emax << (p - 1))):
        return code
    return fmt.emax << (p - 1)


def case_monotone(fmt):
    """C15, lemma over the contract of NewFromBig: |x| <= |y| implies code(x) <= code(y)."""
    def setup(M):
        return []

    def post(M, args, out, ob):
        br = M.S.br
        p = fmt.p
        v = []
        for n in ("x", "y"):
            reg = memo_fresh(n + "_reg", 0, 2)
            reg = 0 if br(num.cmp(reg, "==", 0)) else 1 if br(num.cmp(reg, "==", 1)) else 2
            E = memo_fresh(n + "_E", 1, fmt.emax - 1)
            if reg == 0:
                u = memo_fresh(n + "_u0", 0, 1 << (p - 1), "real")
                M.S.assume(num.cmp(u, "<", 1 << (p - 1)))
            else:
                u = memo_fresh(n + "_u1", 1 << (p - 1), 1 << p, "real")
                M.S.assume(num.cmp(u, "<", 1 << p))
            v.append((reg, E, u))
        (rx, Ex, ux), (ry, Ey, uy) = v
        # |x| <= |y|, in positional form
        if rx > ry:
            return
        if rx == ry == 0:
            M.S.assume(num.cmp(ux, "<=", uy))
        elif rx == ry == 1:
            M.S.assume(zor(num.cmp(Ex, "<", Ey), zand(num.cmp(Ex, "==", Ey), num.cmp(ux, "<=", uy))))
        cx = region_code(M, fmt, rx, Ex, num.rne(ux))
        cy = region_code(M, fmt, ry, Ey, num.rne(uy))
        ob("encoding is monotone", num.cmp(cx, "<=", cy), "%r %r" % (cx, cy))

    return (None, "monotone, " + fmt.pkg, setup, post, None)


def case_regions(fmt):
    """C15: the contract of NewFromBig is region_code() with a sign."""
    def setup(M):
        x = sym_big(M, windows=exp_windows(fmt))
        M.S.env["x"] = x
        return []

    def post(M, args, out, ob):
        br = M.S.br
        x = M.S.env["x"]
        ws, acc = encode(M, fmt, x)
        sg = (0x8000 if fmt is X87 else 1 << (fmt.words[0] - 1)) if x.neg else 0
        code = num.sub(ws[0], sg)
        if fmt is QUAD:
            code = num.add(num.scale(code, 1 << 64), ws[1])
        if fmt is X87:
            # canonical: value order is the order of exponent-major codes without the lead bit
            e, m = code, ws[1]
            if br(num.cmp(e, "==", fmt.emax)):
                code = num.scale(e, 1 << 63)
            elif br(num.cmp(1, "<=", e)):
                code = num.add(num.scale(num.sub(e, 1), 1 << 63), m)
            else:
                code = m
        if x.form == 0:
            ob("zero has code 0", num.cmp(code, "==", 0))
            return
        if x.form == 2:
            ob("infinity has the largest code", num.cmp(code, "==", region_code(M, fmt, 2, None, None)))
            return
        k = normexp(M, x.mag.t)
        K = num.add(x.mag.sh, k)
        E = num.add(K, fmt.bias - 1)
        if br(num.cmp(fmt.emax, "<=", E)):
            want = region_code(M, fmt, 2, None, None)
        elif br(num.cmp(1, "<=", E)):
            want = region_code(M, fmt, 1, E, num.rne(num.scale(x.mag.t, pow2(fmt.p - k))))
        else:
            s = 1 - fmt.bias - (fmt.p - 1)
            if br(num.cmp(K, "<", s)):
                want = 0           # below half of the smallest subnormal
            else:
                want = region_code(M, fmt, 0, None, num.rne(inunit(M, x.mag, s)))
        ob("code by region", num.cmp(code, "==", want), "%r vs %r" % (code, want))

    return (None, "regions, " + fmt.pkg, setup, post, None)


def case_symmetric(fmt):
    """C15: NewFromBig(-x) is NewFromBig(x) with the sign flipped (two runs of the body)."""
    def setup(M):
        x = sym_big(M, windows=exp_windows(fmt))
        if x.neg:
            from core import Dead
            raise Dead()
        M.S.env["x"] = x
        return []

    def post(M, args, out, ob):
        S = M.S
        x = S.env["x"]
        r = []
        try:
            for v in (x, x.rep(neg=True)):
                r.append(M.run(fmt.fn("NewFromBig"), [Ptr(M.S.alloc(v))]))
        except GoPanic as e:
            ob("no panic", False, str(e))
            return
        a, b = [bitsof(M, fmt, v[0]) for v in r]
        ob("the sign flips and nothing else", zand(num.cmp(num.add(a[0], 1 << (fmt.words[0] - 1)), "==", b[0]),
                                                   *[num.cmp(u, "==", v) for u, v in zip(a[1:], b[1:])]), "%r %r" % (a, b))
        ob("the accuracy is mirrored", num.cmp(r[0][1], "==", num.scale(r[1][1], -1)))

    def conc(M, m, args):
        return {"fmt": fmt.pkg, "op": "enc", "x": conc_big(m)}
    return (None, "symmetric, " + fmt.pkg, setup, post, conc)


# ------------------------------------------------------------------ frames

def case_frame(fn, mkargs, case, fresh=False, conc=None):
    """C16: nothing but fresh memory is written, and results share no memory."""
    def setup(M):
        return mkargs(M)

    def post(M, args, out, ob):
        S = M.S
        for i, a in enumerate(args):
            if isinstance(a, Ptr):
                ob("frame: argument unchanged", samebf(S.heap[a.obj], S.env["heap0"][a.obj]))
        if out[0] == "ret":
            vs = out[1] if isinstance(out[1], tuple) else (out[1],)
            for v in flat(vs):
                if isinstance(v, Ptr):
                    ob("result is freshly allocated", v.obj > S.env["nobj0"] and not v.path)
        ob("frame: nothing else is written", True)
    return (fn, case, setup, post, conc)


def flat(v):
    if isinstance(v, tuple):
        for x in v:
            yield from flat(x)
    else:
        yield v


# ------------------------------------------------------------------ IsExact

FF = MOD + "internal/strconv.FormatFloat"


def opaque_formatfloat(M, f, fmt, prec, size):
    """Callee contract of FormatFloat used by C18 and C20: some text, no panic."""
    f = f.classify(M)
    if f.kind != "fin":
        return run_body(M, FF, [f, fmt, prec, size])
    from exec import Opaque, mkstr
    return mkstr([("opq", Opaque("formatted", ("ff", f.neg, f.mag.key, fmt, prec, size)), num.fresh("fflen", 1, 1 << 40))])


def run_body(M, fn, args):
    old = M.nocontract
    M.nocontract = old | {fn}
    try:
        return M.run(fn, args)
    finally:
        M.nocontract = old


def exact_in(M, n, x):
    """Is the finite number x a value of the n-bit format? (a condition)"""
    if n == 16:
        # a number already shown to be encoded without error, with the value of x
        for fmt, neg, mag, exact in M.S.env.get("encoded", ()):
            if fmt is HALF and neg == x.neg and M.S.proves(exact) and \
                    M.S.proves(num.cmp(magdiff(M, mag, x.mag), "==", 0)):
                return True
        ws, acc = encode(M, HALF, x)
        return num.cmp(acc, "==", 0)
    f, acc = rnd(M, n, x.neg, x.mag)
    f = f.classify(M)
    return False if f.kind == "inf" else num.cmp(acc, "==", 0)


def text_e(M, neg, n=100):
    """Text('e', n) of a finite non-zero number: unknown digits and exponent."""
    from exec import Opaque, mkstr
    ds = [memo_fresh("td%d" % i, 49 if i == 0 else 48, 57) for i in range(n + 1)]
    ex = ("opq", Opaque("exponent", ("text_e",)), memo_fresh("explen", 3, 12))
    return mkstr(([b"-"] if neg else []) + [("c", ds[0]), b"."] + [("c", d) for d in ds[1:]] + [b"e", ex])


TRIM = MOD[:-1] + ".trimZeros"


def trim_contract(M, s):
    from exec import Opaque, mkstr, pieces
    # the precondition: a text of the form [-]d.ddd(100 digits)e(exponent)
    ps = [] if isinstance(s, bytes) else [q for p in pieces(s) for q in (list(p) if isinstance(p, bytes) else [p])]
    if ps and ps[0] == 45:
        ps = ps[1:]
    isdig = lambda q: isinstance(q, tuple) and q[0] == "c" and num.cmp(48, "<=", q[1]) is True and num.cmp(q[1], "<=", 57) is True
    if not (len(ps) == 104 and isdig(ps[0]) and ps[1] == 46 and all(map(isdig, ps[2:102])) and ps[102] == 101 and
            isinstance(ps[103], tuple) and ps[103][0] == "opq" and ps[103][1].name == "exponent"):
        return run_body(M, TRIM, [s])
    k = ("trimmed", repr(s))
    if k not in num.MEMO:
        num.MEMO[k] = mkstr([("opq", Opaque("trimmed", k), num.fresh("trlen", 1, 200))])
    return num.MEMO[k]


def case_trim():
    """trimZeros on every text big.Float.Text(x, 'e', 100) can give."""
    def setup(M):
        neg = M.S.br(num.cmp(memo_fresh("tneg", 0, 1), "==", 1))
        s = text_e(M, neg)
        M.S.env["s"] = s
        return [s]

    def post(M, args, out, ob):
        from exec import pieces
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        # sign, digits with no zero at the end of the fraction, exponent
        a = [c for p in pieces(M.S.env["s"]) for c in (list(p) if isinstance(p, bytes) else [p[1] if p[0] == "c" else p])]
        b = [c for p in pieces(out[1]) for c in (list(p) if isinstance(p, bytes) else [p[1] if p[0] == "c" else p])]
        k = len(b) - 2
        ob("exponent kept", len(b) >= 3 and b[-1] is a[-1] and b[-2] == 101)
        good = all(num.cmp(u, "==", v) is True for u, v in zip(a, b[:k]))
        ob("a prefix of the digits is kept", good and k <= len(a) - 2)
        cut = a[k:-2]
        if cut and cut[0] == 46:
            cut = cut[1:]
        elif b[k - 1] == 46:
            ob("no bare decimal point", False)
        else:
            ob("the last digit kept is not a zero after the point", znot(num.cmp(b[k - 1], "==", 48)))
        for c in cut:
            ob("only zeros are cut", num.cmp(c, "==", 48))
    return (TRIM, "texts of the form d.ddde+dd", setup, post, None)


def case_isexact_sound(n):
    """C18 and C20: the answer for an arbitrary number."""
    fn = MOD[:-1] + ".IsExact%d" % n

    def setup(M):
        M.contracts[FF] = opaque_formatfloat
        x = sym_big(M, windows=exact_windows(n))
        M.S.env["x"] = x
        return [Ptr(M.S.alloc(x))]

    def post(M, args, out, ob):
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        x = M.S.env["x"]
        r = out[1]
        ob("the argument is not changed", samebf(M.S.heap[args[0].obj], M.S.env["heap0"][args[0].obj]))
        if x.form != 1:
            ob("zeros and infinities are exact", r)
            return
        if r is False or not M.S.br(r):
            ob("answers", True)
            return
        ob("true only if the number is a %d-bit float" % n, exact_in(M, n, x))

    def conc(M, m, args):
        return {"op": "isexact", "n": n, "x": conc_big(m)}
    return (fn, "all numbers", setup, post, conc)


def case_frame_isexact(n):
    """C16: the argument keeps value, precision, mode and accuracy."""
    def mk(M):
        M.contracts[FF] = opaque_formatfloat
        return [Ptr(M.S.alloc(sym_big(M, windows=exact_windows(n))))]

    def conc(M, m, args):
        return {"op": "isexact", "n": n, "x": conc_big(m)}
    return case_frame(MOD[:-1] + ".IsExact%d" % n, mk, "frame", conc=conc)


def exact_windows(n):
    if n == 16:
        return exp_windows(HALF)
    return {32: [(-150, -124), (126, 130)], 64: [(-1075, -1020), (1022, 1026)]}[n]


def case_isexact_complete(n):
    """C19: representable numbers whose shortest decimal is their value are
    recognised (the others are the known finding)."""
    fn = MOD[:-1] + ".IsExact%d" % n
    from exec import Opaque, mkstr

    def formatfloat(M, f, fmt, prec, size):
        """Contract of FormatFloat(f, 'e', -1, n) (C22, C24) for the value under test."""
        S = M.S
        f = f.classify(M)
        if f.kind != "fin":
            return run_body(M, FF, [f, fmt, prec, size])
        mag, ds, ex = S.env["textdigits"]
        neg = S.env["x"].neg
        ok = (fmt, prec, size) == (101, -1, n) and f.neg == neg and \
            S.proves(num.cmp(magdiff(M, f.mag, S.env["x"].mag), "==", 0))
        if not ok:
            return opaque_formatfloat(M, f, fmt, prec, size)
        out = ([b"-"] if neg else []) + [("c", ds[0])]
        if len(ds) > 1:
            out.append(b".")
            out += [("c", d) for d in ds[1:]]
        return mkstr(out + [b"e", ex])

    def setup(M):
        M.contracts[FF] = formatfloat
        S = M.S
        fmtw = {16: 16, 32: 32, 64: 64}[n]
        if n == 16:
            b = memo_fresh("b16", 0, (1 << 16) - 1)
            d = decode(M, HALF, [b])
        else:
            f = sym_float(M, n, "fx", float_windows(HALF, n)[:0])
            c = f.classify(M)
            d = (c.kind, c.neg, c.mag if c.kind == "fin" else None)
        if d[0] != "fin":
            from core import Dead
            raise Dead()             # zeros and infinities: C20
        prec = memo_fresh("x_prec", 64, 4294967295)
        x = BF(prec, memo_fresh("x_mode", 0, 5), memo_fresh("x_acc", -1, 1), 1, d[1], d[2])
        S.env["x"] = x
        nd = memo_fresh("ndigits", 1, 17)
        k = S.concretize(nd)
        ds = [memo_fresh("dig%d" % i, 49 if i == 0 or i == k - 1 else 48, 57) if i < k - 1 else memo_fresh("dlast", 49, 57) for i in range(k)]
        S.env["textdigits"] = (x.mag.key, tuple(ds), ("opq", Opaque("exponent", ("exp of x",)), memo_fresh("explen", 3, 12)))
        return [Ptr(S.alloc(x))]

    def post(M, args, out, ob):
        ob("no panic", out[0] == "ret", str(out))
        if out[0] == "ret":
            ob("true when the shortest decimal is the exact value", out[1])

    def conc(M, m, args):
        return None
    return (fn, "representable numbers whose shortest decimal is exact", setup, post, conc)
