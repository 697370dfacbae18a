"""Concrete meaning of the properties, in exact arithmetic (independent of the
symbolic specifications): the oracle of the replay harness."""
from fractions import Fraction

FMTS = {"binary16": (11, 15, 5, [16]), "bfloat": (8, 127, 8, [16]), "binary128": (113, 16383, 15, [64, 64]),
        "float80x86": (64, 16383, 15, [16, 64]), "float128ppc": (None, None, 11, [64, 64]),
        "f32": (24, 127, 8, [32]), "f64": (53, 1023, 11, [64])}


def p2(k):
    return 1 << k if k >= 0 else Fraction(1, 1 << -k)


class V:
    """nan / inf / zero / fin with sign; fin: value mant * 2^exp (mant odd positive)."""
    __slots__ = ("k", "neg", "m", "e")

    def __init__(self, k, neg, m=0, e=0):
        if k == "fin":
            t = (m & -m).bit_length() - 1
            m >>= t
            e += t
        self.k, self.neg, self.m, self.e = k, neg, m, e

    def key(self):
        return (self.k, self.neg, self.m, self.e)

    def __eq__(self, o):
        return self.key() == o.key()

    def __repr__(self):
        return "%s%s" % ("-" if self.neg else "+", self.k if self.k != "fin" else "%d*2^%d" % (self.m, self.e))


def fields(fmt, ws):
    p, bias, eb, _ = FMTS[fmt]
    if fmt == "float80x86":
        return ws[0] >> 15, ws[0] & 0x7FFF, ws[1]
    b = 0
    for w, n in zip(ws, FMTS[fmt][3]):
        b = b << n | w
    mb = p - 1
    return b >> (mb + eb), b >> mb & ((1 << eb) - 1), b & ((1 << mb) - 1)


def decode(fmt, ws):
    if fmt == "float128ppc":
        a, b = decode("f64", [ws[0]]), decode("f64", [ws[1]])
        if a.k == "nan" or b.k == "nan" or a.k == b.k == "inf" and a.neg != b.neg:
            return V("nan", a.neg)
        if a.k == "inf":
            return a
        if b.k == "inf":
            return b
        r = add(a, b)
        return V("zero", a.neg) if r is None else r
    p, bias, eb, _ = FMTS[fmt]
    s, e, f = fields(fmt, ws)
    neg = bool(s)
    emax = (1 << eb) - 1
    if fmt == "float80x86":
        if e == emax:
            return V("inf" if f == 1 << 63 else "nan", neg)
        if f == 0:
            return V("zero", neg)
        return V("fin", neg, f, max(e, 1) - bias - 63)
    if e == emax:
        return V("inf" if f == 0 else "nan", neg)
    if e == 0:
        return V("zero", neg) if f == 0 else V("fin", neg, f, 1 - bias - (p - 1))
    return V("fin", neg, f + (1 << (p - 1)), e - bias - (p - 1))


def add(a, b):
    """Exact sum of finite values; None for zero."""
    x = y = 0
    e = min(v.e for v in (a, b) if v.k == "fin") if "fin" in (a.k, b.k) else 0
    if a.k == "fin":
        x = (a.m << (a.e - e)) * (-1 if a.neg else 1)
    if b.k == "fin":
        y = (b.m << (b.e - e)) * (-1 if b.neg else 1)
    s = x + y
    return None if s == 0 else V("fin", s < 0, abs(s), e)


def cmpv(a, b):
    """sign(a - b) for non-nan values."""
    def rank(v):
        return {"zero": 0, "fin": 1, "inf": 2}[v.k] * (-1 if v.neg else 1)
    ra, rb = rank(a), rank(b)
    if ra != rb:
        return -1 if ra < rb else 1
    if abs(ra) != 1:
        return 0
    # compare exponents first: the gap may be huge
    ta, tb = a.m.bit_length() + a.e, b.m.bit_length() + b.e
    if ta != tb:
        c = -1 if ta < tb else 1
    else:
        e = min(a.e, b.e)
        x, y = a.m << (a.e - e), b.m << (b.e - e)
        c = (x > y) - (x < y)
    return -c if a.neg else c


def rnd_int(m, sh):
    """nearest-even integer to m * 2^sh, and the sign of the error."""
    if sh >= 0:
        return m << sh, 0
    if -sh > m.bit_length() + 1:
        return 0, -1
    q, r = m >> -sh, m & ((1 << -sh) - 1)
    h = 1 << (-sh - 1)
    up = r > h or r == h and q & 1
    if r == 0:
        return q, 0
    return (q + 1, 1) if up else (q, -1)


def encode(fmt, v):
    """(words, accuracy) of the nearest pattern of a non-ppc format."""
    p, bias, eb, wsz = FMTS[fmt]
    emax = (1 << eb) - 1
    neg = v.neg
    ovf = -1 if neg else 1
    if fmt == "float80x86":
        def pat(e, m):
            return [(0x8000 if neg else 0) | e, m]
    else:
        n = eb + p

        def pat(e, m):
            c = (1 << (n - 1) if neg else 0) | e << (p - 1) | m & ((1 << (p - 1)) - 1)
            return [c] if len(wsz) == 1 else [c >> 64, c & ((1 << 64) - 1)]
    infp = pat(emax, 1 << 63 if fmt == "float80x86" else 0)
    if v.k == "zero":
        return pat(0, 0), 0
    if v.k == "inf":
        return infp, 0
    K = v.m.bit_length() + v.e
    s = max(K - p, 1 - bias - (p - 1))
    if K - 1 > bias:
        return infp, ovf
    N, acc = rnd_int(v.m, v.e - s)
    if N == 1 << p:
        N >>= 1
        s += 1
    if N >= 1 << (p - 1):
        e = s + bias + p - 1
        if e >= emax:
            return infp, ovf
    else:
        e = 0
    return pat(e, N), acc * ovf


def encode_ppc(v):
    if v.k != "fin":
        return [encode("f64", v)[0][0], None], 0
    h, acc = encode("f64", v)
    hv = decode("f64", h)
    if hv.k == "inf":
        return [h[0], 0], acc
    r = add(v, V(hv.k, not hv.neg, hv.m, hv.e))
    if r is None:
        return [h[0], None], 0
    l, a2 = encode("f64", r)
    return [h[0], l[0] if decode("f64", l).k != "zero" else None], a2


def frombig(d):
    """V of a runner number."""
    if d.get("nil"):
        return None
    if d["form"] != 1:
        return V("zero" if d["form"] == 0 else "inf", d["neg"])
    return V("fin", d["neg"], int(d["mant"], 16), d["exp"])


def reqbig(v, prec, mode=0, acc=0):
    d = {"form": {"zero": 0, "fin": 1, "inf": 2}[v.k], "neg": v.neg, "prec": prec, "mode": mode}
    if v.k == "fin":
        d.update(mant="%x" % v.m, exp=v.e)
        d["prec"] = max(prec, v.m.bit_length())
        if acc:
            d["acc"] = acc
    return d


def names(fmt):
    return None


def isnanbits(fmt, b):
    return decode(fmt, [b]).k == "nan"


# ------------------------------------------------------------------ judgements
# each returns None when the answer satisfies the property, or a message

def bad(a):
    for k in ("panic", "crash", "error"):
        if k in a:
            return k + ": " + str(a[k])
    return None


def ints(ws):
    return [int(w) for w in ws]


def j_bits(q, a):
    if bad(a):
        return bad(a)
    if a["ws"] != q["ws"]:
        return "Bits gives %s" % a["ws"]


def j_fields(q, a):
    if bad(a):
        return bad(a)
    fmt = q["fmt"]
    ws = ints(q["ws"])
    if fmt == "float128ppc":
        w = decode(fmt, ws).k == "nan"
        return None if a["IsNaN"] == w else "IsNaN gives %s" % a["IsNaN"]
    s, e, f = fields(fmt, ws)
    want = {"Signbit": bool(s), "Exp": [str(e)]}
    if fmt == "float80x86":
        want["Lead"] = [str(f >> 63)]
        want["Frac"] = [str(f & ((1 << 63) - 1))]
    elif fmt == "binary128":
        want["Frac"] = [str(f >> 64), str(f & ((1 << 64) - 1))]
    else:
        want["Frac"] = [str(f)]
    return None if a == want else "fields are %s, want %s" % (a, want)


def j_big(q, a):
    if bad(a):
        return bad(a)
    w = decode(q["fmt"], ints(q["ws"]))
    if a["nan"] != (w.k == "nan"):
        return "not-a-number indicator is %s" % a["nan"]
    g = frombig(a["x"])
    if w.k == "nan":
        w = V("zero", w.neg)
    return None if g is not None and g == w else "decodes to %r, want %r" % (g, w)


def j_bigframe(q, a):
    if bad(a):
        return bad(a)
    if a["alias"] or a["again"] != a["x"] or a["nan2"] != a["nan"]:
        return "a second call sees what was done to the first result: %s" % a
    if not a["globals"]:
        return "named values changed"


def j_enc(q, a):
    if bad(a):
        return bad(a)
    v = frombig(a["arg0"])
    ws, acc = ints(a["ws"]), a["acc"]
    if q["fmt"] == "float128ppc":
        want, wacc = encode_ppc(v)
        for g, w in zip(ws, want):
            if w is None:
                if decode("f64", [g]).k != "zero":
                    return "parts %s, want %s" % (ws, want)
            elif g != w:
                return "parts %s, want %s" % (ws, want)
        s = decode("float128ppc", ws)
        if s.k == "nan":
            return "parts %s are not a number" % ws
        wacc = cmpv(s, v)
    else:
        want, wacc = encode(q["fmt"], v)
        if ws != want:
            return "encodes %r to %s, want %s" % (v, ws, want)
    return None if acc == wacc else "accuracy %d, want %d" % (acc, wacc)


def j_encframe(q, a):
    if bad(a):
        return bad(a)
    if a["arg"] != a["arg0"]:
        return "argument changed from %s to %s" % (a["arg0"], a["arg"])
    if a["ws"] != a["ws2"] or a["acc"] != a["acc2"]:
        return "second call differs"
    if not a["globals"]:
        return "named values changed"


def j_globals(q, a):
    if bad(a):
        return bad(a)
    if not a["globals"]:
        return "named values changed"


def j_from(w, named):
    def j(q, a):
        if bad(a):
            return bad(a)
        v = decode("f%d" % w, [int(q["bits"])])
        ws, fmt = ints(a["ws"]), q["fmt"]
        if v.k == "nan":
            want, acc = ints(named[fmt][1 if v.neg else 0]), 0
        elif fmt == "float128ppc":
            g = decode(fmt, ws)
            if g.k == "nan" or g != v:
                return "gives %r, want %r" % (g, v)
            want, acc = ws, 0
        else:
            want, acc = encode(fmt, v)
        if ws != want:
            return "gives %s, want %s" % (ws, want)
        return None if a["acc"] == acc else "accuracy %d, want %d" % (a["acc"], acc)
    return j


def j_to(w):
    f = "f%d" % w

    def j(q, a):
        if bad(a):
            return bad(a)
        v = decode(q["fmt"], ints(q["ws"]))
        b = int(a["bits"])
        if v.k == "nan":
            g = decode(f, [b])
            if g.k != "nan" or g.neg != v.neg or a["acc"] != 0:
                return "not-a-number gives %r accuracy %d" % (g, a["acc"])
            return None
        want, acc = encode(f, v)
        if b != want[0]:
            return "gives %#x, want %#x" % (b, want[0])
        return None if a["acc"] == acc else "accuracy %d, want %d" % (a["acc"], acc)
    return j


def j_roundtrip(q, a):
    fmt, ws = q["fmt"], ints(q["ws"])
    v = decode(fmt, ws)
    if v.k == "nan":
        return None
    if fmt == "float80x86":
        s, e, f = fields(fmt, ws)
        if (e == 0) != (f < 1 << 63):
            return None
    if fmt == "float128ppc":
        if v.k == "fin" and encode("f64", v)[0][0] != ws[0]:
            return None
        hi = decode("f64", [ws[0]])
        if v.k != "fin" and hi.k != v.k:
            return None
    if bad(a):
        return bad(a)
    if a["nan"]:
        return "decodes as not-a-number"
    got = ints(a["ws"])
    if a["acc"] != 0:
        return "accuracy %d" % a["acc"]
    if fmt == "float128ppc":
        b = decode("f64", [got[1]])
        o = decode("f64", [ws[1]])
        if got[0] != ws[0] or not (b.k == o.k == "zero" or got[1] == ws[1] or v.k == "inf" and b.k == "zero"):
            return "comes back as %s" % got
        return None
    return None if got == ws else "comes back as %s" % got


def j_halftrip(q, a):
    ws = ints(q["ws"])
    if decode("binary16", ws).k == "nan":
        return None
    if bad(a):
        return bad(a)
    if ints(a["ws"]) != ws or a["acc1"] or a["acc2"]:
        return "comes back as %s" % a


def j_named(q, a):
    if bad(a):
        return bad(a)
    for n, ws in zip(["NaN", "NegNaN", "Inf", "NegInf", "Zero", "NegZero"], a["named"]):
        v = decode(q["fmt"], ints(ws))
        kind, neg = {"N": "nan", "I": "inf", "Z": "zero"}[n.replace("Neg", "")[0]], n.startswith("Neg")
        if v.k != kind or v.neg != neg:
            return "%s is %s, that is %r" % (n, ws, v)
