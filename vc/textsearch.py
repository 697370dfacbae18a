"""Exact oracles and input searches for the text-producing half (C18-C25)."""
import re
from fractions import Fraction
import oracle as o
from oracle import V

SIZES = {16: "binary16", 32: "f32", 64: "f64"}
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


# ------------------------------------------------------------------ integers

def numeral(v, base):
    if v == 0:
        return "0"
    s, u = "", abs(v)
    while u:
        s = DIG[u % base] + s
        u //= base
    return ("-" if v < 0 else "") + s


def j_fmtint(q, a):
    if not 2 <= q["base"] <= 36:
        return None if "panic" in a else "no panic for base %d" % q["base"]
    if o.bad(a):
        return o.bad(a)
    v = int(q["bits"])
    if q["signed"] and v >= 1 << 63:
        v -= 1 << 64
    w = numeral(v, q["base"])
    if a["s"] != w:
        return "text %r, want %r" % (a["s"], w)
    if a["a"] != q["pre"] + w:
        return "appended text %r, want %r" % (a["a"], q["pre"] + w)
    if a["pre"] != q["pre"]:
        return "buffer contents changed"
    if a.get("itoa", w) != w:
        return "Itoa gives %r" % a["itoa"]


# ------------------------------------------------------------------ floats

def fval(bits, size):
    """V of the size-bit float nearest to the float64 with these bits, and its bits."""
    v = o.decode("f64", [bits])
    if v.k == "nan":
        return v, None
    ws, _ = o.encode(SIZES[size], v)
    return o.decode(SIZES[size], ws), ws[0]


def ilog10(x):
    """k with 10^(k-1) <= x < 10^k"""
    n, d = x.numerator, x.denominator
    k = len(str(n)) - len(str(d))
    p = Fraction(10) ** k
    while x >= p:
        k += 1
        p *= 10
    while x < p / 10:
        k -= 1
        p /= 10
    return k


def rne(x):
    f = x.numerator // x.denominator
    d = x - f
    return f + (1 if d > Fraction(1, 2) or d == Fraction(1, 2) and f & 1 else 0)


def value(v):
    return Fraction(v.m) * Fraction(2) ** v.e


def canon(n, dp):
    """digits, decimal point of n * 10^(dp - len) without trailing zeros"""
    s = str(n)
    dp += 0
    t = s.rstrip("0")
    return (t, dp) if t else ("", 0)


def interval(v, bits, size):
    fmt = SIZES[size]
    p = o.FMTS[fmt][0]
    x = value(v)
    bits &= (1 << (size - 1)) - 1
    up = o.decode(fmt, [bits + 1])
    hi = (x + value(up)) / 2 if up.k == "fin" else x + (x - value(o.decode(fmt, [bits - 1]))) / 2
    dn = o.decode(fmt, [bits - 1])
    lo = (x + value(dn)) / 2 if dn.k == "fin" else x / 2
    return x, lo, hi, bits & 1 == 0


def inside(y, lo, hi, even):
    return lo <= y <= hi if even else lo < y < hi


def shortest(v, bits, size):
    """(number of digits, list of (digits, dp) that are best)"""
    x, lo, hi, even = interval(v, bits, size)
    k = ilog10(x)
    for n in range(1, 25):
        best, bd = [], None
        for kk in (k, k + 1):
            u = Fraction(10) ** (kk - n)
            f = (x / u).__floor__()
            for c in (f, f + 1):
                y = c * u
                if y > 0 and inside(y, lo, hi, even) and len(str(c).rstrip("0")) <= n:
                    d = abs(y - x)
                    if bd is None or d < bd:
                        best, bd = [], d
                    if d == bd:
                        s = str(c)
                        t = (s.rstrip("0"), kk + len(s) - n)
                        if t not in best:
                            best.append(t)
        if best:
            return n, best
    raise AssertionError


def rounded(v, n, isdp):
    """value rounded to n digits (or to n places when isdp): digits, dp"""
    x = value(v)
    k = ilog10(x)
    if isdp:
        n = k + n
    if n < 0:
        return ("", 0)
    u = Fraction(10) ** (k - n)
    c = rne(x / u)
    if c == 0:
        return ("", 0)
    s = str(c)
    return (s.rstrip("0"), k + len(s) - n)


def layout_e(neg, ds, dp, prec, ch):
    s = "-" if neg else ""
    d = ds + "0" * max(0, prec + 1 - len(ds))
    s += d[0] + ("." + d[1:prec + 1] if prec > 0 else "")
    e = dp - 1 if ds else 0
    return s + ch + ("-" if e < 0 else "+") + "%02d" % abs(e)


def layout_f(neg, ds, dp, prec):
    s = "-" if neg else ""
    s += (ds[:dp] + "0" * (dp - len(ds[:dp]))) if dp > 0 else "0"
    if prec > 0:
        fr = ("0" * -dp if dp < 0 else "") + (ds[dp:] if dp > 0 else ds)
        s += "." + (fr + "0" * prec)[:prec]
    return s


def layout(neg, ds, dp, verb, prec, short):
    if verb in "eE":
        return layout_e(neg, ds, dp, max(len(ds) - 1, 0) if short else prec, verb)
    if verb == "f":
        return layout_f(neg, ds, dp, max(len(ds) - dp, 0) if short else prec)
    if verb in "gG":
        nd = len(ds)
        p = nd if short else max(prec, 1)
        ep = p
        if ep > nd and nd >= dp:
            ep = nd
        if short:
            ep = 6
        x = dp - 1
        if x < -4 or x >= ep:
            p = min(p, nd)
            return layout_e(neg, ds, dp, p - 1, chr(ord(verb) - 2))
        return layout_f(neg, ds, dp, max((nd if p > dp else p) - dp, 0))
    return "%" + verb


def wants(q):
    """Acceptable texts (layout and digits), or None when the digits are free."""
    size, verb, prec = q["size"], q["verb"], q["prec"]
    v, b = fval(int(q["bits"]), size)
    if v.k == "nan":
        return ["NaN"]
    if v.k == "inf":
        return ["-Inf" if v.neg else "+Inf"]
    if verb == "b":
        fmt = SIZES[size]
        p, bias, eb, _ = o.FMTS[fmt]
        e = b >> (p - 1) & (1 << eb) - 1
        m = b & (1 << (p - 1)) - 1
        if e:
            m |= 1 << (p - 1)
        else:
            e = 1
        x = e - bias - (p - 1)
        return ["%s%dp%s%d" % ("-" if v.neg else "", m, "+" if x >= 0 else "-", abs(x))]
    if verb not in "eEfgG":
        return ["%" + verb]
    short = prec < 0
    if v.k == "zero":
        cand = [("", 0)]
    elif short:
        cand = shortest(v, b, size)[1]
    else:
        n = {"e": prec + 1, "E": prec + 1, "f": prec, "g": max(prec, 1), "G": max(prec, 1)}[verb]
        cand = [rounded(v, n, verb == "f")]
    return [layout(v.neg, ds, dp, verb, prec, short) for ds, dp in cand]


def parsedec(s):
    m = re.fullmatch(r"-?(\d+)(?:\.(\d+))?(?:[eE]([+-]\d+))?", s)
    if not m:
        return None
    i, f, e = m.group(1), m.group(2) or "", int(m.group(3) or 0)
    ds = (i + f).lstrip("0")
    lead = len(i + f) - len(ds)
    return Fraction(int(i + f)) * Fraction(10) ** (e - len(f)), ds.rstrip("0"), e + len(i) - lead


def shape(q, s, cand):
    """Is s laid out as documented, whatever its digits?"""
    size, verb, prec = q["size"], q["verb"], q["prec"]
    v, b = fval(int(q["bits"]), size)
    if v.k in ("nan", "inf") or verb not in "eEfgG":
        return s in cand
    short = prec < 0
    if s.startswith("-") != v.neg:
        return False
    p = parsedec(s)
    if p is None:
        return False
    _, ds, dp = p
    if not ds:
        dp = 0
    return s == layout(v.neg, ds, dp, verb, prec, short)


def j_fmtfloat(prop):
    def j(q, a):
        if o.bad(a):
            return o.bad(a)
        s = a["s"]
        cand = wants(q)
        if prop in ("C22", "C23"):
            if s not in cand:
                w = [parsedec(c) for c in cand]
                g = parsedec(s)
                if g is None or g[0] not in [x[0] for x in w if x]:
                    return "text %r, want %s" % (s, " or ".join(map(repr, cand[:2])))
            return None
        if a["a"] != q["pre"] + s:
            return "appended %r, text %r" % (a["a"], s)
        if a["pre"] != q["pre"]:
            return "buffer contents changed"
        if s not in cand and not shape(q, s, cand):
            return "text %r, want %s" % (s, " or ".join(map(repr, cand[:2])))
    return j


# ------------------------------------------------------------------ decimals

def j_decimal(q, a):
    if o.bad(a):
        return o.bad(a)
    n, dp, tr = q["pre"], q["prec"], q["signed"]
    lossy = False

    def norm(s, dp):
        t = s.lstrip("0")
        dp -= len(s) - len(t)
        t = t.rstrip("0")
        return (t, dp) if t else ("", 0)
    ops = list(q["ops"])
    for i, op in enumerate(ops):
        k, x = op.split(":")
        x = int(x)
        if lossy and k != "assign":
            continue
        if k == "assign":
            n, dp = norm(str(x), len(str(x)))
            tr, lossy = False, False
        elif k == "shift":
            if n:
                v = int(n)
                e = dp - len(n)          # value v * 10^e
                if x >= 0:
                    v <<= x
                else:
                    v *= 5 ** -x
                    e += x
                s = str(v)
                n, dp = norm(s, len(s) + e)
                if len(n) > 800:
                    lossy = True
                    if any(p.startswith("assign") for p in ops[i:]):
                        continue
                    if a["trunc"] is not True:
                        return "digits were dropped but the decimal says it is exact"
                    n2, dp2 = norm(n[:800], dp)
                    if len(q["ops"]) == 1 and -60 <= x <= 60 and (a["d"], a["dp"]) != (n2, dp2):
                        return "got %s e%d, want the first 800 digits %s e%d" % (a["d"], a["dp"], n2, dp2)
                    return None
        else:
            if 0 <= x < len(n):
                if k == "down":
                    up = False
                elif k == "up":
                    up = True
                else:
                    h, t = n[:x], n[x:]
                    c = int(t) * 2 - 10 ** len(t)
                    up = c > 0 or c == 0 and (tr or (x > 0 and int(h[-1]) % 2 == 1))
                u = int("0" + n[:x]) + up
                s = str(u).rjust(x, "0") if u else ""
                n, dp = norm(s, dp + len(s) - x) if u else ("", 0)
    if (a["d"], a["dp"]) != (n, dp):
        return "got %s e%d, want %s e%d" % (a["d"], a["dp"], n, dp)
    if a["trunc"] != tr:
        return "truncation flag %s, want %s" % (a["trunc"], tr)


# ------------------------------------------------------------------ IsExact

def isexact_facts(q, a):
    """(representable, shortest decimal is exact)"""
    v = o.frombig(a["arg0"])
    if v.k != "fin":
        return True, True
    fmt = SIZES[q["n"]]
    ws, acc = o.encode(fmt, v)
    if acc != 0 or o.decode(fmt, ws).k != "fin":
        return False, False
    w = o.decode(fmt, ws)
    _, best = shortest(w, ws[0], q["n"])
    x = value(w)
    return True, any(int(d) * Fraction(10) ** (dp - len(d)) == x for d, dp in best)


KNOWN = "false for representable numbers whose shortest %d-bit decimal is not their exact value (e.g. IsExact%d of the %d-bit float nearest 0.1)"


def j_isexact(prop, known):
    def j(q, a):
        if "panic" in a or "crash" in a or "error" in a:
            return o.bad(a) if prop in ("C20", "C19") else None
        rep, dec = isexact_facts(q, a)
        if prop == "C18":
            return "true, but the number is not a %d-bit float" % q["n"] if a["r"] and not rep else None
        if prop == "C19" and rep and not a["r"]:
            if not dec:
                known[q["n"]] = "IsExact%d answers " % q["n"] + KNOWN % (q["n"], q["n"], q["n"])
                return None
            return "false, but the number is a %d-bit float whose shortest decimal is exact" % q["n"]
        if prop == "C20" and q["x"]["form"] != 1 and not a["r"]:
            return "a zero or an infinity is reported inexact"
    return j


# ------------------------------------------------------------------ searches

def fbits(rng, n, consts, sizes=(16, 32, 64)):
    """(size, float64 bits) pairs"""
    out = []
    from search import rbits
    for size in sizes:
        fmt = SIZES[size]
        p, bias, eb, _ = o.FMTS[fmt]
        emax = (1 << eb) - 1

        def push(b):
            v = o.decode(fmt, [b & (1 << size) - 1])
            if v.k == "nan":
                w = (0xFFF8 if v.neg else 0x7FF8) << 48
            else:
                w = o.encode("f64", v)[0][0]
            out.append((size, w))
        m = n // len(sizes)
        base = len(out)
        # powers of two and their neighbours, subnormals, extremes
        edge = []
        for e in range(emax + 1):
            edge += [e << (p - 1), (e << (p - 1)) + 1, (e << (p - 1)) - 1 & (1 << (size - 1)) - 1]
        edge += list(range(40)) + [(emax << (p - 1)) - 1 - i for i in range(4)]
        rng.shuffle(edge)
        for b in [0, 1 << (size - 1), emax << (p - 1), (emax << (p - 1)) | 1 << (size - 1), (emax << (p - 1)) + 1] + edge[: m // 3]:
            push(b | rng.getrandbits(1) << (size - 1) if b else b)
        while len(out) - base < m:
            r = rng.random()
            if r < .35:                     # short decimals and their neighbours
                nd = rng.randrange(1, 19)
                v = rng.randrange(1, 10 ** nd)
                e = rng.randrange(-8, 9) if rng.random() < .6 else rng.randrange(-330, 310)
                x = Fraction(v) * Fraction(10) ** e
                if rng.random() < .4:
                    x = Fraction(2 * v + 1, 2) * Fraction(10) ** e
                k = x.numerator.bit_length() - x.denominator.bit_length() - 100
                mm = (x / Fraction(2) ** k).__floor__()
                b = o.encode(fmt, V("fin", False, mm, k))[0][0] + rng.choice([0, 0, 0, 1, -1])
                push(max(b, 0) | rng.getrandbits(1) << (size - 1))
            elif r < .55:                   # few significant bits: exact decimals and ties
                t = rng.randrange(1, min(p, 24))
                e = rng.randrange(max(1, bias - 30), min(emax, bias + 70))
                push(rng.getrandbits(1) << (size - 1) | e << (p - 1) | rng.getrandbits(t) << (p - 1 - t))
            elif r < .7:
                push(rng.randrange(emax) << (p - 1) | rbits(rng, p - 1))
            else:
                push(rng.getrandbits(size))
        if size < 64:
            # values the conversion to the smaller size must round first
            for _ in range(m // 20):
                w = o.encode("f64", o.decode(fmt, [rng.randrange(emax << (p - 1))]))[0][0]
                out.append((size, w + rng.choice([1, -1, 1 << (52 - p), (1 << (52 - p)) - 1, 1 << 27]) & (1 << 64) - 1))
    return out


PRES = ["", "", "x", "abc-", "0123456789012345678901234567890123456789"]


def freq(rng, size, b, verb, prec):
    return {"op": "fmtfloat", "bits": str(b), "size": size, "verb": verb, "prec": prec, "pre": rng.choice(PRES), "cap": rng.choice([0, 1, 30, 400])}


def _c21(s):
    vals = [0, 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
    for b in range(2, 37):
        k = 1
        while b ** k < 1 << 64:
            vals += [b ** k, b ** k - 1, b ** k + 1]
            vals.append(b ** k * s.rng.randrange(1, b) % (1 << 64))
            k += 1
    vals += [v % (1 << 64) for v in s.consts] + list(range(300))
    vals += [(1 << 64) - v for v in vals if v]
    rq = []
    for _ in range(s.n(20000, 400000)):
        v = s.rng.choice(vals) if s.rng.random() < .5 else s.rng.getrandbits(s.rng.randrange(1, 65))
        rq.append({"op": "fmtint", "bits": str(v % (1 << 64)), "base": s.rng.choice([10, 10, 2, 8, 16, 32, s.rng.randrange(2, 37), s.rng.randrange(2, 37)]),
                   "signed": bool(s.rng.getrandbits(1)), "pre": s.rng.choice(PRES), "cap": s.rng.choice([0, 1, 80])})
    for b in (-(1 << 40), -10, -2, -1, 0, 1, 37, 38, 64, 100, 1 << 40):
        for v in (0, 5, 50, 1000):
            rq.append({"op": "fmtint", "bits": str(v), "base": b, "signed": bool(v & 1), "pre": "q", "cap": 0})
    s.run(rq, j_fmtint)


def _c22(s):
    rq = [freq(s.rng, size, b, s.rng.choice("eEfgG"), s.rng.choice([-1, -1, -1, -2])) for size, b in fbits(s.rng, s.n(12000, 150000), s.consts)]
    s.run(rq, j_fmtfloat("C22"))


def _c23(s):
    rq = []
    for size, b in fbits(s.rng, s.n(14000, 200000), s.consts):
        pr = s.rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 13, 14, 15, 16, 17, 18, 20, s.rng.randrange(0, 60), s.rng.randrange(0, 60)])
        if s.rng.random() < .03:
            pr = s.rng.choice([100, 300, 766, 767, 800, 801, 1074, 1100])
        rq.append(freq(s.rng, size, b, s.rng.choice("eEfgG"), pr))
    # exact ties at every short precision
    for _ in range(s.n(4000, 40000)):
        nd = s.rng.randrange(1, 16)
        k = s.rng.randrange(1, 8)
        m = s.rng.randrange(10 ** (nd - 1), 10 ** nd)
        x = Fraction(2 * m + 1, 2) * Fraction(1, 2 ** k if s.rng.random() < .5 else 10 ** 0)
        while x.denominator & (x.denominator - 1):
            x *= 5
        if x.numerator.bit_length() > 53:
            continue
        b = o.encode("f64", V("fin", False, x.numerator, -(x.denominator.bit_length() - 1)))[0][0]
        rq.append(freq(s.rng, s.rng.choice([64, 64, 32]), b, s.rng.choice("efg"), s.rng.randrange(0, 18)))
    s.run(rq, j_fmtfloat("C23"))


def _c24(s):
    rq = []
    for size, b in fbits(s.rng, s.n(12000, 150000), s.consts):
        verb = s.rng.choice("eEfgGbbefg?xab")
        pr = s.rng.choice([-1, -1, -3, 0, 1, 2, 5, 6, 7, 14, 15, 17, 21, 22, 40, s.rng.randrange(0, 30)])
        rq.append(freq(s.rng, size, b, verb, pr))
    s.run(rq, j_fmtfloat("C24"))


def digits(rng, n):
    r = rng.random()
    if n == 0:
        return ""
    s = "".join(rng.choice("0123456789") for _ in range(n))
    if r < .25:
        k = rng.randrange(n + 1)
        s = s[:k] + "9" * (n - k)
    elif r < .5:
        k = rng.randrange(n + 1)
        s = s[:k] + "5" + "0" * n
        s = s[:n]
    if rng.random() < .3:
        c = "".join(str(5 ** rng.randrange(1, 61)))
        s = (c + s)[:n]
        if rng.random() < .5 and len(c) <= n:
            s = c
    s = s.strip("0") or "5"
    return s


def _c25(s):
    rq = []
    rng = s.rng
    # decimals that agree with a power of five in their leading digits, where
    # the number of digits a left shift brings changes
    for k in range(1, 61):
        t = str(5 ** k)
        for l in range(1, len(t) + 1):
            for d in {t[:l], t[:l] + "1", t[:l] + "9", str(int(t[:l]) + 1), str(int(t[:l]) - 1)}:
                d = d.rstrip("0")
                if d and l * 3 > rng.randrange(len(t) * 3):
                    rq.append({"op": "decimal", "pre": d, "prec": rng.choice([0, 1, l, -3, 20]), "signed": False, "ops": ["shift:%d" % k]})
    for _ in range(s.n(12000, 120000)):
        n = rng.choice([0, 1, 1, 2, 3, 5, 10, 17, 19, 20, 30, 60, 100, 300, 700, 780, 790, 798, 799, 800])
        d = digits(rng, n)
        dp = rng.choice([0, 1, -1, 5, -5, len(d), len(d) - 1, rng.randrange(-400, 400)]) if d else 0
        tr = len(d) == 800 and rng.random() < .2
        ops = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.random()
            if k < .2:
                ops.append("assign:%d" % (rng.choice([0, 1, 10, (1 << 64) - 1, 10 ** 19, rng.getrandbits(rng.randrange(1, 65)), rng.randrange(100) * 10 ** rng.randrange(17)])))
            elif k < .6:
                ops.append("shift:%d" % (rng.choice([0, 1, 4, 59, 60, 61, 120, 121, rng.randrange(0, 61), rng.randrange(0, 1100)]) * rng.choice([1, -1])))
            else:
                ops.append("%s:%d" % (rng.choice(["round", "round", "up", "down"]), rng.choice([-1, 0, 1, 2, 17, len(d) - 1, len(d), len(d) + 1, rng.randrange(0, 40), max(len(d) // 2, 0)])))
        rq.append({"op": "decimal", "pre": d, "prec": dp, "signed": tr, "ops": ops})
    s.run(rq, j_decimal)


def _exact(prop):
    def f(s):
        from search import exactbigs
        s.known = {}
        for n in (16, 32, 64):
            s.run(({"op": "isexact", "n": n, "x": x} for x in exactbigs(n, s.rng, s.n(3000, 40000), s.consts)), j_isexact(prop, s.known))
    return f


SEARCH = {"C18": _exact("C18"), "C19": _exact("C19"), "C20": _exact("C20"), "C21": _c21, "C22": _c22, "C23": _c23, "C24": _c24, "C25": _c25}
PROPJUDGES = {"C18": {"isexact": j_isexact("C18", {})}, "C19": {"isexact": j_isexact("C19", {})}, "C20": {"isexact": j_isexact("C20", {})},
              "C21": {"fmtint": j_fmtint}, "C22": {"fmtfloat": j_fmtfloat("C22")}, "C23": {"fmtfloat": j_fmtfloat("C23")},
              "C24": {"fmtfloat": j_fmtfloat("C24")}, "C25": {"decimal": j_decimal}}
