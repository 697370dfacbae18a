"""Contract of the text layout of float formatting (C24): genericFtoa,
formatDigits, fmtE, fmtF and fmtB, for every sequence of digits the digit
generators can hand over."""
import z3
import num
from num import L, zand, zor, znot, lo, hi
from core import Dead, GoPanic, Unsupported
from exec import Ptr, Slice, Str, Arr, pieces
from floats import F
from fmtspec import memo_fresh, MOD, ev, HALF, decode, mkfloat, fromfloat_contract
import seqs
from seqs import SeqObj
from strspec import numeral

P = MOD + "internal/strconv."
EXT = "(*" + MOD + "internal/strconv.extFloat)."
DEC = "(*" + MOD + "internal/strconv.decimal)."
MAXDP = 1000           # |decimal point| of the digits (binary64: 310 + 17 and -323)


def newdigits(M, n):
    """Fresh digits '0'..'9', a digit count up to n and a decimal point."""
    c = M.S.env.get("ngen", 0)
    M.S.env["ngen"] = c + 1
    arr = Arr(z3.Array("digits%d_%d" % (n, c), z3.IntSort(), z3.IntSort()), n, 48, 57)
    nd = memo_fresh("gen%d_nd%d" % (c, n), 0, n)
    dp = memo_fresh("gen%d_dp" % c, -MAXDP + 2, MAXDP)
    M.S.env["digits"] = (arr, nd, dp)
    return arr, nd, dp


def fill_slice(M, p):
    """A digit generator working on a decimalSlice."""
    d = M.load(p)
    sl = d[0]
    o = sl.ptr
    cap = M.S.concretize(sl.len)
    if sl.off != 0 or cap < 24:
        raise Unsupported("digit buffer")
    arr, nd, dp = newdigits(M, cap)
    M.store(o, arr)
    M.store(Ptr(p.obj, p.path + (1,)), nd)
    M.store(Ptr(p.obj, p.path + (2,)), dp)
    return M.S.br(num.cmp(memo_fresh("gen%d_ok" % (M.S.env["ngen"] - 1), 0, 1), "==", 1))


def fill_decimal(M, p, *rest):
    arr, nd, dp = newdigits(M, 800)
    M.store(Ptr(p.obj, p.path + (0,)), arr)
    M.store(Ptr(p.obj, p.path + (1,)), nd)
    M.store(Ptr(p.obj, p.path + (2,)), dp)


def bounds(M, f, mant, exp, neg, flt):
    c = M.S.env.get("nb", 0)
    M.S.env["nb"] = c + 1
    w = [(memo_fresh("ext%d_%d" % (c, i), 0, (1 << 64) - 1), memo_fresh("exx%d_%d" % (c, i), -5000, 5000), False) for i in range(3)]
    M.store(f, w[0])
    return (w[1], w[2])


def half(M, x):
    """Contract of binary16.NewFromFloat64; the value under test, a half
    precision number, gives back its own pattern (C14)."""
    x = x.classify(M)
    d = M.S.env["val"]
    if "half" in M.S.env and x.kind == d[0] and x.neg == d[1] and x.kind in ("fin", "inf", "zero") and \
            (x.kind != "fin" or x.mag.key == d[2].key):
        return (mkfloat(M, HALF, [M.S.env["half"]]), 0)
    return fromfloat_contract(HALF, 64)(M, x)


def modes(M):
    num.NEST = True
    M.seqmode = True
    M.loopmode = lambda fn, h: fn["name"].split(".")[-1] != "formatBits"


def install(M):
    modes(M)
    M.contracts = dict(M.contracts)
    M.contracts.update({
        EXT + "AssignComputeBounds": bounds,
        EXT + "ShortestDecimal": lambda M, f, d, l, u: fill_slice(M, d),
        EXT + "FixedDecimal": lambda M, f, d, n: fill_slice(M, d),
        P + "roundShortest": lambda M, d, m, e, flt: fill_decimal(M, d),
        HALF.fn("NewFromFloat64"): half,
    })
    for n in ("Assign", "Shift", "Round", "RoundDown", "RoundUp"):
        M.contracts[DEC + n] = fill_decimal


# ------------------------------------------------------------------ the documented layout

def ite(M, c, a, b):
    return a if M.S.br(c) else b


def maxof(M, a, b):
    return ite(M, num.cmp(a, "<", b), b, a)


def minof(M, a, b):
    return ite(M, num.cmp(a, "<", b), a, b)


def exponent(M, e):
    """e+dd, at least two digits"""
    s = 43
    if M.S.br(num.cmp(e, "<", 0)):
        s, e = 45, num.scale(e, -1)
    n = 2 if M.S.br(num.cmp(e, "<", 100)) else 3
    return [lit(s, *[num.add(48, d) for d in plain(e, n)])]


def plain(e, n):
    out = []
    for _ in range(n):
        e, d = num.divmodc(e, 10)
        out.append(d)
    return out[::-1]


def lit(*cs):
    return ("lit", tuple(cs))


def layout_e(M, dig, prec, ch):
    arr, nd, dp = dig
    out = [("run", dig, 0, 1)]
    if M.S.br(num.cmp(0, "<", prec)):
        out += [lit(46), ("run", dig, 1, prec)]
    e = 0 if M.S.br(num.cmp(nd, "==", 0)) else num.sub(dp, 1)
    return out + [lit(ch)] + exponent(M, e)


def layout_f(M, dig, prec):
    arr, nd, dp = dig
    out = [("run", dig, 0, dp)] if M.S.br(num.cmp(0, "<", dp)) else [lit(48)]
    if M.S.br(num.cmp(0, "<", prec)):
        out += [lit(46), ("run", dig, dp, prec)]
    return out


def layout(M, dig, verb, prec):
    """The documented text without its sign, as segments, for the precision
    argument of FormatFloat."""
    arr, nd, dp = dig
    short = M.S.br(num.cmp(prec, "<", 0))
    if short:
        prec = num.sub(nd, 1) if verb in (101, 69) else num.sub(nd, dp) if verb == 102 else nd
    elif verb in (103, 71):
        prec = maxof(M, prec, 1)
    return layout_digits(M, dig, verb, prec, short)


def layout_digits(M, dig, verb, prec, short):
    arr, nd, dp = dig
    if verb in (101, 69):
        return layout_e(M, dig, prec, verb)
    if verb == 102:
        return layout_f(M, dig, prec)
    if verb in (103, 71):
        # the exponent form is used below 1e-4 and from 10^eprec on
        ep = 6 if short else prec
        if not short and M.S.br(zand(num.cmp(nd, "<", prec), num.cmp(dp, "<=", nd))):
            ep = nd
        x = num.sub(dp, 1)
        if M.S.br(zor(num.cmp(x, "<", -4), num.cmp(ep, "<=", x))):
            return layout_e(M, dig, num.sub(minof(M, prec, nd), 1), verb - 2)
        # trailing zeros behind the point are not printed
        return layout_f(M, dig, num.sub(ite(M, num.cmp(dp, "<", prec), nd, prec), dp))
    return [lit(37, verb)]


def units(segs):
    for s in segs:
        if s[0] == "lit":
            for c in s[1]:
                yield ("c", c)
        else:
            yield s


def matches(M, a, b):
    """Conditions under which two segment lists are the same text, or None
    when they have different structure."""
    a, b = list(units(a)), list(units(b))
    if len(a) != len(b):
        return None
    out = []
    for p, q in zip(a, b):
        if p[0] != q[0]:
            return None
        if p[0] == "c":
            out.append(num.cmp(p[1], "==", q[1]))
        elif p[0] == "run":
            if p[1][0] is not q[1][0]:
                return None
            out += [num.cmp(p[1][1], "==", q[1][1]), num.cmp(p[2], "==", q[2]), num.cmp(p[3], "==", q[3])]
        elif p[0] == "num":
            if p[2] != q[2]:
                return None
            out.append(num.cmp(p[1], "==", q[1]))
        else:
            return None
    return zand(*out)


def compare(M, ob, q, want):
    """Obligations: the sequence q is the wanted text."""
    m = matches(M, q.segs, want)
    if m is not None and (m is True or any(s[0] in ("run", "num") for s in q.segs) or
                          all(s[0] == "lit" for s in q.segs)):
        ob("the text is the documented one", m, "%r vs %r" % (q, want))
        return
    want = SeqObj(want)
    n = want.length()
    ob("the text has the documented length", num.cmp(q.length(), "==", n), "%r vs %r" % (q, want))
    i = memo_fresh("position", 0, 1 << 50)
    M.S.assume(num.cmp(i, "<", n))
    M.S.assume(num.cmp(i, "<", q.length()))
    got = seqs.charat(M, q, i)
    w = seqs.charat(M, want, i)
    ob("every character is the documented one", num.cmp(got, "==", w), "%r vs %r at %r: %r %r" % (got, w, i, q, want))


# ------------------------------------------------------------------ formatDigits and formatBits

FD = P + "formatDigits"
FB = P + "formatBits"


FDOK = set()           # verbs for which the contract has been discharged


def formatdigits_for(verb):
    FDOK.add(VERBS.get(verb, verb))
    return formatdigits_contract


def formatdigits_contract(M, dst, short, neg, digs, prec, verb):
    from fmtspec import run_body
    S = M.S
    if ("other" if isinstance(verb, L) or verb not in (101, 69, 102, 103, 71) else verb) not in FDOK:
        return run_body(M, FD, [dst, short, neg, digs, prec, verb])
    sl, nd, dp = digs[0], digs[1], digs[2]
    v = verb if not isinstance(verb, L) else None
    if isinstance(short, bool) is False:
        short = S.br(short)
    neg = S.br(neg)
    pre = zand(num.cmp(0, "<=", nd), num.cmp(nd, "<=", sl.len), num.cmp(-MAXDP + 2, "<=", dp), num.cmp(dp, "<=", MAXDP),
               num.cmp(-MAXPREC, "<=", prec), num.cmp(prec, "<=", MAXPREC), num.cmp(sl.len, "<=", 800))
    if sl.ptr is None or sl.off != 0 or not S.proves(pre):
        return run_body(M, FD, [dst, short, neg, digs, prec, verb])
    if v is None and not all(S.proves(znot(num.cmp(verb, "==", c))) for c in (101, 69, 102, 103, 71)):
        return run_body(M, FD, [dst, short, neg, digs, prec, verb])
    dig = (M.load(sl.ptr), nd, dp)
    if v is None or v not in (101, 69, 102, 103, 71):
        return seqs.extend(M, dst, [lit(37, verb)])
    return seqs.extend(M, dst, ([lit(45)] if neg else []) + layout_digits(M, dig, v, prec, short))


MAXPREC = (1 << 40) + 2000


def numseg(v, base):
    kk = ("numlen", num.key(v), base)
    if kk not in num.MEMO:
        num.MEMO[kk] = num.Atom("nlen", "int", 1, 66)
    return ("num", v, base, num.atom(num.MEMO[kk]))


def formatbits_contract(M, dst, u, base, neg, app):
    from fmtspec import run_body
    if base != 10 or app is not True or M.S.br(neg) and not M.S.proves(num.cmp(1 << 63, "<=", u)):
        return run_body(M, FB, [dst, u, base, neg, app])
    if M.S.br(neg):
        v = num.sub(u, 1 << 64)
        return (seqs.extend(M, dst, [lit(45), numseg(num.scale(v, -1), base)]), b"")
    return (seqs.extend(M, dst, [numseg(u, base)]), b"")


def sym_dst(M):
    n = memo_fresh("dstlen", 0, (1 << 40))
    c = memo_fresh("dstcap", 0, 1 << 41)
    M.S.assume(num.cmp(n, "<=", c))
    return Slice(Ptr(M.S.alloc(SeqObj([("pre", "dst", n)]))), 0, n, c)


def behind(M, ob, dst, r):
    """The appended part of r, with the obligations about the prefix."""
    segs = seqs.toseq(M, r)
    if segs and segs[0][0] == "pre":
        good = seqs.same(M, segs[0][-1], dst.len)
        q = SeqObj(segs[1:])
    else:
        good = M.S.proves(num.cmp(dst.len, "==", 0))
        q = SeqObj(segs)
    ob("the buffer's old contents come first, unchanged", good)
    ob("the buffer itself keeps its contents", M.S.heap[dst.ptr.obj] is M.S.env["heap0"][dst.ptr.obj])
    return q


def case_formatdigits(verb):
    def setup(M):
        modes(M)
        S = M.S
        N = memo_fresh("buflen", 1, 800)
        arr = Arr(z3.Array("digits", z3.IntSort(), z3.IntSort()), 800, 48, 57)
        nd = memo_fresh("nd", 0, 800)
        S.assume(num.cmp(nd, "<=", N))
        dp = memo_fresh("dp", -MAXDP + 2, MAXDP)
        sl = Slice(Ptr(S.alloc(arr)), 0, N, N)
        neg = S.br(num.cmp(memo_fresh("neg", 0, 1), "==", 1))
        short = S.br(num.cmp(memo_fresh("shortest", 0, 1), "==", 1))
        prec = memo_fresh("prec", -MAXPREC, MAXPREC)
        if verb == "other":
            v = memo_fresh("verb", 0, 255)
            for c in (101, 69, 102, 103, 71):
                S.assume(znot(num.cmp(v, "==", c)))
        else:
            v = VERBS[verb]
        S.env["in"] = (arr, nd, dp, neg, short, prec, v)
        return [sym_dst(M), short, neg, (sl, nd, dp, False), prec, v]

    def post(M, args, out, ob):
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        arr, nd, dp, neg, short, prec, v = M.S.env["in"]
        q = behind(M, ob, args[0], out[1])
        if isinstance(v, L):
            compare(M, ob, q, [lit(37, v)])
            return
        compare(M, ob, q, ([lit(45)] if neg else []) + layout_digits(M, (arr, nd, dp), v, prec, short))
    return (FD, "verb %s" % verb, setup, post, None)


def case_formatbits():
    """formatBits in base 10, appending."""
    from strspec import isnumeral, chars_of

    def setup(M):
        num.NEST = True
        M.seqmode = True
        u = memo_fresh("u", 0, (1 << 64) - 1)
        neg = M.S.br(num.cmp(memo_fresh("neg", 0, 1), "==", 1))
        if neg:
            M.S.assume(num.cmp(1 << 63, "<=", u))
        M.S.env["v"] = num.sub(u, 1 << 64) if neg else u
        return [sym_dst(M), u, 10, neg, True]

    def post(M, args, out, ob):
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        q = behind(M, ob, args[0], out[1][0])
        isnumeral(M, ob, chars_of(M, Str([("seq", q)])) if q.segs else [], M.S.env["v"], 10)
    return (FB, "base 10, appending", setup, post, None)


# ------------------------------------------------------------------ FormatFloat and AppendFloat

VERBS = {"e": 101, "E": 69, "f": 102, "g": 103, "G": 71, "b": 98}


def case_layout(verb, size, app, digits=None):
    """digits: None (any digits; C24), or "fixed"/"shortest": the digits are
    those of the value (C23, C22)"""
    import ftoaspec as fz
    fn = P + ("AppendFloat" if app else "FormatFloat")

    def setup(M):
        install(M)
        if digits:
            fz.INSTALL[digits](M)
        S = M.S
        w = {16: 16, 32: 32, 64: 64}[size]
        if size == 16:
            b = memo_fresh("b16", 0, (1 << 16) - 1)
            d = decode(M, HALF, [b])
            d = d if len(d) == 3 else d + (None,)
            S.env["half"] = b
        else:
            b = memo_fresh("b%d" % size, 0, (1 << size) - 1)
            f = F.frombits(M, size, b).classify(M)
            d = (f.kind, f.neg, f.mag)
        S.env["val"] = d
        if size == 64:
            x = F.frombits(M, 64, b)
        else:
            x = F(64, d[0], d[1], d[2] if d[0] == "fin" else None)
        if verb == "other":
            v = memo_fresh("verb", 0, 255)
            for c in sorted(VERBS.values()):
                S.assume(znot(num.cmp(v, "==", c)))
        else:
            v = VERBS[verb]
        prec = memo_fresh("prec", -(1 << 40) if digits != "fixed" else 0, 1 << 40 if digits != "shortest" else -1)
        S.env["verb"], S.env["prec"] = v, prec
        a = [x, v, prec, size]
        if app:
            a.insert(0, sym_dst(M))
        return a

    def post(M, args, out, ob):
        S = M.S
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        kind, neg, mag = S.env["val"]
        v, prec = S.env["verb"], S.env["prec"]
        r = out[1]
        if app:
            q = behind(M, ob, args[0], r)
        else:
            q = []
            for p in pieces(r):
                q += [("lit", tuple(p))] if isinstance(p, bytes) else [("lit", (p[1],))] if p[0] == "c" else list(p[1].segs)
            q = SeqObj(q)
        if kind == "nan":
            want = [lit(*b"NaN")]
        elif kind == "inf":
            want = [lit(*(b"-Inf" if neg else b"+Inf"))]
        elif v == 98:
            want = wantb(M, ob, kind, neg, mag, size, q)
        elif v in (101, 69, 102, 103, 71):
            dig = S.env.get("digits")
            if dig is None:
                ob("digits come from a digit generator", False)
                return
            # the sign of the value, zero included, then the layout of the digits
            if digits:
                fz.POST[digits](M, ob, dig, kind, mag, v, prec)
            want = ([lit(45)] if neg else []) + layout(M, dig, v, prec)
        else:
            want = [lit(37, v)]
        compare(M, ob, q, want)

    def conc(M, m, args):
        g = lambda n: int(ev(m, num.atom(num.MEMO[("input", n)]))) if ("input", n) in num.MEMO else 0
        v = M.S.env["verb"]
        return {"op": "fmtfloat", "bits": str(g("b%d" % size)), "size": size, "verb": int(ev(m, v)), "prec": min(g("prec"), 2000), "pre": "xy", "cap": 0}
    return (fn, "%s, %d bits" % (verb, size), setup, post, conc)


def wantb(M, ob, kind, neg, mag, size, q):
    """-ddddp+ddd: exact binary mantissa and exponent."""
    emin = {16: -24, 32: -149, 64: -1074}[size]
    mant, exp = (0, emin) if kind == "zero" else (mag.t, mag.sh)
    pm = ([lit(45)] if neg else [])
    if M.S.br(num.cmp(exp, "<", 0)):
        s, exp = 45, num.scale(exp, -1)
    else:
        s = 43
    if any(p[0] == "num" for p in q.segs):
        return pm + [numseg(mant, 10), lit(112, s), numseg(exp, 10)]
    # numerals written out
    if not all(p[0] == "lit" for p in q.segs):
        raise Unsupported("binary form of symbolic length")
    cs = [c for p in q.segs for c in p[1]]
    k = cs.index(112) if 112 in cs else -1
    ob("mantissa and exponent are separated by p", k >= 0)
    if k < 0:
        raise Dead()
    out = [45] if neg else []
    out += digits_of(M, ob, mant, k - len(out)) + [112, s]
    return [lit(*(out + digits_of(M, ob, exp, len(cs) - len(out))))]


def digits_of(M, ob, u, n):
    ob("at least one digit", n >= 1)
    if n < 1:
        raise Dead()
    if n > 1:
        ob("no leading zeros", num.cmp(10 ** (n - 1), "<=", u))
    ob("digits suffice for the value", num.cmp(u, "<", 10 ** n))
    return numeral(M, u, 10, n)
