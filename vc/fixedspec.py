"""Contracts of fixed-precision formatting (C23): the fast path FixedDecimal
with its helpers, and the two ways genericFtoa and bigFtoa use it and the
multiprecision decimals."""
from fractions import Fraction
import z3
import num
from num import L, zand, zor, znot, zimp, ziff
from core import Dead, Unsupported
from exec import Ptr, Slice
from decspec import P, DEC, eq, le, lt, keyed, memo_fresh, boolvar, uniq, setfield, frame, returned, GArr, up_value, NinesInv, DUpd, I, R_
from loops import prove, consistent
import verify
from verify import ev

EXT = "(*" + P + "extFloat)."
EMIN, EMAX = -1137, 960            # exponents of normalised 64-bit mantissas of all formats
NORM = 1 << 63
HALF = Fraction(1, 2)


def table(M, name):
    v = M.baseheap[M.globobj[P + name]]
    return v


# ------------------------------------------------------------------ Normalize

def normalize_contract(M, f):
    """value unchanged, top bit set"""
    S = M.S
    m, e, neg = M.load(f)
    prove(M, [("Normalize: mantissa is not zero", lt(0, m))])
    nm = uniq(M, "norm")
    n = memo_fresh(nm + "_n", 0, 63)
    setfield(M, f, 0, memo_fresh(nm + "_m", NORM, 2 * NORM - 1))
    setfield(M, f, 1, num.sub(e, n))
    S.env["normed"] = (m, e)
    # mantissas below 2^53 are shifted by at least 11
    S.assume(zimp(lt(m, 1 << 53), le(11, n)))
    return n


def case_normalize():
    def setup(M):
        m = memo_fresh("m", 1, 2 * NORM - 1)
        e = memo_fresh("e", -5000, 5000)
        f = Ptr(M.S.alloc((m, e, boolvar("neg"))))
        M.S.env["v0"] = M.load(f)
        return [f]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        S = M.S
        m, e, neg = M.load(args[0])
        m0, e0, neg0 = S.env["v0"]
        n = S.concretize(out[1])
        ob("value unchanged", zand(eq(m, num.scale(m0, 1 << n)), eq(e, num.sub(e0, n)), ziff(neg, neg0)))
        ob("top bit set", zand(le(NORM, m), lt(m, 2 * NORM)))
        ob("shift count", 0 <= n <= 63)
        ob("mantissas below 2^53 are shifted by at least 11", zimp(lt(m0, 1 << 53), 11 <= n))
        ob("mantissas below 2^54 are shifted by at least 10", zimp(lt(m0, 1 << 54), 10 <= n))
        ob("mantissas of at least 2 are shifted by at most 62", zimp(lt(1, m0), n <= 62))
        frame(M, ob, args[0])
    return EXT + "Normalize", "", setup, post


# ------------------------------------------------------------------ Multiply

def rounded(m, p):
    return num.floordiv(num.scale(num.add(num.scale(m, p), NORM), Fraction(1, 2 * NORM)))


def multiply_contract(M, f, g):
    """the mantissa is the product of the mantissas / 2^64, rounded to nearest (ties up)"""
    m, e, neg = M.load(f)
    gm, ge, _ = g
    if isinstance(gm, L):
        raise Unsupported("multiplication by an unknown factor")
    setfield(M, f, 0, rounded(m, gm))
    setfield(M, f, 1, num.add(num.add(e, ge), 64))


def case_multiply1(gm, ge):
    def setup(M):
        m = memo_fresh("m", 0, 2 * NORM - 1)
        e = memo_fresh("e", -5000, 5000)
        f = Ptr(M.S.alloc((m, e, boolvar("neg"))))
        M.S.env["v0"] = M.load(f)
        return [f, (gm, ge, False)]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        m, e, neg = M.load(args[0])
        m0, e0, neg0 = M.S.env["v0"]
        # |m - m0*gm/2^64| <= 1/2, ties up
        t = num.add(num.scale(m0, gm), NORM)
        ob("product rounded to nearest", zand(le(num.scale(m, 2 * NORM), t), lt(t, num.scale(num.add(m, 1), 2 * NORM))))
        ob("exponent", eq(e, num.add(e0, ge + 64)))
        ob("sign unchanged", ziff(neg, neg0))
        frame(M, ob, args[0])
    return EXT + "Multiply", "by %#x" % gm, setup, post


def case_multiply():
    def run(M):
        return verify.multi(EXT + "Multiply", "all powers of ten of the table",
                            [case_multiply1(g[0], g[1]) for g in table(M, "powersOfTen")])(M)
    return run


# ------------------------------------------------------------------ frexp10

def case_frexp1(E):
    def setup(M):
        M.contracts = dict(M.contracts)
        M.contracts[EXT + "Multiply"] = multiply_contract
        m = memo_fresh("m", NORM, 2 * NORM - 1)
        f = Ptr(M.S.alloc((m, E, boolvar("neg"))))
        M.S.env["v0"] = M.load(f)
        return [f]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        m, e, neg = M.load(args[0])
        m0, e0, neg0 = M.S.env["v0"]
        x10, i = out[1]
        ok = not isinstance(e, L) and not isinstance(x10, L) and not isinstance(i, L)
        ob("scaling does not depend on the mantissa", ok)
        if not ok:
            return
        ob("binary exponent in [-60,-32]", -60 <= e <= -32)
        X = num.scale(m0, Fraction(2) ** (E - e) * Fraction(10) ** -x10)
        ob("same value up to one unit", zand(lt(num.sub(X, 1), m), lt(m, num.add(X, 1))))
        ob("mantissa stays large", zand(le(1 << 62, m), lt(m, 2 * NORM)))
        ob("index is that of the power", i * 8 - 348 == -x10)
        ob("sign unchanged", ziff(neg, neg0))
        frame(M, ob, args[0])

    def conc(M, m, args):
        return None
    return EXT + "frexp10", "exponent %d" % E, setup, post


def case_frexp(part, parts):
    es = list(range(EMIN, EMAX + 1))
    n = (len(es) + parts - 1) // parts
    es = es[part * n:(part + 1) * n]
    return verify.multi(EXT + "frexp10", "exponents %d to %d" % (es[0], es[-1]), [(lambda e=e: case_frexp1(e)) for e in es])


def frexp_contract(s):
    def h(M, f):
        """value = X * 2^-s * 10^exp10 with |mantissa - X| < 1, for the case of exponent -s"""
        S = M.S
        m, e, neg = M.load(f)
        prove(M, [("frexp10: mantissa is normalised", le(NORM, m)),
                  ("frexp10: exponent in range", zand(le(EMIN, e), le(e, EMAX)))])
        m2 = memo_fresh("fm", 1 << 62, 2 * NORM - 1)
        X = memo_fresh("X", (1 << 62) - 1, 2 * NORM, "real")
        x10 = memo_fresh("exp10", -340, 348)
        S.assume(zand(lt(num.sub(X, 1), m2), lt(m2, num.add(X, 1))))
        setfield(M, f, 0, m2)
        setfield(M, f, 1, -s)
        S.env.update(X=X, x10=x10, s=s)
        return (x10, memo_fresh("index", 0, 200))
    return h


# ------------------------------------------------------------------ adjustLastDigitFixed

class DBuf(GArr):
    """digits of a digit buffer that may be overwritten once"""

    def gupd(self, M, i, x):
        return DUpd(self, i, x)


def case_adjfixed(s):
    def setup(M):
        S = M.S
        inv = NinesInv("d", lambda M: (M.S.env["arr"], M.S.env["nd0"]))
        M.invs = {P + "adjustLastDigitFixed": {(0, frozenset(["i"])): inv, (1, frozenset()): inv}}
        nd = memo_fresh("nd", 1, 24)
        arr = DBuf("buf", nd)
        sl = Slice(Ptr(S.alloc(arr)), 0, 24, 24)
        d = Ptr(S.alloc((sl, nd, memo_fresh("dp", -2000, 2000), boolvar("dneg"))))
        w = memo_fresh("den", 1, (1 << (64 - s)) - 1)
        W = num.scale(w, 1 << s)
        n = memo_fresh("num", 0, 2 * NORM - 1)
        eps = memo_fresh("eps", 1, 2 * NORM - 1)
        S.assume(le(n, W))
        S.assume(le(num.scale(eps, 4), W))
        S.assume(lt(num.scale(num.add(n, eps), 2), 2 * NORM))
        S.env.update(d=d, d0=M.load(d), nd0=nd, arr=arr, W=W)
        return [d, n, w, s, eps]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        S = M.S
        d, n, w, s, eps = args
        v, v0 = M.load(d), S.env["d0"]
        a, arr, W, nd0 = M.load(v0[0].ptr), S.env["arr"], S.env["W"], S.env["nd0"]
        h0 = S.env["heap0"]
        ob("frame: nothing else changes", all(S.heap[o] is x or repr(S.heap[o]) == repr(x) for o, x in h0.items() if o not in (d.obj, v0[0].ptr.obj)))
        if S.br(lt(num.scale(num.add(n, eps), 2), W)):
            ob("below one half: accepted", out[1])
            ob("below one half: unchanged", v == v0 and a is arr)
        elif S.br(lt(W, num.scale(num.sub(n, eps), 2))):
            ob("above one half: accepted", out[1])
            ok = isinstance(a, DUpd) and a.base is arr
            ob("one digit is incremented", ok)
            if not ok:
                return
            dd = num.sub(v[2], v0[2])
            ob("the digit incremented is the last", eq(v[1], num.add(a.i, 1)))
            ob("digits", zand(lt(48, a.x), le(a.x, 57), le(0, a.i), lt(a.i, nd0)))
            U = lambda i: up_value(arr, nd0, i)
            if S.br(eq(dd, 0)):
                ob("value is one unit in the last place more", eq(U(a.i), num.scale(num.sub(a.x, 48), Fraction(1, 10))))
            else:
                ob("value is one unit in the last place more", zand(eq(dd, 1), eq(a.i, 0), eq(a.x, 49), eq(U(0), 1)))
            ob("buffer and sign unchanged", v[0] is v0[0] and v[3] is v0[3])
        else:
            ob("too close to one half: refused", znot(out[1]))
    return P + "adjustLastDigitFixed", "shift %d" % s, setup, post


def digitvalue(M, arr, k):
    R = 0
    for i in range(k):
        R = num.add(num.scale(R, 10), num.sub(M.sel(arr, i), 48))
    return R


def value_digits(M, d, T, k, nd):
    """The buffer holds nd <= k digits with fraction T/10^k."""
    S = M.S
    sl = M.load(d)[0]
    a = GArr(uniq(M, "vd"), nd)
    S.assume(eq(a.X(nd), num.scale(T, Fraction(1, 10 ** k))))
    M.store(sl.ptr, a)
    setfield(M, d, 1, nd)
    consistent(M)


def adjfixed_contract(M, d, n, den, s, eps):
    S = M.S
    sl, nd, dp, neg = M.load(d)
    k = S.concretize(nd)
    arr = M.load(sl.ptr)
    if isinstance(den, L) or isinstance(s, L):
        raise Unsupported("unknown scale")
    W = den << s
    prove(M, [("at least one digit", 1 <= k <= 24 and sl.off == 0),
              ("digits", zand(*[zand(le(48, M.sel(arr, i)), le(M.sel(arr, i), 57)) for i in range(k)])),
              ("shift between 32 and 60", 32 <= s <= 60),
              ("the scale fits", W < 2 * NORM),
              ("the remainder is at most one", le(n, W)),
              ("uncertainty is at most one quarter", zand(le(1, eps), le(num.scale(eps, 4), W))),
              ("no overflow", lt(num.scale(num.add(n, eps), 2), 2 * NORM))])
    R = digitvalue(M, arr, k)
    if S.br(lt(num.scale(num.add(n, eps), 2), W)):
        value_digits(M, d, R, k, k)
        return True
    if S.br(lt(W, num.scale(num.sub(n, eps), 2))):
        T = num.add(R, 1)
        if S.br(eq(T, 10 ** k)):
            setfield(M, d, 2, num.add(dp, 1))
            value_digits(M, d, 1, 1, 1)
        else:
            nd2 = memo_fresh(uniq(M, "adjnd"), 1, k)
            value_digits(M, d, T, k, nd2)
        return True
    return False


# ------------------------------------------------------------------ FixedDecimal

class FixTrim:
    """trailing zeros"""
    order = ("i",)

    def objs(self, M, V):
        return []

    def applies(self, M, V):
        d = M.load(M.S.env["d"])
        return isinstance(M.load(d[0].ptr), GArr)

    def enter(self, M, V):
        S = M.S
        d = M.load(S.env["d"])
        return {"d": d, "arr": M.load(d[0].ptr)}

    def havoc(self, M, V, g):
        i = V["i"] = memo_fresh(uniq(M, "ft"), -1, 40)
        M.S.assume(lt(i, g["d"][1]))
        return g

    def inv(self, M, V, g):
        S = M.S
        i = V["i"]
        arr = g["arr"]
        if not isinstance(arr, GArr):
            return [("digits", False)]
        d = M.load(S.env["d"])
        return [("position", zand(le(-1, i), lt(i, d[1]))),
                ("only zeros behind", eq(arr.X(num.add(i, 1)), arr.X(d[1]))),
                ("frame", d is g["d"] and M.load(d[0].ptr) is arr)]

    def next(self, M, V, g, V0):
        return g


def case_fixed(s, n):
    def setup(M):
        S = M.S
        num.NEST = True
        M.contracts = dict(M.contracts)
        M.contracts[EXT + "Normalize"] = normalize_contract
        M.contracts[EXT + "frexp10"] = frexp_contract(s)
        M.contracts[P + "adjustLastDigitFixed"] = adjfixed_contract
        M.invs = {EXT + "FixedDecimal": {(4, frozenset(["i"])): FixTrim()}}
        m = memo_fresh("mant", 0, (1 << 53) - 1)
        e = memo_fresh("exp", -1074, 971)
        neg = boolvar("neg")
        f = Ptr(S.alloc((m, e, neg)))
        # a buffer of 24 bytes or more with arbitrary contents
        ln = memo_fresh("buflen", 24, 800)
        buf = Ptr(S.alloc(tuple(memo_fresh("buf%d" % i, 0, 255) for i in range(24))))
        d = Ptr(S.alloc((Slice(buf, 0, ln, ln), memo_fresh("nd0", 0, 24), memo_fresh("dp0", -2000, 2000), boolvar("dneg"))))
        S.env.update(d=d, buf=buf, mant=m, exp=e)
        return [f, d, n]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        S = M.S
        f, d, n = args
        v = M.load(d)
        h0 = S.env["heap0"]
        ob("frame: nothing else changes", all(S.heap[o] is x or repr(S.heap[o]) == repr(x)
                                             for o, x in h0.items() if o not in (d.obj, f.obj, S.env["buf"].obj)))
        ok = out[1]
        if not S.br(ok):
            return
        if S.br(eq(S.env["mant"], 0)):
            ob("zero has no digits", zand(eq(v[1], 0), eq(v[2], 0)))
            return
        ob("value of the argument is kept", "X" in S.env and S.env.get("normed") is not None and
           zand(eq(S.env["normed"][0], S.env["mant"]), eq(S.env["normed"][1], S.env["exp"])))
        if "X" not in S.env:
            return
        arr = M.load(S.env["buf"])
        dd = num.sub(v[2], S.env["x10"])
        if isinstance(dd, L) or not isinstance(arr, GArr):
            ob("decimal point", False)
            return
        V = num.scale(S.env["X"], Fraction(1, 1 << s))
        nd = v[1]
        ob("at least one and at most the requested number of digits", zand(le(1, nd), le(nd, n)))
        val = num.scale(arr.X(nd), Fraction(10) ** dd)
        if S.br(le(0, num.sub(nd, 1))):
            ob("last digit is not zero", lt(48, arr.gsel(M, num.sub(nd, 1))))
        # the decade of the exact value
        p = dd - 2
        while p < dd + 2 and not S.br(lt(V, Fraction(10) ** p)):
            p += 1
        ob("decade", zor(p == dd, zand(p == dd - 1, eq(val, Fraction(10) ** p))))
        u = Fraction(10) ** (n - p)
        e = num.scale(num.sub(V, val), u)
        ob("nearest decimal with the requested number of digits", zand(lt(-HALF, e), lt(e, HALF)))
    return EXT + "FixedDecimal", "%d digits, scaled exponent -%d" % (n, s), setup, post


def case_fixed_all(s):
    return verify.multi(EXT + "FixedDecimal", "scaled exponent -%d, 1 to 15 digits" % s,
                        [(lambda n=n: case_fixed(s, n)) for n in range(1, 16)])
