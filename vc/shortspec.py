"""Contracts of shortest formatting (C22)."""
from fractions import Fraction
import z3
import num
from num import L, zand, zor, znot, zimp, ziff
from core import Dead, Unsupported
from exec import Ptr, Slice
from decspec import P, DEC, DArr, eq, le, lt, keyed, memo_fresh, boolvar, uniq, setfield, frame, returned, DUpd, I, R_
from fixedspec import EXT, EMIN, EMAX, NORM, multiply_contract, digitvalue, DBuf
from loops import prove, consistent
import verify

FORMATS = {16: (10, 5, -15), 32: (23, 8, -127), 64: (52, 11, -1023)}     # mantissa bits, exponent bits, bias


def smallest(size):
    mb, eb, bias = FORMATS[size]
    return bias + 1 - mb


def lemma_small():
    """No power of ten lies between a float of mantissa below ten, times 1/0.95,
    and the middle between it and the next float (all three formats)."""
    for size in FORMATS:
        for m in range(1, 10):
            v = m * Fraction(2) ** smallest(size)
            up = (2 * m + 1) * Fraction(2) ** (smallest(size) - 1)
            k = -400
            while Fraction(10) ** k * 95 / 100 <= v:
                k += 1
            if Fraction(10) ** k <= up:
                return False
    return True


def lemma_fewer():
    """A decimal of at most n-1 digits (n >= 2, unit: the n-th place of X, so
    10Q <= X with 10Q = 10^(n-1)) lies at or beyond one of the multiples of ten
    next to X: of the numbers of fewer digits those two are the ones to look at.
    Such a decimal is a*10^j with a < 10Q: a multiple of ten, or at most a."""
    w, t, Q, a = z3.Ints("w t Q a")     # 10t <= X < 10t+10

    def impossible(*cs):
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(*cs)
        return s.check() == z3.unsat
    # 10t < v = 10w < 10t+10;   10t < v <= a < 10Q <= X < 10t+10
    return impossible(10 * t < 10 * w, 10 * w < 10 * t + 10) and impossible(10 * t < a, a < 10 * Q, 10 * Q < 10 * t + 10)


def lemma_fives():
    """5^23 does not divide a mantissa: integers m*2^E end in at most 22 zeros."""
    return all(5 ** 23 > 1 << (mb + 1) for mb, _, _ in FORMATS.values())


# ------------------------------------------------------------------ AssignComputeBounds

def fltinfo(M, size):
    return Ptr(M.globobj[P + "float%dinfo" % size])


def float_parts(M, size):
    """mantissa, exponent (as genericFtoa computes it) and whether the float
    below is closer than the one above"""
    S = M.S
    mb, eb, bias = FORMATS[size]
    if S.br(boolvar("denormal")):
        return memo_fresh("mant", 0, (1 << mb) - 1), 1 + bias, False
    m = memo_fresh("mant", 1 << mb, (2 << mb) - 1)
    e = memo_fresh("exp", 1 + bias, (1 << eb) - 2 + bias)
    return m, e, zand(eq(m, 1 << mb), lt(1 + bias, e))


def case_bounds(size):
    mb = FORMATS[size][0]

    def setup(M):
        S = M.S
        m, e, b = float_parts(M, size)
        f = Ptr(S.alloc((memo_fresh("fm", 0, 2 * NORM - 1), memo_fresh("fe", -5000, 5000), boolvar("fneg"))))
        S.env.update(m=m, e=e, b=b)
        return [f, m, e, boolvar("neg"), fltinfo(M, size)]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        S = M.S
        m, E, neg = S.env["m"], num.sub(S.env["e"], mb), args[3]
        lower, upper = out[1]
        f = M.load(args[0])
        same = lambda x, wm, we: zand(eq(x[0], wm), eq(x[1], we), ziff(x[2], neg))
        frame(M, ob, args[0])
        if S.br(eq(m, 0)):
            ob("zero", zand(same(f, 0, 0), same(lower, 0, 0), same(upper, 0, 0)))
            return
        if S.br(zand(le(E, 0), lt(-64, E))):
            E = S.concretize(E)
            q, r = num.divmodc(m, 1 << -E)
            if S.br(eq(r, 0)):
                ob("an integer: itself", zand(same(f, q, 0), same(lower, q, 0), same(upper, q, 0)))
                return
        ob("the float itself", same(f, m, E))
        ob("the middle between it and the next float", same(upper, num.add(num.scale(m, 2), 1), num.sub(E, 1)))
        if S.br(S.env["b"]):
            ob("the middle between it and the float before", same(lower, num.sub(num.scale(m, 4), 1), num.sub(E, 2)))
        else:
            ob("the middle between it and the float before", same(lower, num.sub(num.scale(m, 2), 1), num.sub(E, 1)))
    return EXT + "AssignComputeBounds", "%d bits" % size, setup, post


# ------------------------------------------------------------------ frexp10Many

def case_many1(E):
    def setup(M):
        M.contracts = dict(M.contracts)
        M.contracts[EXT + "Multiply"] = multiply_contract
        S = M.S
        ms = [memo_fresh("a", 0, 2 * NORM - 1), memo_fresh("b", 0, 2 * NORM - 1), memo_fresh("c", NORM, 2 * NORM - 1)]
        ps = [Ptr(S.alloc((m, E, boolvar("neg%d" % i)))) for i, m in enumerate(ms)]
        S.env["v0"] = [M.load(p) for p in ps]
        return ps

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        x10 = out[1]
        vs = [M.load(p) for p in args]
        e = vs[2][1]
        ok = not isinstance(e, L) and not isinstance(x10, L)
        ob("scaling does not depend on the mantissas", ok)
        if not ok:
            return
        ob("binary exponent in [-60,-32]", -60 <= e <= -32)
        ob("the same exponent for all", zand(eq(vs[0][1], e), eq(vs[1][1], e)))
        fac = Fraction(2) ** (E - e) * Fraction(10) ** -x10
        for v, v0 in zip(vs, M.S.env["v0"]):
            X = num.scale(v0[0], fac)
            ob("same value up to one unit", zand(lt(num.sub(X, 1), v[0]), lt(v[0], num.add(X, 1))))
            ob("sign unchanged", ziff(v[2], v0[2]))
        ob("mantissa stays large but below 2^64-1", zand(le(1 << 62, vs[2][0]), lt(vs[2][0], 2 * NORM - 1)))
        h0 = M.S.env["heap0"]
        mine = {p.obj for p in args}
        ob("frame: nothing else changes", all(M.S.heap[o] is v or repr(M.S.heap[o]) == repr(v) for o, v in h0.items() if o not in mine))
    return P + "frexp10Many", "exponent %d" % E, setup, post


def case_many(part, parts):
    es = list(range(EMIN, EMAX + 1))
    n = (len(es) + parts - 1) // parts
    es = es[part * n:(part + 1) * n]
    return verify.multi(P + "frexp10Many", "exponents %d to %d" % (es[0], es[-1]), [(lambda e=e: case_many1(e)) for e in es])


def phi(M, x):
    """x scaled by the unknown factor of frexp10Many; linear"""
    def one(t):
        return keyed(("phi", t), "real", 0, None, lambda y, a: None)
    if not isinstance(x, L):
        return num.scale(one("1"), x)
    r = num.scale(one("1"), x.c)
    for t, k in x.ts:
        r = num.add(r, num.scale(one(t), k))
    return r


def many_contract(s):
    def h(M, a, b, c):
        S = M.S
        va, vb, vc = M.load(a), M.load(b), M.load(c)
        if len({a.obj, b.obj, c.obj}) != 3:
            raise Unsupported("frexp10Many of the same number twice")
        prove(M, [("frexp10Many: mantissa is normalised", le(NORM, vc[0])),
                  ("frexp10Many: exponent in range", zand(le(EMIN, vc[1]), le(vc[1], EMAX))),
                  ("frexp10Many: the same exponent", zand(eq(va[1], vc[1]), eq(vb[1], vc[1]))),
                  ("frexp10Many: mantissas do not overflow", zand(le(0, va[0]), le(0, vb[0])))])
        out = []
        for i, (p, v) in enumerate(((a, va), (b, vb), (c, vc))):
            m = memo_fresh("many%d" % i, 0 if i < 2 else 1 << 62, 2 * NORM - (1 if i < 2 else 2))
            X = phi(M, v[0])
            S.assume(zand(lt(num.sub(X, 1), m), lt(m, num.add(X, 1))))
            setfield(M, p, 0, m)
            setfield(M, p, 1, -s)
            out.append(X)
        one = phi(M, 1)
        # the factor is at least (2^62-1)/2^64; scaling keeps the order
        S.assume(lt((1 << 62) - 1, num.scale(one, 1 << 64)))
        at = sorted({t for v in (va, vb, vc) if isinstance(v[0], L) for t, k in v[0].ts})
        for t in at:
            x = num.atom(num.ATOMS[t])
            if M.S.proves(le(1, x)):
                S.assume(le(one, phi(M, x)))
            inf = num.ATOMS[t].info
            if inf and inf[0] == "mul" and len(at) == 2:
                o = [u for u in at if u != t][0]
                f = inf[1] if inf[2] == o else inf[2] if inf[1] == o else None
                if f is not None:
                    f = num.atom(num.ATOMS[f])
                    for k in (1, 10):
                        c = le(num.scale(phi(M, num.atom(num.ATOMS[o])), k), phi(M, x))
                        S.assume(c if S.proves(le(k, f)) else zor(lt(f, k), c))
        S.env["many"] = out
        consistent(M)
        return memo_fresh("exp10", -340, 348)
    return h


# ------------------------------------------------------------------ adjustLastDigit

class DecInv:
    """the last digit goes down by one at each step"""
    order = ("currentDiff:uint64",)
    splits = True

    def objs(self, M, V):
        return [M.S.env["arrobj"]]

    def enter(self, M, V):
        return {"k": 0}

    def havoc(self, M, V, g):
        S = M.S
        k = S.concretize(memo_fresh(uniq(M, "dec"), 0, 11))
        d, cd, td, mx, ud, ub = S.args
        V["currentDiff"] = num.add(cd, num.mul(k, ud))
        S.assume(lt(V["currentDiff"], num.add(td, ud)))
        if S.br(eq(k, 0)):
            k = 0
            V["currentDiff"] = cd
            M.store(Ptr(S.env["arrobj"]), S.env["arr"])
        else:
            S.assume(le(1, k))
            M.store(Ptr(S.env["arrobj"]), S.env["arr"].gupd(M, num.sub(S.env["nd0"], 1), memo_fresh(uniq(M, "byte"), 0, 255)))
        return {"k": k}

    def inv(self, M, V, g):
        S = M.S
        d, cd, td, mx, ud, ub = S.args
        k, c = g["k"], V["currentDiff"]
        a, arr, nd = M.load(Ptr(S.env["arrobj"])), S.env["arr"], S.env["nd0"]
        x0 = arr.gsel(M, num.sub(nd, 1))
        if isinstance(k, int) and k == 0:
            buf = a is arr
        else:
            buf = isinstance(a, DUpd) and a.base is arr and zand(eq(a.i, num.sub(nd, 1)), eq(a.x, num.sub(x0, k)))
        return [("difference grows by one unit of the last place at each step", zand(le(0, k), eq(c, num.add(cd, num.mul(k, ud))))),
                ("at most eleven steps", le(k, 11)),
                ("only while the target is more than half a unit away",
                 zor(eq(k, 0), lt(num.add(num.sub(c, ud), num.add(half(ud), ub)), td))),
                ("the last digit goes down with it", buf)]

    def next(self, M, V, g, V0):
        return {"k": num.add(g["k"], 1)}

    def step(self, M, V, V0):
        # the ghost k counts the iterations and is at most eleven (invariant)
        return [("steps left", True)]


def half(x):
    return num.divmodc(x, 2)[0]


def case_adjust():
    def setup(M):
        S = M.S
        M.invs = {P + "adjustLastDigit": {(0, frozenset(["currentDiff"])): DecInv()}}
        nd = memo_fresh("nd", 1, 32)
        arr = DBuf("buf", nd)
        sl = Slice(Ptr(S.alloc(arr)), 0, 32, 32)
        d = Ptr(S.alloc((sl, nd, memo_fresh("dp", -2000, 2000), boolvar("dneg"))))
        a = [memo_fresh(n, 0, 2 * NORM - 1) for n in ("currentDiff", "targetDiff", "maxDiff", "ulpDecimal", "ulpBinary")]
        x0 = S.concretize(num.sub(arr.gsel(M, num.sub(nd, 1)), 48))
        for n, c in adjust_pre(*a, x0):
            S.assume(c)
        S.env.update(d=d, d0=M.load(d), nd0=nd, arr=arr, arrobj=sl.ptr.obj)
        return [d] + a

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        S = M.S
        d, cd, td, mx, ud, ub = args
        v, v0, arr, nd = M.load(d), S.env["d0"], S.env["arr"], S.env["nd0"]
        h0 = S.env["heap0"]
        ob("frame: nothing else changes", all(S.heap[o] is x or repr(S.heap[o]) == repr(x) for o, x in h0.items() if o not in (d.obj, S.env["arrobj"])))
        if not S.br(out[1]):
            return
        a = M.load(Ptr(S.env["arrobj"]))
        x0 = arr.gsel(M, num.sub(nd, 1))
        if a is arr:
            k, x = 0, x0
        else:
            ok = isinstance(a, DUpd) and a.base is arr
            ob("at most the last digit changes", ok and eq(a.i, num.sub(nd, 1)))
            if not ok:
                return
            x = a.x
            k = num.sub(x0, x)
        ob("the last digit is lowered", zand(le(0, k), le(k, 11)))
        ob("the steps that bring it nearest, and the result is certain", adjust_post(cd, td, mx, ud, ub, k))
        if S.br(zand(eq(nd, 1), eq(x, 48))):
            ob("zero", zand(eq(v[1], 0), eq(v[2], 0)))
        else:
            ob("digit count and decimal point unchanged", zand(eq(v[1], nd), eq(v[2], v0[2])))
        ob("buffer and sign unchanged", v[0] is v0[0] and v[3] is v0[3])
    return P + "adjustLastDigit", "", setup, post


def adjust_pre(cd, td, mx, ud, ub, x0):
    # x0: the last digit
    return [("adjustLastDigit: the target is at most ten units away", le(td, num.scale(ud, 10))),
            ("adjustLastDigit: no overflow", zand(lt(num.add(td, num.add(half(ud), ub)), 2 * NORM), lt(num.add(cd, num.add(half(ud), ub)), 2 * NORM), lt(num.scale(ub, 2), 2 * NORM),
                                                  lt(num.add(cd, ud), 2 * NORM),
                                                  zor(zand(lt(num.add(cd, num.add(num.scale(ud, 2), ub)), 2 * NORM),
                                                           lt(num.add(td, num.add(num.scale(ud, 2), ub)), 2 * NORM)),
                                                      zand(lt(num.add(cd, num.mul(x0, ud)), 2 * NORM),
                                                           le(td, num.add(num.add(cd, num.mul(num.sub(x0, 1), ud)), num.add(half(ud), ub))))))),
            ("adjustLastDigit: uncertainty is at most the greatest difference", le(ub, mx))]


def adjust_post(cd, td, mx, ud, ub, k):
    """cd + k*ud is within half a unit of td, unless cd is beyond it, with a
    margin of ub on both sides"""
    h = half(ud)
    c = num.add(cd, num.mul(k, ud))
    return zand(le(num.scale(ub, 2), ud),
                zor(eq(k, 0), lt(num.add(num.sub(c, ud), num.add(h, ub)), td)),
                le(td, num.add(c, num.add(h, ub))),
                lt(num.add(td, num.add(h, ub)), num.add(c, ud)),
                le(ub, c), le(c, num.sub(mx, ub)))


def adjust_contract(M, d, cd, td, mx, ud, ub):
    S = M.S
    sl, nd, dp, neg = M.load(d)
    n = S.concretize(nd)
    if isinstance(ud, L) or sl.ptr is None or sl.off != 0 or n < 1:
        raise Unsupported("adjustLastDigit: unit of the last place")
    arr = M.load(sl.ptr)
    prove(M, adjust_pre(cd, td, mx, ud, ub, num.sub(M.sel(arr, n - 1), 48)) + [("adjustLastDigit: digits", zand(*[zand(le(48, M.sel(arr, i)), le(M.sel(arr, i), 57)) for i in range(n)]))])
    q = Ptr(sl.ptr.obj, sl.ptr.path + (n - 1,))
    if not S.br(boolvar(uniq(M, "certain"))):
        M.store(q, memo_fresh(uniq(M, "byte"), 0, 255))
        setfield(M, d, 1, memo_fresh(uniq(M, "jnd"), 0, n))
        setfield(M, d, 2, memo_fresh(uniq(M, "jdp"), -5000, 5000))
        return False
    k = memo_fresh(uniq(M, "steps"), 0, 11)
    S.assume(adjust_post(cd, td, mx, ud, ub, k))
    x = num.sub(M.load(q), k)
    M.store(q, x)
    if n == 1 and S.br(eq(x, 48)):
        setfield(M, d, 1, 0)
        setfield(M, d, 2, 0)
    return True


# ------------------------------------------------------------------ ShortestDecimal

def pow2atom(n):
    """2^n for an unknown count n, as a multiple of 2^(n-lo)"""
    if not isinstance(n, L):
        return 1 << n
    if len(n.ts) != 1 or n.ts[0][1] != 1:
        raise Unsupported("power of two")
    a = num.ATOMS[n.ts[0][0]]
    # n = a + c; the base is 2^(a-1-lo(a)), so that counts one lower are integers
    kk = ("pow2", a.id)
    if kk not in num.MEMO:
        num.MEMO[kk] = num.Atom("pow2", "int", 1, 1 << (a.hi - a.lo), ("pow2", a.id))
    c = n.c + a.lo
    if c < 0:
        raise Unsupported("power of two")
    return num.scale(num.atom(num.MEMO[kk]), 1 << c)


def symshift(M, x, y):
    """x << y for an unknown count, when it does not overflow"""
    p = num.mul(x, pow2atom(y))
    if not M.S.proves(lt(p, 2 * NORM)):
        raise Unsupported("overflow of a shift")
    return p


def norm_contract(M, f):
    """top bit set, by a shift of 10..62 places for mantissas from 2 to 2^54"""
    S = M.S
    m, e, neg = M.load(f)
    prove(M, [("Normalize: mantissa is at least 2 and below 2^54", zand(lt(1, m), lt(m, 1 << 54)))])
    n = memo_fresh(uniq(M, "nshift"), 10, 62)
    x = num.mul(m, pow2atom(n))
    S.assume(zand(le(NORM, x), lt(x, 2 * NORM)))
    setfield(M, f, 0, x)
    setfield(M, f, 1, num.sub(e, n))
    return n


def buffer(M):
    S = M.S
    ln = memo_fresh("buflen", 32, 800)
    buf = Ptr(S.alloc(tuple(memo_fresh("buf%d" % i, 0, 255) for i in range(32))))
    d = Ptr(S.alloc((Slice(buf, 0, ln, ln), memo_fresh("nd0", 0, 32), memo_fresh("dp0", -2000, 2000), boolvar("dneg"))))
    S.env.update(d=d, buf=buf)
    return d


def case_integer():
    def setup(M):
        S = M.S
        num.NEST = True
        n = memo_fresh("n", 0, (1 << 53) - 1)
        neg = boolvar("neg")
        ps = [Ptr(S.alloc((n, 0, neg))) for i in range(3)]
        d = buffer(M)
        S.env["mine"] = {p.obj for p in ps + [d, S.env["buf"]]}
        return [ps[0], d, ps[1], ps[2]]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        S = M.S
        ob("the answer is certain", out[1])
        n = memo_fresh("n", 0, (1 << 53) - 1)
        v = M.load(args[1])
        nd, dp = v[1], v[2]
        ok = not isinstance(nd, L) and not isinstance(dp, L)
        ob("digit count", ok)
        if not ok:
            return
        h0 = S.env["heap0"]
        ob("frame: nothing else changes", all(S.heap[o] is x or repr(S.heap[o]) == repr(x) for o, x in h0.items() if o not in S.env["mine"]))
        if S.br(eq(n, 0)):
            ob("zero has no digits", nd == 0 and dp == 0)
            return
        arr = M.load(S.env["buf"])
        ds = [M.sel(arr, i) for i in range(nd)]
        ob("at least one digit", nd >= 1)
        ob("digits", zand(*[zand(le(48, x), le(x, 57)) for x in ds]))
        ob("first and last digit are not zero", nd >= 1 and zand(lt(48, ds[0]), lt(48, ds[-1])))
        ob("is exactly the integer", eq(num.scale(digitvalue(M, arr, nd), Fraction(10) ** (dp - nd)), n))
    return EXT + "ShortestDecimal", "integers", setup, post


def case_shortest(s, boundary):
    def setup(M):
        S = M.S
        num.NEST = True
        M.symshift = symshift
        M.contracts = dict(M.contracts)
        M.contracts[EXT + "Normalize"] = norm_contract
        M.contracts[P + "frexp10Many"] = many_contract(s)
        M.contracts[P + "adjustLastDigit"] = adjust_contract
        # the float before is closer only to powers of two
        m = memo_fresh("mant", 10 if boundary else 1, (1 << 53) - 1)
        E = memo_fresh("exp", -1074, 971)
        neg = boolvar("neg")
        lo = (num.sub(num.scale(m, 4), 1), num.sub(E, 2), neg) if boundary else (num.sub(num.scale(m, 2), 1), num.sub(E, 1), neg)
        ps = [Ptr(S.alloc(x)) for x in ((m, E, neg), lo, (num.add(num.scale(m, 2), 1), num.sub(E, 1), neg))]
        d = buffer(M)
        S.env["mine"] = {p.obj for p in ps + [d, S.env["buf"]]}
        return [ps[0], d, ps[1], ps[2]]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        S = M.S
        h0 = S.env["heap0"]
        ob("frame: nothing else changes", all(S.heap[o] is x or repr(S.heap[o]) == repr(x) for o, x in h0.items() if o not in S.env["mine"]))
        if not S.br(out[1]):
            return
        ok = "many" in S.env
        ob("scaled", ok)
        if not ok:
            return
        XL, XF, XU = S.env["many"]
        v = M.load(args[1])
        nd, w = v[1], num.sub(v[2], memo_fresh("exp10", -340, 348))
        ok = not isinstance(nd, L) and not isinstance(w, L) and 1 <= nd <= 32
        ob("digit count and decimal point", ok, "%r %r" % (nd, w))
        if not ok:
            return
        arr = M.load(S.env["buf"])
        ds = [M.sel(arr, i) for i in range(nd)]
        u = Fraction(10) ** (w - nd) * (1 << s)
        D = num.scale(digitvalue(M, arr, nd), u)
        ob("digits", zand(*[zand(le(48, x), le(x, 57)) for x in ds]))
        ob("the first digit is not zero", lt(48, ds[0]))
        ob("the last digit is not zero", lt(48, ds[-1]))
        ob("rounds back to the float", zand(lt(XL, D), lt(D, XU)))
        if nd > 1:
            T = num.scale(num.sub(D, num.scale(num.sub(ds[-1], 48), u)), 1)
            ob("one digit less does not round back", zand(lt(T, XL), lt(XU, num.add(T, 10 * u))))
        e = num.sub(D, XF)
        near = zand(le(-u / 2, e), le(e, u / 2))
        ob("closest of that length", zor(near, zand(lt(D, XF), lt(XU, num.add(D, u))), zand(lt(XF, D), lt(num.sub(D, u), XL))))
        if nd == 1:
            # below a power of ten the numbers of one digit are closer together;
            # for mantissas below ten see lemma_small
            ob("closest of one digit", zor(lt(49, ds[0]), le(D, XF), le(num.scale(D, Fraction(95, 100)), XF),
                                           lt(memo_fresh("mant", 10 if boundary else 1, (1 << 53) - 1), 10)))
    return EXT + "ShortestDecimal", "scaled exponent -%d%s" % (s, ", float before is closer" if boundary else ""), setup, post


def case_shortest_all(s):
    return verify.multi(EXT + "ShortestDecimal", "scaled exponent -%d" % s,
                        [lambda: case_shortest(s, False), lambda: case_shortest(s, True)])


# ------------------------------------------------------------------ roundShortest

# Everything is measured in units of 10^dp, dp the decimal point of the exact
# digits d of the float mant*2^E: d itself is X = R_d(0) = mant*W, and W is one
# unit of the mantissa.

DIGITS = 768
assert (1 << 55) * 5 ** 1075 < 10 ** DIGITS and (1 << 55) << 971 < 10 ** DIGITS


def tenpower(n, E):
    """implies 10^n > 2^(E-1) for |n| <= 1000, as log2(10) = 3.3219280948..."""
    return lt(num.scale(num.sub(E, 1), 10 ** 6), num.sub(num.scale(n, 3321928), 100))


def lemma_tenpower():
    for n in range(-1000, 1001):
        e = (3321928 * n - 100 - 1) // 10 ** 6     # greatest E-1 for which the condition holds
        if not Fraction(10) ** n > Fraction(2) ** e:
            return False
    return True


class Pending:
    """digits of v*2^e (e relative to the exponent of the float)"""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "pending(%r)" % (self.v,)

    def gsel(self, M, i):
        raise Unsupported("digits of a bound before it is scaled")

    gupd = gsel


def rs_assign(M, p, v):
    setfield(M, p, 0, Pending(v))
    setfield(M, p, 1, memo_fresh(uniq(M, "asgnd"), 0, 20))
    setfield(M, p, 2, memo_fresh(uniq(M, "asgdp"), 0, 20))
    setfield(M, p, 4, False)


def rs_shift(M, p, k):
    S = M.S
    arr = M.load(p)[0]
    if not isinstance(arr, Pending):
        raise Unsupported("Shift of digits whose value is not known")
    mant, E, X, W = (S.env[n] for n in ("mant", "E", "X", "W"))
    c = num.sub(k, E)
    if isinstance(c, L):
        raise Unsupported("scale of a bound")
    v = arr.v
    t = mant.ts[0][0]
    if not isinstance(v, L) or len(v.ts) != 1 or v.ts[0][0] != t or mant.ts[0][1] != 1 or mant.c != 0:
        raise Unsupported("mantissa of a bound")
    prove(M, [("Shift: at most 768 digits", zand(lt(0, v), lt(v, 1 << 55), le(-1075, k), le(k, 971)))])
    x = num.scale(num.add(num.scale(X, v.ts[0][1]), num.scale(W, v.c)), Fraction(2) ** c)
    nm = uniq(M, "bound")
    nd = memo_fresh(nm + "_nd", 1, DIGITS)
    a = DArr(nm, nd)
    # canonical digits: R(0) is between 1/10 and 1
    for g in (0, 1, -1):
        if S.br(zand(le(Fraction(10) ** (g - 1), x), lt(x, Fraction(10) ** g))):
            S.assume(eq(num.scale(a.R(0), Fraction(10) ** g), x))
            break
    else:
        raise Unsupported("decimal point of a bound")
    setfield(M, p, 0, a)
    setfield(M, p, 1, nd)
    setfield(M, p, 2, num.add(S.env["v0"][2], g))
    S.env["bounds"] = S.env.get("bounds", ()) + ((a, g, num.sub(x, X)),)


def rs_round(kind):
    def h(M, p, n):
        S = M.S
        v = M.load(p)
        if p.obj != S.env["d"].obj or v != S.env["v0"]:
            raise Unsupported("rounding of other digits")
        how = "same"
        if S.br(zand(le(0, n), lt(n, v[1]))):
            how = kind
            if kind == "round":
                from decspec import up_condition
                how = "up" if S.br(up_condition(v, n)) else "down"
        S.env["rounded"] = S.env.get("rounded", ()) + ((how, n),)
        if how != "same":
            setfield(M, p, 0, Pending(None))
            setfield(M, p, 1, memo_fresh(uniq(M, "rnd"), 0, DIGITS))
            setfield(M, p, 2, memo_fresh(uniq(M, "rdp"), -400, 400))
    return h


def within(S, x, y):
    """x is at most y, or less when the bounds do not belong to the interval"""
    return zor(lt(x, y), zand(S.env["even"], eq(x, y)))


def tailat(S, arr, i):
    """the fraction after digit place i, where places may start at -1"""
    if isinstance(i, int) and i < 0:
        if i < -1:
            raise Unsupported("place of a digit")
        return num.scale(arr.R(0), Fraction(1, 10))
    return arr.R(i)


class WalkInv:
    """Walk along the digits of the float and of the two bounds.  At place i
    (counted from the first digit of the upper bound), A and B are the
    distances of the lower and the upper bound, in units of that place."""
    order = ("upperdelta:uint8", "ui")
    splits = True

    def objs(self, M, V):
        return []

    def shifts(self, M):
        S = M.S
        b = S.env.get("bounds", ())
        if len(b) != 2:
            raise Unsupported("two bounds")
        (ua, ug, ux), (la, lg, lx) = b
        if not S.proves(lt(0, ux)):
            (ua, ug, ux), (la, lg, lx) = b[1], b[0]
        return ua, la, ug, ug - lg, ux, num.scale(lx, -1)

    def enter(self, M, V):
        ua, la, dd, dl, ux, lx = self.shifts(M)
        f = Fraction(1, 10 ** dd) if dd >= 0 else Fraction(10 ** -dd)
        return {"A": num.scale(lx, f), "B": num.scale(ux, f), "ratio": 2 if M.S.proves(eq(ux, num.scale(lx, 2))) else 1}

    def havoc(self, M, V, g):
        S = M.S
        ua, la, dd, dl, ux, lx = self.shifts(M)
        ui = memo_fresh(uniq(M, "ui"), 0, DIGITS + 2)
        if S.br(eq(ui, 0)):
            V["ui"] = 0
            V["upperdelta"] = 0
        else:
            V["ui"] = ui
            V["upperdelta"] = S.concretize(memo_fresh(uniq(M, "upperdelta"), 0, 2))
            # the ratio of A to B stays
            A = memo_fresh(uniq(M, "A"), 0, None, "real")
            g = {"A": A, "B": num.scale(A, g["ratio"]), "ratio": g["ratio"]}
        S.env["step"] = (V["ui"], g["A"], g["B"], dd)
        return g

    def inv(self, M, V, g):
        S = M.S
        ua, la, dd, dl, ux, lx = self.shifts(M)
        ui, ud, A, B = V["ui"], V["upperdelta"], g["A"], g["B"]
        mid = S.env["v0"][0]
        F, U, Lo = tailat(S, mid, num.sub(ui, dd)), tailat(S, ua, ui), tailat(S, la, num.sub(ui, dl))
        K = num.sub(num.add(B, F), U)
        W = S.env["W"]
        low = eq(lx, num.scale(W, Fraction(1, 2)))
        if S.env["b"] is not False:
            low = zor(zand(S.env["b"], eq(lx, num.scale(W, Fraction(1, 4)))), zand(znot(S.env["b"]), low))
        return [("the bounds are the middles between the float and its neighbours", zand(eq(ux, num.scale(W, Fraction(1, 2))), low)),
                ("state", zand(le(0, ud), le(ud, 2), zor(lt(0, ui), eq(ud, 0)))),
                ("place", zand(le(0, ui), le(ui, num.add(mid.nd, dd)))),
                ("distances", zand(lt(0, A), eq(B, num.scale(A, g["ratio"])))),
                ("digits of the float and of the lower bound are the same so far", eq(num.sub(F, Lo), A)),
                ("difference to the digits of the upper bound", zand(zimp(eq(ud, 0), eq(K, 0)), zimp(eq(ud, 1), eq(K, 1)), zimp(le(2, ud), le(2, K)))),
                ("no number of fewer digits rounds to the float", zand(znot(within(S, F, A)), znot(within(S, num.sub(1, F), B))))]

    def next(self, M, V, g, V0):
        return {"A": num.scale(g["A"], 10), "B": num.scale(g["B"], 10), "ratio": g["ratio"]}


def case_roundshortest(size):
    mb, eb, bias = FORMATS[size]

    def setup(M):
        S = M.S
        num.NEST = True
        M.contracts = dict(M.contracts)
        M.contracts[DEC + "Assign"] = rs_assign
        M.contracts[DEC + "Shift"] = rs_shift
        M.contracts[DEC + "Round"] = rs_round("round")
        M.contracts[DEC + "RoundUp"] = rs_round("up")
        M.contracts[DEC + "RoundDown"] = rs_round("down")
        M.invs = {P + "roundShortest": {(0, frozenset(["upperdelta", "ui"])): WalkInv()}}
        m, e, b = float_parts(M, size)
        E = num.sub(e, mb)
        if S.br(eq(m, 0)):
            nd = dp = 0
        else:
            nd = memo_fresh("d_nd", 1, DIGITS)
            dp = memo_fresh("d_dp", -324, 310)
            # the digits of m*2^E: behind the point as many as bits
            # and zeros in front of it only as 5^22 fits the mantissa
            S.assume(zor(le(nd, dp), zand(le(E, num.sub(dp, nd)), le(num.sub(dp, nd), num.add(E, mb)))))
            S.assume(le(num.sub(dp, nd), 22))
        arr = DArr("d", nd)
        d = Ptr(S.alloc((arr, nd, dp, boolvar("neg"), False)))
        X, W = arr.R(0), memo_fresh("W", 0, None, "real")
        S.assume(zor(eq(m, 0), zand(lt(0, W), le(W, X))))
        S.assume(zor(lt(m, 10), le(num.scale(W, 10), X)))
        S.env.update(d=d, v0=M.load(d), mant=m, E=E, X=X, W=W, even=eq(num.divmodc(m, 2)[1], 0), b=b)
        return [d, m, e, fltinfo(M, size)]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        S = M.S
        d, m, e, flt = args
        v, v0, E = M.load(d), S.env["v0"], S.env["E"]
        frame(M, ob, d)
        rec = S.env.get("rounded", ())
        if S.br(eq(m, 0)):
            ob("zero has no digits", zand(not rec, eq(v[1], 0), eq(v[2], v0[2])))
            return
        nd, dp = v0[1], v0[2]
        if not rec:
            # the closest number of fewer digits is at least one unit of the
            # last place away
            ob("digits unchanged", v == v0)
            ob("the digits are the shortest already", tenpower(num.sub(dp, nd), E))
            return
        ok = len(rec) == 1 and "step" in S.env
        ob("rounded once", ok)
        if not ok:
            return
        how, n = rec[0]
        (ui, A, B, dd), even, arr = S.env["step"], S.env["even"], v0[0]
        A, B = num.scale(A, 10), num.scale(B, 10)
        ob("digits kept up to the place looked at", zand(le(0, n), eq(n, num.sub(num.add(ui, 1), dd))))
        if how == "same":
            ob("no digit is dropped", le(nd, n))
            return
        f = arr.R(n)
        down, up = within(S, f, A), within(S, num.sub(1, f), B)
        if how == "down":
            ob("rounds back to the float", down)
            ob("closest of that length", zor(le(f, Fraction(1, 2)), znot(up)))
            ob("a digit is left", lt(0, n))
        else:
            ob("rounds back to the float", up)
            ob("closest of that length", zor(le(Fraction(1, 2), f), znot(down)))
            # a power of ten: below it the numbers of one digit are closer
            # together; for mantissas below ten see lemma_small
            ob("closest of one digit", zor(lt(0, n), lt(m, 10), le(Fraction(95, 100), S.env["X"])))
    return P + "roundShortest", "%d bits" % size, setup, post


def case_lemmas():
    """arithmetic facts the argument uses, by computation"""
    def post(M, args, out, ob):
        ob("lemma: no power of ten between 20/19 of a float of mantissa below ten and the middle above it", lemma_small())
        ob("lemma: the numbers of fewer digits to look at", lemma_fewer())
        ob("lemma: zeros at the end of an integer", lemma_fives())
        ob("lemma: the test for digits that are the shortest already", lemma_tenpower())
    return None, "lemmas", lambda M: [], post
