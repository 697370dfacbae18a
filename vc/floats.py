"""float32/float64 values, big.Float magnitudes and rounding."""
from fractions import Fraction
import z3
import num
from num import L, zand, zor, znot, zimp, lo, hi, pow2
from core import Fork, GoPanic, Unsupported

FMT = {32: (24, -149, 128, 127, 8), 64: (53, -1074, 1024, 1023, 11)}   # p, emin, emax, bias, ebits


def val2(q):
    """2-adic valuation of a non-zero dyadic rational."""
    q = Fraction(q)
    n, d = q.numerator, q.denominator
    if d & (d - 1):
        return 0
    return (n & -n).bit_length() - 1 - (d.bit_length() - 1)


class Mag:
    """Positive value t * 2^sh, a multiple of 2^gran (gran None: unknown)."""
    __slots__ = ("t", "sh", "gran")

    def __init__(self, t, sh, gran=None):
        if isinstance(sh, L) and sh.c != 0:
            t, sh = num.scale(t, pow2(sh.c)), num.sub(sh, sh.c)
        # canonical: pull out the common power of two
        if isinstance(t, L):
            vs = [val2(k) for _, k in t.ts]
            if t.c != 0:
                vs.append(val2(t.c))
            v = min(vs)
        else:
            v = val2(t)
        if v:
            t, sh = num.scale(t, pow2(-v)), num.add(sh, v)
        if gran is None and num.isint(t):
            gran = sh
        self.t, self.sh, self.gran = t, sh, gran

    @property
    def key(self):
        return (num.key(self.t), num.key(self.sh))

    def shift(self, k):
        return Mag(self.t, num.add(self.sh, k), None if self.gran is None else num.add(self.gran, k))

    def __repr__(self):
        return "Mag(%r * 2^%r)" % (self.t, self.sh)


def ilog(q):
    """k with 2^(k-1) <= q < 2^k for q > 0"""
    q = Fraction(q)
    k = q.numerator.bit_length() - q.denominator.bit_length()
    while pow2(k) <= q:
        k += 1
    while pow2(k - 1) > q:
        k -= 1
    return k


def normexp(M, t):
    """k with 2^(k-1) <= t < 2^k (forks)."""
    if not isinstance(t, L):
        return ilog(t)
    l, h = t.lo, t.hi
    if l is None or l <= 0:
        if t.isint:
            l = 1
        else:
            raise Unsupported("normalisation of a value without a positive lower bound")
    if h is None:
        raise Unsupported("normalisation of an unbounded value")
    a, b = ilog(l), ilog(h)
    while a < b:
        m = (a + b) // 2
        if M.S.br(num.cmp(t, "<", pow2(m))):
            b = m
        else:
            a = m + 1
    return a


def inunit(M, mag, u):
    """mag / 2^u as a linear form; u an int or a linear form."""
    d = num.sub(mag.sh, u)
    if not isinstance(d, L):
        return num.scale(mag.t, pow2(d))
    # symbolic power of two: one real atom per atom of t
    S = M.S
    c, sv = d.c, num.sub(d, d.c)
    kk = ("sunit", num.key(sv))
    u0 = num.MEMO.setdefault(kk, -c)         # atoms hold a * 2^(sv - u0)
    l, h = S.rng(sv)
    t = mag.t
    terms = [(None, t.c)] + list(t.ts) if isinstance(t, L) else [(None, t)]
    ts = {}
    for i, k in terms:
        if k == 0:
            continue
        ak = ("scaled", i, num.key(sv))
        if ak not in num.MEMO:
            a = num.Atom("sc", "real", None, None, ("scaled", i, sv, u0))
            num.MEMO[ak] = a
        a = num.MEMO[ak]
        ts[a.id] = ts.get(a.id, 0) + k * pow2(c + u0)
    r = num.mk(0, ts)
    if l is not None and h is not None:
        bl = bh = None
        if lo(t) is not None:
            bl = lo(t) * pow2(min(l, h) + c) if lo(t) >= 0 else None
        if hi(t) is not None:
            bh = hi(t) * pow2(h + c)
        # sound: S.rng is implied by the path condition
        if bl is not None:
            S.assume(num.cmp(bl, "<=", r))
        if bh is not None:
            S.assume(num.cmp(r, "<=", bh))
        if isinstance(r, L):
            r = r.tight(bl, bh)
    return r


def accof(d, neg):
    """Accuracy for result - argument of sign d on magnitudes."""
    s = -1 if neg else 1
    if not isinstance(d, L):
        return 0 if d == 0 else s if d > 0 else -s
    if d.lo is not None and d.lo > 0:
        return s
    if d.hi is not None and d.hi < 0:
        return -s
    kk = ("acc", num.key(d))
    if kk not in num.MEMO:
        a = num.Atom("acc", "int", -1, 1)
        pos, ng = num.cmp(0, "<", d), num.cmp(d, "<", 0)
        a.defs.append(num.zb(zimp(pos, a.z == 1)))
        a.defs.append(num.zb(zimp(ng, a.z == -1)))
        a.defs.append(num.zb(zor(pos, ng, a.z == 0)))
        num.MEMO[kk] = a
    return num.scale(num.atom(num.MEMO[kk]), s)


def integral(M, mag, base, N, u):
    """u is an integer when the granularity of mag is at least 2^base: then N = u."""
    if mag.gran is None or not isinstance(u, L) or u.isint:
        return
    c = num.cmp(base, "<=", mag.gran)
    if c is False:
        return
    if c is True:
        M.S.assume(num.cmp(N, "==", u))
    else:
        M.S.assume(zimp(c, num.cmp(N, "==", u)))


def rndint(M, u, mode, neg):
    """Round u >= 0 to an integer in the given (concrete) rounding mode."""
    if mode == 0:
        return num.rne(u)
    if mode == 2 or mode == 4 and not neg or mode == 5 and neg:
        return num.floordiv(u)
    if mode in (3, 4, 5):
        return num.scale(num.floordiv(num.scale(u, -1)), -1)
    if mode == 1:
        return num.floordiv(num.add(u, Fraction(1, 2)))
    raise Unsupported("rounding mode")


class F:
    """kind: bits (b), nan (neg, b), inf (neg), zero (neg), fin (neg, mag),
    rnd (neg, mag): the nearest float to a positive finite mag, classified on demand."""
    __slots__ = ("w", "kind", "neg", "mag", "b")

    def __init__(self, w, kind, neg=None, mag=None, b=None):
        self.w, self.kind, self.neg, self.mag, self.b = w, kind, neg, mag, b

    def __repr__(self):
        return "F%d(%s,%r,%r,%r)" % (self.w, self.kind, self.neg, self.mag, self.b)

    @staticmethod
    def const(w, q):
        q = Fraction(q)
        if q == 0:
            return F(w, "zero", False)
        # untyped constants are rounded to the type
        r = rnd_py(w, abs(q))
        if r is None:
            return F(w, "inf", q < 0)
        if r == 0:
            return F(w, "zero", q < 0)
        return F(w, "fin", q < 0, Mag(r, 0))

    @staticmethod
    def frombits(M, w, b):
        f = F(w, "bits", b=b)
        if isinstance(b, int):
            return f.classify(M)
        return M.S.dec.get(("ofbits", w, num.key(b)), f)

    @staticmethod
    def fromint(M, w, x):
        if M.S.br(num.cmp(x, "==", 0)):
            return F(w, "zero", False)
        neg = M.S.br(num.cmp(x, "<", 0))
        m = num.scale(x, -1) if neg else x
        if isinstance(m, L):
            m = m.tight(1)
        return rnd(M, w, neg, Mag(m, 0))[0]

    def neg_F(self):
        if self.kind == "bits":
            n = self.w - 1
            if isinstance(self.b, int):
                return F(self.w, "bits", b=self.b ^ (1 << n))
            s, r = num.divmodc(self.b, 1 << n)
            return F(self.w, "bits", b=num.add(r, num.scale(num.sub(1, s), 1 << n)))
        b = self.b
        if b is not None:
            b = b ^ (1 << (self.w - 1)) if isinstance(b, int) else None
        return F(self.w, self.kind, not self.neg, self.mag, b)

    def classify(self, M):
        if self.kind == "bits":
            p, emin, emax, bias, eb = FMT[self.w]
            mb = p - 1
            h, frac = num.divmodc(self.b, 1 << mb)
            s, e = num.divmodc(h, 1 << eb)
            br = M.S.br
            neg = br(num.cmp(s, "==", 1))
            if br(num.cmp(e, "==", (1 << eb) - 1)):
                if br(num.cmp(frac, "==", 0)):
                    return F(self.w, "inf", neg)
                return F(self.w, "nan", neg, b=self.b)
            if br(num.cmp(e, "==", 0)):
                if br(num.cmp(frac, "==", 0)):
                    return F(self.w, "zero", neg)
                if isinstance(frac, L):
                    frac = frac.tight(1)
                mg = Mag(frac, emin)
                M.S.dec[("bitsfor", self.w, neg, mg.key)] = self.b
                num.MEMO[("isfloat", self.w, mg.key)] = True
                return F(self.w, "fin", neg, mg, b=self.b)
            if isinstance(e, L):
                e = e.tight(1, (1 << eb) - 2)
            mg = Mag(num.add(frac, 1 << mb), num.add(e, emin - 1))
            M.S.dec[("bitsfor", self.w, neg, mg.key)] = self.b
            num.MEMO[("isfloat", self.w, mg.key)] = True
            return F(self.w, "fin", neg, mg, b=self.b)
        if self.kind == "rnd":
            return rnd_classify(M, self.w, self.neg, self.mag)[0]
        return self

    def bits(self, M):
        if self.b is not None:
            return self.b
        f = self.classify(M)
        r = f.bits1(M)
        if isinstance(r, L) and f.kind != "bits":
            # on this path r is the encoding of f
            M.S.dec[("ofbits", f.w, num.key(r))] = f
        return r

    def bits1(self, M):
        f = self
        if f.b is not None:
            return f.b
        p, emin, emax, bias, eb = FMT[f.w]
        sg = (1 << (f.w - 1)) if f.neg else 0
        if f.kind == "zero":
            return sg
        if f.kind == "inf":
            return sg + (((1 << eb) - 1) << (p - 1))
        if f.kind == "nan":
            # math.NaN(); conversion to float32 keeps the top payload bits
            return sg + (0x7FF8000000000001 if f.w == 64 else 0x7FC00000)
        b = M.S.dec.get(("bitsfor", f.w, f.neg, f.mag.key))
        if b is not None:
            return b                 # decoded from these bits on this path
        t, sh = f.mag.t, f.mag.sh
        if isinstance(t, L) and not t.isint and (t.lo is None or t.lo <= 0):
            kk = ("bitsof", f.w, f.neg, f.mag.key)
            if kk not in num.MEMO:
                num.MEMO[kk] = num.Atom("fb", "int", 0, (1 << f.w) - 1)
            return num.atom(num.MEMO[kk])
        if not isinstance(t, L) and not isinstance(sh, L):
            k = ilog(t) + sh
            sub = max(k - p, emin)
            n = Fraction(t) * pow2(sh - sub)
            return sg + (sub - emin) * (1 << (p - 1)) + int(n)
        k = normexp(M, t)
        K = num.add(sh, k)
        if M.S.br(num.cmp(K, "<", emin + p)):
            n = inunit(M, f.mag, emin)
            return num.add(n, sg)
        n = num.scale(t, pow2(p - k))
        return num.add(num.add(num.scale(num.sub(num.sub(K, p), emin), 1 << (p - 1)), n), sg)

    def convert(self, M, w):
        if w == self.w:
            return self
        if w > self.w and self.kind != "nan":
            f = self.classify(M)
            if f.kind == "nan":
                return F(w, "nan", f.neg)
            return F(w, f.kind, f.neg, f.mag)
        f = self.classify(M)
        if f.kind == "fin":
            return rnd(M, w, f.neg, f.mag)[0]
        return F(w, f.kind, f.neg)



def rnd_py(w, q):
    """nearest float magnitude to q > 0; None on overflow"""
    p, emin, emax, bias, eb = FMT[w]
    k = ilog(q)
    s = max(k - p, emin)
    n = num.rne_py(q * pow2(-s))
    r = n * pow2(s)
    return None if r >= pow2(emax) else r


def rnd(M, w, neg, mag):
    """Nearest-even float of magnitude mag > 0, lazily, and its accuracy."""
    p, emin, emax, bias, eb = FMT[w]
    t, sh = mag.t, mag.sh
    if not isinstance(t, L) and not isinstance(sh, L):
        q = Fraction(t) * pow2(sh)
        r = rnd_py(w, q)
        if r is None:
            return F(w, "inf", neg), accof(1, neg)
        d = accof(r - q, neg)
        return (F(w, "zero", neg), d) if r == 0 else (F(w, "fin", neg, Mag(r, 0)), d)
    # a value that is (syntactically) a float of this width is itself
    fk = num.MEMO.get(("isfloat", w, mag.key))
    if fk is not None:
        return F(w, "fin", neg, mag), 0
    if num.isint(t) and hi(t) is not None and hi(t) <= (1 << p):
        sl, shh = lo(sh), hi(sh)
        if sl is not None and shh is not None:
            if not (sl >= emin and hi(t) * pow2(shh) < pow2(emax)):
                sl, shh = M.S.rng(sh)
            if sl >= emin and hi(t) * pow2(shh) < pow2(emax):
                return F(w, "fin", neg, mag), 0
    kk = ("rndacc", w, mag.key)
    if kk not in num.MEMO:
        num.MEMO[kk] = num.Atom("racc", "int", -1, 1)
    a = num.scale(num.atom(num.MEMO[kk]), -1 if neg else 1)
    v = M.S.dec.get(("rndis", w, neg, mag.key))
    if v is not None:
        return v, a
    return F(w, "rnd", neg, mag), a


def rnd_classify(M, w, neg, mag):
    p, emin, emax, bias, eb = FMT[w]
    S = M.S
    acc = num.atom(num.MEMO[("rndacc", w, mag.key)])       # for the magnitude
    t, sh = mag.t, mag.sh

    def link(d):
        S.assume(num.cmp(acc, "==", accof(d, False)))
    # decide quickly when the whole range underflows or overflows
    if hi(t) is not None:
        K = num.add(sh, ilog(hi(t)))
        if S.br(num.cmp(K, "<", emin)):
            link(-1)
            return F(w, "zero", neg), acc
        if Fraction(hi(t)) == pow2(ilog(hi(t)) - 1) and S.br(num.cmp(K, "==", emin)):
            link(-1)                # at most half of the smallest float
            return F(w, "zero", neg), acc
    if isinstance(t, L) and (t.lo is None or t.lo <= 0) and not t.isint and hi(t) is not None:
        return rnd_abstract(M, w, neg, mag, acc)
    k = normexp(M, t)
    K = num.add(sh, k)
    if S.br(num.cmp(emax, "<", K)):
        link(1)
        return F(w, "inf", neg), acc
    if S.br(num.cmp(emin + p, "<=", K)):
        u = num.scale(t, pow2(p - k))
        N = num.rne(u)
        base = num.sub(K, p)
        integral(M, mag, base, N, u)
        link(num.sub(N, u))
        if S.br(zand(num.cmp(N, "==", 1 << p), num.cmp(K, "==", emax))):
            return F(w, "inf", neg), acc
        return F(w, "fin", neg, Mag(N, base)), acc
    if S.br(num.cmp(K, "<", emin)):
        link(-1)
        return F(w, "zero", neg), acc
    u = inunit(M, mag, emin)
    N = num.rne(u)
    integral(M, mag, emin, N, u)
    link(num.sub(N, u))
    if S.br(num.cmp(N, "==", 0)):
        return F(w, "zero", neg), acc
    if isinstance(N, L):
        N = N.tight(1)
    return F(w, "fin", neg, Mag(N, emin)), acc


def rnd_abstract(M, w, neg, mag, acc):
    """The nearest float as an unknown multiple of the smallest float, for a
    value with no known lower bound (sound: only necessary facts are stated)."""
    p, emin, emax, bias, eb = FMT[w]
    S = M.S
    t, sh = mag.t, mag.sh
    top = num.add(sh, ilog(hi(t)))
    if not S.proves(num.cmp(top, "<", emax)):
        raise Unsupported("nearest float of a value without bounds %r %r %r" % (t, sh, S.rng(sh)))
    kk = ("rndval", w, mag.key)
    if kk not in num.MEMO:
        # value 2^sh * R; the next power of two bounds it (smallest float: below)
        num.MEMO[kk] = (num.Atom("rv", "real", 0, pow2(ilog(hi(t)))), num.Atom("rvz", "int", 0, 1))
    R, zf = num.MEMO[kk]
    if S.br(num.cmp(num.atom(zf), "==", 1)):
        S.assume(num.cmp(acc, "==", -1))
        return F(w, "zero", neg), acc
    S.assume(num.cmp(0, "<", num.atom(R)))
    S.assume(num.cmp(acc, "==", accof(num.sub(num.atom(R), t), False)))
    S.assume(num.cmp(emin, "<=", top))        # otherwise the nearest float is zero
    return F(w, "fin", neg, Mag(num.atom(R), sh, emin)), acc


def fcmp(M, op, x, y):
    x, y = x.classify(M), y.classify(M)
    if x.kind == "nan" or y.kind == "nan":
        return op == "!="
    if op == "!=":
        return znot(fcmp(M, "==", x, y))
    if op in (">", ">="):
        return fcmp(M, "<" if op == ">" else "<=", y, x)

    def rank(v):
        if v.kind == "zero":
            return 0
        r = 2 if v.kind == "inf" else 1
        return -r if v.neg else r
    a, b = rank(x), rank(y)
    if a != b:
        return op != "==" and a < b
    if abs(a) != 1:
        return op != "<"
    c = magdiff(M, x.mag, y.mag)
    if a < 0:
        c = num.scale(c, -1)
    return num.cmp(c, op, 0)


def magdiff(M, a, b):
    """(a - b) scaled by a power of two"""
    if not isinstance(num.sub(a.sh, b.sh), L):
        u = b.sh
    elif not isinstance(a.sh, L):
        u = a.sh
    elif not isinstance(b.sh, L):
        u = b.sh
    else:
        u = 0
    return num.sub(inunit(M, a, u), inunit(M, b, u))


def farith(M, t, x, y, w):
    x, y = x.classify(M), y.classify(M)
    if t == "-":
        t, y = "+", y.neg_F()
    if t == "+" and x.kind in ("fin", "zero") and y.kind in ("fin", "zero"):
        if x.kind == "zero":
            return y if y.kind != "zero" else F(w, "zero", x.neg and y.neg)
        if y.kind == "zero":
            return x
        s = signedadd(M, x.neg, x.mag, y.neg, y.mag)
        if s is None:
            return F(w, "zero", False)
        return rnd(M, w, s[0], s[1])[0]
    if t == "*" and x.kind == "fin" and y.kind == "fin":
        return rnd(M, w, x.neg != y.neg, magmul(x.mag, y.mag))[0]
    raise Unsupported("float operator " + t)


def magmul(a, b):
    g = None if a.gran is None or b.gran is None else num.add(a.gran, b.gran)
    return Mag(num.mul(a.t, b.t), num.add(a.sh, b.sh), g)


def mingran(M, a, b):
    if a is None or b is None:
        return None
    if num.key(a) == num.key(b):
        return a
    c = num.cmp(a, "<=", b)
    if c is True:
        return a
    if c is False:
        return b
    la, lb = lo(a), lo(b)
    if not isinstance(a, L) and lb is not None and lb >= a:
        return a
    return a if M.S.br(c) else b


def signedadd(M, na, a, nb, b):
    """Exact sum of two signed positive magnitudes: None for zero, or (neg, Mag)."""
    g = mingran(M, a.gran, b.gran)
    if not isinstance(num.sub(a.sh, b.sh), L):
        if isinstance(a.sh, L):
            u = b.sh
        else:
            u = min(a.sh, b.sh)
    elif not isinstance(a.sh, L):
        u = a.sh
    elif not isinstance(b.sh, L):
        u = b.sh
    else:
        u = g if isinstance(g, int) else 0
    ta, tb = inunit(M, a, u), inunit(M, b, u)
    for v, t in ((a, ta), (b, tb)):
        k = Mag(t, u).key
        if k != v.key:
            num.MEMO[("unscale", k)] = v          # the same value by definition
    if na == nb:
        return na, Mag(num.add(ta, tb), u, g)
    d = num.sub(ta, tb)
    if M.S.br(num.cmp(d, "==", 0)):
        return None
    if M.S.br(num.cmp(0, "<", d)):
        neg = na
    else:
        neg, d = nb, num.scale(d, -1)
    if isinstance(d, L):
        if d.isint:
            d = d.tight(1)
        elif isinstance(g, int) and isinstance(u, int):
            d = d.tight(pow2(g - u))       # a positive multiple of 2^g
        elif not isinstance(g, int) and (hi(d) is None or hi(d) > 1) and M.S.proves(num.cmp(d, "<=", Fraction(1, 2))):
            d = d.tight(None, Fraction(1, 2))      # a rounding error
    r = Mag(d, u, g)
    return neg, num.MEMO.get(("unscale", r.key), r)


MAXEXP, MINEXP = 2147483647, -2147483648


def roundmag(M, neg, mag, prec, mode):
    """Rounding of a finite non-zero number: (form, Mag or None, accuracy)."""
    S = M.S
    t, sh = mag.t, mag.sh
    ht = hi(t)
    if isinstance(mode, L):
        mode = S.concretize(mode)
    if isinstance(prec, L):
        pl, ph = lo(prec), hi(prec)
        if pl == ph:
            prec = pl
    exact = False
    if not isinstance(prec, L) and num.isint(t) and ht is not None and ht <= (1 << min(prec, 1 << 16)):
        exact = True
    elif mag.gran is not None and ht is not None:
        # |value| <= 2^(K) and a multiple of 2^gran, K - gran <= prec
        K = num.add(sh, ilog(ht) - (1 if Fraction(ht) == pow2(ilog(ht) - 1) else 0))
        c = num.cmp(K, "<=", num.add(mag.gran, prec))
        if c is True or c is not False and S.proves(c):
            exact = True
    if exact:
        return checkexp(M, neg, mag, 0)
    if isinstance(prec, L):
        raise Unsupported("rounding to a symbolic precision")
    k = normexp(M, t)
    u = num.scale(t, pow2(prec - k))
    N = rndint(M, u, mode, neg)
    base = num.sub(num.add(sh, k), prec)
    integral(M, mag, base, N, u)
    return checkexp(M, neg, Mag(N, base), accof(num.sub(N, u), neg))


def checkexp(M, neg, mag, acc):
    """Exponent overflow/underflow of big.Float."""
    S = M.S
    ht, lt = hi(mag.t), lo(mag.t)
    if not isinstance(mag.sh, L):
        if abs(mag.sh) < (1 << 30):
            return 1, mag, acc
    top = num.add(mag.sh, ilog(ht))
    c = num.cmp(top, "<=", MAXEXP)
    if c is not True and not S.proves(c):
        k = normexp(M, mag.t)
        if S.br(num.cmp(MAXEXP, "<", num.add(mag.sh, k))):
            return 2, None, (-1 if neg else 1)
    bot = num.add(mag.sh, ilog(lt) if lt and lt > 0 else 0)
    c = num.cmp(MINEXP, "<=", bot)
    if c is not True and not S.proves(c):
        k = normexp(M, mag.t)
        if S.br(num.cmp(num.add(mag.sh, k), "<", MINEXP)):
            return 0, None, (1 if neg else -1)
    return 1, mag, acc


class BF:
    """A big.Float."""
    __slots__ = ("prec", "mode", "acc", "form", "neg", "mag")

    def __init__(self, prec=0, mode=0, acc=0, form=0, neg=False, mag=None):
        self.prec, self.mode, self.acc, self.form, self.neg, self.mag = prec, mode, acc, form, neg, mag

    def rep(self, **k):
        d = dict(prec=self.prec, mode=self.mode, acc=self.acc, form=self.form, neg=self.neg, mag=self.mag)
        d.update(k)
        return BF(**d)

    def __repr__(self):
        return "BF(prec=%r mode=%r acc=%r %s%s %r)" % (self.prec, self.mode, self.acc, "-" if self.neg else "+",
                                                      ["zero", "finite", "inf"][self.form], self.mag)


class BI:
    """A big.Int."""
    __slots__ = ("v",)

    def __init__(self, v=0):
        self.v = v
