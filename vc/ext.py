"""Assumed contracts of the library functions /repo calls (math/big, math,
math/bits, fmt, strings, errors).  Each entry is the documented behaviour of
the function; conformance.py compares them with the installed library on
sampled concrete arguments.  They are part of the trusted base."""
from fractions import Fraction
import num
from num import L, zand, zor, znot, lo, hi, pow2
from core import GoPanic, Unsupported, Fork
from exec import Ptr, Slice, Iface, Opaque, Str, mkstr, pieces
from floats import (integral, F, Mag, BF, BI, rnd, roundmag, normexp, inunit, signedadd, magdiff, magmul, accof, ilog, checkexp,
                    mingran, fcmp)

EXT = {}
B = "math/big."
PF = "(*math/big.Float)."
PI = "(*math/big.Int)."


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def get(M, p):
    v = M.load(p)
    if not isinstance(v, (BF, BI)):
        raise Unsupported("big number")
    return v


def new(M, v):
    return Ptr(M.S.alloc(v))


def finish(M, z, neg, mag, prec, mode):
    """Round finite non-zero neg/mag into z."""
    form, mg, acc = roundmag(M, neg, mag, prec, mode)
    return z.rep(form=form, neg=neg, mag=mg, acc=acc, prec=prec)


# ------------------------------------------------------------------ big.Float

@ext(B + "NewFloat")
def newfloat(M, x):
    x = x.classify(M)
    if x.kind == "nan":
        raise GoPanic("NewFloat(NaN)")
    form = {"zero": 0, "fin": 1, "inf": 2}[x.kind]
    return new(M, BF(prec=53, form=form, neg=x.neg, mag=x.mag if form == 1 else None))


@ext(PF + "SetFloat64")
def setfloat64(M, z, x):
    x = x.classify(M)
    v = get(M, z)
    prec = v.prec
    if M.S.br(num.cmp(prec, "==", 0)):
        prec = 53
    if x.kind == "nan":
        raise GoPanic("SetFloat64(NaN)")
    if x.kind == "fin":
        r = finish(M, v, x.neg, x.mag, prec, v.mode)
    else:
        r = v.rep(prec=prec, acc=0, neg=x.neg, form=0 if x.kind == "zero" else 2, mag=None)
    M.store(z, r)
    return z


@ext(PF + "SetPrec")
def setprec(M, z, prec):
    v = get(M, z)
    if M.S.br(num.cmp(prec, "==", 0)):
        if v.form == 1:
            r = v.rep(prec=0, acc=accof(-1, v.neg), form=0, mag=None)
        else:
            r = v.rep(prec=0, acc=0)
        M.store(z, r)
        return z
    if isinstance(prec, L):
        if not M.S.br(num.cmp(prec, "<=", 4294967295)):
            prec = 4294967295
    else:
        prec = min(prec, 4294967295)
    if v.form == 1 and M.S.br(num.cmp(prec, "<", v.prec)):
        r = finish(M, v, v.neg, v.mag, prec, v.mode)
    else:
        r = v.rep(prec=prec, acc=0)
    M.store(z, r)
    return z


@ext(PF + "SetMode")
def setmode(M, z, mode):
    M.store(z, get(M, z).rep(mode=mode, acc=0))
    return z


@ext(PF + "SetInf")
def setinf(M, z, neg):
    neg = M.S.br(neg)
    M.store(z, get(M, z).rep(acc=0, form=2, neg=neg, mag=None))
    return z


def setval(M, z, x):
    """value of z.Set(x)"""
    if z == x:
        return get(M, z)
    v, y = get(M, z), get(M, x)
    prec = v.prec
    if M.S.br(num.cmp(prec, "==", 0)):
        prec = y.prec
        return v.rep(prec=prec, acc=0, form=y.form, neg=y.neg, mag=y.mag)
    if y.form == 1 and M.S.br(num.cmp(prec, "<", y.prec)):
        return finish(M, v, y.neg, y.mag, prec, v.mode)
    return v.rep(acc=0, form=y.form, neg=y.neg, mag=y.mag)


@ext(PF + "Set")
def fset(M, z, x):
    M.store(z, setval(M, z, x))
    return z


@ext(PF + "Copy")
def fcopy(M, z, x):
    M.store(z, get(M, x))
    return z


@ext(PF + "Neg")
def fneg(M, z, x):
    r = setval(M, z, x)
    M.store(z, r.rep(neg=not r.neg))
    return z


@ext(PF + "Abs")
def fabs(M, z, x):
    r = setval(M, z, x)
    M.store(z, r.rep(neg=False))
    return z


@ext(PF + "SetMantExp")
def setmantexp(M, z, mant, exp):
    v = get(M, mant)                     # z.Copy(mant)
    if v.form == 1:
        mg = v.mag.shift(exp)
        form, mg, acc = checkexp(M, v.neg, mg, 0)
        # setExpAndRound rounds to z.prec, which the mantissa already fits
        v = v.rep(form=form, mag=mg, acc=acc)
    M.store(z, v)
    return z


@ext(PF + "MantExp")
def mantexp(M, x, mant):
    v = get(M, x)
    e = 0
    m = v
    if v.form == 1:
        k = normexp(M, v.mag.t)
        e = num.add(v.mag.sh, k)
        g = None if v.mag.gran is None else num.sub(v.mag.gran, e)
        m = v.rep(mag=Mag(v.mag.t, -k, g))
    if mant is not None:
        M.store(mant, m)
    return e


@ext(PF + "Prec")
def fprec(M, x):
    return get(M, x).prec


@ext(PF + "Mode")
def fmode(M, x):
    return get(M, x).mode


@ext(PF + "Acc")
def facc(M, x):
    return get(M, x).acc


@ext(PF + "IsInf")
def fisinf(M, x):
    return get(M, x).form == 2


@ext(PF + "Signbit")
def fsignbit(M, x):
    return get(M, x).neg


@ext(PF + "Sign")
def fsign(M, x):
    v = get(M, x)
    return 0 if v.form == 0 else -1 if v.neg else 1


def fracis0(M, mag):
    """mag is an integer"""
    t = inunit(M, mag, 0)
    if not isinstance(t, L):
        return num.isint(t)
    if t.isint:
        return True
    if mag.gran is not None and M.S.proves(num.cmp(0, "<=", mag.gran)):
        return True
    return num.cmp(num.sub(t, num.floordiv(t)), "==", 0)


@ext(PF + "IsInt")
def fisint(M, x):
    v = get(M, x)
    if v.form != 1:
        return v.form == 0
    return fracis0(M, v.mag)


@ext(PF + "MinPrec")
def fminprec(M, x):
    v = get(M, x)
    if v.form != 1:
        return 0
    if isinstance(v.mag.t, L) or not num.isint(v.mag.t):
        raise Unsupported("MinPrec")
    t = v.mag.t
    return t.bit_length() - ((t & -t).bit_length() - 1)


def trunc(M, mag):
    if mag.gran is not None and isinstance(mag.gran, int) and mag.gran >= 0 and num.isint(mag.t) and not isinstance(mag.sh, L):
        return num.scale(mag.t, pow2(mag.sh)), True
    t = inunit(M, mag, 0)
    f = num.floordiv(t)
    integral(M, mag, 0, f, t)
    return f, num.cmp(f, "==", t)


@ext(PF + "Int")
def fint(M, x, z):
    v = get(M, x)
    if v.form == 2:
        return (None, accof(-1, v.neg))
    p = z
    if v.form == 0:
        r, acc = 0, 0
    else:
        f, ex = trunc(M, v.mag)
        r = num.scale(f, -1) if v.neg else f
        acc = accof(num.sub(f, inunit(M, v.mag, 0)), v.neg) if ex is not True else 0
    if p is None:
        p = new(M, BI(r))
    else:
        M.store(p, BI(r))
    return (p, acc)


@ext(PF + "Uint64")
def fuint64(M, x):
    v = get(M, x)
    if v.form == 2:
        return (0, 1) if v.neg else ((1 << 64) - 1, -1)
    if v.form == 0:
        return (0, 0)
    if v.neg:
        return (0, 1)
    f, ex = trunc(M, v.mag)
    if not M.S.br(num.cmp(f, "<=", (1 << 64) - 1)):
        return ((1 << 64) - 1, -1)
    if isinstance(f, L):
        f = f.tight(0, (1 << 64) - 1)
    if ex is True:
        return (f, 0)
    # acc is Exact iff x.MinPrec() <= 64 for x >= 1 (documented: Exact iff x is an integer in range)
    return (f, accof(num.sub(f, inunit(M, v.mag, 0)), False))


@ext(PF + "Int64")
def fint64(M, x):
    v = get(M, x)
    if v.form == 2:
        return (-(1 << 63), 1) if v.neg else ((1 << 63) - 1, -1)
    if v.form == 0:
        return (0, 0)
    f, ex = trunc(M, v.mag)
    if v.neg:
        if not M.S.br(num.cmp(f, "<=", 1 << 63)):
            return (-(1 << 63), 1)
    elif not M.S.br(num.cmp(f, "<=", (1 << 63) - 1)):
        return ((1 << 63) - 1, -1)
    acc = 0 if ex is True else accof(num.sub(f, inunit(M, v.mag, 0)), v.neg)
    return (num.scale(f, -1) if v.neg else f, acc)


def tofloat(w):
    def f(M, x):
        v = get(M, x)
        if v.form == 0:
            return (F(w, "zero", v.neg), 0)
        if v.form == 2:
            return (F(w, "inf", v.neg), 0)
        return rnd(M, w, v.neg, v.mag)
    return f


EXT[PF + "Float64"] = tofloat(64)
EXT[PF + "Float32"] = tofloat(32)


@ext(PF + "Cmp")
def fcmpf(M, x, y):
    a, b = get(M, x), get(M, y)

    def rank(v):
        return 0 if v.form == 0 else (-1 if v.neg else 1) * v.form
    ra, rb = rank(a), rank(b)
    if ra != rb:
        return -1 if ra < rb else 1
    if abs(ra) != 1:
        return 0
    d = magdiff(M, a.mag, b.mag)
    if ra < 0:
        d = num.scale(d, -1)
    return accof(d, False)          # the sign of a - b


def maxprec(M, *vs):
    r = vs[0]
    for v in vs[1:]:
        if num.key(r) != num.key(v) and M.S.br(num.cmp(r, "<", v)):
            r = v
    return r


def addsub(sub):
    def f(M, z, x, y):
        v, a, b = get(M, z), get(M, x), get(M, y)
        prec = v.prec
        if M.S.br(num.cmp(prec, "==", 0)):
            prec = maxprec(M, a.prec, b.prec)
        bneg = (not b.neg) if sub else b.neg
        if a.form == 1 and b.form == 1:
            s = signedadd(M, a.neg, a.mag, bneg, b.mag)
            if s is None:
                mode = v.mode
                neg = M.S.br(num.cmp(mode, "==", 4))
                r = v.rep(prec=prec, form=0, neg=neg, mag=None, acc=0)
            else:
                r = finish(M, v, s[0], s[1], prec, v.mode)
        elif a.form == 2 and b.form == 2 and a.neg != bneg:
            raise GoPanic("ErrNaN")
        elif a.form == 0 and b.form == 0:
            r = v.rep(prec=prec, form=0, neg=a.neg and bneg, mag=None, acc=0)
        elif a.form == 2 or b.form == 0:
            r = setnum(M, v, prec, a.form, a.neg, a)
        else:
            # Sub is z.Neg(y) here: y is rounded before its sign changes
            r = setnum(M, v, prec, b.form, b.neg, b)
            if sub:
                r = r.rep(neg=not r.neg)
        M.store(z, r)
        return z
    return f


def setnum(M, v, prec, form, neg, src):
    if form == 1 and M.S.br(num.cmp(prec, "<", src.prec)):
        return finish(M, v, neg, src.mag, prec, v.mode)
    return v.rep(prec=prec, acc=0, form=form, neg=neg, mag=src.mag if form == 1 else None)


EXT[PF + "Add"] = addsub(False)
EXT[PF + "Sub"] = addsub(True)


@ext(PF + "Mul")
def fmul(M, z, x, y):
    v, a, b = get(M, z), get(M, x), get(M, y)
    prec = v.prec
    if M.S.br(num.cmp(prec, "==", 0)):
        prec = maxprec(M, a.prec, b.prec)
    neg = a.neg != b.neg
    if a.form == 1 and b.form == 1:
        r = finish(M, v, neg, magmul(a.mag, b.mag), prec, v.mode)
    elif a.form == 0 and b.form == 2 or a.form == 2 and b.form == 0:
        raise GoPanic("ErrNaN")
    elif a.form == 2 or b.form == 2:
        r = v.rep(prec=prec, acc=0, form=2, neg=neg, mag=None)
    else:
        r = v.rep(prec=prec, acc=0, form=0, neg=neg, mag=None)
    M.store(z, r)
    return z


def setinteger(M, z, x, neg, defprec):
    v = get(M, z)
    prec = v.prec
    if M.S.br(num.cmp(prec, "==", 0)):
        prec = defprec
    if M.S.br(num.cmp(x, "==", 0)):
        M.store(z, v.rep(prec=prec, acc=0, neg=neg, form=0, mag=None))
        return z
    if isinstance(x, L):
        x = x.tight(1)
    M.store(z, finish(M, v, neg, Mag(x, 0), prec, v.mode))
    return z


@ext(PF + "SetUint64")
def setuint64(M, z, x):
    return setinteger(M, z, x, False, 64)


@ext(PF + "SetInt64")
def setint64(M, z, x):
    neg = M.S.br(num.cmp(x, "<", 0))
    return setinteger(M, z, num.scale(x, -1) if neg else x, neg, 64)


@ext(PF + "SetInt")
def setint(M, z, p):
    x = get(M, p).v
    neg = M.S.br(num.cmp(x, "<", 0))
    m = num.scale(x, -1) if neg else x
    h = hi(m)
    if isinstance(m, L):
        if h is None:
            raise Unsupported("SetInt of unbounded")
        v = get(M, z)
        if M.S.br(num.cmp(v.prec, "==", 0)) and h.bit_length() > 64:
            raise Unsupported("SetInt with default precision")
        return setinteger(M, z, m, neg, 64)
    return setinteger(M, z, m, neg, max(m.bit_length(), 64))


@ext(PF + "Parse")
def fparse(M, z, s, base):
    from strs import parse_number
    r = parse_number(M, s, base)
    v = get(M, z)
    if r is None:
        return (None, 0, Iface(None, Opaque("error")))
    neg, t, sh = r
    prec = v.prec
    if M.S.br(num.cmp(prec, "==", 0)):
        prec = 64
    if M.S.br(num.cmp(t, "==", 0)):
        M.store(z, v.rep(prec=prec, acc=0, form=0, neg=neg, mag=None))
    else:
        if isinstance(t, L):
            t = t.tight(1)
        M.store(z, finish(M, v, neg, Mag(t, sh), prec, v.mode))
    return (z, base if isinstance(base, int) and base != 0 else 2, None)


@ext(PF + "SetString")
def fsetstring(M, z, s):
    p, b, err = fparse(M, z, s, 0)
    return (z, True) if err is None else (None, False)


@ext(B + "ParseFloat")
def parsefloat(M, s, base, prec, mode):
    z = new(M, BF(prec=prec, mode=mode))
    p, b, err = fparse(M, z, s, base)
    return (p, b, err)


@ext(PF + "Text", PF + "String")
def ftext(M, x, fmt=ord("g"), prec=10):
    """Text: the documented layout; the digits of a finite number are unknown
    unless the task supplies them."""
    v = get(M, x)
    if v.form == 2:
        return b"-Inf" if v.neg else b"+Inf"
    if isinstance(fmt, L) or isinstance(prec, L):
        raise Unsupported("big.Float.Text with symbolic format")
    if fmt not in (ord("e"), ord("E")) or prec < 0 or prec > 1200:
        n = num.fresh("textlen", 1, 1 << 40)
        return mkstr([("opq", Opaque("text", ("text", v.neg, v.form, v.mag.key if v.form == 1 else None, fmt, prec)), n)])
    sg = [b"-"] if v.neg else []
    if v.form == 0:
        return mkstr(sg + [b"0" + (b"." + b"0" * prec if prec else b"") + bytes([fmt]) + b"+00"])
    kk = ("textdigits", v.neg, v.mag.key, prec)
    given = M.S.env.get("textdigits")
    if given is not None and given[0] == v.mag.key and len(given[1]) <= prec + 1:
        ds = list(given[1]) + [48] * (prec + 1 - len(given[1]))
        ex = given[2]
    else:
        if kk not in num.MEMO:
            num.MEMO[kk] = ([num.Atom("td", "int", 49 if i == 0 else 48, 57) for i in range(prec + 1)],
                            ("opq", Opaque("exponent", kk), num.fresh("explen", 3, 12)))
        ds, ex = num.MEMO[kk]
        ds = [num.atom(a) for a in ds]
    out = sg + [("c", ds[0])]
    if prec:
        out.append(b".")
        out += [("c", d) for d in ds[1:]]
    return mkstr(out + [bytes([fmt]), ex])


@ext(B + "NewInt")
def newint(M, x):
    return new(M, BI(x))


def bnbits(M, v, what):
    if isinstance(v, L):
        if v.lo is None or v.lo < 0:
            if not M.S.proves(num.cmp(0, "<=", v)):
                raise Unsupported("%s of a possibly negative big.Int" % what)
            v = v.tight(0)
        if v.hi is None:
            raise Unsupported("%s of an unbounded big.Int" % what)
        return v, v.hi.bit_length()
    if v < 0:
        raise Unsupported("%s of a negative big.Int" % what)
    return v, v.bit_length()


def ibin(op):
    def f(M, z, x, y):
        a, b = get(M, x).v, get(M, y).v
        if op == "+":
            r = num.add(a, b)
        elif op == "-":
            r = num.sub(a, b)
        elif op == "*":
            r = num.mul(a, b)
        else:
            a, na = bnbits(M, a, op)
            b, nb = bnbits(M, b, op)
            n = max(na, nb, 1)
            if op == "&":
                r = M.bitand(a, b, n)
            elif op == "&^":
                r = M.bitand(a, ((1 << n) - 1) & ~b, n) if isinstance(b, int) else num.sub(a, M.bitand(a, b, n))
            elif op == "|":
                r = num.add(a, b) if M.disjoint(a, b) else num.sub(num.add(a, b), M.bitand(a, b, n))
            else:
                r = num.add(a, b) if M.disjoint(a, b) else num.sub(num.add(a, b), num.scale(M.bitand(a, b, n), 2))
            if isinstance(r, L):
                r = r.tight(0)
        M.store(z, BI(r))
        return z
    return f


for _n, _o in (("Add", "+"), ("Sub", "-"), ("Mul", "*"), ("And", "&"), ("AndNot", "&^"), ("Or", "|"), ("Xor", "^")):
    EXT[PI + _n] = ibin(_o)


@ext(PI + "Lsh")
def ilsh(M, z, x, n):
    n = M.S.concretize(n)
    M.store(z, BI(num.scale(get(M, x).v, 1 << n)))
    return z


@ext(PI + "Rsh")
def irsh(M, z, x, n):
    n = M.S.concretize(n)
    num.HOOK = M.floorhook
    try:
        r = num.divmodc(get(M, x).v, 1 << n)[0]
    finally:
        num.HOOK = None
    M.store(z, BI(r))
    return z


@ext(PI + "Bit")
def ibit(M, x, i):
    i = M.S.concretize(i)
    v, _ = bnbits(M, get(M, x).v, "Bit")
    return num.scale(M.bitand(v, 1 << i, i + 1), Fraction(1, 1 << i))


@ext(PI + "SetBit")
def isetbit(M, z, x, i, b):
    i = M.S.concretize(i)
    v, _ = bnbits(M, get(M, x).v, "SetBit")
    cur = M.bitand(v, 1 << i, i + 1)
    r = num.add(num.sub(v, cur), num.scale(b, 1 << i))
    if isinstance(r, L):
        r = r.tight(0)
    M.store(z, BI(r))
    return z


@ext(PI + "Uint64")
def iuint64(M, x):
    v = get(M, x).v
    if isinstance(v, L) and v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi < 1 << 64:
        return v
    v, n = bnbits(M, v, "Uint64")
    return M.bitand(v, (1 << 64) - 1, max(n, 64))


@ext(PI + "Int64")
def iint64(M, x):
    return M.fit(get(M, x).v, (True, 64))


@ext(PI + "Set")
def iset(M, z, x):
    M.store(z, get(M, x))
    return z


@ext(PI + "SetUint64", PI + "SetInt64")
def isetu(M, z, x):
    M.store(z, BI(x))
    return z


@ext(PI + "Neg")
def ineg(M, z, x):
    M.store(z, BI(num.scale(get(M, x).v, -1)))
    return z


@ext(PI + "Abs")
def iabs(M, z, x):
    v = get(M, x).v
    M.store(z, BI(num.scale(v, -1) if M.S.br(num.cmp(v, "<", 0)) else v))
    return z


@ext(PI + "Sign")
def isign(M, x):
    return accof(get(M, x).v, False)


@ext(PI + "Cmp")
def icmp(M, x, y):
    return accof(num.sub(get(M, x).v, get(M, y).v), False)


@ext(PI + "BitLen")
def ibitlen(M, x):
    v, n = bnbits(M, get(M, x).v, "BitLen")
    if M.S.br(num.cmp(v, "==", 0)):
        return 0
    return normexp(M, v.tight(1) if isinstance(v, L) else v)


@ext(PI + "IsUint64")
def iisuint64(M, x):
    v = get(M, x).v
    return zand(num.cmp(0, "<=", v), num.cmp(v, "<", 1 << 64))


# ------------------------------------------------------------------ math

@ext("math.Float64bits")
def f64bits(M, x):
    return x.bits(M)


@ext("math.Float32bits")
def f32bits(M, x):
    return x.bits(M)


@ext("math.Float64frombits")
def f64frombits(M, b):
    return F.frombits(M, 64, b)


@ext("math.Float32frombits")
def f32frombits(M, b):
    return F.frombits(M, 32, b)


@ext("math.IsNaN")
def isnan(M, x):
    return x.classify(M).kind == "nan"


@ext("math.IsInf")
def isinf(M, x, sign):
    f = x.classify(M)
    if f.kind != "inf":
        return False
    return zor(zand(num.cmp(0, "<=", sign), not f.neg), zand(num.cmp(sign, "<=", 0), f.neg))


@ext("math.Signbit")
def signbit(M, x):
    if x.kind == "bits":
        s = num.divmodc(x.b, 1 << (x.w - 1))[0]
        return M.S.br(num.cmp(s, "==", 1))
    return x.neg


@ext("math.NaN")
def mnan(M):
    return F(64, "nan", False, b=0x7FF8000000000001)


@ext("math.Inf")
def minf(M, sign):
    return F(64, "inf", not M.S.br(num.cmp(0, "<=", sign)))


@ext("math.Copysign")
def copysign(M, x, y):
    neg = signbit(M, y)
    if signbit(M, x) == neg:
        return x
    return x.neg_F()


@ext("math.Abs")
def mabs(M, x):
    return x.neg_F() if signbit(M, x) else x


@ext("math.Ldexp")
def ldexp(M, x, e):
    f = x.classify(M)
    if f.kind != "fin":
        return f
    e = M.S.concretize(e)
    return rnd(M, 64, f.neg, f.mag.shift(e))[0]


# ------------------------------------------------------------------ math/bits

def bitlen(M, x, n):
    if isinstance(x, int):
        return x.bit_length()
    if M.S.br(num.cmp(x, "==", 0)):
        return 0
    return normexp(M, x.tight(1))


for _w, _n in ((64, "Len64"), (64, "Len"), (32, "Len32"), (16, "Len16"), (8, "Len8")):
    EXT["math/bits." + _n] = (lambda w: lambda M, x: bitlen(M, x, w))(_w)
for _w, _n in ((64, "LeadingZeros64"), (64, "LeadingZeros"), (32, "LeadingZeros32"), (16, "LeadingZeros16")):
    EXT["math/bits." + _n] = (lambda w: lambda M, x: w - bitlen(M, x, w))(_w)


def tzeros(M, x, w):
    if isinstance(x, int):
        return (x & -x).bit_length() - 1 if x else w
    if M.S.br(num.cmp(x, "==", 0)):
        return w
    h = x
    for i in range(w):
        h, r = num.divmodc(h, 2)
        if not M.S.br(num.cmp(r, "==", 0)):
            return i
    return w


for _w, _n in ((64, "TrailingZeros64"), (64, "TrailingZeros"), (32, "TrailingZeros32"), (16, "TrailingZeros16"), (8, "TrailingZeros8")):
    EXT["math/bits." + _n] = (lambda w: lambda M, x: tzeros(M, x, w))(_w)


@ext("math/bits.Mul64")
def mul64(M, x, y):
    p = num.mul(x, y)
    return num.divmodc(p, 1 << 64)


@ext("math/bits.Add64")
def add64(M, x, y, c):
    q, r = num.divmodc(num.add(num.add(x, y), c), 1 << 64)
    return (r, q)


# ------------------------------------------------------------------ fmt, strings, errors

def slicevals(M, s):
    if s.ptr is None:
        return []
    n = M.S.concretize(s.len)
    arr = M.load(s.ptr)
    return [M.sel(arr, num.add(s.off, i)) for i in range(n)]


@ext("fmt.Sprintf")
def sprintf(M, f, va):
    from strs import sprintf as sp
    return sp(M, f, slicevals(M, va))


@ext("fmt.Errorf")
def errorf(M, f, va):
    return Iface(None, Opaque("error"))


@ext("errors.New")
def errnew(M, s):
    return Iface(None, Opaque("error"))


@ext("fmt.Sprint", "fmt.Sprintln")
def sprint(M, va):
    raise Unsupported("fmt.Sprint")


def onebyte(M, c):
    """A text argument, or a byte or rune given as a number."""
    if isinstance(c, (bytes, Str)):
        return c
    c = M.S.concretize(c)
    if not 0 <= c < 128:
        raise Unsupported("search for a non-ASCII character")
    return bytes([c])


@ext("strings.Index", "strings.IndexByte", "strings.IndexRune")
def sindex(M, s, sub):
    from strs import index
    return index(M, s, onebyte(M, sub))


@ext("strings.Contains", "strings.ContainsRune")
def scontains(M, s, sub):
    return num.cmp(0, "<=", sindex(M, s, sub))


def flatten(s):
    """Pieces of a text, constants split into characters (numbers)."""
    return [q for p in pieces(s) for q in (list(p) if isinstance(p, bytes) else [p[1] if p[0] == "c" else p])]


def unflatten(cs):
    return mkstr([bytes([c]) if isinstance(c, int) else c if isinstance(c, tuple) else ("c", c) for c in cs])


def isone(M, c, chars):
    """Is the character one of the given ones?"""
    if isinstance(c, tuple):
        if c[0] == "opq" and c[1].key is not None and isinstance(c[1].key, dict) and all(k in c[1].key.get("free", ()) for k in chars):
            return False
        raise Unsupported("character of an unknown text")
    return any(M.S.br(num.cmp(c, "==", k)) for k in chars)


@ext("strings.TrimRight")
def strimright(M, s, cut):
    cs = flatten(s)
    while cs and isone(M, cs[-1], cut):
        cs.pop()
    return unflatten(cs)


@ext("strings.TrimLeft")
def strimleft(M, s, cut):
    cs = flatten(s)
    while cs and isone(M, cs[0], cut):
        cs.pop(0)
    return unflatten(cs)


@ext("strings.Trim")
def strim(M, s, cut):
    return strimleft(M, strimright(M, s, cut), cut)


@ext("strings.HasSuffix")
def shassuffix(M, s, suf):
    cs = flatten(s)
    for k in reversed(suf):
        if not cs or not isone(M, cs.pop(), [k]):
            return False
    return True


@ext("strings.HasPrefix")
def shasprefix(M, s, pre):
    cs = flatten(s)
    for k in pre:
        if not cs or not isone(M, cs.pop(0), [k]):
            return False
    return True


@ext("strings.TrimSuffix")
def strimsuffix(M, s, suf):
    return unflatten(flatten(s)[:-len(suf)]) if suf and shassuffix(M, s, suf) else s


@ext("strings.TrimPrefix")
def strimprefix(M, s, pre):
    return unflatten(flatten(s)[len(pre):]) if shasprefix(M, s, pre) else s


@ext("strings.LastIndex", "strings.LastIndexByte")
def slastindex(M, s, sub):
    sub = onebyte(M, sub)
    if len(sub) != 1:
        raise Unsupported("strings.LastIndex")
    cs = flatten(s)
    for i in range(len(cs) - 1, -1, -1):
        if isone(M, cs[i], sub):
            if any(isinstance(c, tuple) for c in cs[:i]):
                raise Unsupported("position after an unknown text")
            return i
    return -1


@ext("strings.Cut")
def scut(M, s, sep):
    sep = onebyte(M, sep)
    cs = flatten(s)
    for i in range(len(cs) - len(sep) + 1 if sep else 0):
        if all(isone(M, cs[i + j], [sep[j]]) for j in range(len(sep))):
            return (unflatten(cs[:i]), unflatten(cs[i + len(sep):]), True)
    return (s, b"", False)


@ext("strings.Repeat")
def srepeat(M, s, n):
    n = M.S.concretize(n)
    if n < 0:
        raise GoPanic("negative Repeat count")
    return mkstr(pieces(s) * n)
