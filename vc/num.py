"""Numbers of the verifier: linear forms over atoms.

A machine integer or a real is either a Python int / Fraction (concrete) or an
L: c + sum(coef * atom).  An atom is a named z3 constant (Int or Real) with
bounds and with definitional axioms (a conservative extension: for every value
of the other atoms there is exactly one, or at least one, value satisfying
them).  Go integers are mathematical integers here; wrap-around is explicit in
the interpreter (exec.py), which proves absence of overflow or reduces modulo
2^n.
"""
from fractions import Fraction
from math import gcd
import sys
import z3

sys.set_int_max_str_digits(0)

ATOMS = []          # id -> Atom
NEST = False        # merge nested floors (set by the tasks that profit)
HOOK = None         # set by the interpreter: decides floor(f) under the path condition
MEMO = {}           # structural key -> atom or tuple of atoms


class Atom:
    __slots__ = ("id", "z", "sort", "lo", "hi", "defs", "name", "info")

    def __init__(self, name, sort, lo=None, hi=None, info=None):
        self.id = len(ATOMS)
        nm = "%s!%d" % (name, self.id)
        self.z = z3.Int(nm) if sort == "int" else z3.Real(nm)
        self.sort = sort
        self.lo, self.hi = lo, hi
        self.defs = []
        self.name = nm
        self.info = info
        if lo is not None:
            self.defs.append(self.z >= zc(lo))
        if hi is not None:
            self.defs.append(self.z <= zc(hi))
        ATOMS.append(self)


def zc(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if x.denominator == 1:
        return z3.RealVal(x.numerator)
    return z3.RealVal("%d/%d" % (x.numerator, x.denominator))


def nrm(x):
    """Fraction with denominator 1 -> int."""
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


class L:
    """Immutable linear form."""
    __slots__ = ("c", "ts", "lo", "hi", "isint", "_z", "_key")

    def __init__(self, c, ts, lo=None, hi=None, isint=None):
        self.c = nrm(c)
        self.ts = ts                      # tuple of (atom id, coef), sorted, non-zero
        blo = bhi = self.c
        for i, k in ts:
            a = ATOMS[i]
            l, h = (a.lo, a.hi) if k > 0 else (a.hi, a.lo)
            blo = None if blo is None or l is None else blo + k * l
            bhi = None if bhi is None or h is None else bhi + k * h
        if lo is not None and (blo is None or lo > blo):
            blo = lo
        if hi is not None and (bhi is None or hi < bhi):
            bhi = hi
        if isint is None:
            isint = isinstance(self.c, int) and all(isinstance(k, int) and ATOMS[i].sort == "int" for i, k in ts)
        self.isint = isint
        if isint:
            if isinstance(blo, Fraction):
                blo = -((-blo.numerator) // blo.denominator)
            if isinstance(bhi, Fraction):
                bhi = bhi.numerator // bhi.denominator
        self.lo, self.hi = nrm(blo) if blo is not None else None, nrm(bhi) if bhi is not None else None
        self._z = None
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = (self.c, self.ts)
        return self._key

    def tight(self, lo=None, hi=None):
        return L(self.c, self.ts, lo if self.lo is None or (lo is not None and lo > self.lo) else self.lo,
                 hi if self.hi is None or (hi is not None and hi < self.hi) else self.hi, self.isint)

    def __repr__(self):
        return "L(%s%s)[%s,%s]" % (self.c, "".join(" + %s*%s" % (k, ATOMS[i].name) for i, k in self.ts), self.lo, self.hi)

    def __add__(self, o):
        return add(self, o)
    __radd__ = __add__

    def __neg__(self):
        return scale(self, -1)

    def __sub__(self, o):
        return add(self, scale(o, -1) if isinstance(o, L) else -o)

    def __rsub__(self, o):
        return add(scale(self, -1), o)

    def __mul__(self, o):
        return mul(self, o)
    __rmul__ = __mul__

    def __lt__(self, o):
        return cmp(self, "<", o)

    def __le__(self, o):
        return cmp(self, "<=", o)

    def __gt__(self, o):
        return cmp(o, "<", self)

    def __ge__(self, o):
        return cmp(o, "<=", self)

    def __eq__(self, o):
        if not isinstance(o, (L, int, Fraction)):
            return NotImplemented
        return cmp(self, "==", o)

    def __ne__(self, o):
        if not isinstance(o, (L, int, Fraction)):
            return NotImplemented
        return znot(cmp(self, "==", o))

    def __hash__(self):
        return hash(self.key)

    def __bool__(self):
        raise TypeError("truth value of a symbolic number")


def isnum(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def lo(x):
    return x.lo if isinstance(x, L) else x


def hi(x):
    return x.hi if isinstance(x, L) else x


def isint(x):
    return x.isint if isinstance(x, L) else isinstance(x, int) or x.denominator == 1


def key(x):
    return x.key if isinstance(x, L) else nrm(x)


def mk(c, ts, lo=None, hi=None, isint=None):
    ts = tuple(sorted((i, nrm(k)) for i, k in ts.items() if k != 0))
    if not ts:
        return nrm(c)
    return L(c, ts, lo, hi, isint)


def atom(a):
    return L(0, ((a.id, 1),))


def fresh(name, lo=None, hi=None, sort="int", info=None):
    return atom(Atom(name, sort, lo, hi, info))


def _b(x, y):
    return None if x is None or y is None else x + y


def add(a, b):
    if not isinstance(a, L) and not isinstance(b, L):
        return nrm(a + b)
    if not isinstance(a, L):
        a, b = b, a
    if not isinstance(b, L):
        if b == 0:
            return a
        return L(a.c + b, a.ts, _b(a.lo, b), _b(a.hi, b), a.isint and isint(b))
    d = dict(a.ts)
    for i, k in b.ts:
        d[i] = d.get(i, 0) + k
    both = a.isint and b.isint
    return mk(a.c + b.c, d, _b(a.lo, b.lo), _b(a.hi, b.hi), True if both else None)


def scale(a, k):
    if not isinstance(a, L):
        return nrm(a * k)
    if k == 0:
        return 0
    if k == 1:
        return a
    l, h = a.lo, a.hi
    if k < 0:
        l, h = h, l
    l = None if l is None else l * k
    h = None if h is None else h * k
    return L(a.c * k, tuple((i, nrm(c * k)) for i, c in a.ts), l, h, True if a.isint and isint(k) else None)


def mul(a, b):
    if not isinstance(a, L):
        a, b = b, a
    if not isinstance(b, L):
        return scale(a, b)
    # product of two linear forms: expand over atom products
    def prodatom(i, j):
        if i > j:
            i, j = j, i
        kk = ("mul", i, j)
        if kk not in MEMO:
            x, y = ATOMS[i], ATOMS[j]
            so = "int" if x.sort == y.sort == "int" else "real"
            l = h = None
            if None not in (x.lo, x.hi, y.lo, y.hi):
                ps = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
                l, h = min(ps), max(ps)
            elif x.lo is not None and y.lo is not None and x.lo >= 0 and y.lo >= 0:
                l = x.lo * y.lo
            p = Atom("prod", so, l, h, ("mul", i, j))
            zx, zy = x.z, y.z
            if so == "real":
                zx = z3.ToReal(zx) if x.sort == "int" else zx
                zy = z3.ToReal(zy) if y.sort == "int" else zy
            p.defs.append(p.z == zx * zy)
            MEMO[kk] = p
        return MEMO[kk].id
    d = {}
    for i, k in a.ts:
        d[i] = d.get(i, 0) + k * b.c
    for j, m in b.ts:
        d[j] = d.get(j, 0) + m * a.c
    for i, k in a.ts:
        for j, m in b.ts:
            p = prodatom(i, j)
            d[p] = d.get(p, 0) + k * m
    l = h = None
    if None not in (a.lo, a.hi, b.lo, b.hi):
        ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        l, h = min(ps), max(ps)
    elif a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0:
        l = a.lo * b.lo
    return mk(a.c * b.c, d, l, h, True if a.isint and b.isint else None)


def _lcm(a, b):
    return a // gcd(a, b) * b


def z(x, real=None):
    """z3 arithmetic term of x (exact)."""
    if not isinstance(x, L):
        x = nrm(x)
        if real or isinstance(x, Fraction):
            return z3.RealVal(str(x))
        return z3.IntVal(x)
    allint = all(ATOMS[i].sort == "int" for i, _ in x.ts)
    intc = isinstance(x.c, int) and all(isinstance(k, int) for _, k in x.ts)
    if real is None:
        real = not (allint and intc)
    if x._z is not None and x._z[0] == real:
        return x._z[1]
    parts = []
    for i, k in x.ts:
        a = ATOMS[i]
        v = a.z
        if real and a.sort == "int":
            v = z3.ToReal(v)
        if k == 1:
            parts.append(v)
        else:
            parts.append((z3.RealVal(str(k)) if real else z3.IntVal(k)) * v)
    if x.c != 0 or not parts:
        parts.append(z3.RealVal(str(x.c)) if real else z3.IntVal(x.c))
    r = parts[0] if len(parts) == 1 else z3.Sum(parts)
    x._z = (real, r)
    return r


def znot(c):
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def zand(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def zimp(a, b):
    return zor(znot(a), b)


def ziff(a, b):
    if isinstance(a, bool):
        return b if a else znot(b)
    if isinstance(b, bool):
        return a if b else znot(a)
    return a == b


CMPCACHE = {}


def cmp(a, op, b):
    """a op b with op in < <= ==; Python bool when the bounds decide."""
    d = add(a, scale(b, -1)) if isinstance(a, L) or isinstance(b, L) else nrm(a - b)
    if not isinstance(d, L):
        return d < 0 if op == "<" else d <= 0 if op == "<=" else d == 0
    if op == "<":
        if d.hi is not None and d.hi < 0:
            return True
        if d.lo is not None and d.lo >= 0:
            return False
    elif op == "<=":
        if d.hi is not None and d.hi <= 0:
            return True
        if d.lo is not None and d.lo > 0:
            return False
    else:
        if d.lo is not None and d.lo > 0 or d.hi is not None and d.hi < 0:
            return False
    # make the coefficients coprime integers, canonical sign
    den = d.c.denominator if isinstance(d.c, Fraction) else 1
    for _, k in d.ts:
        if isinstance(k, Fraction):
            den = _lcm(den, k.denominator)
    ks = [int(k * den) for _, k in d.ts]
    c = int(d.c * den)
    g = 0
    for k in ks:
        g = gcd(g, k)
    ints = all(ATOMS[i].sort == "int" for i, _ in d.ts)
    neg = ks[0] < 0
    if neg:
        ks = [-k for k in ks]
        c = -c
    # now sum ks*a + c  (op or flipped op)  0
    ks = [k // g for k in ks]
    cf = Fraction(c, g)
    if ints:
        # sum ks*a  R  -cf
        r = -cf
        if op == "==":
            if r.denominator != 1:
                return False
            kind, r = "==", r.numerator
        elif not neg:
            if op == "<":
                # S < r  <=>  S <= ceil(r)-1
                kind, r = "<=", -((-r.numerator) // r.denominator) - 1
            else:
                kind, r = "<=", r.numerator // r.denominator
        else:
            # -S + .. < 0 flipped: S > r  or S >= r   <=> not (S <= ..)
            if op == "<":
                kind, r = ">", r.numerator // r.denominator          # S > r <=> not S <= floor(r)
            else:
                kind, r = ">", -((-r.numerator) // r.denominator) - 1  # S >= r <=> not S <= ceil(r)-1
    else:
        r = -cf
        if op == "==":
            kind = "=="
        elif not neg:
            kind = op
        else:
            kind = ">" if op == "<" else ">="
    idx = tuple((i, k) for (i, _), k in zip(d.ts, ks))
    kk = (idx, kind, r)
    e = CMPCACHE.get(kk)
    if e is None:
        parts = []
        for i, k in idx:
            v = ATOMS[i].z
            if not ints and ATOMS[i].sort == "int":
                v = z3.ToReal(v)
            parts.append(v if k == 1 else (z3.IntVal(k) if ints else z3.RealVal(k)) * v)
        s = parts[0] if len(parts) == 1 else z3.Sum(parts)
        rr = z3.IntVal(r) if ints else z3.RealVal(str(r))
        if kind == "==":
            e = s == rr
        elif kind == "<=":
            e = s <= rr
        elif kind == "<":
            e = s < rr
        elif kind == ">":
            e = z3.Not(s <= rr)
        else:
            e = z3.Not(s < rr)
        CMPCACHE[kk] = e
    return e


def pow2(k):
    return 1 << k if k >= 0 else Fraction(1, 1 << -k)


def floordiv(x):
    """floor(x) for a number or L; returns int or L (fresh floor atom)."""
    if not isinstance(x, L):
        return x.numerator // x.denominator if isinstance(x, Fraction) else x
    if x.isint:
        return x
    # pull out integer parts
    ip, fp, fc = {}, {}, nrm(x.c)
    for i, k in x.ts:
        if isinstance(k, int) and ATOMS[i].sort == "int":
            ip[i] = k
        else:
            fp[i] = k
    ci = fc.numerator // fc.denominator if isinstance(fc, Fraction) else fc
    f = mk(nrm(fc - ci), fp)
    if NEST and len(fp) == 1:
        # floor((floor(g) + r) / n) = floor((g + r) / n)
        (i, k), = fp.items()
        inf = ATOMS[i].info
        r = (fc - ci) / k if k else 0
        if inf is not None and inf[0] == "floor" and isinstance(k, Fraction) and k.numerator == 1 and Fraction(r).denominator == 1:
            inner = floordiv(scale(add(inf[1], nrm(Fraction(r))), k))
            if isinstance(inner, L) and len(inner.ts) == 1 and r == 0:
                # lemma: 0 <= floor(g) - n*floor(g/n) < n
                (j, _), = inner.ts
                d = sub(atom(ATOMS[i]), scale(inner, int(1 / k)))
                lk = ("nest", i, j)
                if lk not in MEMO:
                    MEMO[lk] = True
                    ATOMS[j].defs.append(zb(cmp(0, "<=", d)))
                    ATOMS[j].defs.append(zb(cmp(d, "<", int(1 / k))))
            res = add(mk(ci, ip), inner)
            l = None if x.lo is None else Fraction(x.lo).__floor__()
            h = None if x.hi is None else Fraction(x.hi).__floor__()
            return res.tight(l, h) if isinstance(res, L) else res
    flo, fhi = lo(f), hi(f)
    # the bounds of x itself may be tighter only when no integer part was removed
    if not ip and isinstance(f, L):
        l2 = None if x.lo is None else x.lo - ci
        h2 = None if x.hi is None else x.hi - ci
        f = f.tight(l2, h2)
        flo, fhi = f.lo, f.hi
    if not isinstance(f, L):
        return mk(ci, ip)          # 0 <= f < 1
    if flo is not None and fhi is not None:
        fl, fh = Fraction(flo).__floor__(), Fraction(fhi).__floor__()
        if fl == fh:
            return mk(ci + fl, ip)
    if HOOK is not None:
        v = HOOK(f)
        if v is not None:
            return mk(ci + v, ip)
    kk = ("floor", key(f))
    if kk not in MEMO:
        # memoised definition must not depend on context-tightened bounds
        g = mk(f.c, dict(f.ts))
        gl = None if lo(g) is None else Fraction(lo(g)).__floor__()
        gh = None if hi(g) is None else Fraction(hi(g)).__floor__()
        a = Atom("fl", "int", gl, gh, ("floor", g))
        r = sub(g, atom(a))
        a.defs.append(zb(cmp(0, "<=", r)))
        a.defs.append(zb(cmp(r, "<", 1)))
        MEMO[kk] = a
    a = MEMO[kk]
    res = add(mk(ci, ip), atom(a))
    l = None if x.lo is None else Fraction(x.lo).__floor__()
    h = None if x.hi is None else Fraction(x.hi).__floor__()
    return res.tight(l, h) if isinstance(res, L) else res


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def sub(a, b):
    return add(a, scale(b, -1))


def divmodc(x, c):
    """(floor(x/c), x mod c) for integer x, concrete c > 0."""
    if not isinstance(x, L):
        return x // c, x % c
    q = floordiv(scale(x, Fraction(1, c)))
    r = sub(x, scale(q, c))
    if isinstance(r, L):
        r = r.tight(0, c - 1)
    return q, r


def rne_py(x):
    x = Fraction(x)
    f = x.numerator // x.denominator
    d = x - f
    if d > Fraction(1, 2) or d == Fraction(1, 2) and f % 2 == 1:
        f += 1
    return f


def rna_py(x):          # ties away from zero, x >= 0
    return int((Fraction(x) + Fraction(1, 2)).__floor__())


def rne(x):
    """Round to nearest, ties to even: fresh integer with definitional axioms."""
    if not isinstance(x, L):
        return rne_py(x)
    if x.isint:
        return x
    # pull out even integer multiples (they commute with round-half-even)
    ip, fp = {}, {}
    fc = nrm(x.c)
    ci = (Fraction(fc) / 2).__floor__() * 2
    for i, k in x.ts:
        if isinstance(k, int) and k % 2 == 0 and ATOMS[i].sort == "int":
            ip[i] = k
        else:
            fp[i] = k
    f = mk(nrm(fc - ci), fp)
    if not isinstance(f, L):
        return add(mk(ci, ip), rne_py(f))
    kk = ("rne", key(f))
    if kk not in MEMO:
        l = None if f.lo is None else rne_py(f.lo)
        h = None if f.hi is None else rne_py(f.hi)
        a = Atom("rne", "int", l, h, ("rne", f))
        par = Atom("par", "int", None, None)
        e = sub(atom(a), f)      # a - f
        half = Fraction(1, 2)
        a.defs.append(zb(cmp(e, "<=", half)))
        a.defs.append(zb(cmp(-half, "<=", e)))
        even = a.z == 2 * par.z
        a.defs.append(z3.Implies(zb(cmp(e, "==", half)), even))
        a.defs.append(z3.Implies(zb(cmp(e, "==", -half)), even))
        MEMO[kk] = a
    res = add(mk(ci, ip), atom(MEMO[kk]))
    l = None if x.lo is None else rne_py(x.lo)
    h = None if x.hi is None else rne_py(x.hi)
    return res.tight(l, h) if isinstance(res, L) else res
