"""Contracts of the multiprecision decimals (decimal.go, C25).

The abstract value of a decimal is 0.d_0 d_1 ... d_{nd-1} * 10^dp.  For a digit
array A with nd digits the ghost function R(i) = 0.d_i d_{i+1} ... d_{nd-1} is
the fraction after the first i digits; it is defined by R(i) = 0 for i >= nd
and 10 R(i) = d_i + R(i+1), and a decimal is canonical when its digits are
'0'..'9', the first and the last are not '0' and zero has no digits (so
R(i) > 0 for i < nd and R(0) >= 1/10).
"""
from fractions import Fraction
import z3
import num
from num import L, zand, zor, znot, zimp, ziff
from core import Dead, Unsupported
from exec import Ptr, Slice
from fmtspec import MOD, ev
import fmtspec
from loops import prove, consistent
import verify

P = MOD + "internal/strconv."
DEC = "(*" + MOD + "internal/strconv.decimal)."
CAP = 800
MAXDP = 1 << 60
I = z3.IntSort()
R_ = z3.RealSort()
ULP = Fraction(1, 10 ** CAP)


def eq(a, b):
    return num.cmp(a, "==", b)


def le(a, b):
    return num.cmp(a, "<=", b)


def lt(a, b):
    return num.cmp(a, "<", b)


def memo_fresh(name, a, b, sort="int"):
    # the bounds are part of the name: an atom's bounds are definitional
    return fmtspec.memo_fresh("%s[%s,%s]" % (name, a, b), a, b, sort)


def keyed(kk, sort, lo=None, hi=None, defs=None):
    if kk not in num.MEMO:
        a = num.Atom(kk[0], sort, lo, hi, kk)
        num.MEMO[kk] = a
        if defs:
            defs(num.atom(a), a)
    return num.atom(num.MEMO[kk])


def boolvar(name):
    return eq(memo_fresh(name, 0, 1), 1)


def uniq(M, name):
    """A name for a ghost, the same when a path is followed again."""
    c = M.S.env.get("nghost", 0)
    M.S.env["nghost"] = c + 1
    return "%s#%d" % (name, c)


class DArr:
    """Digits of a canonical decimal."""

    def __init__(self, name, nd):
        self.name, self.nd = name, nd = "%s:%s" % (name, num.key(nd)), nd
        self.A = z3.Array("d_" + name, I, I)
        self.F = z3.Function("R_" + name, I, R_)

    def __repr__(self):
        return "digits(%s)" % self.name

    def R(self, i):
        def defs(x, a):
            d = a.defs
            d.append(a.z == self.F(num.z(i)))
            d.append(num.zb(zimp(le(self.nd, i), eq(x, 0))))
            d.append(num.zb(zimp(lt(i, self.nd), lt(0, x))))
            d.append(a.z < 1)
            d.append(num.zb(zimp(zand(eq(i, 0), lt(0, self.nd)), le(Fraction(1, 10), x))))
        return keyed(("R", self.name, num.key(i)), "real", 0, 1, defs)

    def digit(self, i):
        """digit i, 0 <= i < nd"""
        def defs(x, a):
            a.defs.append(a.z == z3.Select(self.A, num.z(i)))
            ok = zand(le(0, i), lt(i, self.nd))
            a.defs.append(num.zb(zimp(ok, eq(num.scale(self.R(i), 10), num.add(num.sub(x, 48), self.R(num.add(i, 1)))))))
            a.defs.append(num.zb(zimp(eq(num.add(i, 1), self.nd), lt(48, x))))
            a.defs.append(num.zb(zimp(zand(eq(i, 0), lt(0, self.nd)), lt(48, x))))
        return keyed(("dig", self.name, num.key(i)), "int", 48, 57, defs)

    def gsel(self, M, i):
        if M.S.proves(zand(le(0, i), lt(i, self.nd))):
            return self.digit(i)

        def defs(x, a):
            a.defs.append(a.z == z3.Select(self.A, num.z(i)))
        return keyed(("junk", self.name, num.key(i)), "int", 0, 255, defs)

    def gupd(self, M, i, x):
        return DUpd(self, i, x)


class DUpd:
    """One digit of a canonical decimal overwritten."""

    def __init__(self, base, i, x):
        self.base, self.i, self.x = base, i, x

    def __repr__(self):
        return "upd(%r,%r,%r)" % (self.base, self.i, self.x)

    def gsel(self, M, i):
        if M.S.br(eq(i, self.i)):
            return self.x
        return self.base.gsel(M, i)

    def gupd(self, M, i, x):
        if M.S.br(eq(i, self.i)):
            return DUpd(self.base, i, x)
        raise Unsupported("second digit overwritten")


class Junk:
    """Digits of unknown contents, written at known places."""

    def __init__(self, m=()):
        self.m = dict(m)

    def __repr__(self):
        return "junk%r" % (self.m,)

    def gsel(self, M, i):
        i = M.S.concretize(i)
        if i in self.m:
            return self.m[i]
        return memo_fresh("junk%d" % i, 0, 255)

    def gupd(self, M, i, x):
        i = M.S.concretize(i)
        m = dict(self.m)
        m[i] = x
        return Junk(m)


class OvPre:
    """Array whose first w digits have been overwritten so that they are the
    first w digits of y, with sig = (y - written) * 10^w left to write."""

    def __init__(self, base, w, sig, first, y):
        self.base, self.w, self.sig, self.first, self.y = base, w, sig, first, y

    def __repr__(self):
        return "pre(%r,%r,%r,%r)" % (self.base, self.w, self.sig, self.first)

    def gsel(self, M, i):
        if not M.S.proves(le(self.w, i)):
            raise Unsupported("an overwritten digit is read")
        return self.base.gsel(M, i)

    def gupd(self, M, i, x):
        prove(M, [("digits are put down one after another", eq(i, self.w)),
                  ("a digit put down is one of '0'..'9'", zand(le(48, x), le(x, 57)))])
        d = num.sub(x, 48)
        first = d if M.S.br(eq(self.w, 0)) else self.first
        return OvPre(self.base, num.add(self.w, 1), num.sub(num.scale(self.sig, 10), d), first, self.y)


class OvSuf:
    """Array overwritten from the end down to position f: th is the fraction
    written there, tl what was dropped beyond the end of the array (in units
    of the digit before position f), first the digit at f."""

    def __init__(self, base, f, th, tl, first, end):
        self.base, self.f, self.th, self.tl, self.first, self.end = base, f, th, tl, first, end

    def __repr__(self):
        return "suf(%r,%r,%r,%r)" % (self.base, self.f, self.th, self.tl)

    def gsel(self, M, i):
        if not M.S.proves(lt(i, self.f)):
            raise Unsupported("an overwritten digit is read")
        return self.base.gsel(M, i)

    def gupd(self, M, i, x):
        prove(M, [("digits are put down one before another", eq(num.add(i, 1), self.f)),
                  ("a digit put down is one of '0'..'9'", zand(le(48, x), le(x, 57)))])
        d = num.sub(x, 48)
        t = Fraction(1, 10)
        return OvSuf(self.base, i, num.scale(num.add(d, self.th), t), num.scale(self.tl, t), d, self.end)


def newdec(M, name):
    """An arbitrary canonical decimal (object id)."""
    nd = memo_fresh(name + "_nd", 0, CAP)
    arr = DArr(name, nd)
    dp = memo_fresh(name + "_dp", -MAXDP, MAXDP)
    return Ptr(M.S.alloc((arr, nd, dp, boolvar(name + "_neg"), boolvar(name + "_trunc"))))


def canonical(M, v):
    return isinstance(v[0], DArr) and (v[0].nd is v[1] or M.S.proves(eq(v[0].nd, v[1])))


def setfield(M, p, i, x):
    M.store(Ptr(p.obj, p.path + (i,)), x)


# ------------------------------------------------------------------ trim

def trim_contract(M, p):
    """trim: the decimal keeps its value (the fraction of its first nd digits)
    and has no trailing zeros; without digits the decimal point is 0."""
    arr, nd, dp, neg, tr = M.load(p)
    S = M.S
    if isinstance(arr, DArr):
        # a prefix of a canonical decimal
        if not M.S.proves(le(nd, arr.nd)):
            raise Unsupported("trim of digits that are not there")
        return _trimmed(M, p, prefix(arr, nd), nd, None)
    if isinstance(arr, Junk):
        n = S.concretize(nd)
        prove(M, [("the digits have been put down", all(i in arr.m for i in range(n))),
                  ("a digit put down is one of '0'..'9'", zand(*[zand(le(48, arr.m[i]), le(arr.m[i], 57)) for i in range(n) if i in arr.m])),
                  ("the first digit is not zero", n == 0 or lt(48, arr.m.get(0, 48)))])
        W = 0
        for i in range(n):
            W = num.add(W, num.scale(num.sub(arr.m.get(i, 48), 48), Fraction(1, 10 ** (i + 1))))
        return _trimmed(M, p, W, nd, True)
    if isinstance(arr, OvPre):
        prove(M, [("the number of digits is the number put down", eq(nd, arr.w)),
                  ("the first digit is not zero", lt(0, arr.first if arr.first is not None else 0))])
        if S.br(eq(arr.sig, 0)):
            W = arr.y
        else:
            prove(M, [("digits are dropped only behind the last place", eq(arr.w, CAP)),
                      ("what is dropped is less than one unit", zand(lt(0, arr.sig), lt(arr.sig, 1)))])
            W = num.sub(arr.y, num.scale(arr.sig, ULP))
        return _trimmed(M, p, W, nd, True)
    if isinstance(arr, OvSuf):
        prove(M, [("digits are put down to the front", eq(arr.f, 0)),
                  ("the number of digits is the number put down", eq(nd, arr.end)),
                  ("the first digit is not zero", lt(0, arr.first))])
        return _trimmed(M, p, arr.th, nd, True)
    raise Unsupported("trim of %r" % (arr,))


def prefix(arr, n):
    """The fraction 0.d_0 ... d_{n-1}."""
    def defs(x, a):
        # 10^-n R(n) is what is left out
        a.defs.append(num.zb(le(x, arr.R(0))))
        a.defs.append(num.zb(zimp(le(arr.nd, n), eq(x, arr.R(0)))))
        a.defs.append(num.zb(zimp(le(n, 0), eq(x, 0))))
        a.defs.append(num.zb(zimp(zand(lt(0, n), lt(0, arr.nd)), le(Fraction(1, 10), x))))
    return keyed(("prefix", arr.name, num.key(n)), "real", 0, 1, defs)


def _trimmed(M, p, W, nd, nz):
    """New canonical digits with fraction W."""
    nm = uniq(M, "trim")
    S = M.S
    if S.br(eq(W, 0)):
        setfield(M, p, 0, DArr(nm, 0))
        setfield(M, p, 1, 0)
        setfield(M, p, 2, 0)
        return None
    n2 = memo_fresh(nm + "_nd", 1, CAP)
    S.assume(le(n2, nd))
    a2 = DArr(nm, n2)
    S.assume(eq(a2.R(0), W))
    setfield(M, p, 0, a2)
    setfield(M, p, 1, n2)
    consistent(M)


class GArr:
    """Arbitrary digits; X(i) is the fraction 0.d_0 ... d_{i-1}."""

    def __init__(self, name, nd):
        self.name, self.nd = name, nd
        self.A = z3.Array("g_" + name, I, I)
        self.F = z3.Function("X_" + name, I, R_)

    def __repr__(self):
        return "garr(%s)" % self.name

    def X(self, i):
        def defs(x, a):
            a.defs.append(a.z == self.F(num.z(i)))
            a.defs.append(num.zb(zimp(le(i, 0), eq(x, 0))))
        return keyed(("X", self.name, num.key(i)), "real", 0, 1, defs)

    def gsel(self, M, i):
        if not M.S.proves(zand(le(0, i), lt(i, self.nd))):
            raise Unsupported("digit that is not there")

        def defs(x, a):
            a.defs.append(a.z == z3.Select(self.A, num.z(i)))
            x1, x0 = self.X(num.add(i, 1)), self.X(i)
            a.defs.append(num.zb(zimp(eq(x, 48), eq(x1, x0))))
            a.defs.append(num.zb(zimp(lt(48, x), lt(x0, x1))))
        return keyed(("gdig", self.name, num.key(i)), "int", 48, 57, defs)

    def gupd(self, M, i, x):
        raise Unsupported("trim writes a digit")


class TrimInv:
    def objs(self, M, V):
        return [M.S.env["a"].obj]

    def enter(self, M, V):
        return {}

    def havoc(self, M, V, g):
        p = M.S.env["a"]
        setfield(M, p, 1, memo_fresh(uniq(M, "nd"), 0, CAP))
        return {}

    def inv(self, M, V, g):
        v, v0 = M.load(M.S.env["a"]), M.S.env["v0"]
        arr = v0[0]
        return [("digit count", zand(le(0, v[1]), le(v[1], v0[1]))),
                ("value", eq(arr.X(v[1]), arr.X(v0[1]))),
                ("frame", v[0] is arr and v[2:] == v0[2:])]

    def next(self, M, V, g, V0):
        return {}


def returned(ob, out):
    ob("does not panic", out[0] == "ret")
    return out[0] == "ret"


def frame(M, ob, p):
    h0 = M.S.env["heap0"]
    ob("frame: nothing else changes", all(M.S.heap[o] is v or repr(M.S.heap[o]) == repr(v) for o, v in h0.items() if o != p.obj))


def case_trim():
    def setup(M):
        M.invs = {P + "trim": {(0, frozenset()): TrimInv()}}
        nd = memo_fresh("nd", 0, CAP)
        v0 = (GArr("a", nd), nd, memo_fresh("dp", -MAXDP, MAXDP), boolvar("neg"), boolvar("trunc"))
        p = Ptr(M.S.alloc(v0))
        M.S.env.update(a=p, v0=v0)
        return [p]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        p = args[0]
        v, v0 = M.load(p), M.S.env["v0"]
        arr = v0[0]
        ob("same digits", v[0] is arr)
        ob("no more digits than before", zand(le(0, v[1]), le(v[1], v0[1])))
        ob("same value", eq(arr.X(v[1]), arr.X(v0[1])))
        if M.S.br(lt(0, v[1])):
            ob("no trailing zero", lt(48, arr.gsel(M, num.sub(v[1], 1))))
            ob("same decimal point", eq(v[2], v0[2]))
        else:
            ob("zero has decimal point 0", eq(v[2], 0))
        ob("sign and truncation flag unchanged", zand(ziff(v[3], v0[3]), ziff(v[4], v0[4])))
        frame(M, ob, p)
    return P + "trim", "", setup, post


# ------------------------------------------------------------------ Assign

def case_assign():
    def setup(M):
        num.NEST = True
        M.contracts = dict(M.contracts)
        M.contracts[P + "trim"] = trim_contract
        v0 = (Junk(), memo_fresh("nd", 0, CAP), memo_fresh("dp", -MAXDP, MAXDP), boolvar("neg"), boolvar("trunc"))
        p = Ptr(M.S.alloc(v0))
        v = memo_fresh("v", 0, (1 << 64) - 1)
        M.S.env.update(a=p, v0=v0)
        return [p, v]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        p, v = args
        x, v0 = M.load(p), M.S.env["v0"]
        ob("canonical", canonical(M, x))
        if not isinstance(x[0], DArr):
            return
        dp = x[2]
        ob("decimal point within 20 digits", not isinstance(dp, L) and 0 <= dp <= 20)
        if isinstance(dp, L):
            return
        ob("holds exactly the integer", eq(num.scale(x[0].R(0), 10 ** dp), v))
        ob("not truncated", znot(x[4]))
        ob("sign unchanged", ziff(x[3], v0[3]))
        frame(M, ob, p)

    def conc(M, m, args):
        return {"op": "decimal", "pre": "", "prec": 0, "signed": False, "ops": ["assign:%d" % ev(m, args[1])]}
    return DEC + "Assign", "", setup, post, conc


# ------------------------------------------------------------------ rightShift

class RMain:
    """main loop of rightShift: digits are put down as they are picked up"""
    order = ("r", "w", "n:uint")

    def objs(self, M, V):
        return [M.S.env["a"].obj]

    def enter(self, M, V):
        S = M.S
        p = S.env["a"]
        v = M.load(p)
        arr = v[0]
        if not isinstance(arr, DArr):
            raise Unsupported("digits overwritten before the main loop")
        r0 = V["r"]
        if isinstance(r0, L):
            raise Unsupported("number of leading digits")
        sig = self.left(S, arr, V)
        setfield(M, p, 0, OvPre(arr, 0, sig, 0, sig))
        S.env["y"] = sig
        return {"r0": r0, "arr": arr, "rest": v[1:], "y": sig}

    @staticmethod
    def left(S, arr, V):
        return num.scale(num.add(V["n"], arr.R(V["r"])), Fraction(1, 10 << S.env["k"]))

    def havoc(self, M, V, g):
        S = M.S
        nm = uniq(M, "rs")
        r = memo_fresh(nm + "_r", 0, CAP + 20)
        V["r"] = r
        V["w"] = num.sub(r, g["r0"])
        V["n"] = memo_fresh(nm + "_n", 0, (10 << S.env["k"]) - 1)
        setfield(M, S.env["a"], 0, OvPre(g["arr"], V["w"], self.left(S, g["arr"], V), memo_fresh(nm + "_first", 0, 9), g["y"]))
        return g

    def inv(self, M, V, g):
        S = M.S
        v = M.load(S.env["a"])
        a = v[0]
        r, w, n = V["r"], V["w"], V["n"]
        if not isinstance(a, OvPre):
            return [("digits", False)]
        return [("pointers", zand(eq(w, num.sub(r, g["r0"])), le(0, w), zor(le(r, g["arr"].nd), eq(w, 0)))),
                ("accumulator bound", zand(le(0, n), lt(n, 10 << S.env["k"]))),
                ("written digits", eq(a.w, w)),
                ("value left to write", eq(a.sig, self.left(S, g["arr"], V))),
                ("first digit", zand(zimp(eq(w, 0), le(Fraction(1, 10), a.sig)), zimp(lt(0, w), lt(0, a.first)))),
                ("frame", v[1:] == g["rest"] and a.base is g["arr"])]

    def next(self, M, V, g, V0):
        return g


class RExtra:
    """extra digits of rightShift"""
    order = ("w", "n:uint")

    def objs(self, M, V):
        return [M.S.env["a"].obj]

    def enter(self, M, V):
        v = M.load(M.S.env["a"])
        if not isinstance(v[0], OvPre):
            # the main loop was not met: nothing picked up beyond the digits
            raise Unsupported("main loop")
        return {"gain": False, "tr0": v[4], "rest": v[1:4], "arr": v[0].base, "y": v[0].y}

    def havoc(self, M, V, g):
        S = M.S
        nm = uniq(M, "rx")
        V["n"] = memo_fresh(nm + "_n", 0, (10 << S.env["k"]) - 1)
        V["w"] = memo_fresh(nm + "_w", 0, CAP)
        p = S.env["a"]
        setfield(M, p, 0, OvPre(g["arr"], V["w"], memo_fresh(nm + "_sig", 0, 1, "real"), memo_fresh(nm + "_first", 0, 9), g["y"]))
        gain = boolvar(nm + "_gain")
        setfield(M, p, 4, zor(g["tr0"], gain))
        return dict(g, gain=gain)

    def inv(self, M, V, g):
        S = M.S
        v = M.load(S.env["a"])
        a = v[0]
        w, n = V["w"], V["n"]
        if not isinstance(a, OvPre):
            return [("digits", False)]
        full = eq(w, CAP)
        return [("pointer", zand(le(0, w), le(w, CAP))),
                ("accumulator bound", zand(le(0, n), lt(n, 10 << S.env["k"]))),
                ("written digits", eq(a.w, w)),
                ("value left to write", zimp(lt(w, CAP), zand(eq(a.sig, num.scale(n, Fraction(1, 10 << S.env["k"]))), znot(g["gain"])))),
                ("dropped digits", zimp(full, zand(le(0, a.sig), lt(a.sig, 1), ziff(lt(0, a.sig), zor(lt(0, n), g["gain"]))))),
                ("truncation flag", ziff(v[4], zor(g["tr0"], g["gain"]))),
                ("first digit", zand(zimp(eq(w, 0), le(Fraction(1, 10), a.sig)), zimp(lt(0, w), lt(0, a.first)))),
                ("frame", v[1:4] == g["rest"] and a.base is g["arr"])]

    def next(self, M, V, g, V0):
        dig = num.divmodc(V0["n"], 1 << M.S.env["k"])[0]
        return dict(g, gain=zor(g["gain"], zand(eq(V0["w"], CAP), lt(0, dig))))

    def step(self, M, V, V0):
        """The accumulator n becomes 10 * (n mod 2^k): after j iterations 2^j
        divides it, after k of them n mod 2^k is zero and so is the next n."""
        m = num.divmodc(V0["n"], 1 << M.S.env["k"])[1]
        return [("accumulator", eq(V["n"], num.scale(m, 10)))]


def shift_post(M, args, out, ob, left):
    if not returned(ob, out):
        return
    S = M.S
    p = args[0]
    k = S.env["k"]
    x, v0 = M.load(p), S.env["v0"]
    ob("canonical", canonical(M, x))
    if not isinstance(x[0], DArr):
        return
    d = num.sub(x[2], v0[2])
    if isinstance(d, L):
        ob("decimal point moves by a known number of places", False)
        return
    # exact fraction of the shifted value at the new decimal point
    y = num.scale(v0[0].R(0), Fraction(10) ** -d * (Fraction(2) ** (k if left else -k)))
    W = x[0].R(0)
    ob("is not zero", lt(0, x[1]))
    ob("the first 800 digits of the exact value are kept", zand(le(W, y), lt(y, num.add(W, ULP))))
    ob("the truncation flag says whether digits were dropped", ziff(x[4], zor(v0[4], znot(eq(W, y)))))
    ob("sign unchanged", ziff(x[3], v0[3]))
    frame(M, ob, p)


def case_rightshift(k):
    def setup(M):
        M.contracts = dict(M.contracts)
        M.contracts[P + "trim"] = trim_contract
        M.invs = {P + "rightShift": {(2, frozenset(["n", "w", "r"])): RMain(), (3, frozenset(["n", "w"])): RExtra()}}
        p = newdec(M, "a")
        v0 = M.load(p)
        M.S.assume(lt(0, v0[1]))
        M.S.env.update(a=p, v0=v0, k=k)
        return [p, k]

    def post(M, args, out, ob):
        shift_post(M, args, out, ob, False)
    return P + "rightShift", "by %d" % k, setup, post


# ------------------------------------------------------------------ leftShift

def prefix_contract(M, b, s):
    """prefixIsLessThan: the digits as a fraction are less than 0.s (s: digits, the last not 0)"""
    if not isinstance(s, bytes) or s.strip(b"0123456789") or s.endswith(b"0"):
        raise Unsupported("prefixIsLessThan of %r" % (s,))
    arr = M.load(b.ptr)
    if not isinstance(arr, DArr) or b.off != 0 or not M.S.proves(eq(b.len, arr.nd)):
        raise Unsupported("prefixIsLessThan of part of the digits")
    if not s:
        return False
    return lt(arr.R(0), Fraction(int(s), 10 ** len(s)))


def cutoffs(M):
    sl = M.baseheap[M.globobj[P + "leftcheats"]]
    arr = M.baseheap[sl.ptr.obj]
    for i in sl.ptr.path:
        arr = arr[i]
    return arr


def case_prefix(part, parts):
    def run(M):
        cs = [case_prefix1(s) for d, s in cutoffs(M)]
        return verify.multi(P + "prefixIsLessThan", "cutoffs of the table, part %d" % part, cs[part::parts])(M)
    return run


def case_prefix1(s):
    def setup(M):
        p = newdec(M, "a")
        nd = M.load(p)[1]
        M.S.env.update(a=p)
        return [Slice(Ptr(p.obj, (0,)), 0, nd, CAP), s]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        ob("is the comparison of the fractions", ziff(out[1], prefix_contract(M, *args)))
        frame(M, ob, Ptr(0))
    return P + "prefixIsLessThan", s.decode(), setup, post


def pw(f):
    """10^(f-800)"""
    if not isinstance(f, L):
        return Fraction(1, 10 ** (CAP - f)) if f < CAP else Fraction(10 ** (f - CAP))

    def defs(x, a):
        a.defs.append(a.z > 0)
        a.defs.append(num.zb(zimp(eq(f, CAP), eq(x, 1))))
        for i in range(20):
            a.defs.append(num.zb(zimp(eq(f, i), eq(x, Fraction(1, 10 ** (CAP - i))))))
    return keyed(("pw", num.key(f)), "real", 0, None, defs)


class LMain:
    """main loop of leftShift"""
    order = ("r", "w", "n:uint")

    def objs(self, M, V):
        return [M.S.env["a"].obj]

    @staticmethod
    def tail(S, arr, V):
        return num.sub(num.scale(arr.R(num.add(V["r"], 1)), 1 << S.env["k"]), V["n"])

    def enter(self, M, V):
        S = M.S
        p = S.env["a"]
        v = M.load(p)
        arr = v[0]
        if not isinstance(arr, DArr):
            raise Unsupported("digits overwritten before the main loop")
        delta = num.sub(num.sub(V["w"], V["r"]), 1)
        if isinstance(delta, L):
            raise Unsupported("number of new digits")
        end = V["w"] if S.br(lt(V["w"], CAP)) else CAP
        setfield(M, p, 0, OvSuf(arr, end, 0, 0, 0, end))
        return {"delta": delta, "end": end, "arr": arr, "rest": v[1:4], "tr0": v[4]}

    def havoc(self, M, V, g):
        S = M.S
        p = S.env["a"]
        nm = uniq(M, "ls")
        r = memo_fresh(nm + "_r", -1, CAP - 1)
        S.assume(lt(r, g["arr"].nd))
        V["r"] = r
        w = V["w"] = num.add(r, 1 + g["delta"])
        V["n"] = memo_fresh(nm + "_n", 0, (1 << S.env["k"]) - 1)
        t = self.tail(S, g["arr"], V)
        if S.br(lt(w, CAP)):
            f = w
            tl = 0 if not (isinstance(g["end"], int) and g["end"] == CAP) else memo_fresh(nm + "_tl", 0, 1, "real")
            th = num.sub(t, tl)
        else:
            f, th, tl = CAP, 0, t
        setfield(M, p, 0, OvSuf(g["arr"], f, th, tl, memo_fresh(nm + "_first", 0, 9), g["end"]))
        setfield(M, p, 4, zor(g["tr0"], lt(0, tl)))
        return g

    def inv(self, M, V, g):
        S = M.S
        v = M.load(S.env["a"])
        a = v[0]
        r, w, n = V["r"], V["w"], V["n"]
        if not isinstance(a, OvSuf):
            return [("digits", False)]
        t = self.tail(S, g["arr"], V)
        s = num.add(a.th, a.tl)
        kept = isinstance(g["end"], int) and g["end"] == CAP
        return [("pointers", zand(eq(w, num.add(r, 1 + g["delta"])), le(-1, r), lt(r, g["arr"].nd))),
                ("carry", zand(le(0, n), lt(n, 1 << S.env["k"]), le(0, t), lt(t, 1))),
                ("written digits", zand(zimp(lt(w, CAP), eq(a.f, w)), zimp(le(CAP, w), eq(a.f, CAP)))),
                ("value written and dropped", zand(eq(s, t), le(0, a.th), le(0, a.tl), zimp(le(CAP, w), eq(a.th, 0)))),
                ("dropped digits", lt(a.tl, pw(a.f)) if kept else eq(a.tl, 0)),
                ("truncation flag", ziff(v[4], zor(g["tr0"], lt(0, a.tl)))),
                ("first digit", zimp(lt(a.f, g["end"]), zand(le(a.first, num.scale(s, 10)), lt(num.scale(s, 10), num.add(a.first, 1))))),
                ("frame", v[1:4] == g["rest"] and a.base is g["arr"])]

    def next(self, M, V, g, V0):
        S = M.S
        p = S.env["a"]
        a = M.load(p)[0]
        if isinstance(a, OvSuf) and S.br(le(CAP, V["w"])):
            # the digit was dropped
            setfield(M, p, 0, OvSuf(a.base, a.f, 0, self.tail(S, g["arr"], V), a.first, a.end))
        elif isinstance(a, OvSuf) and isinstance(a.f, L):
            S.assume(eq(num.scale(pw(a.f), 10), pw(num.add(a.f, 1))))
        return g


def case_leftshift(k):
    def setup(M):
        num.NEST = True
        M.contracts = dict(M.contracts)
        M.contracts[P + "trim"] = trim_contract
        M.contracts[P + "prefixIsLessThan"] = prefix_contract
        M.invs = {P + "leftShift": {(0, frozenset(["n", "w", "r"])): LMain()}}
        p = newdec(M, "a")
        v0 = M.load(p)
        M.S.assume(lt(0, v0[1]))
        M.S.env.update(a=p, v0=v0, k=k)
        return [p, k]

    def post(M, args, out, ob):
        shift_post(M, args, out, ob, True)
    return P + "leftShift", "by %d" % k, setup, post


# ------------------------------------------------------------------ Shift

def shift_contract(left):
    def h(M, p, k):
        """value * 2^k (or 2^-k), exact unless digits are dropped; the number
        of places shifted is kept as a ghost of the decimal"""
        S = M.S
        v = M.load(p)
        prove(M, [("shift count between 0 and 60", zand(le(0, k), le(k, 60))),
                  ("operand is not zero", lt(0, v[1])),
                  ("operand is canonical", canonical(M, v))])
        nm = uniq(M, "sh")
        nd = memo_fresh(nm + "_nd", 1, CAP)
        dr = boolvar(nm + "_dropped")
        setfield(M, p, 0, DArr(nm, nd))
        setfield(M, p, 1, nd)
        setfield(M, p, 2, memo_fresh(nm + "_dp", None, None))
        setfield(M, p, 4, zor(v[4], dr))
        S.env["shifted"] = num.add(S.env.get("shifted", 0), k if left else num.scale(k, -1))
        S.env["dropped"] = zor(S.env.get("dropped", False), dr)
    return h


class ShiftInv:
    """k counts the places still to shift, up or down to zero."""
    order = ("k",)

    def objs(self, M, V):
        return [M.S.env["a"].obj]

    def shape(self, M, V):
        """(sign of k in the places still to shift, is k positive)"""
        S = M.S
        k = V["k"]
        for pos in (True, False):
            if S.proves(le(0, k) if pos else le(k, 0)):
                for sg in (1, -1):
                    if S.proves(eq(num.add(S.env["shifted"], num.scale(k, sg)), S.env["k"])):
                        return sg, pos
        return None

    def applies(self, M, V):
        return isinstance(V["k"], (int, num.L)) and self.shape(M, V) is not None

    def enter(self, M, V):
        v = M.load(M.S.env["a"])
        sg, pos = self.shape(M, V) or (1, True)
        return {"neg": v[3], "tr0": v[4], "drop": M.S.env["dropped"], "sg": sg, "pos": pos}

    def havoc(self, M, V, g):
        S = M.S
        p = S.env["a"]
        nm = uniq(M, "shift")
        nd = memo_fresh(nm + "_nd", 1, CAP)
        setfield(M, p, 0, DArr(nm, nd))
        setfield(M, p, 1, nd)
        setfield(M, p, 2, memo_fresh(nm + "_dp", None, None))
        S.env["dropped"] = boolvar(nm + "_dropped")
        setfield(M, p, 4, zor(g["tr0"], S.env["dropped"]))
        k = memo_fresh(nm + "_k", -(1 << 63), (1 << 63) - 1)
        V["k"] = k
        S.env["shifted"] = num.sub(S.env["k"], num.scale(k, g["sg"]))
        return g

    def inv(self, M, V, g):
        S = M.S
        v = M.load(S.env["a"])
        k = V["k"]
        return [("shifted so far", eq(num.add(S.env["shifted"], num.scale(k, g["sg"])), S.env["k"])),
                ("direction", le(0, k) if g["pos"] else le(k, 0)),
                ("operand", zand(canonical(M, v), lt(0, v[1]))),
                ("truncation flag", ziff(v[4], zor(g["tr0"], S.env["dropped"]))),
                ("frame", v[3] is g["neg"])]

    def next(self, M, V, g, V0):
        return g


def case_shift():
    def setup(M):
        M.contracts = dict(M.contracts)
        M.contracts[P + "leftShift"] = shift_contract(True)
        M.contracts[P + "rightShift"] = shift_contract(False)
        M.invs = {DEC + "Shift": {(0, frozenset(["k"])): ShiftInv(), (1, frozenset(["k"])): ShiftInv()}}
        p = newdec(M, "a")
        k = memo_fresh("k", -(1 << 63) + 1, (1 << 63) - 1)
        M.S.env.update(a=p, v0=M.load(p), k=k, shifted=0, dropped=False)
        return [p, k]

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        S = M.S
        p, k = args
        v, v0 = M.load(p), S.env["v0"]
        ob("canonical", canonical(M, v))
        if S.br(eq(v0[1], 0)):
            ob("zero stays zero", v is v0 or v == v0)
            return
        ob("shifted by exactly the count asked for", eq(S.env["shifted"], k))
        ob("is not zero", lt(0, v[1]))
        ob("the truncation flag says whether digits were dropped", ziff(v[4], zor(v0[4], S.env["dropped"])))
        ob("sign unchanged", ziff(v[3], v0[3]))
        frame(M, ob, p)
    return DEC + "Shift", "", setup, post


# ------------------------------------------------------------------ rounding

def up_condition(v, n):
    """round to nearest, ties to even, decides to round up at digit n (0 <= n < nd)"""
    arr = v[0]
    half = Fraction(1, 2)
    t = arr.R(n)
    odd = False
    if isinstance(n, L) or n > 0:
        d = arr.digit(num.sub(n, 1))
        odd = zand(lt(0, n), eq(num.divmodc(d, 2)[1], 1))
    return zor(lt(half, t), zand(eq(t, half), zor(v[4], odd)))


def inrange(v, n):
    return zand(le(0, n), lt(n, v[1]))


def should_contract(M, p, n):
    v = M.load(p)
    if not canonical(M, v):
        raise Unsupported("shouldRoundUp of digits that are not canonical")
    if not M.S.br(inrange(v, n)):
        return False
    return up_condition(v, n)


def digitcount():
    return memo_fresh("n", -(1 << 62), 1 << 62)


def round_setup(M):
    p = newdec(M, "a")
    M.S.env.update(a=p, v0=M.load(p))
    return [p, digitcount()]


def case_should():
    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        ob("rounds up exactly above one half, or at one half to even", ziff(out[1], should_contract(M, *args)))
        frame(M, ob, Ptr(0))
    return P + "shouldRoundUp", "", round_setup, post


def down_contract(M, p, n):
    v = M.load(p)
    if not canonical(M, v):
        raise Unsupported("RoundDown of digits that are not canonical")
    if not M.S.br(inrange(v, n)):
        return
    setfield(M, p, 1, n)
    trim_contract(M, p)
    M.S.env["rounded"] = M.S.env.get("rounded", ()) + (("down", v, n),)


def up_value(arr, n, i):
    """U(i): the fraction after i digits of the first n digits plus one unit in place n"""
    def defs(x, a):
        a.defs.append(num.zb(zimp(eq(i, n), eq(x, 1))))
        a.defs.append(a.z == z3.Function("U_" + arr.name, I, I, R_)(num.z(n), num.z(i)))
    return keyed(("U", arr.name, num.key(n), num.key(i)), "real", 0, 1, defs)


def up_contract(M, p, n):
    v = M.load(p)
    if not canonical(M, v):
        raise Unsupported("RoundUp of digits that are not canonical")
    if not M.S.br(inrange(v, n)):
        return
    nm = uniq(M, "up")
    U = up_value(v[0], n, 0)
    M.S.env["rounded"] = M.S.env.get("rounded", ()) + (("up", v, n),)
    if M.S.br(eq(U, 1)):
        a2 = DArr(nm, 1)
        M.S.assume(eq(a2.R(0), Fraction(1, 10)))
        setfield(M, p, 0, a2)
        setfield(M, p, 1, 1)
        setfield(M, p, 2, num.add(v[2], 1))
        return
    n2 = memo_fresh(nm + "_nd", 1, CAP)
    M.S.assume(le(n2, n))
    a2 = DArr(nm, n2)
    M.S.assume(eq(a2.R(0), U))
    setfield(M, p, 0, a2)
    setfield(M, p, 1, n2)
    consistent(M)


def case_rounddown():
    def setup(M):
        M.contracts = dict(M.contracts)
        M.contracts[P + "trim"] = trim_contract
        return round_setup(M)

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        p, n = args
        v, v0 = M.load(p), M.S.env["v0"]
        ob("canonical", canonical(M, v))
        ob("sign and truncation flag unchanged", zand(ziff(v[3], v0[3]), ziff(v[4], v0[4])))
        frame(M, ob, p)
        if not M.S.br(inrange(v0, n)):
            ob("nothing to round: unchanged", v == v0)
            return
        W = prefix(v0[0], n)
        ob("value is that of the first n digits", eq(v[0].R(0), W))
        if M.S.br(eq(W, 0)):
            ob("zero has decimal point 0", eq(v[2], 0))
        else:
            ob("same decimal point", eq(v[2], v0[2]))
        ob("at most n digits", le(v[1], n))
    return DEC + "RoundDown", "", setup, post


class NinesInv:
    """Walks down from place n while the digits are nines: at most p digits are
    left over, and those behind are nines.  p is the variable i, or one more
    than it, or the digit count of the decimal."""
    order = ("i",)

    def __init__(self, obj, arr):
        # name of the decimal, and how its digits are found
        self.obj, self.arr = obj, arr

    def objs(self, M, V):
        return [M.S.env[self.obj].obj]

    def digits(self, M):
        """the digits at the start, and the number of places"""
        return self.arr(M)

    def rep(self, M, V):
        """offset of p from i (None: the digit count is p)"""
        S = M.S
        arr, n = self.digits(M)
        if "i" in V.named:
            for off in (1, 0):
                if S.proves(eq(num.add(V["i"], off), n)):
                    return off
            return None
        return "nd" if 1 in V.fields else None

    def applies(self, M, V):
        v = M.load(M.S.env[self.obj])
        return self.rep(M, V) is not None and (1 not in V.fields or M.S.proves(eq(v[1], self.digits(M)[1])))

    def p(self, M, V, g):
        if g["off"] == "nd":
            return M.load(M.S.env[self.obj])[1]
        return num.add(V["i"], g["off"])

    def enter(self, M, V):
        return {"off": self.rep(M, V), "fld": 1 in V.fields, "v0": M.load(M.S.env[self.obj])}

    def havoc(self, M, V, g):
        S = M.S
        arr, n = self.digits(M)
        p = memo_fresh(uniq(M, "nines"), 0, CAP)
        S.assume(le(p, n))
        if g["fld"]:
            setfield(M, S.env[self.obj], 1, p)
        if g["off"] != "nd":
            V["i"] = num.sub(p, g["off"])
        if S.br(lt(0, p)):
            last = num.sub(p, 1)
            d = arr.digit(last) if hasattr(arr, "digit") else arr.gsel(M, last)
            S.assume(eq(num.scale(up_value(arr, n, last), 10), num.add(num.sub(d, 48), up_value(arr, n, p))))
        return g

    def inv(self, M, V, g):
        S = M.S
        arr, n = self.digits(M)
        v, v0 = M.load(S.env[self.obj]), g["v0"]
        p = self.p(M, V, g)
        same = v[0] is v0[0] and v[2:] == v0[2:] and (g["fld"] or v[1] is v0[1] or v[1] == v0[1])
        if hasattr(v[0], "ptr"):
            same = same and M.load(v[0].ptr) is arr
        return [("position", zand(le(0, p), le(p, n))),
                ("all digits behind are nines", eq(up_value(arr, n, p), 1)),
                ("digit count", eq(v[1], p) if g["fld"] else True),
                ("frame", same)]

    def next(self, M, V, g, V0):
        return g


def case_roundup():
    def setup(M):
        inv = NinesInv("a", lambda M: (M.S.env["v0"][0], M.S.args[1]))
        M.invs = {DEC + "RoundUp": {(0, frozenset(["i"])): inv, (1, frozenset()): inv}}
        a = round_setup(M)
        M.S.args = a
        return a

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        p, n = args
        v, v0 = M.load(p), M.S.env["v0"]
        ob("sign and truncation flag unchanged", zand(ziff(v[3], v0[3]), ziff(v[4], v0[4])))
        frame(M, ob, p)
        if not M.S.br(inrange(v0, n)):
            ob("nothing to round: unchanged", v == v0)
            return
        a, arr = v[0], v0[0]
        ok = isinstance(a, DUpd) and a.base is arr
        ob("one digit is incremented", ok)
        if not ok:
            return
        d = num.sub(v[2], v0[2])
        ob("the digit incremented is the last", eq(v[1], num.add(a.i, 1)))
        ob("canonical: the last digit is not zero", zand(lt(48, a.x), le(a.x, 57), le(0, a.i)))
        ob("canonical: the first digit is not zero", zimp(eq(a.i, 0), lt(48, a.x)))
        ob("at most n digits, or a power of ten", zor(le(v[1], n), eq(d, 1)))
        if M.S.br(eq(d, 0)):
            ob("value is the first n digits plus one in the last place",
               zand(lt(a.i, n), eq(up_value(arr, n, a.i), num.scale(num.sub(a.x, 48), Fraction(1, 10)))))
        else:
            ob("value is the first n digits plus one in the last place",
               zand(eq(d, 1), eq(a.i, 0), eq(a.x, 49), eq(up_value(arr, n, 0), 1)))
    return DEC + "RoundUp", "", setup, post


def case_round():
    def setup(M):
        M.contracts = dict(M.contracts)
        M.contracts[P + "shouldRoundUp"] = should_contract
        M.contracts[DEC + "RoundUp"] = up_contract
        M.contracts[DEC + "RoundDown"] = down_contract
        M.contracts[P + "trim"] = trim_contract
        return round_setup(M)

    def post(M, args, out, ob):
        if not returned(ob, out):
            return
        p, n = args
        v, v0 = M.load(p), M.S.env["v0"]
        ob("canonical", canonical(M, v))
        ob("sign and truncation flag unchanged", zand(ziff(v[3], v0[3]), ziff(v[4], v0[4])))
        frame(M, ob, p)
        if not M.S.br(inrange(v0, n)):
            ob("nothing to round: unchanged", v == v0)
            return
        arr = v0[0]
        W = v[0].R(0)
        d = num.sub(v[2], v0[2])
        if M.S.br(up_condition(v0, n)):
            U = up_value(arr, n, 0)
            ob("rounds up above one half or at an odd half", zor(zand(eq(d, 0), eq(W, U)), zand(eq(d, 1), eq(U, 1), eq(W, Fraction(1, 10)))))
        else:
            T = prefix(arr, n)
            ob("rounds down below one half or at an even half", zand(eq(W, T), zor(eq(d, 0), zand(eq(W, 0), eq(v[2], 0)))))
    return DEC + "Round", "", setup, post
