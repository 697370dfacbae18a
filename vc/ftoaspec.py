"""Which digits genericFtoa hands to the layout (C22, C23): contracts of the
digit generators that say what number their digits stand for, and the
obligation that the digits laid out are those of the value, rounded as the verb
and the precision ask."""
import z3
import num
from num import L, zand, zor, znot, zimp, lo, hi
from core import Unsupported
from exec import Ptr, Arr
from fmtspec import memo_fresh
from decspec import P, DEC, eq, le, lt, CAP, setfield, boolvar, uniq
from fixedspec import EXT
from loops import prove, consistent
import layout as ly

# Every decimal met has at most 768 digits: m*2^k with m < 2^54 and
# -1075 <= k <= 971 has at most as many as 2^54*5^1075, or as 2^54*2^971.
DIGITS = 768
assert (1 << 54) * 5 ** 1075 < 10 ** DIGITS and (1 << 54) << 971 < 10 ** DIGITS and DIGITS < CAP
# and a decimal point between -324 and 310
assert 10 ** 310 > (1 << 54) << 971 and 10 ** 324 > 1 << 1075
DPMIN, DPMAX = -324, 310


class Dig:
    """What is known of digits: the value they were made from (mant*2^exp), and
    the place they were rounded at (None: exact)."""

    def __init__(self, how, val, n=None, dp=None):
        self.how, self.val, self.n, self.dp = how, val, n, dp

    def __repr__(self):
        return "%s(%r, %r)" % (self.how, self.val, self.n)


def ghosts(M):
    return M.S.env.setdefault("ghosts", {})


def note(M, g, arr, nd, dp):
    """Ghosts of digits; environments are shared between paths, so copy."""
    d = dict(M.S.env.get("ghosts", {}))
    d[id(arr)] = (arr, g, nd, dp)
    M.S.env["ghosts"] = d


def known(M, arr, nd, dp):
    e = M.S.env.get("ghosts", {}).get(id(arr))
    if e is None or e[0] is not arr or not (same(M, e[2], nd) and same(M, e[3], dp)):
        return None
    return e[1]


def same(M, a, b):
    return a is b or M.S.proves(eq(a, b))


def putdigits(M, p, g, n, ndmin=0, ndmax=CAP, dp=None):
    """Fresh digits for the decimal (or decimalSlice) at p."""
    S = M.S
    arr, nd, dp0 = ly.newdigits(M, n)
    S.assume(zand(le(ndmin, nd), le(nd, ndmax)))
    if dp is None:
        dp = dp0
        S.assume(zand(le(DPMIN, dp), le(dp, DPMAX)))
    d = M.load(p)
    if isinstance(d[0], (tuple, Arr)):
        setfield(M, p, 0, arr)
    else:
        M.store(d[0].ptr, arr)
    setfield(M, p, 1, nd)
    setfield(M, p, 2, dp)
    S.env["digits"] = (arr, nd, dp)
    note(M, g, arr, nd, dp)
    return arr, nd, dp


def decghost(M, p):
    v = M.load(p)
    return known(M, v[0], v[1], v[2])


def assign(M, p, v):
    S = M.S
    setfield(M, p, 4, False)
    if S.br(eq(v, 0)):
        putdigits(M, p, Dig("exact", (0, 0)), CAP, 0, 0, dp=0)
    else:
        putdigits(M, p, Dig("exact", (v, 0)), CAP, 1, 20)


def shift(M, p, k):
    S = M.S
    g = decghost(M, p)
    if g is None or g.how != "exact":
        raise Unsupported("Shift of digits whose value is not known")
    v = M.load(p)
    m, e = g.val
    if S.br(eq(m, 0)):
        return
    k2 = num.add(e, k)
    prove(M, [("Shift: at most 768 digits", zand(lt(m, 1 << 54), le(-1075, k2), le(k2, 971)))])
    putdigits(M, p, Dig("exact", (m, k2)), CAP, 1, DIGITS)


def round_(M, p, n):
    S = M.S
    g = decghost(M, p)
    v = M.load(p)
    if g is None:
        putdigits(M, p, None, CAP)
        return
    if not S.br(zand(le(0, n), lt(n, v[1]))):
        return
    how = Dig("rounded", g.val, n, v[2]) if g.how == "exact" else None
    # at most n digits, or none, or a power of ten
    if S.br(boolvar(uniq(M, "carry"))):
        putdigits(M, p, how, CAP, 1, 1, dp=num.add(v[2], 1))
    elif S.br(boolvar(uniq(M, "zero"))):
        putdigits(M, p, how, CAP, 0, 0, dp=0)
    else:
        putdigits(M, p, how, CAP, 1, DIGITS, dp=v[2])
        S.assume(le(M.load(p)[1], n))


def spoil(M, p, *rest):
    putdigits(M, p, None, CAP)


def fixed(M, f, d, n):
    S = M.S
    m, e, neg = M.load(f)
    sl = M.load(d)[0]
    if sl.ptr is None or sl.off != 0:
        raise Unsupported("digit buffer")
    prove(M, [("FixedDecimal: the buffer holds 24 digits", le(24, sl.len)),
              ("FixedDecimal: one to fifteen digits", zand(le(1, n), le(n, 15))),
              ("FixedDecimal: mantissa and exponent in range", zand(le(0, m), lt(m, 1 << 53), le(-1074, e), le(e, 971)))])
    size = S.concretize(sl.len)
    if S.br(eq(m, 0)):
        putdigits(M, d, Dig("exact", (0, 0)), size, 0, 0, dp=0)
        return True
    if S.br(boolvar(uniq(M, "fixedok"))):
        putdigits(M, d, Dig("rounded", (m, e), n), size, 1, 15)
        S.assume(le(M.load(d)[1], n))
        setfield(M, f, 0, memo_fresh(uniq(M, "junk"), 0, (1 << 64) - 1))
        setfield(M, f, 1, memo_fresh(uniq(M, "junke"), -5000, 5000))
        return True
    setfield(M, f, 0, memo_fresh(uniq(M, "junk"), 0, (1 << 64) - 1))
    setfield(M, f, 1, memo_fresh(uniq(M, "junke"), -5000, 5000))
    putdigits(M, d, None, size)
    return False


def installfixed(M):
    M.contracts.update({EXT + "FixedDecimal": fixed, DEC + "Assign": assign, DEC + "Shift": shift, DEC + "Round": round_,
                        DEC + "RoundUp": spoil, DEC + "RoundDown": spoil})


def samevalue(g, kind, mag):
    """the value the digits were made from is the value formatted"""
    if kind == "zero":
        return eq(g.val[0], 0)
    m, e = g.val
    if isinstance(e, int) and isinstance(m, int) and m == 0:
        return False
    return zand(eq(m, mag.t), eq(e, mag.sh))


def postfixed(M, ob, dig, kind, mag, v, prec):
    """The digits laid out are the value rounded to the digits asked for."""
    S = M.S
    arr, nd, dp = dig
    g = known(M, arr, nd, dp)
    ob("the digits laid out are those of the value or its rounding", g is not None)
    if g is None:
        return
    ob("the digits are made from the value formatted", samevalue(g, kind, mag), "%r %r" % (g, mag))
    if kind == "zero":
        return
    if v in (101, 69):
        n = num.add(prec, 1)
    elif v in (103, 71):
        n = prec if S.br(lt(0, prec)) else 1
    else:
        # %f: places behind the point, counted from the decimal point of the value
        n = None
    if n is not None:
        ob("all digits asked for and no more", zand(eq(g.n, n), le(nd, n)) if g.how == "rounded" else le(nd, n))
        return
    if g.how == "exact":
        n = num.add(dp, prec)
        # below 10^(-prec-1) the value rounds to zero, and only zeros are printed
        ob("all digits asked for and no more", zor(le(nd, n), lt(n, 0)))
        return
    ob("all digits asked for and no more", g.dp is not None and zand(eq(g.n, num.add(g.dp, prec)), le(nd, num.add(dp, prec))))


# ------------------------------------------------------------------ shortest (C22)

def floatsize(M, mant, exp, flt):
    """size of the format described by flt; mant and exp are those of a finite
    number of it"""
    import shortspec as sp
    for size in sp.FORMATS:
        if isinstance(flt, Ptr) and flt.path == () and flt.obj == M.globobj.get(P + "float%dinfo" % size):
            break
    else:
        raise Unsupported("format of the float")
    mb, eb, bias = sp.FORMATS[size]
    prove(M, [("mantissa and exponent of a float of the format",
               zor(zand(le(0, mant), lt(mant, 1 << mb), eq(exp, 1 + bias)),
                   zand(le(1 << mb, mant), lt(mant, 2 << mb), le(1 + bias, exp), le(exp, (1 << eb) - 2 + bias))))])
    return size, (mant, num.sub(exp, mb))


def shortbounds(M, f, mant, exp, neg, flt):
    size, val = floatsize(M, mant, exp, flt)
    three = tuple((memo_fresh(uniq(M, "ext"), 0, (1 << 64) - 1), memo_fresh(uniq(M, "exx"), -5000, 5000), boolvar(uniq(M, "exn"))) for i in range(3))
    M.store(f, three[0])
    M.S.env["three"] = (three, size, val)
    return three[1], three[2]


def shortest(M, f, d, lower, upper):
    S = M.S
    t = S.env.get("three")
    if t is None:
        raise Unsupported("ShortestDecimal without bounds")
    three, size, val = t
    sl = M.load(d)[0]
    if sl.ptr is None or sl.off != 0:
        raise Unsupported("digit buffer")
    prove(M, [("ShortestDecimal: the float and its bounds", [M.load(p) for p in (f, lower, upper)] == list(three) and len({f.obj, lower.obj, upper.obj}) == 3),
              ("ShortestDecimal: the buffer holds 32 digits", le(32, sl.len))])
    n = S.concretize(sl.len)
    for p in (f, lower, upper):
        M.store(p, (memo_fresh(uniq(M, "junk"), 0, (1 << 64) - 1), memo_fresh(uniq(M, "junke"), -5000, 5000), boolvar(uniq(M, "junkn"))))
    if S.br(eq(val[0], 0)):
        putdigits(M, d, Dig("shortest", val, size), n, 0, 0, dp=0)
        return True
    if S.br(boolvar(uniq(M, "shortok"))):
        putdigits(M, d, Dig("shortest", val, size), n, 1, 32)
        return True
    putdigits(M, d, None, n)
    return False


def shortround(M, p, mant, exp, flt):
    S = M.S
    size, val = floatsize(M, mant, exp, flt)
    g = decghost(M, p)
    ok = g is not None and g.how == "exact"
    prove(M, [("roundShortest: the digits are exact", ok)])
    if not ok:
        raise Unsupported("roundShortest of digits whose value is not known")
    if S.br(eq(mant, 0)):
        prove(M, [("roundShortest: the digits are those of the float", eq(g.val[0], 0))])
        putdigits(M, p, Dig("shortest", val, size), CAP, 0, 0, dp=M.load(p)[2])
        return
    prove(M, [("roundShortest: the digits are those of the float", zand(eq(g.val[0], mant), eq(g.val[1], val[1])))])
    putdigits(M, p, Dig("shortest", val, size), CAP, 1, DIGITS)


def installshort(M):
    M.contracts.update({EXT + "AssignComputeBounds": shortbounds, EXT + "ShortestDecimal": shortest, P + "roundShortest": shortround,
                        DEC + "Assign": assign, DEC + "Shift": shift, DEC + "Round": spoil, DEC + "RoundUp": spoil, DEC + "RoundDown": spoil})


def postshort(M, ob, dig, kind, mag, v, prec):
    g = known(M, *dig)
    ok = g is not None and g.how == "shortest"
    ob("the digits laid out are the shortest ones", ok)
    if not ok:
        return
    ob("the digits are made from the value formatted", samevalue(g, kind, mag), "%r %r" % (g, mag))
    ob("shortest for the format asked for", g.n == M.S.args[-1])
    if kind == "zero":
        ob("zero has no digits", eq(dig[1], 0))


INSTALL = {"fixed": installfixed, "shortest": installshort}
POST = {"fixed": postfixed, "shortest": postshort}
