"""Symbolic strings: formatting and parsing of the texts /repo builds."""
from fractions import Fraction
import num
from num import L, zand, lo, hi, pow2
from core import GoPanic, Unsupported
from exec import Ptr, Slice, Iface, Opaque, Str, mkstr, pieces, Arr
from floats import F, ilog


def sprintf(M, f, args):
    """%s %d %b %x with optional zero-padded width and %q, %v for strings/ints."""
    if not isinstance(f, bytes):
        raise Unsupported("symbolic format string")
    out = []
    i = 0
    ai = 0
    while i < len(f):
        c = f[i:i + 1]
        if c != b"%":
            out.append(c)
            i += 1
            continue
        i += 1
        if f[i:i + 1] == b"%":
            out.append(b"%")
            i += 1
            continue
        zero = False
        if f[i:i + 1] == b"0":
            zero = True
            i += 1
        w = 0
        while f[i:i + 1].isdigit():
            w = w * 10 + f[i] - 48
            i += 1
        if f[i:i + 1] == b"*":
            raise Unsupported("width from argument")
        verb = f[i:i + 1]
        i += 1
        if ai >= len(args):
            raise Unsupported("missing format argument")
        a = args[ai].v
        t = args[ai].t
        ai += 1
        isstr = isinstance(a, (bytes, Str))
        if verb in (b"s", b"v") and isstr:
            if w:
                raise Unsupported("padded string")
            out += list(pieces(a))
        elif verb in (b"d", b"v") and isinstance(a, (int, L)) and not isinstance(a, bool):
            if isinstance(a, int):
                s = b"%d" % abs(a)
                neg = b"-" if a < 0 else b""
                pad = max(0, w - len(s) - len(neg))
                out.append(neg + b"0" * pad + s if zero else b" " * pad + neg + s)
            elif w == 0:
                out.append(("dec", a))
            else:
                raise Unsupported("padded symbolic number")
        elif verb in (b"b", b"o", b"x", b"X") and isinstance(a, (int, L)) and not isinstance(a, bool):
            bits = {b"b": 1, b"o": 3}.get(verb, 4)
            if isinstance(a, int):
                s = {1: "%s" % bin(abs(a))[2:], 3: "%o" % abs(a), 4: "%x" % abs(a)}[bits].encode()
                s = s.upper() if verb == b"X" else s
                neg = b"-" if a < 0 else b""
                pad = max(0, w - len(s) - len(neg))
                out.append(neg + b"0" * pad + s if zero else b" " * pad + neg + s)
            elif zero and w and (lo(a) is not None and lo(a) >= 0 or M.S.br(num.cmp(0, "<=", a))):
                # more digits than the width: one case per length
                n = w
                while not M.S.br(num.cmp(a, "<", 1 << n * bits)):
                    n += 1
                out.append(("bin", a, n, bits))
            elif w == 0 and M.S.br(num.cmp(0, "<=", a)):
                if M.S.br(num.cmp(a, "==", 0)):
                    out.append(b"0")
                else:
                    n = 1
                    while not M.S.br(num.cmp(a, "<", 1 << n * bits)):
                        n += 1
                    out.append(("bin", a, n, bits))
            else:
                raise Unsupported("%" + verb.decode() + " of this value")
        elif verb == b"q":
            out.append(("opq", Opaque("quoted"), 0))
        elif verb == b"c" and isinstance(a, int) and a < 128:
            out.append(bytes([a]))
        else:
            raise Unsupported("format verb %" + verb.decode())
    if ai != len(args):
        raise Unsupported("extra format arguments")
    return mkstr(out)


class Toks:
    """Character-wise reader over string pieces."""

    def __init__(self, s):
        self.ps = list(pieces(s))
        self.i = 0
        self.off = 0

    def peek(self):
        while self.i < len(self.ps):
            p = self.ps[self.i]
            if isinstance(p, bytes):
                if self.off < len(p):
                    return p[self.off:self.off + 1]
                self.i += 1
                self.off = 0
                continue
            return p
        return None

    def next(self):
        p = self.peek()
        if isinstance(p, bytes):
            self.off += 1
        elif p is not None:
            self.i += 1
            self.off = 0
        return p


PREFIX = {b"b": 2, b"B": 2, b"o": 8, b"O": 8, b"x": 16, b"X": 16}


def parse_number(M, s, base):
    """big.Float.Parse for "[+-][prefix]<digits>[.<digits>][p<exp>]" in base 2,
    8, 10 or 16 (a fraction in base 10 is not handled):
    (neg, integer, binary exponent), or None for a syntax error."""
    if isinstance(base, L) or base not in (0, 2, 10, 16):
        raise Unsupported("Parse with base %s" % base)
    t = Toks(s)
    neg = False
    c = t.peek()
    if c in (b"+", b"-"):
        neg = c == b"-"
        t.next()
    v, frac, nd, dot = 0, 0, 0, False
    if base == 0:
        base = 10
        if t.peek() == b"0":
            t.next()
            c = t.peek()
            if c in PREFIX:
                base = PREFIX[c]
                t.next()
            elif isinstance(c, tuple) or c is None or c == b"_":
                raise Unsupported("Parse of a number without a base prefix")
            else:
                nd = 1
    bits = {2: 1, 8: 3, 16: 4}.get(base)
    digits = b"0123456789abcdef"[:base]
    while True:
        c = t.peek()
        if isinstance(c, bytes) and c.lower() in [digits[i:i + 1] for i in range(base)]:
            v = num.add(num.scale(v, base), digits.index(c.lower()))
            frac += dot
            nd += 1
        elif c == b".":
            if dot:
                return None
            if bits is None:
                raise Unsupported("Parse of a decimal fraction")
            dot = True
        elif isinstance(c, tuple) and c[0] == "bin" and bits is not None and bits % c[3] == 0 and (c[3] == bits or c[2] == 1):
            # digits of the same base (or a single digit of a smaller one)
            if not M.S.br(num.cmp(c[1], "<", 1 << c[2] * c[3])):
                raise Unsupported("digits exceed their width")
            v = num.add(num.scale(v, 1 << c[2] * bits), c[1])
            frac += c[2] if dot else 0
            nd += c[2]
        elif isinstance(c, tuple) and c[0] == "dec":
            if base != 10 and M.S.br(zand(num.cmp(0, "<=", c[1]), num.cmp(c[1], "<=", min(base - 1, 9)))):
                v = num.add(num.scale(v, base), c[1])
                frac += dot
                nd += 1
            elif base == 10 and nd == 0 and M.S.br(num.cmp(0, "<=", c[1])):
                v = c[1]
                nd = -1
            else:
                raise Unsupported("decimal digits in a number of base %d" % base)
            t.next()
            if nd < 0 and isinstance(t.peek(), (bytes, tuple)) and not (t.peek() in (b"p", b"P")):
                raise Unsupported("text after a decimal number")
            continue
        elif c == b"_":
            raise Unsupported("underscore in a number")
        else:
            break
        t.next()
    frac *= bits or 0
    if isinstance(t.peek(), bytes) and t.peek() in (b"e", b"E"):
        raise Unsupported("decimal exponent")
    if nd == 0:
        return None
    e = 0
    if t.peek() in (b"p", b"P"):
        t.next()
        sg = 1
        if t.peek() in (b"+", b"-"):
            sg = -1 if t.next() == b"-" else 1
        c = t.peek()
        if isinstance(c, tuple) and c[0] == "dec":
            if sg == -1 or not M.S.br(zand(num.cmp(-(1 << 62), "<=", c[1]), num.cmp(c[1], "<=", 1 << 62))):
                raise Unsupported("symbolic exponent after a sign")
            e = c[1]
            t.next()
        else:
            ds = b""
            while isinstance(t.peek(), bytes) and t.peek().isdigit():
                ds += t.next()
            if not ds:
                return None
            e = sg * int(ds)
    if t.peek() is not None:
        if isinstance(t.peek(), bytes):
            return None
        raise Unsupported("Parse of a partly symbolic text")
    return neg, v, num.sub(e, frac)


def index(M, s, sub):
    """strings.Index for a constant sub of length 1"""
    if isinstance(s, bytes) and isinstance(sub, bytes):
        return s.find(sub)
    if not isinstance(sub, bytes) or len(sub) != 1:
        raise Unsupported("strings.Index")
    pos = 0
    for p in s.ps:
        if isinstance(p, bytes):
            k = p.find(sub)
            if k >= 0:
                return num.add(pos, k)
        elif p[0] == "c":
            if M.S.br(num.cmp(p[1], "==", sub[0])):
                return pos
        elif p[0] in ("bin", "dec"):
            if sub in (b"0", b"1", b"-") or sub.isdigit():
                raise Unsupported("strings.Index of a digit")
        elif p[0] == "opq":
            if sub[0] not in (p[1].key or {}).get("free", ()):
                raise Unsupported("strings.Index in an opaque text")
        pos = num.add(pos, M.plen(p))
    return -1


def append(M, args, ins):
    dst, src = args
    S = M.S
    if M.seqmode and M.p.basic(M.p.und(ins["t"])["e"]) in ("uint8", "byte"):
        import seqs
        if isinstance(src, bytes) and not src or isinstance(src, Slice) and src.ptr is None:
            return dst
        return seqs.append(M, dst, src)
    if isinstance(src, (bytes, Str)):
        chars = M.strchars(src)
    else:
        if src.ptr is None:
            chars = []
        else:
            n = S.concretize(src.len)
            arr = M.load(src.ptr)
            chars = [M.sel(arr, num.add(src.off, i)) for i in range(n)]
    if not chars:
        return dst
    n = len(chars)
    if dst.ptr is not None and S.br(num.cmp(num.add(dst.len, n), "<=", dst.cap)):
        for i, c in enumerate(chars):
            M.store(Ptr(dst.ptr.obj, dst.ptr.path + (num.add(num.add(dst.off, dst.len), i),)), c)
        return Slice(dst.ptr, dst.off, num.add(dst.len, n), dst.cap)
    # reallocation: a fresh array, old contents copied
    ln = S.concretize(dst.len)
    old = []
    if dst.ptr is not None:
        arr = M.load(dst.ptr)
        old = [M.sel(arr, num.add(dst.off, i)) for i in range(ln)]
    o = S.alloc(tuple(old) + tuple(chars))
    return Slice(Ptr(o), 0, ln + n, ln + n)


def copy(M, args):
    dst, src = args
    S = M.S
    if isinstance(src, (bytes, Str)):
        chars = M.strchars(src)
        sl = len(chars)
    else:
        sl = S.concretize(src.len)
        arr = M.load(src.ptr) if sl else ()
        chars = [M.sel(arr, num.add(src.off, i)) for i in range(sl)]
    if S.br(num.cmp(sl, "<=", dst.len)):
        n = sl
    else:
        n = S.concretize(dst.len)
    for i in range(n):
        M.store(Ptr(dst.ptr.obj, dst.ptr.path + (num.add(dst.off, i),)), chars[i])
    return n


def bigtext(M, v, fmt, prec):
    raise Unsupported("big.Float.Text")


def streq(M, x, y):
    """Equality of two texts: decided piece by piece where possible, an unknown
    truth value otherwise (both outcomes are then followed)."""
    def flat(s):
        out = []
        for p in pieces(s):
            if isinstance(p, bytes):
                out += list(p)
            elif p[0] == "c":
                out.append(p[1])
            else:
                out.append(p)
        return out
    a, b = flat(x), flat(y)
    conds = []
    i = 0
    while i < len(a) and i < len(b):
        p, q = a[i], b[i]
        if isinstance(p, tuple) or isinstance(q, tuple):
            if isinstance(p, tuple) and isinstance(q, tuple) and p[0] == q[0] == "opq" and \
                    (p[1] is q[1] or p[1].name == q[1].name and p[1].key == q[1].key and p[1].key is not None):
                i += 1
                continue
            break
        c = num.cmp(p, "==", q)
        if c is False:
            return False
        conds.append(c)
        i += 1
    if i == len(a) == len(b):
        return zand(*conds)
    rest = a[i:] + b[i:]
    if not any(isinstance(p, tuple) for p in rest):
        return False                 # one is a proper prefix of the other
    kk = ("streq", repr(x), repr(y))
    if kk not in num.MEMO:
        num.MEMO[kk] = num.Atom("steq", "int", 0, 1)
    return zand(num.cmp(num.atom(num.MEMO[kk]), "==", 1), *conds)
