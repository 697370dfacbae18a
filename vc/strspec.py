"""Contracts of internal/strconv: integer formatting (C21)."""
import num
from num import L, zand, lo, hi
from core import GoPanic, Unsupported
from exec import Ptr, Slice, Str, pieces
from fmtspec import memo_fresh, MOD, ev
import seqs
from seqs import SeqObj

P = MOD + "internal/strconv."
DIG = tuple(b"0123456789abcdefghijklmnopqrstuvwxyz")


def chars_of(M, s):
    """Characters of a text whose length is concrete on this path."""
    out = []
    for p in pieces(s):
        if isinstance(p, bytes):
            out += list(p)
        elif p[0] == "c":
            out.append(p[1])
        elif p[0] == "seq":
            for g in p[1].segs:
                if g[0] != "lit":
                    raise Unsupported("text of symbolic length")
                out += list(g[1])
        else:
            raise Unsupported("text with an unknown piece")
    return out


def numeral(M, u, base, n):
    """The n digits of u (most significant first)."""
    out = []
    q = u
    for _ in range(n):
        q2, d = num.divmodc(q, base)
        out.append(M.table(DIG, d, 0, base - 1) if isinstance(d, L) else DIG[d])
        q = q2
    return out[::-1]


def isnumeral(M, ob, cs, v, base):
    """Obligations: cs is the canonical numeral of v."""
    neg = M.S.br(num.cmp(v, "<", 0))
    if neg:
        ob("leading minus sign exactly for negative values", bool(cs) and num.cmp(cs[0], "==", 45))
        cs = cs[1:]
        v = num.scale(v, -1)
    n = len(cs)
    ob("at least one digit", n >= 1)
    if n > 1:
        ob("no leading zeros", num.cmp(base ** (n - 1), "<=", v))
    ob("digits suffice for the value", num.cmp(v, "<", base ** n))
    ds = numeral(M, v, base, n)
    for j in range(n):
        ob("digit is the exact digit of the value", num.cmp(cs[j], "==", ds[j]))


def case_int(fname, base, signed, app):
    def setup(M):
        num.NEST = True
        M.seqmode = True
        if base is None:
            base_ = memo_fresh("base", -(1 << 63), (1 << 63) - 1)
            M.S.assume(num.cmp(base_, "<", 2) if M.S.br(num.cmp(base_, "<", 20)) else num.cmp(36, "<", base_))
        else:
            base_ = base
        v = memo_fresh("i", -(1 << 63), (1 << 63) - 1) if signed else memo_fresh("u", 0, (1 << 64) - 1)
        M.S.br(num.cmp(v, "<", 0))
        a = [v] if fname == "Itoa" else [v, base_]
        if app:
            n = memo_fresh("dstlen", 0, (1 << 40))
            a.insert(0, Slice(Ptr(M.S.alloc(SeqObj([("pre", "dst", n)]))), 0, n, memo_fresh("dstcap", 0, 1 << 41)))
            M.S.assume(num.cmp(n, "<=", a[0].cap))
        M.S.env["v"] = v
        return a

    def post(M, args, out, ob):
        if base is None:
            ob("a base outside 2..36 panics", out[0] == "panic")
            return
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        r = out[1]
        v = M.S.env["v"]
        if not app:
            isnumeral(M, ob, chars_of(M, r), v, base)
            return
        segs = seqs.toseq(M, r)
        good = bool(segs) and segs[0][0] == "pre" and seqs.same(M, segs[0][-1], args[0].len)
        ob("the buffer's old contents come first, unchanged", good)
        ob("the buffer itself keeps its contents", M.S.heap[args[0].ptr.obj] is M.S.env["heap0"][args[0].ptr.obj])
        rest = SeqObj(segs[1:])
        isnumeral(M, ob, chars_of(M, Str([("seq", rest)])) if rest.segs else [], v, base)

    def conc(M, m, args):
        v = ev(m, M.S.env["v"])
        b = base if base is not None else int(ev(m, memo_fresh("base", 0, 0)))
        return {"op": "fmtint", "bits": str(int(v) % (1 << 64)), "base": b, "signed": signed, "pre": "xy", "cap": 0}
    return (P + fname, "base %s" % (base if base is not None else "outside 2..36"), setup, post, conc)


INTFORMS = [("FormatInt", True, False), ("FormatUint", False, False), ("AppendInt", True, True), ("AppendUint", False, True)]


def int_cases(base):
    cs = [case_int(f, base, s, a) for f, s, a in INTFORMS]
    if base == 10:
        cs.append(case_int("Itoa", 10, True, False))
    return cs
