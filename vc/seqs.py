"""Byte sequences of symbolic length and loop summaries.

A slice built by append is represented by an immutable Seq object: a tuple of
segments.  Appending makes a new object, so the old slice keeps its contents
(append writes only behind the length of its argument); what append does with
the spare capacity of its argument is not modelled, and code that could observe
it (a second append to the same slice, slicing beyond the length, storing an
element) is refused with Unsupported.

Segments
  ('lit', (char, ...))                 characters, numbers
  ('pre', name, length)                an unknown prefix
  ('arr', Arr or tuple, off, length)   snapshot of part of an array
  ('gen', Loop, length)                what a summarised loop appended
  ('run', digits, start, length)       part of a digit sequence padded with zeros
  ('num', value, base, length)         the numeral of a number
"""
from fractions import Fraction
import z3
import num
from num import L, zand, lo, hi
from core import Fork, Dead, GoPanic, Unsupported, State, Frame


class SeqObj:
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        out = []
        for s in segs:
            if s[0] == "lit":
                if not s[1]:
                    continue
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + tuple(s[1]))
                    continue
            elif not isinstance(seglen(s), L) and seglen(s) == 0:
                continue
            out.append(s)
        self.segs = tuple(out)

    def length(self):
        n = 0
        for s in self.segs:
            n = num.add(n, seglen(s))
        return n

    def __repr__(self):
        return "Seq%r" % (self.segs,)


def seglen(s):
    return len(s[1]) if s[0] == "lit" else s[-1]


def charat(M, q, i):
    """Character i (0 <= i < length) of a Seq; forks over the segments."""
    pos = 0
    for n, s in enumerate(q.segs):
        end = num.add(pos, seglen(s))
        if n == len(q.segs) - 1 or M.S.br(num.cmp(i, "<", end)):
            j = num.sub(i, pos)
            if s[0] == "lit":
                k = M.S.concretize(j.tight(0, len(s[1]) - 1) if isinstance(j, L) else j)
                return s[1][k]
            if s[0] == "pre":
                return prechar(s[1], j)
            if s[0] == "arr":
                return M.sel(s[1], num.add(s[2], j))
            if s[0] == "run":
                return rundigit(M, s[1], num.add(s[2], j))
            if s[0] == "num":
                raise Unsupported("digit of a numeral of unknown length")
            return s[1].charat(M, j)
        pos = end
    raise GoPanic("index out of range")


def rundigit(M, dig, k):
    arr, nd = dig[0], dig[1]
    if M.S.br(zand(num.cmp(0, "<=", k), num.cmp(k, "<", nd))):
        return M.sel(arr, k)
    return 48


def prechar(name, j):
    kk = ("prechar", name, num.key(j))
    if kk not in num.MEMO:
        f = z3.Function("pre_" + name, z3.IntSort(), z3.IntSort())
        a = num.Atom("pc", "int", 0, 255)
        a.defs.append(a.z == f(num.z(j)))
        num.MEMO[kk] = a
    return num.atom(num.MEMO[kk])


def toseq(M, sl):
    """Segments of a slice value."""
    import exec as X
    if sl is None or sl.ptr is None:
        return ()
    o = M.load(sl.ptr)
    if isinstance(o, SeqObj):
        if not same(M, sl.off, 0) or not same(M, sl.len, o.length()):
            return subseq(M, o, sl.off, sl.len)
        return o.segs
    if isinstance(sl.len, L) or isinstance(sl.off, L) or isinstance(o, X.Arr):
        if not isinstance(sl.len, L) and sl.len <= 4:
            return (("lit", tuple(M.sel(o, num.add(sl.off, i)) for i in range(sl.len))),)
        return (("arr", o, sl.off, sl.len),)
    return (("lit", tuple(M.sel(o, sl.off + i) for i in range(sl.len))),)


def same(M, a, b):
    c = num.cmp(a, "==", b)
    return c if isinstance(c, bool) else M.S.proves(c)


def subseq(M, o, off, ln):
    """Segments of o[off:off+ln]."""
    br = M.S.br
    out = []
    pos = 0
    end = num.add(off, ln)
    for s in o.segs:
        n = seglen(s)
        nxt = num.add(pos, n)
        if br(num.cmp(nxt, "<=", off)) or br(num.cmp(end, "<=", pos)):
            pos = nxt
            continue
        a = 0 if br(num.cmp(off, "<=", pos)) else num.sub(off, pos)
        b = n if br(num.cmp(nxt, "<=", end)) else num.sub(end, pos)
        if s[0] == "lit":
            a, b = M.S.concretize(a), M.S.concretize(b)
            out.append(("lit", s[1][a:b]))
        elif s[0] == "arr":
            out.append(("arr", s[1], num.add(s[2], a), num.sub(b, a)))
        elif same(M, a, 0) and s[0] == "gen":
            out.append(s[:-1] + (b,))
        elif same(M, a, 0) and same(M, b, n):
            out.append(s)
        else:
            raise Unsupported("part of an unknown prefix")
        pos = nxt
    return SeqObj(out).segs


def mkslice(M, segs):
    import exec as X
    q = SeqObj(segs)
    o = M.S.alloc(q)
    n = q.length()
    return X.Slice(X.Ptr(o), 0, n, n)


def append(M, dst, src):
    import exec as X
    if isinstance(src, (bytes, X.Str)):
        add = []
        for p in X.pieces(src):
            if isinstance(p, bytes):
                add.append(("lit", tuple(p)))
            elif p[0] == "c":
                add.append(("lit", (p[1],)))
            elif p[0] == "seq":
                add += p[1].segs
            else:
                raise Unsupported("appending a symbolic string")
    else:
        add = toseq(M, src)
    return extend(M, dst, add)


def extend(M, dst, add):
    """append(dst, add...)"""
    S = M.S
    if dst.ptr is not None:
        ext = S.env.get("extended", frozenset())
        k = (dst.ptr.obj, dst.ptr.path)
        if k in ext:
            raise Unsupported("second append to the same slice")
        S.env["extended"] = ext | {k}
    return mkslice(M, tuple(toseq(M, dst)) + tuple(add))


# ------------------------------------------------------------------ loops

def natloops(M, fn):
    """header block -> set of blocks of the natural loop"""
    c = M.p.loops.get(fn["name"])
    if c is not None:
        return c
    bl = fn["blocks"]
    succs = [b["succs"] or [] for b in bl]
    preds = [b["preds"] or [] for b in bl]
    n = len(bl)
    dom = [set(range(n)) for _ in range(n)]
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in range(1, n):
            s = None
            for p in preds[b]:
                s = set(dom[p]) if s is None else s & dom[p]
            s = (s or set()) | {b}
            if s != dom[b]:
                dom[b] = s
                ch = True
    loops = {}
    for b in range(n):
        for s in succs[b]:
            if s in dom[b]:
                body = {s, b}
                st = [b]
                while st:
                    x = st.pop()
                    if x == s:
                        continue
                    for p in preds[x]:
                        if p not in body:
                            body.add(p)
                            st.append(p)
                loops[s] = loops.get(s, set()) | body
    M.p.loops[fn["name"]] = loops
    return loops


def local_allocs(fn):
    c = fn.get("_allocs")
    if c is None:
        c = {}
        for bi, b in enumerate(fn["blocks"]):
            for ins in b["ins"]:
                if ins["op"] == "Alloc":
                    c[ins["r"]] = (bi, ins["name"], ins["t"])
        fn["_allocs"] = c
    return c


def loopstores(fn, body):
    """cells allocated outside the loop and stored to directly inside it:
    register -> list of (block, stored operand)"""
    al = local_allocs(fn)
    out = {}
    for b in sorted(body):
        for ins in fn["blocks"][b]["ins"]:
            if ins["op"] == "Store" and ins["addr"]["k"] == "reg":
                r = ins["addr"]["n"]
                if r in al and al[r][0] not in body:
                    out.setdefault(r, []).append((b, ins["x"]))
    return out


def fieldstores(fn, body):
    """Indices of the struct fields stored to in the loop."""
    fa = {i["r"]: i["i"] for b in fn["blocks"] for i in b["ins"] if i["op"] == "FieldAddr"}
    return {fa[i["addr"]["n"]] for b in body for i in fn["blocks"][b]["ins"]
            if i["op"] == "Store" and i["addr"]["k"] == "reg" and i["addr"]["n"] in fa}


def stepof(fn, cell, xs):
    """Constant s if every store to the cell is cell = cell + s (one store)."""
    if len(xs) != 1 or xs[0][1]["k"] != "reg":
        return None
    defs = {}
    for b in fn["blocks"]:
        for ins in b["ins"]:
            if "r" in ins:
                defs[ins["r"]] = ins
    d = defs.get(xs[0][1]["n"])
    if d is None or d["op"] != "BinOp" or d["tok"] not in "+-":
        return None
    x, y = d["x"], d["y"]
    if x["k"] != "reg" or y["k"] != "const":
        return None
    l = defs.get(x["n"])
    if l is None or l["op"] != "UnOp" or l["tok"] != "*" or l["x"].get("n") != cell:
        return None
    s = int(y["v"])
    return s if d["tok"] == "+" else -s


class Havoc:
    """Contents of a cell that the loop overwrites before reading."""

    def __repr__(self):
        return "undefined"


class Loop:
    """Summary of a loop whose iteration k appends f(k): the state at the
    header of iteration k is known in closed form."""

    def __init__(self, frame, heap, body, ints, seqcell):
        self.frame, self.heap, self.body, self.ints, self.seqcell = frame, heap, body, ints, seqcell

    def at(self, M, k):
        """Install the header state of iteration k in a scratch frame."""
        S = M.S
        fr = self.frame.copy()
        heap = dict(self.heap)
        for o, (init, st) in self.ints.items():
            heap[o] = num.add(init, num.scale(k, st))
        if self.seqcell is not None:
            import exec as X
            S.nobj += 1
            heap[S.nobj] = SeqObj(())
            heap[self.seqcell] = X.Slice(X.Ptr(S.nobj), 0, 0, 0)
        return fr, heap

    def iterate(self, M, k):
        """Run iteration k (which is known to happen, completely and without
        panic); returns the heap at its end.  Forks like any execution."""
        S = M.S
        fr, heap = self.at(M, k)
        saved = (S.frames, S.heap, S.out, S.written)
        env = S.env
        S.frames, S.heap, S.out = [fr], heap, None
        S.env = dict(env, extended=frozenset(), inloop=True)
        head = fr.bi
        savefr = getattr(M, "fr", None)
        M.cutoff += 1
        try:
            first = True
            while True:
                if S.out is not None:
                    raise Dead()        # a return or a panic: not a completed iteration
                if len(S.frames) == 1 and S.frames[0].ii == 0 and not first:
                    if S.frames[0].bi == head:
                        break
                    if S.frames[0].bi not in self.body:
                        raise Dead()    # left the loop
                first = False
                M.step()
                S = M.S
            return dict(S.heap)
        finally:
            M.cutoff -= 1
            S = M.S
            S.frames, S.heap, S.out, S.written = saved
            S.env = env
            M.fr = savefr

    def charat(self, M, j):
        h = self.iterate(M, j)
        sl = h[self.seqcell]
        o = h[sl.ptr.obj]
        if len(o.segs) != 1 or o.segs[0][0] != "lit" or len(o.segs[0][1]) != 1:
            raise Unsupported("loop appends more than one character at a time")
        return o.segs[0][1][0]


def cells_of(S, fr, fn):
    al = local_allocs(fn)
    return {r: fr.regs[r].obj for r in al if r in fr.regs}


def loop_entry(M, S, fr):
    if M.cutoff or not M.loopmode or fr.bi not in natloops(M, fr.fn):
        return False
    base = S.copy()
    try:
        return _loop_entry(M, S, fr)
    except Fork:
        M.S = base
        raise


def _loop_entry(M, S, fr):
    """Called at the first instruction of every block: cuts the loops whose
    number of iterations is symbolic."""
    fn = fr.fn
    loops = natloops(M, fn)
    if fr.bi not in loops:
        return False
    body = loops[fr.bi]
    cut = fr.cut.get(fr.bi)
    back = fr.prev in body
    if cut is not None and back:
        cut.backedge(M, S, fr)
        raise Dead()
    if cut is not None:
        # entered again from outside (an inner loop of a running outer loop)
        del fr.cut[fr.bi]
    if back:
        return False                # running concretely
    # does the number of iterations depend on symbolic data?
    mode = M.loopmode(fn, fr.bi) if M.loopmode else None
    if not mode:
        return False
    st = loopstores(fn, body)
    ints, seqc, hav = {}, None, []
    for r, xs in st.items():
        if r not in fr.regs:
            continue
        o = fr.regs[r].obj
        v = S.heap[o]
        s = stepof(fn, r, xs)
        if s is not None and isinstance(v, (int, L)) and not isinstance(v, bool):
            ints[o] = (v, s)
        elif hasattr(v, "ptr") and hasattr(v, "cap"):
            if seqc is not None:
                return False
            seqc = o
        else:
            hav.append(o)
    if not any(isinstance(v, L) for v, _ in ints.values()) and not symtest(M, S, fr, body):
        return False
    cnt = S.env.get("nloops", 0)
    S.env["nloops"] = cnt + 1
    kk = ("iter", fn["name"], fr.bi, cnt, tuple((o, num.key(v)) for o, (v, _) in sorted(ints.items())))
    if kk not in num.MEMO:
        num.MEMO[kk] = num.Atom("iter", "int", 0, (1 << 62))
    k = num.atom(num.MEMO[kk])
    for o in hav:
        S.heap[o] = Havoc()
    lp = Loop(fr.copy(), None, body, ints, seqc)
    old = S.heap[seqc] if seqc is not None else None
    base = dict(S.heap)
    lp.heap = base
    for o, (v, s) in ints.items():
        S.heap[o] = num.add(v, num.scale(k, s))
    if seqc is not None:
        segs = toseq(M, old)
        S.heap[seqc] = mkslice(M, tuple(segs) + (("gen", lp, k),))
    c = Cut(lp, k, dict(S.heap), S.env.get("extended"))
    fr.cut = dict(fr.cut)
    fr.cut[fr.bi] = c
    # iteration k is reached: k = 0, or iteration k-1 was completed
    if S.br(num.cmp(k, "==", 0)):
        pass
    else:
        lp.iterate(M, num.sub(k, 1))
    return False


def symtest(M, S, fr, body):
    """True when the first decision of the loop is symbolic."""
    blk = fr.fn["blocks"][fr.bi]
    if blk["ins"][-1]["op"] != "If":
        return False
    f2 = fr.copy()
    saved = (S.frames, dict(S.heap), S.nobj)
    S.frames = S.frames[:-1] + [f2]
    M.cutoff += 1
    try:
        for _ in range(len(blk["ins"]) - 1):
            if blk["ins"][f2.ii]["op"] == "Call":
                return False
            M.step()
        M.fr = f2
        c = M.val(blk["ins"][-1]["x"])
        return not isinstance(c, bool)
    except (Fork, GoPanic):
        return True
    finally:
        M.cutoff -= 1
        S.frames, S.heap, S.nobj = saved
        M.fr = fr


class Cut:
    def __init__(self, lp, k, heap, ext):
        self.lp, self.k, self.heap, self.ext = lp, k, heap, ext

    def backedge(self, M, S, fr):
        """The state after iteration k is the header state of iteration k+1."""
        lp = self.lp
        k = M.rep.counts.setdefault("loops terminate (ranking found)", [0, 0])
        k[0] += 1
        if not any(st for _, st in lp.ints.values()):
            raise Unsupported("summarised loop without a counter")
        k[1] += 1
        for o, v in self.heap.items():
            n = S.heap[o]
            if o in lp.ints:
                init, st = lp.ints[o]
                want = num.add(init, num.scale(num.add(self.k, 1), st))
                if not same(M, n, want):
                    raise Unsupported("loop variable does not step evenly")
            elif o == lp.seqcell:
                q = S.heap[n.ptr.obj]
                q0 = self.heap[v.ptr.obj]
                if not isinstance(q, SeqObj) or len(q.segs) != len(q0.segs) + 1 or not all(a is b for a, b in zip(q.segs, q0.segs)) or \
                        q.segs[-1][0] != "lit" or len(q.segs[-1][1]) != 1:
                    raise Unsupported("loop does not append one character per iteration")
            elif isinstance(v, Havoc):
                pass
            elif n is not v and not (type(n) is type(v) and repr(n) == repr(v)):
                raise Unsupported("loop changes memory its summary does not describe")
