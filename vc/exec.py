"""Symbolic execution of the SSA dump of /repo: the condition generator.

Every path through a function is followed; calls to functions under contract
are replaced by their contract, other functions of the module are inlined, and
library functions are replaced by the assumed contracts in ext*.py.
"""
import json
from fractions import Fraction
import z3
import num
from num import L, znot, zand, zor, ziff, lo, hi
from core import State, Frame, Fork, Dead, GoPanic, Unsupported, query, TIMEOUT
from seqs import SeqObj, charat, toseq

INTS = {"int": (True, 64), "int8": (True, 8), "int16": (True, 16), "int32": (True, 32), "int64": (True, 64),
        "uint": (False, 64), "uint8": (False, 8), "uint16": (False, 16), "uint32": (False, 32), "uint64": (False, 64),
        "uintptr": (False, 64), "byte": (False, 8), "rune": (True, 32), "untyped int": (True, 64), "untyped rune": (True, 32)}


class Ptr:
    __slots__ = ("obj", "path")

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, path

    def __repr__(self):
        return "&%s%s" % (self.obj, list(self.path) or "")

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj == self.obj and o.path == self.path

    def __hash__(self):
        return hash((self.obj, self.path))


class Slice:
    """ptr: pointer to the array; off, len, cap: numbers."""
    __slots__ = ("ptr", "off", "len", "cap")

    def __init__(self, ptr, off, ln, cap):
        self.ptr, self.off, self.len, self.cap = ptr, off, ln, cap

    def __repr__(self):
        return "Slice(%r,%r,%r,%r)" % (self.ptr, self.off, self.len, self.cap)


class Iface:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


class Opaque:
    """A value nothing is known about except its identity."""
    __slots__ = ("name", "key")

    def __init__(self, name, key=None):
        self.name, self.key = name, key

    def __repr__(self):
        return "Opaque(%s)" % self.name


class Func:
    __slots__ = ("name", "bind")

    def __init__(self, name, bind=()):
        self.name, self.bind = name, bind


class Str:
    """Symbolic string: tuple of pieces; a piece is bytes, ('c', number),
    ('bin', number, width) zero-padded to width, ('dec', number) or
    ('opq', Opaque, length)."""
    __slots__ = ("ps",)

    def __init__(self, ps):
        out = []
        for p in ps:
            if isinstance(p, bytes):
                if not p:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] += p
                    continue
            elif p[0] == "c" and isinstance(p[1], int):
                p = bytes([p[1]])
                if out and isinstance(out[-1], bytes):
                    out[-1] += p
                    continue
            out.append(p)
        self.ps = tuple(out)

    def __repr__(self):
        return "Str%r" % (self.ps,)


def mkstr(ps):
    s = Str(ps)
    if not s.ps:
        return b""
    if len(s.ps) == 1 and isinstance(s.ps[0], bytes):
        return s.ps[0]
    return s


def pieces(s):
    return (s,) if isinstance(s, bytes) else s.ps


class Arr:
    """Array of integers with symbolic contents: z3 array term plus length."""
    __slots__ = ("z", "n", "elo", "ehi")

    def __init__(self, zt, n, elo, ehi):
        self.z, self.n, self.elo, self.ehi = zt, n, elo, ehi


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.funcs = {f["name"]: f for f in d["funcs"]}
        self.globals = {g["n"]: g["t"] for g in d["globals"]}
        self.pkgs = d["pkgs"]
        self.loops = {}

    def und(self, t):
        j = self.types[t]
        while j["k"] == "named":
            j = self.types[j["u"]]
        return j

    def tname(self, t):
        return self.types[t]["s"]

    def basic(self, t):
        j = self.und(t)
        return j["name"] if j["k"] == "basic" else None

    def intkind(self, t):
        b = self.basic(t)
        return INTS.get(b) if b else None


MAXSTEPS = 60000


class Machine:
    def __init__(self, prog, contracts=None, ext=None, opaque_types=None):
        self.p = prog
        self.contracts = contracts or {}
        self.ext = ext or {}
        self.S = None
        self.opaque_types = opaque_types or {}
        self.globobj = {}
        self.baseheap = {}
        self.basenobj = 0
        self.used_ext = set()
        self.used_contracts = set()
        self.inlined = set()

    # ------------------------------------------------------------ types
    def zero(self, t):
        nm = self.p.tname(t)
        if nm in self.opaque_types:
            return self.opaque_types[nm]()
        j = self.p.und(t)
        k = j["k"]
        if k == "basic":
            n = j["name"]
            if n in INTS:
                return 0
            if n in ("bool", "untyped bool"):
                return False
            if n in ("string", "untyped string"):
                return b""
            if n in ("float64", "float32", "untyped float"):
                from floats import F
                return F.const(32 if n == "float32" else 64, 0)
            if n == "untyped nil":
                return None
            return Opaque(n)
        if k == "struct":
            return tuple(self.zero(f) for f in j["fs"])
        if k == "array":
            e = self.zero(j["e"])
            return (e,) * j["n"]
        if k in ("ptr", "iface", "func", "map"):
            return None
        if k == "slice":
            return Slice(None, 0, 0, 0)
        if k == "tuple":
            return tuple(self.zero(f) for f in j["fs"])
        return Opaque("zero " + k)

    def fit(self, x, kind):
        """Wrap x to a machine integer type."""
        sg, n = kind
        a, b = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
        if not isinstance(x, L):
            x = int(x)
            if a <= x <= b:
                return x
            x &= (1 << n) - 1
            if sg and x > b:
                x -= 1 << n
            return x
        if x.lo is not None and x.hi is not None and a <= x.lo and x.hi <= b:
            return x
        if self.S.proves(zand(x >= a, x <= b)):
            return x.tight(a, b)
        num.HOOK = self.floorhook
        try:
            if sg:
                off = 1 << (n - 1)
                return num.sub(num.divmodc(x + off, 1 << n)[1], off)
            return num.divmodc(x, 1 << n)[1]
        finally:
            num.HOOK = None

    # ------------------------------------------------------------ memory
    def sel(self, v, i):
        if hasattr(v, "gsel"):
            return v.gsel(self, i)
        if isinstance(v, Arr):
            r = z3.Select(v.z, num.z(i))
            kk = ("sel", r.get_id())
            if kk not in num.MEMO:
                a = num.Atom("el", "int", v.elo, v.ehi)
                a.defs.append(a.z == r)
                a.info = ("sel", r)
                num.MEMO[kk] = a
            return num.atom(num.MEMO[kk])
        if isinstance(v, SeqObj):
            return charat(self, v, i)
        if isinstance(i, L):
            return self.mux(v, i)
        return v[i]

    def mux(self, v, i):
        """Element of a concrete-length array at a symbolic index."""
        a, b = lo(i), hi(i)
        a = 0 if a is None else max(a, 0)
        b = len(v) - 1 if b is None else min(b, len(v) - 1)
        vals = v[a:b + 1]
        if all(isinstance(x, int) and not isinstance(x, bool) for x in vals):
            return self.table(v, i, a, b)
        # split into cases
        k = self.S.concretize(i)
        return v[k]

    def table(self, v, i, a, b):
        """Integer table lookup: closed form if one fits (checked on every
        entry), a chain of cases otherwise."""
        st = 1
        # stride: index = st*k + c
        if isinstance(i, L) and i.isint and isinstance(i.c, int):
            from math import gcd
            g = 0
            for _, k in i.ts:
                if not isinstance(k, int):
                    g = 1
                    break
                g = gcd(g, k)
            st = g or 1
        c0 = i.c % st
        ks = list(range((a - c0 + st - 1) // st, (b - c0) // st + 1))
        ent = [(k, v[st * k + c0]) for k in ks]
        kx = num.scale(num.sub(i, c0), Fraction(1, st))
        if isinstance(kx, L):
            kx = L(kx.c, kx.ts, ks[0], ks[-1], True)
        else:
            return v[st * kx + c0]
        base = None
        # c + m*k
        if len(ent) == 1:
            return ent[0][1]
        m = ent[1][1] - ent[0][1]
        if all(e == ent[0][1] + m * (k - ks[0]) for k, e in ent):
            return num.add(num.scale(num.sub(kx, ks[0]), m), ent[0][1])
        for d in (10, 2, 4, 8, 16, 100):
            c = ent[0][1] - ks[0] // d
            if all(e == c + k // d for k, e in ent):
                return num.add(num.divmodc(kx, d)[0], c)
            c = ent[0][1] - ks[0] % d
            if all(e == c + k % d for k, e in ent):
                return num.add(num.divmodc(kx, d)[1], c)
        # affine runs
        runs = []
        for k, e in ent:
            if runs and e == runs[-1][2] + runs[-1][3] * (k - runs[-1][0]) if runs and runs[-1][3] is not None else False:
                runs[-1][1] = k
                continue
            if runs and runs[-1][3] is None:
                runs[-1][3] = e - runs[-1][2]
                runs[-1][1] = k
                continue
            runs.append([k, k, e, None])
        kk = ("tab", num.key(kx), tuple(ent))
        if kk not in num.MEMO:
            es = [e for _, e in ent]
            at = num.Atom("tab", "int", min(es), max(es))
            zk = num.z(kx, real=False) if all(isinstance(q, int) for _, q in kx.ts) else None
            for k0, k1, e0, m in runs:
                rng = zand(kx >= k0, kx <= k1)
                val = num.add(num.scale(num.sub(kx, k0), m or 0), e0)
                at.defs.append(num.zb(num.zimp(rng, num.atom(at) == val)))
            num.MEMO[kk] = at
        return num.atom(num.MEMO[kk])

    def upd(self, v, path, x):
        if not path:
            return x
        i = path[0]
        if hasattr(v, "gupd"):
            return v.gupd(self, i, x)
        if isinstance(v, SeqObj):
            raise Unsupported("store into a slice built by append")
        if isinstance(v, Arr):
            assert len(path) == 1
            return Arr(z3.Store(v.z, num.z(i), num.z(x)), v.n, v.elo, v.ehi)
        if isinstance(i, L):
            i = self.S.concretize(i)
        n = self.upd(v[i], path[1:], x)
        return v[:i] + (n,) + v[i + 1:]

    def load(self, ptr):
        if ptr is None:
            raise GoPanic("nil pointer dereference")
        if not isinstance(ptr, Ptr):
            raise Unsupported("load through %r" % (ptr,))
        v = self.S.heap[ptr.obj]
        for i in ptr.path:
            v = self.sel(v, i)
        return v

    def store(self, ptr, x):
        if ptr is None:
            raise GoPanic("nil pointer dereference")
        if not isinstance(ptr, Ptr):
            raise Unsupported("store through %r" % (ptr,))
        n = self.upd(self.S.heap[ptr.obj], ptr.path, x)
        self.S.heap[ptr.obj] = n
        if ptr.obj in self.globset:
            self.S.written = self.S.written | {ptr.obj}

    globset = frozenset()
    loopmode = None         # set by tasks that need loops summarised
    cutoff = 0
    invs = {}               # function -> loop invariants (loops.py)
    mod = "github.com/mewmew/float/"
    rep = None
    symshift = None         # x << y for an unknown count y
    seqmode = False         # byte slices built by append have symbolic length

    # ------------------------------------------------------------ operands
    def const(self, o):
        t = o["t"]
        if "str" in o:
            b = self.p.basic(t)
            return bytes(o["str"])
        v = o.get("v")
        if v is None:
            return self.zero(t)
        if isinstance(v, bool):
            return v
        b = self.p.basic(t)
        if b in INTS:
            return int(v) if "/" not in v else int(Fraction(v))
        if b in ("float64", "float32", "untyped float"):
            from floats import F
            return F.const(32 if b == "float32" else 64, Fraction(v))
        raise Unsupported("constant of type " + self.p.tname(t))

    def val(self, o):
        k = o["k"]
        if k == "reg":
            return self.fr.regs[o["n"]]
        if k == "const":
            return self.const(o)
        if k == "global":
            return Ptr(self.globobj[o["n"]]) if o["n"] in self.globobj else self.extglobal(o["n"])
        if k == "func":
            return Func(o["n"])
        if k == "builtin":
            return o["n"]
        raise Unsupported("operand " + k)

    def extglobal(self, n):
        raise Unsupported("global of another module: " + n)

    # ------------------------------------------------------------ running
    def start(self, name, args):
        S = self.S
        f = self.p.funcs[name]
        fr = Frame(f)
        for p, a in zip(f["params"], args):
            fr.regs[p["n"]] = a
        S.frames.append(fr)

    def explore(self, init, setup, post, maxpaths=200000):
        """Follow all paths: setup(S) builds the arguments and starts the
        function (re-executed after forks), post(S) is called at the end of
        each path (re-executed after forks)."""
        stack = [init]
        paths = 0
        while stack:
            S = stack.pop()
            self.S = S
            base = None
            try:
                if S.phase == 0:
                    base = S.copy()
                    setup(S)
                    S.phase = 1
                    base = None
                while S.out is None:
                    self.step()
                    S = self.S
                base = S.copy()
                post(S)
                paths += 1
                if paths > maxpaths:
                    raise Unsupported("too many paths")
            except Fork as f:
                S = base if base is not None else self.S
                for c in reversed(f.conds):
                    ch = S.copy()
                    try:
                        ch.assume(c)
                    except Dead:
                        continue
                    stack.append(ch)
            except Dead:
                continue
        return paths

    def run(self, name, args):
        """Run a function of the module to its end on the current state (for
        setup and postconditions); a panic is raised as GoPanic."""
        S = self.S
        depth = len(S.frames)
        f = self.p.funcs.get(name)
        if f is None:
            raise Unsupported("no function " + name)
        out, S.out = S.out, None
        if name in self.contracts and name not in self.nocontract:
            r = self.contracts[name](self, *args)
            S.out = out
            return r
        saved = S.frames
        S.frames = [Frame(f)]
        for p, a in zip(f["params"], args):
            S.frames[0].regs[p["n"]] = a
        while S.out is None:
            self.step()
            S = self.S
        r = S.out
        S.frames, S.out = saved, out
        if r[0] == "panic":
            raise GoPanic(r[1])
        return r[1]

    nocontract = frozenset()

    def step(self):
        S = self.S
        fr = self.fr = S.frames[-1]
        blk = fr.fn["blocks"][fr.bi]
        if fr.ii == 0 and self.invs:
            import loops
            loops.entry(self, S, fr)
            S = self.S
        if fr.ii == 0 and self.loopmode and self.loop_entry(S, fr):
            return
        ins = blk["ins"][fr.ii]
        S.steps += 1
        if S.steps > MAXSTEPS:
            raise Unsupported("too many steps (unbounded loop without invariant?) in " + fr.fn["name"])
        op = ins["op"]
        try:
            if op == "Call":
                self.do_call(S, fr, ins)
                return
            r = getattr(self, "i_" + op, None)
            if r is None:
                raise Unsupported("instruction %s (%s)" % (op, ins.get("what", "")))
            r(S, fr, ins)
        except GoPanic as e:
            self.panic(S, e.msg, ins)

    def loop_entry(self, S, fr):
        import seqs
        return seqs.loop_entry(self, S, fr)

    def panic(self, S, msg, ins=None):
        S.out = ("panic", msg, self.fr.fn["name"], ins.get("line") if ins else None)
        S.frames = []

    def goto(self, fr, succ):
        blk = fr.fn["blocks"][fr.bi]
        fr.prev = fr.bi
        fr.bi = blk["succs"][succ]
        fr.ii = 0

    def i_Jump(self, S, fr, ins):
        self.goto(fr, 0)

    def i_If(self, S, fr, ins):
        c = self.val(ins["x"])
        self.goto(fr, 0 if S.br(c) else 1)

    def i_Return(self, S, fr, ins):
        rs = [self.val(r) for r in ins["rs"]]
        v = None if not rs else rs[0] if len(rs) == 1 else tuple(rs)
        S.frames.pop()
        if S.frames:
            p = S.frames[-1]
            if fr.ret is not None:
                p.regs[fr.ret] = v
            p.ii += 1
        else:
            S.out = ("ret", v)

    def i_Panic(self, S, fr, ins):
        raise GoPanic("panic")

    def i_RunDefers(self, S, fr, ins):
        fr.ii += 1

    def put(self, fr, ins, v):
        fr.regs[ins["r"]] = v
        fr.ii += 1

    def i_Alloc(self, S, fr, ins):
        t = self.p.und(ins["t"])["e"]
        o = S.alloc(self.zero(t))
        self.put(fr, ins, Ptr(o))

    def i_Store(self, S, fr, ins):
        self.store(self.val(ins["addr"]), self.val(ins["x"]))
        fr.ii += 1

    def i_Phi(self, S, fr, ins):
        blk = fr.fn["blocks"][fr.bi]
        self.put(fr, ins, self.val(ins["es"][blk["preds"].index(fr.prev)]))

    def i_Extract(self, S, fr, ins):
        self.put(fr, ins, self.val(ins["x"])[ins["i"]])

    def i_Field(self, S, fr, ins):
        self.put(fr, ins, self.val(ins["x"])[ins["i"]])

    def i_FieldAddr(self, S, fr, ins):
        p = self.val(ins["x"])
        if p is None:
            raise GoPanic("nil pointer dereference")
        self.put(fr, ins, Ptr(p.obj, p.path + (ins["i"],)))

    def bounds(self, i, n, what="index out of range"):
        c = zand(num.cmp(0, "<=", i), num.cmp(i, "<", n))
        if not self.S.br(c):
            raise GoPanic(what)

    def alen(self, v):
        return v.n if isinstance(v, Arr) else len(v)

    def i_IndexAddr(self, S, fr, ins):
        x, i = self.val(ins["x"]), self.val(ins["i"])
        k = self.p.und(ins["xt"])["k"]
        if k == "slice":
            self.bounds(i, x.len)
            self.put(fr, ins, Ptr(x.ptr.obj, x.ptr.path + (num.add(x.off, i),)))
        else:
            if x is None:
                raise GoPanic("nil pointer dereference")
            n = self.p.und(self.p.und(ins["xt"])["e"])["n"]
            self.bounds(i, n)
            self.put(fr, ins, Ptr(x.obj, x.path + (i,)))

    def i_Index(self, S, fr, ins):
        x, i = self.val(ins["x"]), self.val(ins["i"])
        if isinstance(x, (bytes, Str)):
            self.bounds(i, self.strlen(x))
            self.put(fr, ins, self.stridx(x, i))
            return
        self.bounds(i, self.alen(x))
        self.put(fr, ins, self.sel(x, i))

    def i_Lookup(self, S, fr, ins):
        if self.p.und(ins["xt"])["k"] == "basic":
            return self.i_Index(S, fr, ins)
        raise Unsupported("map lookup")

    # strings
    def plen(self, p):
        if isinstance(p, bytes):
            return len(p)
        if p[0] == "c":
            return 1
        if p[0] == "bin":
            if self.S.br(num.cmp(p[1], "<", 1 << p[2] * p[3])):
                return p[2]
            raise Unsupported("length of a padded number")
        if p[0] == "opq":
            return p[2]
        if p[0] == "seq":
            return p[1].length()
        raise Unsupported("length of a string piece " + p[0])

    def strlen(self, x):
        if isinstance(x, bytes):
            return len(x)
        return sum((self.plen(p) for p in x.ps), 0)

    def stridx(self, x, i):
        if isinstance(x, bytes):
            if isinstance(i, L):
                return self.table(tuple(x), i, max(0, lo(i) or 0), min(len(x) - 1, hi(i) if hi(i) is not None else len(x) - 1))
            return x[i]
        pos = 0
        for p in x.ps:
            n = self.plen(p)
            end = num.add(pos, n)
            if self.S.br(num.cmp(i, "<", end)):
                j = num.sub(i, pos)
                if isinstance(p, bytes):
                    return self.stridx(p, j)
                if p[0] == "c":
                    return p[1]
                if p[0] == "seq":
                    return charat(self, p[1], j)
                raise Unsupported("character of a string piece " + p[0])
            pos = end
        raise GoPanic("index out of range")

    def substr(self, x, a, b):
        if isinstance(x, bytes):
            return x[self.S.concretize(a):self.S.concretize(b)]
        out = []
        pos = 0
        started = False
        for p in x.ps:
            n = self.plen(p)
            end = num.add(pos, n)
            # overlap of [pos,end) with [a,b)
            if self.S.br(num.cmp(end, "<=", a)) or self.S.br(num.cmp(b, "<=", pos)):
                pos = end
                continue
            if self.S.br(zand(num.cmp(a, "<=", pos), num.cmp(end, "<=", b))):
                out.append(p)
            elif isinstance(p, bytes):
                s0 = self.S.concretize(num.sub(a, pos)) if not self.S.br(num.cmp(a, "<=", pos)) else 0
                s1 = self.S.concretize(num.sub(b, pos)) if not self.S.br(num.cmp(end, "<=", b)) else len(p)
                out.append(p[s0:s1])
            else:
                raise Unsupported("part of a string piece")
            pos = end
        return mkstr(out)

    def i_Slice(self, S, fr, ins):
        x = self.val(ins["x"])
        l = self.val(ins["lo"]) if "lo" in ins else 0
        ut = self.p.und(ins["xt"])
        if ut["k"] == "basic":
            n = self.strlen(x)
            h = self.val(ins["hi"]) if "hi" in ins else n
            if not S.br(zand(num.cmp(0, "<=", l), num.cmp(l, "<=", h), num.cmp(h, "<=", n))):
                raise GoPanic("slice bounds out of range")
            self.put(fr, ins, self.substr(x, l, h))
            return
        if ut["k"] == "ptr":
            if x is None:
                raise GoPanic("nil pointer dereference")
            n = self.p.und(ut["e"])["n"]
            x = Slice(x, 0, n, n)
        h = self.val(ins["hi"]) if "hi" in ins else x.len
        m = self.val(ins["max"]) if "max" in ins else x.cap
        if not S.br(zand(num.cmp(0, "<=", l), num.cmp(l, "<=", h), num.cmp(h, "<=", m), num.cmp(m, "<=", x.cap))):
            raise GoPanic("slice bounds out of range")
        if x.ptr is not None and isinstance(S.heap[x.ptr.obj], SeqObj) and not S.br(num.cmp(h, "<=", x.len)):
            raise Unsupported("slicing beyond the length of an appended slice")
        self.put(fr, ins, Slice(x.ptr, num.add(x.off, l), num.sub(h, l), num.sub(m, l)))

    def i_MakeSlice(self, S, fr, ins):
        n, c = self.val(ins["len"]), self.val(ins["cap"])
        if not S.br(zand(num.cmp(0, "<=", n), num.cmp(n, "<=", c))):
            raise GoPanic("makeslice: len out of range")
        e = self.p.und(ins["t"])["e"]
        if self.seqmode and n == 0 and not isinstance(n, L) and self.p.basic(e) in ("uint8", "byte"):
            self.put(fr, ins, Slice(Ptr(S.alloc(SeqObj())), 0, 0, c))
            return
        if isinstance(c, L):
            k = self.p.intkind(e)
            if k is None:
                raise Unsupported("make of symbolic size")
            sg, w = k
            at = num.Atom("mk", "int")
            z = z3.K(z3.IntSort(), z3.IntVal(0))
            a, b = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            o = S.alloc(Arr(z, c, a, b))
        else:
            o = S.alloc((self.zero(e),) * c)
        self.put(fr, ins, Slice(Ptr(o), 0, n, c))

    def i_MakeInterface(self, S, fr, ins):
        self.put(fr, ins, Iface(ins["xt"], self.val(ins["x"])))

    def i_ChangeInterface(self, S, fr, ins):
        self.put(fr, ins, self.val(ins["x"]))

    def i_ChangeType(self, S, fr, ins):
        self.put(fr, ins, self.val(ins["x"]))

    def i_MakeClosure(self, S, fr, ins):
        self.put(fr, ins, Func(ins["fn"]["n"], tuple(self.val(b) for b in ins["bindings"])))

    def i_TypeAssert(self, S, fr, ins):
        raise Unsupported("type assertion")

    def i_UnOp(self, S, fr, ins):
        t = ins["tok"]
        x = self.val(ins["x"])
        if t == "*":
            self.put(fr, ins, self.load(x))
            return
        if t == "!":
            self.put(fr, ins, znot(x))
            return
        k = self.p.intkind(ins["xt"])
        if t == "-":
            if k:
                self.put(fr, ins, self.fit(num.scale(x, -1), k))
            else:
                self.put(fr, ins, x.neg_F())
            return
        if t == "^":
            sg, n = k
            self.put(fr, ins, num.sub(-1, x) if sg else num.sub((1 << n) - 1, x))
            return
        raise Unsupported("unary " + t)

    def i_Convert(self, S, fr, ins):
        self.put(fr, ins, self.convert(self.val(ins["x"]), ins["xt"], ins["t"]))

    def convert(self, x, ft, tt):
        fk, tk = self.p.intkind(ft), self.p.intkind(tt)
        fb, tb = self.p.basic(ft), self.p.basic(tt)
        if fk and tk:
            return self.fit(x, tk)
        if fb in ("float32", "float64") and tb in ("float32", "float64"):
            return x.convert(self, 32 if tb == "float32" else 64)
        if fk and tb in ("float32", "float64"):
            from floats import F
            return F.fromint(self, 32 if tb == "float32" else 64, x)
        if tb == "string" and self.p.und(ft)["k"] == "slice":
            return self.bytes2str(x)
        if fb == "string" and self.p.und(tt)["k"] == "slice":
            chars = self.strchars(x)
            o = self.S.alloc(tuple(chars))
            return Slice(Ptr(o), 0, len(chars), len(chars))
        if tb == "string" and fk:
            if isinstance(x, int) and 0 <= x < 128:
                return bytes([x])
        raise Unsupported("conversion %s -> %s" % (self.p.tname(ft), self.p.tname(tt)))

    def bytes2str(self, x):
        if x.ptr is None:
            return b""
        if isinstance(self.S.heap[x.ptr.obj], SeqObj) or self.seqmode:
            q = SeqObj(toseq(self, x))
            if all(s[0] == "lit" for s in q.segs):
                return mkstr([("c", c) for s in q.segs for c in s[1]])
            return mkstr([("seq", q)])
        n = self.S.concretize(x.len)
        off = x.off
        arr = self.load(x.ptr)
        return mkstr([("c", self.sel(arr, num.add(off, i))) for i in range(n)])

    def strchars(self, x):
        out = []
        for p in pieces(x):
            if isinstance(p, bytes):
                out += list(p)
            elif p[0] == "c":
                out.append(p[1])
            else:
                raise Unsupported("bytes of a symbolic string")
        return out

    # ------------------------------------------------------------ arithmetic
    def bitand(self, x, y, n):
        """x & y for non-negative x, y < 2^n."""
        if isinstance(x, int) and isinstance(y, int):
            return x & y
        if isinstance(x, int):
            x, y = y, x
        if isinstance(y, int):
            r = 0
            b = 0
            while y >> b:
                if not (y >> b) & 1:
                    b += 1
                    continue
                e = b
                while (y >> e) & 1:
                    e += 1
                # bits b..e-1
                num.HOOK = self.floorhook
                try:
                    h = num.divmodc(x, 1 << b)[0] if b else x
                    m = num.divmodc(h, 1 << (e - b))[1]
                finally:
                    num.HOOK = None
                r = num.add(r, num.scale(m, 1 << b))
                b = e
            return r
        if num.key(x) == num.key(y):
            return x
        # both symbolic: bit by bit over the common range
        w = n
        for v in (x, y):
            if v.hi is not None:
                w = min(w, v.hi.bit_length())
        if w > 64:
            raise Unsupported("bitwise operation on two symbolic values")
        r = 0
        for b in range(w):
            bx = num.divmodc(num.divmodc(x, 1 << b)[0], 2)[1]
            by = num.divmodc(num.divmodc(y, 1 << b)[0], 2)[1]
            if isinstance(bx, int) and isinstance(by, int):
                bb = bx & by
            elif isinstance(bx, int) or isinstance(by, int):
                c, s = (bx, by) if isinstance(bx, int) else (by, bx)
                bb = s if c else 0
            else:
                kk = ("andbit", num.key(bx), num.key(by))
                if kk not in num.MEMO:
                    at = num.Atom("ab", "int", 0, 1)
                    at.defs.append(z3.If(z3.And(num.z(bx) == 1, num.z(by) == 1), at.z == 1, at.z == 0))
                    num.MEMO[kk] = at
                bb = num.atom(num.MEMO[kk])
            r = num.add(r, num.scale(bb, 1 << b))
        return r

    def floorhook(self, f):
        """floor(f) if the path condition pins it to one value."""
        l, h = f.lo, f.hi
        cands = {0}
        if l is not None:
            cands.add(Fraction(l).__floor__())
        if h is not None:
            cands.add(Fraction(h).__floor__())
        for c in sorted(cands):
            if self.S.proves(zand(num.cmp(c, "<=", f), num.cmp(f, "<", c + 1))):
                return c
        return None

    def tz(self, x):
        """Largest k (<=128) with 2^k dividing x syntactically."""
        k = 128
        for v in [x.c] + [c for _, c in x.ts] if isinstance(x, L) else [x]:
            if not isinstance(v, int):
                return 0
            if v:
                k = min(k, (v & -v).bit_length() - 1)
        return k

    def disjoint(self, x, y):
        for a, b in ((x, y), (y, x)):
            k = self.tz(a)
            if k and (hi(b) is not None and hi(b) < (1 << k) or self.S.proves(num.cmp(b, "<", 1 << k))):
                return True
        return False

    def unsig(self, x, k):
        """two's complement view as a non-negative number"""
        sg, n = k
        if not sg or lo(x) is not None and lo(x) >= 0:
            return x
        if not isinstance(x, L):
            return x & ((1 << n) - 1)
        if self.S.br(num.cmp(0, "<=", x)):
            return x.tight(0)
        return num.add(x, 1 << n)

    def i_BinOp(self, S, fr, ins):
        t = ins["tok"]
        x, y = self.val(ins["x"]), self.val(ins["y"])
        self.put(fr, ins, self.binop(t, x, y, ins["xt"], ins["yt"]))

    def binop(self, t, x, y, xt, yt):
        k = self.p.intkind(xt)
        if k:
            return self.intop(t, x, y, k, self.p.intkind(yt))
        b = self.p.basic(xt)
        if b in ("bool", "untyped bool"):
            if t == "==":
                return ziff(x, y)
            if t == "!=":
                return znot(ziff(x, y))
        if b in ("float32", "float64", "untyped float"):
            return self.floatop(t, x, y, 32 if b == "float32" else 64)
        if b in ("string", "untyped string"):
            if t == "+":
                return mkstr(pieces(x) + pieces(y))
            if t in ("==", "!="):
                r = self.streq(x, y)
                return r if t == "==" else znot(r)
        if t in ("==", "!="):
            r = self.equal(x, y, xt)
            return r if t == "==" else znot(r)
        raise Unsupported("operator %s on %s" % (t, self.p.tname(xt)))

    def equal(self, x, y, t):
        j = self.p.und(t)
        kd = j["k"]
        if kd in ("ptr", "slice", "func", "map"):
            if kd == "slice":
                x = None if x is not None and x.ptr is None else x
                y = None if y is not None and y.ptr is None else y
            if x is None or y is None:
                return x is None and y is None
            return x == y
        if kd == "iface":
            if x is None or y is None:
                return x is None and y is None
            raise Unsupported("interface comparison")
        if kd == "struct":
            return zand(*[self.binop("==", a, b, f, f) for a, b, f in zip(x, y, j["fs"])])
        raise Unsupported("comparison of " + kd)

    def streq(self, x, y):
        if isinstance(x, bytes) and isinstance(y, bytes):
            return x == y
        from strs import streq
        return streq(self, x, y)

    def intop(self, t, x, y, k, ky):
        sg, n = k
        if t == "+":
            return self.fit(num.add(x, y), k)
        if t == "-":
            return self.fit(num.sub(x, y), k)
        if t == "*":
            return self.fit(num.mul(x, y), k)
        if t in ("==", "<", "<="):
            return num.cmp(x, t, y)
        if t == "!=":
            return znot(num.cmp(x, "==", y))
        if t == ">":
            return num.cmp(y, "<", x)
        if t == ">=":
            return num.cmp(y, "<=", x)
        if t in ("/", "%"):
            if self.S.br(num.cmp(y, "==", 0)):
                raise GoPanic("integer divide by zero")
            if isinstance(y, L):
                y2 = self.S.rng(y)
                if y2[0] is not None and y2[0] == y2[1]:
                    y = y2[0]
            sgx = sgy = 1
            if sg:
                if not self.S.br(num.cmp(0, "<=", x)):
                    sgx, x = -1, num.scale(x, -1)
                if not self.S.br(num.cmp(0, "<=", y)):
                    sgy, y = -1, num.scale(y, -1)
            if isinstance(y, L):
                q, r = self.divsym(x, y)
            else:
                num.HOOK = self.floorhook
                try:
                    q, r = num.divmodc(x, y)
                finally:
                    num.HOOK = None
            return self.fit(num.scale(q, sgx * sgy), k) if t == "/" else num.scale(r, sgx)
        if t in ("<<", ">>"):
            if ky and ky[0] and not self.S.br(num.cmp(0, "<=", y)):
                raise GoPanic("negative shift amount")
            s = y if not isinstance(y, L) else None
            if s is None:
                if isinstance(x, int) and x == 0:
                    return 0
                if self.S.br(num.cmp(n, "<=", y)):
                    s = n
                else:
                    if t == "<<" and self.symshift is not None and n == 64 and not sg:
                        return self.symshift(self, x, y)
                    s = self.S.concretize(y.tight(0, n - 1))
            if t == "<<":
                if s >= n:
                    return 0
                return self.fit(num.scale(x, 1 << s), k)
            if s >= n:
                s = n if not sg else n - 1
                if not sg:
                    return 0
            num.HOOK = self.floorhook
            try:
                return num.divmodc(x, 1 << s)[0]
            finally:
                num.HOOK = None
        if t in ("&", "|", "^", "&^"):
            if isinstance(x, int) and isinstance(y, int):
                r = {"&": x & y, "|": x | y, "^": x ^ y, "&^": x & ~y}[t]
                return self.fit(r, k)
            ux, uy = self.unsig(x, k), self.unsig(y, k)
            if t == "&^":
                if isinstance(uy, int):
                    r = self.bitand(ux, ((1 << n) - 1) & ~uy, n)
                else:
                    r = num.sub(ux, self.bitand(ux, uy, n))
            elif t == "&":
                r = self.bitand(ux, uy, n)
            elif self.disjoint(ux, uy):
                r = num.add(ux, uy)
            else:
                a = self.bitand(ux, uy, n)
                r = num.sub(num.add(ux, uy), num.scale(a, 1 if t == "|" else 2))
            if isinstance(r, L):
                r = r.tight(0, (1 << n) - 1)
            return self.fit(r, k) if sg else r
        raise Unsupported("integer operator " + t)

    def divsym(self, x, y):
        """x div y for symbolic y > 0, x >= 0"""
        kk = ("divsym", num.key(x), num.key(y))
        if kk not in num.MEMO:
            q = num.Atom("q", "int", 0, hi(x))
            r = num.Atom("r", "int", 0, None if hi(y) is None else hi(y) - 1)
            zq = num.mul(num.atom(q), y)
            r.defs.append(num.z(x) == num.z(zq) + r.z)
            r.defs.append(z3.Implies(num.z(y) > 0, z3.And(r.z < num.z(y), r.z >= 0)))
            q.defs.append(r.z == r.z)
            q.defs += r.defs
            num.MEMO[kk] = (q, r)
        q, r = num.MEMO[kk]
        return num.atom(q), num.atom(r)

    def floatop(self, t, x, y, w):
        from floats import fcmp, farith
        if t in ("==", "!=", "<", "<=", ">", ">="):
            return fcmp(self, t, x, y)
        return farith(self, t, x, y, w)

    # ------------------------------------------------------------ calls
    def do_call(self, S, fr, ins):
        if "invoke" in ins:
            raise Unsupported("interface method call " + ins["invoke"])
        fn = self.val(ins["fn"])
        args = [self.val(a) for a in ins["args"]]
        if isinstance(fn, str):
            base = S.copy()
            try:
                v = self.builtin(fn, args, ins)
            except Fork:
                self.S = base
                raise
            self.put(fr, ins, v)
            return
        if fn is None:
            raise GoPanic("nil function call")
        name = fn.name
        if name in self.contracts and not (len(S.frames) == 1 and fr.fn["name"] == name):
            self.used_contracts.add(name)
            h = self.contracts[name]
        elif name in self.p.funcs:
            if len(S.frames) > 40:
                raise Unsupported("call depth")
            self.inlined.add(name)
            f = self.p.funcs[name]
            nf = Frame(f, ins.get("r"))
            for p, a in zip(f["params"], args):
                nf.regs[p["n"]] = a
            for p, a in zip(f["freevars"], fn.bind):
                nf.regs[p["n"]] = a
            S.frames.append(nf)
            return
        else:
            if name.endswith(".init") and fr.fn["name"].endswith(".init"):
                self.put(fr, ins, None)      # initialisation of another module
                return
            h = self.ext.get(name)
            if h is None:
                raise Unsupported("library function " + name)
            self.used_ext.add(name)
        base = S.copy()
        try:
            v = h(self, *args)
        except Fork:
            self.S = base
            raise
        self.put(fr, ins, v)

    def builtin(self, n, args, ins):
        if n == "ssa:deferstack":
            return Opaque("defers")
        if n == "len":
            x = args[0]
            if isinstance(x, (bytes, Str)):
                return self.strlen(x)
            if isinstance(x, Slice):
                return x.len
            if isinstance(x, tuple):
                return len(x)
        if n == "cap":
            if isinstance(args[0], Slice):
                return args[0].cap
        if n == "append":
            from strs import append
            return append(self, args, ins)
        if n == "copy":
            from strs import copy
            return copy(self, args)
        if n in ("min", "max"):
            k = self.p.intkind(ins["t"])
            if k:
                r = args[0]
                for a in args[1:]:
                    c = num.cmp(a, "<", r) if n == "min" else num.cmp(r, "<", a)
                    if self.S.br(c):
                        r = a
                return r
        if n == "ssa:wrapnilchk":
            if args[0] is None:
                raise GoPanic("nil pointer dereference")
            return args[0]
        raise Unsupported("builtin " + n)

    # ------------------------------------------------------------ package state
    def init_globals(self):
        """Run every package's initialisation concretely."""
        S = State()
        self.S = S
        for n, t in self.p.globals.items():
            e = self.p.und(t)["e"]
            self.globobj[n] = S.alloc(self.zero(e))
        self.globset = frozenset()
        for n in sorted(self.p.pkgs):
            f = self.p.funcs.get(n + ".init")
            if f is None:
                continue
            fr = Frame(f)
            S.frames = [fr]
            S.out = None
            S.steps = 0
            while S.out is None:
                self.step()
            if S.out[0] != "ret":
                raise Unsupported("package initialisation panics: " + n)
        self.baseheap = dict(S.heap)
        self.basenobj = S.nobj
        self.globset = frozenset(self.globobj.values())

    def newstate(self):
        S = State()
        S.heap = dict(self.baseheap)
        S.nobj = self.basenobj
        self.S = S
        return S
