"""Replay harness: inputs for the real code (boundary values, constants mined
from the program text, solver models, seeded random values) judged by the exact
oracle.  It finds concrete failing inputs for failed obligations, and audits
the assumed library contracts on every run."""
import json
import random
import oracle as o
from oracle import V

FL = ["binary16", "binary128", "float80x86", "float128ppc"]


def mine(ssa):
    """Integer constants of the program text."""
    out = set()

    def walk(j):
        if isinstance(j, dict):
            if j.get("k") == "const" and isinstance(j.get("v"), str):
                try:
                    v = int(j["v"])
                    if abs(v) < 1 << 128:
                        out.add(v)
                except ValueError:
                    pass
            for x in j.values():
                if isinstance(x, (dict, list)):
                    walk(x)
        elif isinstance(j, list):
            for x in j:
                if isinstance(x, (dict, list)):
                    walk(x)
    d = json.load(open(ssa))
    for f in d["funcs"]:
        if "init" in f["name"].rsplit(".", 1)[-1] and "leftcheats" not in f["name"]:
            pass
        walk(f["blocks"])
    return sorted(out)


def near(vals, mask):
    r = set()
    for v in vals:
        for d in (-1, 0, 1):
            r.add((v + d) & mask)
    return r


def rbits(rng, n):
    """n bits with runs (sparse, dense, random)."""
    k = rng.randrange(4)
    if k == 0:
        return rng.getrandbits(n)
    x = 0
    i = 0
    b = rng.getrandbits(1)
    while i < n:
        l = rng.randrange(1, max(2, n // (1 if k == 1 else 3)))
        if b:
            x |= ((1 << l) - 1) << i
        i += l
        b ^= 1
    return x & ((1 << n) - 1)


def patterns(fmt, rng, n, consts):
    p, bias, eb, wsz = o.FMTS[fmt]
    if sum(wsz) == 16:
        return [[i] for i in range(65536)]
    out = []
    if fmt == "float128ppc":
        spec = [0, 1 << 63, 0x7FF << 52, 0xFFF << 52, 0x7FF8 << 48, 0xFFF8 << 48, 1, (1 << 63) + 1, (1 << 52) - 1, 1 << 52,
                (0x7FF << 52) - 1, (0xFFF << 52) - 1, 0x3FF << 52, 0xBFF << 52, (0x7FF << 52) + 1, (0xFFF << 52) + 1,
                0x7C9 << 52, 0xFC9 << 52, (0x3CA << 52), (0xBCA << 52)]
        m = [v for v in consts if 0 <= v < 1 << 64]
        spec2 = spec + sorted(near(m, (1 << 64) - 1))
        out += [[a, b] for a in spec for b in spec]
        out += [[a, b] for a in spec2 for b in spec2[:24]][: n // 3]
        while len(out) < n:
            k = rng.randrange(6)
            a = rbits(rng, 64)
            if k == 0:
                b = rbits(rng, 64)
            else:
                # exponents close together, or at rounding distance
                e = (a >> 52) & 0x7FF
                d = rng.choice([0, 1, 2, 50, 51, 52, 53, 54, 55, 56, 60, 106, 107, 108, 200])
                e2 = min(max(e - d * rng.choice([1, 1, 1, -1]), 0), 0x7FF)
                b = rng.getrandbits(1) << 63 | e2 << 52 | rng.choice([0, 0, 1, (1 << 52) - 1, rbits(rng, 52)])
                if k == 2:
                    a &= ~((1 << rng.randrange(53)) - 1)
            out.append([a, b])
        return out
    emax = (1 << eb) - 1
    mb = 64 if fmt == "float80x86" else p - 1
    es = {0, 1, 2, emax, emax - 1, emax - 2, bias, bias - 1, bias + 1}
    for lo in (bias - 149, bias - 126, bias + 127, bias - 1074, bias - 1022, bias + 1023, bias - 24, bias - 14, bias + 15):
        for d in range(-3, 4):
            es.add(lo + d)
    es |= {v for v in near(consts, emax)}
    fs = {0, 1, 2, 3, (1 << mb) - 1, (1 << mb) - 2, 1 << (mb - 1), (1 << (mb - 1)) + 1, (1 << (mb - 1)) - 1}
    for k in (10, 11, 23, 24, 48, 52, 53, 63, 64, 112):
        if k < mb:
            for d in (-1, 0, 1):
                fs.add((1 << (mb - k)) + d & ((1 << mb) - 1))
                fs.add((1 << (mb - k)) * 3 // 2 + d & ((1 << mb) - 1))
                fs.add((1 << mb) - (1 << (mb - k)) + d & ((1 << mb) - 1))
                fs.add((1 << k) + d & ((1 << mb) - 1))
    fs |= near(consts, (1 << mb) - 1)
    es, fs = sorted(e for e in es if 0 <= e <= emax), sorted(fs)

    def mk(s, e, f):
        if fmt == "float80x86":
            return [s << 15 | e, f]
        c = s << (eb + mb) | e << mb | f
        return [c >> 64, c & ((1 << 64) - 1)]
    grid = [(s, e, f) for s in (0, 1) for e in es for f in fs]
    rng.shuffle(grid)
    out = [mk(*g) for g in grid[: n // 2]]
    while len(out) < n:
        e = rng.choice(es) if rng.random() < .5 else rng.randrange(emax + 1)
        f = rng.choice(fs) if rng.random() < .3 else rbits(rng, mb)
        if fmt == "float80x86" and rng.random() < .6:
            f = f | 1 << 63 if e else f & ((1 << 63) - 1)
        out.append(mk(rng.getrandbits(1), e, f))
    return out


def bigs(fmt, rng, n, consts):
    """Requests for numbers: exact values, rounding midpoints and their
    neighbours at every scale of the format."""
    p, bias, eb, _ = o.FMTS[fmt]
    if fmt == "float128ppc":
        p, bias = 53, 1023
    emin = 1 - bias - (p - 1)
    out = []
    ip = [c for c in consts if 0 < c < 1 << 34]
    precs = [1, 2, 3, 8, p - 1, p, p + 1, 24, 53, 64, 106, 113, 200, 1000, 2099, 5000] + [c for c in ip if c < 20000]

    def add(v, mode=None, acc=None, prec=None):
        out.append(o.reqbig(v, prec if prec is not None else rng.choice(precs), rng.randrange(6) if mode is None else mode,
                            rng.choice([0, 0, -1, 1]) if acc is None else acc))
    for k in ("zero", "inf"):
        for neg in (False, True):
            for mode in range(6):
                for pr in (0, 1, 53, 5000):
                    add(V(k, neg), mode, 0, pr)
    for e in (-2147483000, -100000, -20000, 20000, 100000, 2147483000):
        for neg in (False, True):
            add(V("fin", neg, 1, e))
            add(V("fin", neg, (1 << 60) + 1, e))
    ks = list(range(emin - 3, emin + p + 3)) + list(range(bias - 2, bias + 4)) + [0, 1, -1, 10, -10, 24, 53, 64, 113]
    for _ in range(n - len(out)):
        r = rng.random()
        k = rng.choice(ks) if r < .6 else rng.randrange(emin - 5, bias + 5)   # exponent of the leading bit
        q = max(k - p + 1, emin)              # unit in the last place
        nb = max(k - q, 0)
        r = rng.random()
        if nb and r < .75:
            m = 1 << nb | rbits(rng, nb)
            if r < .25:
                m = (1 << (nb + 1)) - rng.choice([1, 1, 2, 3])
            elif r < .35:
                m = 1 << nb
        else:
            m = rng.choice([0, 1, 1, 2, 3])
        if consts and rng.random() < .1:
            c = rng.choice(consts)
            m = abs(c) or 1
        # position within the unit
        d = rng.choice([0, 0, 1, 2, 2, 2, 3])           # quarters
        x, e = m * 4 + d, q - 2
        g = rng.choice([0, 0, 1, 2, 8, 53, 64, 100, 500, 3000])
        if g:
            x, e = (x << g) + rng.choice([0, 1, -1]), e - g
        if x <= 0:
            continue
        add(V("fin", bool(rng.getrandbits(1)), x, e))
    return out


def floats(w, rng, n, consts):
    mb, eb = (23, 8) if w == 32 else (52, 11)
    bias = (1 << (eb - 1)) - 1
    emax = (1 << eb) - 1
    es = {0, 1, 2, emax, emax - 1, bias}
    for lo in (-26, -25, -24, -15, -14, -13, 14, 15, 16, 17):
        es.add(lo + bias)
    es |= near(consts, emax)
    fs = {0, 1, (1 << mb) - 1}
    for k in range(mb):
        for d in (-1, 0, 1):
            fs.add((1 << k) + d & ((1 << mb) - 1))
            fs.add((1 << mb) - (1 << k) + d & ((1 << mb) - 1))
    es, fs = sorted(es), sorted(fs)
    g = [(s, e, f) for s in (0, 1) for e in es for f in fs]
    rng.shuffle(g)
    out = [s << (mb + eb) | e << mb | f for s, e, f in g[: n // 2]]
    out += [v for v in near(consts, (1 << w) - 1)]
    while len(out) < n:
        e = rng.choice(es) if rng.random() < .6 else rng.randrange(emax + 1)
        f = rbits(rng, mb)
        if rng.random() < .4:
            # near half-precision midpoints
            t = mb - 10 - 1
            f = (f >> t << t) + rng.choice([0, 0, 1, -1]) & ((1 << mb) - 1)
        out.append(rng.getrandbits(1) << (mb + eb) | e << mb | f)
    return out


def st(ws):
    return [str(w) for w in ws]


class Search:
    def __init__(self, prop, runner, seed, tier, consts):
        self.prop, self.R, self.tier, self.consts = prop, runner, tier, consts
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.fails = []

    def n(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def run(self, reqs, judge, known=None):
        reqs = list(reqs)
        ans = self.R.call(reqs)
        for q, a in zip(reqs, ans):
            self.evals += 1
            self.distinct.add(json.dumps(q, sort_keys=True))
            m = judge(q, a)
            if m:
                if len(self.fails) < 20:
                    self.fails.append((q, a, m))
        if reqs:
            self.samples.append({"request": reqs[-1], "answer": ans[-1]})
        return ans

    def named(self):
        return {f: self.R.call([{"op": "named", "fmt": f}])[0].get("named") for f in FL}

    def go(self):
        getattr(self, self.prop)()
        return self

    # -------------------------------------------------------------- properties
    def C01(self):
        for f in FL:
            self.run(({"op": "bits", "fmt": f, "ws": st(w)} for w in patterns(f, self.rng, self.n(8000, 100000), self.consts)), o.j_bits)

    def C02(self):
        for f in FL + ["bfloat"]:
            self.run(({"op": "fields", "fmt": f, "ws": st(w)} for w in patterns(f, self.rng, self.n(8000, 100000), self.consts)), o.j_fields)

    def bigdec(self, f):
        self.run(({"op": "big", "fmt": f, "ws": st(w)} for w in patterns(f, self.rng, self.n(20000, 300000), self.consts)), o.j_big)

    def C03(self):
        self.bigdec("binary16")

    def C04(self):
        self.bigdec("bfloat")

    def C05(self):
        self.bigdec("binary128")

    def C06(self):
        self.bigdec("float80x86")

    def C07(self):
        self.bigdec("float128ppc")

    def encs(self, f):
        self.run(({"op": "enc", "fmt": f, "x": x} for x in bigs(f, self.rng, self.n(20000, 200000), self.consts)), o.j_enc)

    def C08(self):
        self.encs("binary16")

    def C09(self):
        self.encs("binary128")

    def C10(self):
        self.encs("float80x86")

    def C11(self):
        self.encs("float128ppc")

    def C12(self):
        nm = self.named()
        for f in FL:
            for w in (32, 64):
                self.run(({"op": "from%d" % w, "fmt": f, "bits": str(b)} for b in floats(w, self.rng, self.n(6000, 80000), self.consts)),
                         o.j_from(w, nm))

    def C13(self):
        for f in FL:
            for w in (32, 64):
                ps = patterns(f, self.rng, self.n(8000, 100000), self.consts)
                self.run(({"op": "to%d" % w, "fmt": f, "ws": st(p)} for p in ps), o.j_to(w))

    def C14(self):
        for f in FL:
            ps = patterns(f, self.rng, self.n(10000, 150000), self.consts)
            if f == "float128ppc":
                # make most of them valid pairs
                ps2 = []
                for a, b in ps:
                    if self.rng.random() < .8:
                        e = max(((a >> 52) & 0x7FF) - 54 - self.rng.choice([0, 0, 1, 2, 30]), 0)
                        b = b & (1 << 63 | (1 << 52) - 1) | e << 52
                    ps2.append([a, b])
                ps = ps2
            self.run(({"op": "roundtrip", "fmt": f, "ws": st(p)} for p in ps), o.j_roundtrip)
        for w in (32, 64):
            self.run(({"op": "halftrip%d" % w, "fmt": "binary16", "ws": [str(i)]} for i in range(65536)), o.j_halftrip)

    def C15(self):
        for f in FL[:3]:
            xs = bigs(f, self.rng, self.n(15000, 150000), self.consts)
            for x in xs:
                x.pop("acc", None)
            self.mono(f, xs)

    def mono(self, f, xs):
        """Sorted order and sign symmetry of the encodings."""
        import functools
        reqs = []
        for x in xs:
            reqs += [{"op": "enc", "fmt": f, "x": dict(x, neg=False)}, {"op": "enc", "fmt": f, "x": dict(x, neg=True)}]
        ans = self.run(reqs, lambda q, a: o.bad(a))
        sb = 1 << (o.FMTS[f][3][0] - 1)
        items = []
        for i in range(0, len(reqs), 2):
            a, b = ans[i], ans[i + 1]
            if o.bad(a) or o.bad(b):
                continue
            wa, wb = o.ints(a["ws"]), o.ints(b["ws"])
            if [wa[0] ^ sb] + wa[1:] != wb or a["acc"] != -b["acc"]:
                self.fails.append((reqs[i], [a, b], "encoding of -x is not the mirror image: %s and %s" % (a, b)))
                continue
            items.append((o.frombig(a["arg0"]), o.decode(f, wa), reqs[i]))
        items.sort(key=functools.cmp_to_key(lambda s, t: o.cmpv(s[0], t[0])))
        for s, t in zip(items, items[1:]):
            if s[1].k == "nan" or t[1].k == "nan" or o.cmpv(s[1], t[1]) > 0:
                self.fails.append(({"op": "mono", "fmt": f, "x": s[2]["x"], "y": t[2]["x"]}, [repr(s[1]), repr(t[1])],
                                   "not monotone: %r encodes above %r" % (s[0], t[0])))
                break

    def C16(self):
        for f in FL + ["bfloat"]:
            ps = patterns(f, self.rng, self.n(4000, 40000), self.consts)[: self.n(20000, 70000)]
            self.run(({"op": "big", "fmt": f, "ws": st(w)} for w in ps), o.j_bigframe)
        for f in FL:
            self.run(({"op": "enc", "fmt": f, "x": x} for x in bigs(f, self.rng, self.n(4000, 40000), self.consts)), o.j_encframe)
            for w in (32, 64):
                self.run(({"op": "from%d" % w, "fmt": f, "bits": str(b)} for b in floats(w, self.rng, self.n(2000, 20000), self.consts)),
                         o.j_globals)
        for n in (16, 32, 64):
            self.run(({"op": "isexact", "n": n, "x": x} for x in exactbigs(n, self.rng, self.n(2000, 20000), self.consts)), j_exactframe)

    def C17(self):
        nm = self.named()
        self.run(({"op": "named", "fmt": f} for f in FL), o.j_named)
        for f in FL:
            reqs, want = [], []
            for i, (k, neg) in zip((2, 3, 4, 5), (("inf", False), ("inf", True), ("zero", False), ("zero", True))):
                for mode in range(6):
                    for pr in (0, 1, 11, 53, 64, 113, 5000):
                        reqs.append({"op": "enc", "fmt": f, "x": o.reqbig(V(k, neg), pr, mode)})
                        want.append(nm[f][i])
            it = iter(want)

            def j(q, a):
                w = next(it)
                return o.bad(a) or (None if a["ws"] == w else "encodes to %s, not the named value %s" % (a["ws"], w))
            self.run(reqs, j)


def exactbigs(n, rng, cnt, consts):
    fmt = {16: "binary16", 32: "f32", 64: "f64"}[n]
    p, bias, eb, _ = o.FMTS[fmt]
    out = bigs(fmt, rng, cnt // 2, consts)
    while len(out) < cnt:
        # representable values
        e = rng.randrange((1 << eb) - 1)
        f = rbits(rng, p - 1)
        if rng.random() < .5:
            f = f >> (p - 5) << (p - 5)
        v = o.decode(fmt, [rng.getrandbits(1) << (eb + p - 1) | e << (p - 1) | f])
        out.append(o.reqbig(v, rng.choice([1, 11, 24, 53, 64, 300]), rng.randrange(6), rng.choice([0, 0, 1, -1])))
    # small decimals
    for _ in range(cnt // 4):
        m, t = rng.randrange(1, 100000), rng.randrange(0, 12)
        out.append(o.reqbig(V("fin", bool(rng.getrandbits(1)), m, -t), rng.choice([1, 24, 53, 100]), rng.randrange(6)))
    return out


def j_exactframe(q, a):
    if "panic" in a or "crash" in a:
        return None
    if o.bad(a):
        return o.bad(a)
    if a["arg"] != a["arg0"]:
        return "argument changed from %s to %s" % (a["arg0"], a["arg"])
    if a["r"] != a["r2"]:
        return "second call differs"


import textsearch as _t                          # noqa: E402
for _k, _f in _t.SEARCH.items():
    setattr(Search, _k, _f)
PROPJUDGES = _t.PROPJUDGES
