"""Contracts of standard library functions discharged on the library's own
source (GOROOT/src, through the same front end), instead of being assumed: the postcondition is the contract the
executor uses at call sites (ext.py).  The four bit conversions of math are the
language's reinterpretation of a float and stay assumed.

  python3-vt vc/stdlib.py      verify them all
A contract that cannot be discharged only stays in the list of assumed ones."""
import os
import sys
import num
from fmtspec import memo_fresh
from floats import F


def f64(M, name="f"):
    s, e, f = (memo_fresh(name + n, 0, h) for n, h in (("_s", 1), ("_e", 2047), ("_f", (1 << 52) - 1)))
    return F(64, "bits", b=num.add(num.add(num.scale(s, 1 << 63), num.scale(e, 1 << 52)), f))


def u(w, lo=0):
    return lambda M: [memo_fresh("x%d" % w, lo, (1 << w) - 1)]


def sign(M):
    return memo_fresh("sign", -(1 << 63), (1 << 63) - 1)


ARGS = {
    "math.IsNaN": lambda M: [f64(M)],
    "math.IsInf": lambda M: [f64(M), sign(M)],
    "math.Signbit": lambda M: [f64(M)],
    "math.NaN": lambda M: [],
    "math.Inf": lambda M: [sign(M)],
    "math.Abs": lambda M: [f64(M)],
    "math.Copysign": lambda M: [f64(M), f64(M, "g")],
    "math/bits.Len64": u(64), "math/bits.Len32": u(32), "math/bits.Len16": u(16), "math/bits.Len8": u(8), "math/bits.Len": u(64),
    "math/bits.LeadingZeros64": u(64), "math/bits.LeadingZeros32": u(32), "math/bits.LeadingZeros16": u(16), "math/bits.LeadingZeros": u(64),
}
# the function whose contract its body may use (discharged as well)
USES = {"math/bits.LeadingZeros%s" % s: "math/bits.Len" + s for s in ("", "64", "32", "16")}
KEEP = {"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits"}


BIG = "(*math/big.Float)."
BIGARGS = {"Acc": (), "Mode": (), "Prec": (), "Signbit": (), "Sign": (), "IsInf": (),
           "SetMode": ("mode",), "SetInf": ("bool",)}
ARGS.update({BIG + n: None for n in BIGARGS})


def verify_big(name, prog):
    """Methods of big.Float that look at or set single fields, on the struct as
    math/big declares it: related to the executor's abstract number by its
    fields prec, mode, acc, form and neg (mantissa and exponent are not met)."""
    import ext
    import exec as X
    import verify
    from decspec import boolvar
    from floats import BF, Mag
    M = X.Machine(prog)
    M.mod = "math/big"
    M.baseheap, M.basenobj, M.globset = {}, 0, frozenset()
    tid = next(i for i, t in enumerate(prog.types) if t["k"] == "named" and t["s"] == "math/big.Float")
    names = prog.und(tid)["names"]
    F5 = ("prec", "mode", "acc", "form", "neg")

    def setup(M):
        S = M.S
        v = dict(zip(names, M.zero(tid)))
        v.update(prec=memo_fresh("b_prec", 0, (1 << 32) - 1), mode=memo_fresh("b_mode", 0, 5), acc=memo_fresh("b_acc", -1, 1),
                 form=S.concretize(memo_fresh("b_form", 0, 2)), neg=S.br(boolvar("b_neg")), exp=memo_fresh("b_exp", -(1 << 31), (1 << 31) - 1))
        S.env["v"] = v
        extra = [memo_fresh("mode_arg", 0, 5) if a == "mode" else boolvar("bool_arg") for a in BIGARGS[name[len(BIG):]]]
        return [X.Ptr(S.alloc(tuple(v[n] for n in names)))] + extra

    def post(M, args, out, ob):
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        S = M.S
        v = S.env["v"]
        mag = Mag(memo_fresh("b_m", 0, 1, "real"), v["exp"]) if v["form"] == 1 else None
        q = X.Ptr(S.alloc(BF(*[v[n] for n in F5], mag)))
        want = ext.EXT[name](M, q, *args[1:])
        if isinstance(want, X.Ptr):
            ob("the receiver is returned", want == q and out[1] == args[0])
        else:
            ob("the contract used at call sites", same(M, out[1], want), "%r vs %r" % (out[1], want))
        a, b = dict(zip(names, S.heap[args[0].obj])), S.heap[q.obj]
        for n in F5:
            ob("field " + n, same(M, a[n], getattr(b, n)), "%r vs %r" % (a[n], getattr(b, n)))
        if b.form == 1:
            ob("mantissa and exponent are kept", a["exp"] is v["exp"] and a["mant"] is v["mant"] and b.mag is mag)
    return verify.verify(M, name, "library source", setup, post)


def same(M, a, b):
    if isinstance(a, F):
        return num.cmp(a.bits(M), "==", b.bits(M))
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, (int, num.L)) and not isinstance(a, bool):
        return num.cmp(a, "==", b)
    return M.S.br(a) == M.S.br(b)


def verify_one(name, prog):
    import ext
    import exec as X
    import verify
    if name.startswith(BIG):
        return verify_big(name, prog)
    keep = KEEP | {USES.get(name)}
    M = X.Machine(prog, contracts={k: v for k, v in ext.EXT.items() if k in keep})
    M.mod = name.rsplit(".", 1)[0]
    M.baseheap, M.basenobj, M.globset = {}, 0, frozenset()

    def post(M, args, out, ob):
        ob("no panic", out[0] == "ret", str(out))
        if out[0] != "ret":
            return
        want = ext.EXT[name](M, *args)
        ob("the contract used at call sites", same(M, out[1], want), "%r vs %r" % (out[1], want))
    return verify.verify(M, name, "library source", ARGS[name], post)


def dump(dst):
    import runner
    r = runner.sh([runner.build_frontend(), "-dir", runner.REPO, "-o", dst, "math", "math/bits", "math/big"], runner.REPO)
    return r.returncode == 0


def discharge(names, dst):
    """Those of the library contracts that hold of the library's source."""
    import exec as X
    try:
        names = [n for n in names if n in ARGS]
        todo = sorted(set(names) | {USES[n] for n in names if n in USES})
        if not todo or not dump(dst):
            return {}
        prog = X.Prog(dst)
        rs = {n: verify_one(n, prog) for n in todo}
        return {n: r for n, r in rs.items() if r.ok() and (n not in USES or rs[USES[n]].ok())}
    except Exception as e:
        print("library contracts not discharged: %s" % e, file=sys.stderr)
        return {}


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import exec as X
    dst = "/tmp/stdlib-ssa.json"
    dump(dst)
    prog = X.Prog(dst)
    for n in sorted(ARGS):
        r = verify_one(n, prog)
        print(n, "discharged" if r.ok() else "NOT", r.counts, r.error or "", [(f.name, f.detail) for f in r.failures[:2]], "%.1f s" % r.wall)
    os.remove(dst)
