"""Compares the assumed contracts of the library functions, and the semantics
given to the Go language, with the compiled code.

Every function of /verif/conform/lib runs on sampled arguments three times:
compiled, by the verifier with constant arguments, and by the verifier with
one or all arguments symbolic and assumed equal to the constants (the paths
through the contracts differ).  The results have to be the same.

  conformance.py [samples per function] [function ...]
"""
import multiprocessing as mp
import os
import random
import resource
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import runner                                    # noqa: E402

DIR = os.path.join(runner.VERIF, "conform")
LIMIT = 20
LIB = "github.com/mewmew/float/conform/lib."


def samples(n, seed):
    rng = random.Random(seed)

    def word():
        k = rng.randrange(8)
        if k == 0:
            return rng.choice([0, 1, 2, 3, (1 << 63), (1 << 64) - 1, (1 << 63) - 1, 1 << 32, (1 << 32) - 1, 1 << 53, (1 << 53) + 1,
                               0x7FF << 52, 0xFFF << 52, 1 << 52, 0x3FF << 52, (1 << 52) - 1])
        if k < 3:
            return rng.getrandbits(rng.randrange(1, 65))
        if k == 3:
            return rng.getrandbits(rng.randrange(1, 12)) << rng.randrange(52)
        if k == 4:          # a float64 near the range of interest
            return rng.getrandbits(1) << 63 | (rng.randrange(-160, 160) + 1023) << 52 | rng.getrandbits(52)
        if k == 5:
            return rng.getrandbits(1) << 63 | rng.randrange(2048) << 52 | rng.getrandbits(rng.randrange(1, 53))
        return rng.getrandbits(64)
    return [(word(), word(), word()) for _ in range(n)]


def one(arg):
    """Runs one function on one argument vector; returns what differs."""
    ssa, fn, cases = arg
    import exec as X
    import ext
    import floats
    import num
    import verify
    import core
    from core import query
    from fmtspec import memo_fresh
    P = X.Prog(ssa)
    out = []
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

    def onalarm(*a):
        raise core.Unsupported("time budget")
    signal.signal(signal.SIGALRM, onalarm)
    for args, want in cases:
        for symbolic in (0, 1, 3):
            num.MEMO.clear()
            M = X.Machine(P, ext=ext.EXT, opaque_types={"math/big.Float": floats.BF, "math/big.Int": floats.BI})
            M.mod = "github.com/mewmew/float/conform/"
            M.init_globals()
            hit = [False]

            def setup(M):
                if not symbolic:
                    return list(args)
                vs = [memo_fresh("arg%d" % i, 0, (1 << 64) - 1) if i < symbolic else args[i] for i in range(3)]
                for v, a in list(zip(vs, args))[:symbolic]:
                    M.S.assume(num.cmp(v, "==", a))
                return vs

            def post(M, _, o, ob):
                if symbolic:
                    # a path that is not really possible may be followed: the
                    # paths together must admit the result
                    if want is None:
                        hit[0] |= o[0] == "panic"
                    elif o[0] == "ret":
                        eqs = [num.cmp(o[1][i], "==", w) for i, w in enumerate(want)]
                        if not any(e is False for e in eqs):
                            r, _ = query(M.S.pc, [e for e in eqs if e is not True], 10000, slice_=False)
                            hit[0] |= r != "unsat"
                    ob("followed", True)
                    return
                if want is None:
                    ob("panics", o[0] == "panic")
                    return
                ob("returns", o[0] == "ret", str(o)[:100])
                if o[0] != "ret":
                    return
                for i, w in enumerate(want):
                    ob("result %d is %d" % (i, w), num.cmp(o[1][i], "==", w), str(o[1][i])[:100])
            signal.alarm(LIMIT)
            try:
                r = verify.verify(M, LIB + fn, "", setup, post)
            except core.Unsupported as e:
                r = verify.Report(fn, "")
                r.error = str(e)
            finally:
                signal.alarm(0)
            if r.error:
                out.append((fn, args, symbolic, "unsupported", r.error[:200]))
            elif symbolic and not hit[0]:
                out.append((fn, args, symbolic, "differs", "no path admits the result"))
            elif not r.ok():
                out.append((fn, args, symbolic, "differs", "%s %s" % ([(f.name, f.detail) for f in r.failures[:3]], r.vacuous)))
            else:
                out.append((fn, args, symbolic, "same", ""))
    return out


def main(argv):
    t0 = time.time()
    n = int(argv[0]) if argv else 40
    os.makedirs(runner.BUILD, exist_ok=True)
    exe, ssa = os.path.join(runner.BUILD, "conform"), os.path.join(runner.BUILD, "conform.json")
    r = runner.sh(["go", "build", "-o", exe, "."], DIR)
    if r.returncode:
        sys.exit(r.stderr)
    fe = runner.build_frontend()
    r = runner.sh([fe, "-dir", os.path.join(DIR, "lib"), "-o", ssa], DIR)
    if r.returncode:
        sys.exit(r.stderr)
    fns = argv[1:] or sorted(l.split("(")[0].split()[1] for l in open(os.path.join(DIR, "lib", "lib.go")) if l.startswith("func T"))
    reqs = [(f, a) for f in fns for a in samples(n, f)]
    p = subprocess.run([exe], input="".join("%s %d %d %d\n" % ((f,) + a) for f, a in reqs), capture_output=True, text=True, check=True)
    ans = [None if l == "panic" else [int(x) for x in l.split()] for l in p.stdout.splitlines()]
    by = {}
    for (f, a), w in zip(reqs, ans):
        by.setdefault(f, []).append((a, w))
    jobs = [(ssa, f, cs[i:i + 8]) for f, cs in sorted(by.items()) for i in range(0, len(cs), 8)]
    count = {}
    with mp.get_context("fork").Pool(8, maxtasksperchild=4) as pool:
        for res in pool.imap_unordered(one, jobs):
            for fn, args, sym, what, msg in res:
                c = count.setdefault(fn, {})
                c[what] = c.get(what, 0) + 1
                if what == "differs" or what == "unsupported" and c[what] <= 2:
                    print("%s%s %s: %s: %s" % (fn, args, "%d symbolic" % sym, what, msg))
    bad = sum(c.get("differs", 0) for c in count.values())
    for fn, c in sorted(count.items()):
        if len(c) > 1 or "same" not in c:
            print("  %-16s %s" % (fn, c))
    print("conformance: %d functions, %d runs the same, %d different, %d outside the contracts, %.0f s" %
          (len(count), sum(c.get("same", 0) for c in count.values()), bad, sum(c.get("unsupported", 0) for c in count.values()), time.time() - t0))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
