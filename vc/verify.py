"""Verification of one function against its contract: obligations."""
import os
import time
import traceback
import z3
import num
from num import L, zand, znot
import core
from core import State, Fork, Dead, GoPanic, Unsupported, query, TIMEOUT, STATS
from exec import Machine, Ptr, Prog
from floats import BF, BI, F, magdiff


class Failure:
    def __init__(self, name, status, detail, model=None, pc=None, args=None, env=None):
        self.name, self.status, self.detail = name, status, detail
        self.model, self.pc, self.args, self.env = model, pc, args, env


class Report:
    """Outcome of the obligations of one contract case."""

    def __init__(self, fn, case):
        self.fn, self.case = fn, case
        self.loops = {}          # loop cut by an invariant -> how its integers move
        self.counts = {}         # clause -> [generated, discharged]
        self.failures = []
        self.paths = 0
        self.error = None
        self.wall = 0.0
        self.queries = 0
        self.solver_s = 0.0
        self.backs = {}
        self.inlined = []
        self.exts = []
        self.contracts = []
        self.vacuous = None

    def ok(self):
        return self.error is None and not self.failures and self.vacuous is None


class Oblig:
    def __init__(self, M, S, rep, maxfail=8):
        self.M, self.S, self.rep, self.maxfail = M, S, rep, maxfail
        self.local = []

    def __call__(self, name, cond, detail=""):
        self.local.append((name, cond, detail))


def feq(M, a, b):
    """Equality of two float64/float32 values (NaNs by sign only unless both carry bits)."""
    if a.kind == b.kind == "bits":
        return num.cmp(a.b, "==", b.b)
    if a.kind == b.kind == "rnd" and a.w == b.w and a.neg == b.neg and a.mag.key == b.mag.key:
        return True
    a, b = a.classify(M), b.classify(M)
    if a.kind != b.kind or a.neg != b.neg:
        return False
    if a.kind == "fin":
        return num.cmp(magdiff(M, a.mag, b.mag), "==", 0)
    return True


def bfeq(M, a, b):
    """Same value (sign, form, magnitude); precision, mode, accuracy not compared."""
    if a.form != b.form or a.neg != b.neg:
        return False
    if a.form != 1:
        return True
    if a.mag.key == b.mag.key:
        return True
    return num.cmp(magdiff(M, a.mag, b.mag), "==", 0)


def verify(M, fn, case, setup, post, concretize=None, budget=None, cover=True):
    """setup(M) -> args ; post(M, args, out, ob)."""
    rep = Report(fn, case)
    t0 = time.time()
    q0, s0 = STATS.queries, STATS.time
    M.inlined, M.used_ext, M.used_contracts = set(), set(), set()
    first = [True]
    M.rep = rep

    def _setup(S):
        args = setup(M)
        S = M.S
        S.args = args
        S.env["nobj0"] = S.nobj
        S.env["heap0"] = dict(S.heap)
        S.written = frozenset()
        if fn is not None:
            if fn not in M.p.funcs:
                raise Unsupported("function %s does not exist" % fn)
            M.start(fn, args)
        else:
            S.out = ("ret", None)

    def _post(S):
        if budget and time.time() - t0 > budget:
            raise Unsupported("time budget")
        ob = Oblig(M, S, rep)
        post(M, S.args, S.out, ob)
        S = M.S
        if S.written:
            ob("frame: package-level variables unchanged", False, "writes a package-level variable")
        rep.paths += 1
        if first[0] and cover:
            r, _ = query(S.pc, [], TIMEOUT["prove"], slice_=False)
            if r == "unsat":
                raise Dead()
            if r == "sat":
                first[0] = False
        for name, cond, detail in ob.local:
            c = rep.counts.setdefault(name, [0, 0])
            c[0] += 1
            if cond is True:
                c[1] += 1
                continue
            if isinstance(cond, bool):
                goal = []
            else:
                k = S.known(cond)
                if k is True:
                    c[1] += 1
                    continue
                goal = [znot(cond)]
            if goal:
                r, _ = query(S.pc, goal, TIMEOUT["prove"])
                if r == "unsat":
                    c[1] += 1
                    continue
            # re-check against the whole path condition, with a model
            r, m = query(S.pc, goal, TIMEOUT["prove"], want_model=True, slice_=False)
            if r == "unsat":
                c[1] += 1
                continue
            if len(rep.failures) < 12:
                f = Failure(name, r, detail, m, list(S.pc), S.args, dict(S.env))
                f.input = None
                f.out = repr(S.out)[:300]
                if m is not None and concretize:
                    try:
                        f.input = concretize(M, m, S.args)
                    except Exception as e:
                        f.input = None
                        f.detail += " (no concrete input: %s)" % e
                f.model = None
                rep.failures.append(f)
            else:
                rep.failures.append(Failure(name, r, detail))
                if len(rep.failures) > 60:
                    raise Unsupported("too many failed obligations")

    try:
        rep_paths = M.explore(M.newstate(), _setup, _post)
        import loops
        loops.ranking(rep)
        if rep.paths == 0 or not rep.counts:
            rep.vacuous = "no path reaches the postcondition"
        elif cover and first[0]:
            rep.vacuous = "no path was shown reachable"
    except Unsupported as e:
        fr = getattr(M, "fr", None)
        where = ""
        if fr is not None:
            try:
                ins = fr.fn["blocks"][fr.bi]["ins"][fr.ii]
                where = " at %s:%s" % (fr.fn["name"], ins.get("line"))
            except Exception:
                where = " in " + fr.fn["name"]
        rep.error = "unsupported: %s%s" % (e, where)
    except RecursionError:
        rep.error = "recursion limit"
    except Exception as e:
        rep.error = "internal: %s\n%s" % (e, traceback.format_exc()[-1500:])
    rep.wall = time.time() - t0
    rep.queries = STATS.queries - q0
    rep.solver_s = STATS.time - s0
    rep.backs = dict(STATS.byback)
    rep.inlined = sorted(M.inlined)
    rep.exts = sorted(M.used_ext)
    rep.contracts = sorted(M.used_contracts)
    return rep


def multi(fn, case, cases):
    """Several contract cases verified one after another as one task."""
    def run(M):
        tot = Report(fn, case)
        for c in cases:
            c = c() if callable(c) else c
            r = verify(M, *c)
            for k, v in r.counts.items():
                t = tot.counts.setdefault(k, [0, 0])
                t[0] += v[0]
                t[1] += v[1]
            for f in r.failures:
                f.detail = "%s (%s): %s" % (r.fn, r.case, f.detail)
            tot.failures += r.failures
            tot.paths += r.paths
            tot.wall += r.wall
            tot.queries += r.queries
            tot.solver_s += r.solver_s
            tot.backs = r.backs
            for a in ("inlined", "exts", "contracts"):
                setattr(tot, a, sorted(set(getattr(tot, a)) | set(getattr(r, a))))
            for a in ("error", "vacuous"):
                if getattr(r, a) and not getattr(tot, a):
                    setattr(tot, a, "%s (%s): %s" % (r.fn, r.case, getattr(r, a)))
            if r.error and "time budget" in r.error:
                break
        return tot
    return run


# ------------------------------------------------------------------ models

def ev(m, x):
    """Value of a number in a model (int or Fraction)."""
    from fractions import Fraction
    if not isinstance(x, L):
        return x
    r = Fraction(0) + x.c
    for i, k in x.ts:
        v = m.eval(num.ATOMS[i].z, model_completion=True)
        if z3.is_int_value(v):
            q = v.as_long()
        elif z3.is_rational_value(v):
            q = Fraction(v.numerator_as_long(), v.denominator_as_long())
        else:
            v = v.approx(30)
            q = Fraction(v.numerator_as_long(), v.denominator_as_long())
        r += k * q
    return num.nrm(r)
