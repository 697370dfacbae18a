"""Symbolic states, path conditions and the solver interface."""
import os
import subprocess
import tempfile
import time
from fractions import Fraction
import z3
import num
from num import L, ATOMS, zb, znot, zand

z3.set_param("smt.random_seed", 0)


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class Dead(Exception):
    """The path condition is unsatisfiable."""


class GoPanic(Exception):
    def __init__(self, msg):
        self.msg = msg


class Unsupported(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.byback = {}


STATS = Stats()
TIMEOUT = {"feas": 5000, "prove": 20000}
DEADLINE = [None]

_fa = {}


def free_atoms(e):
    """ids of the atoms occurring in a z3 expression."""
    i = e.get_id()
    r = _fa.get(i)
    if r is not None:
        return r[0]
    s = set()
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        c = _fa.get(xi)
        if c is not None:
            s |= c[0]
            continue
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                k = n.rfind("!")
                if k >= 0:
                    s.add(int(n[k + 1:]))
        elif z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    r = frozenset(s)
    _fa[i] = (r, e)
    return r


_closure = {}


def closure(ids):
    """All atoms reachable through definitions."""
    out = set()
    stack = list(ids)
    while stack:
        i = stack.pop()
        if i in out:
            continue
        out.add(i)
        n = len(ATOMS[i].defs)
        c = _closure.get(i)
        if c is None or c[0] != n:
            s = set()
            for d in ATOMS[i].defs:
                s |= free_atoms(d)
            c = (n, s)
            _closure[i] = c
        stack.extend(c[1] - out)
    return out


def relevant(pc, goal):
    """Constraints of pc connected to goal (sound for unsat; complete when the
    rest of pc is satisfiable, which path feasibility maintains)."""
    gids = closure(set().union(*[free_atoms(g) for g in goal])) if goal else set()
    rest = [(c, closure(free_atoms(c))) for c in pc]
    take = [False] * len(rest)
    changed = True
    while changed:
        changed = False
        for n, (c, ids) in enumerate(rest):
            if not take[n] and (not ids or ids & gids):
                take[n] = True
                gids |= ids
                changed = True
    return [c for n, (c, ids) in enumerate(rest) if take[n]], gids


_qcache = {}


def query(pc, goal, timeout, want_model=False, slice_=True):
    """Satisfiability of pc and goal (lists of z3 booleans) with definitions."""
    if slice_:
        cs, ids = relevant(pc, goal)
    else:
        cs = list(pc)
        ids = closure(set().union(*[free_atoms(g) for g in cs + list(goal)])) if cs or goal else set()
    k = (frozenset(c.get_id() for c in cs), frozenset(g.get_id() for g in goal))
    c = _qcache.get(k)
    if c is not None and not want_model and (c[0] != "unknown" or c[3] >= timeout):
        return c[0], None
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        return "unknown", None
    s = z3.Solver()
    quick = timeout >= TIMEOUT["prove"] and not want_model
    s.set("timeout", 2500 if quick else timeout)
    for x in cs:
        s.add(x)
    for x in goal:
        s.add(x)
    for i in sorted(ids):
        for d in ATOMS[i].defs:
            s.add(d)
    t = time.time()
    r = str(s.check())
    STATS.queries += 1
    STATS.time += time.time() - t
    m = s.model() if r == "sat" and want_model else None
    back = "z3-%s" % z3.get_version_string()
    if r == "unknown" and quick:
        t = time.time()
        r2 = fallback(s, timeout // 2)
        if r2 in ("sat", "unsat"):
            r, back = r2, "cvc5"
        else:
            s.set("timeout", timeout)
            r = str(s.check())
        STATS.time += time.time() - t
    if r == "unknown":
        STATS.unknown += 1
    STATS.byback[back] = STATS.byback.get(back, 0) + 1
    _qcache[k] = (r, cs, list(goal), timeout)
    return r, m


def fallback(s, timeout):
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + s.to_smt2())
            fn = f.name
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, fn], capture_output=True, text=True,
                           timeout=timeout / 1000 + 5)
        return p.stdout.strip().split("\n")[0]
    except Exception:
        return "unknown"
    finally:
        try:
            os.unlink(fn)
        except Exception:
            pass


class Frame:
    __slots__ = ("fn", "bi", "ii", "regs", "prev", "ret", "defers", "cut")

    def __init__(self, fn, ret=None):
        self.fn = fn
        self.bi = 0
        self.ii = 0
        self.regs = {}
        self.prev = None
        self.ret = ret
        self.defers = ()
        self.cut = {}

    def copy(self):
        f = Frame(self.fn, self.ret)
        f.bi, f.ii, f.prev, f.defers = self.bi, self.ii, self.prev, self.defers
        f.regs = dict(self.regs)
        f.cut = dict(self.cut)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.heap = {}
        self.pc = []
        self.dec = {}
        self.nobj = 0
        self.out = None          # ('ret', value) or ('panic', msg)
        self.steps = 0
        self.trace = ()
        self.written = frozenset()   # global objects written
        self.loopcut = None
        self.phase = 0
        self.args = None
        self.env = {}

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.dec = dict(self.dec)
        s.nobj = self.nobj
        s.out = self.out
        s.steps = self.steps
        s.trace = self.trace
        s.written = self.written
        s.loopcut = self.loopcut
        s.phase = self.phase
        s.args = self.args
        s.env = dict(self.env)
        return s

    # ----- logic
    def assume(self, c):
        if c is True or c is None:
            return
        if c is False:
            raise Dead()
        self.pc.append(c)
        self.decide(c, True)

    def decide(self, c, v):
        while z3.is_not(c):
            c, v = c.arg(0), not v
        self.dec[c.get_id()] = (v, c)
        if v and z3.is_and(c):
            for x in c.children():
                self.decide(x, True)
        if not v and z3.is_or(c):
            for x in c.children():
                self.decide(x, False)

    def known(self, c):
        if isinstance(c, bool):
            return c
        v = True
        while z3.is_not(c):
            c, v = c.arg(0), not v
        d = self.dec.get(c.get_id())
        return None if d is None else (d[0] == v)

    def feasible(self, c):
        if isinstance(c, bool):
            return c
        r, _ = query(self.pc, [c], TIMEOUT["feas"])
        return r != "unsat"

    def br(self, c):
        """Python truth of c on this path, forking when both are possible."""
        k = self.known(c)
        if k is not None:
            return k
        if not self.feasible(c):
            self.decide(c, False)
            self.pc.append(znot(c))
            return False
        if not self.feasible(znot(c)):
            self.decide(c, True)
            self.pc.append(c)
            return True
        raise Fork([c, znot(c)])

    def proves(self, c, timeout=None):
        """True only if pc entails c (quietly; used to pick a reasoning path)."""
        k = self.known(c)
        if k is not None:
            return k
        r, _ = query(self.pc, [znot(c)], timeout or TIMEOUT["feas"])
        if r == "unsat":
            self.decide(c, True)
        return r == "unsat"

    def rng(self, x):
        """Integer bounds of x under the path condition (tight when the solver
        answers; always sound)."""
        if not isinstance(x, L):
            return x, x
        kk = ("rng", num.key(x), len(self.pc))
        c = self.dec.get(kk)
        if c:
            return c
        lo, hi = num.lo(x), num.hi(x)

        def search(sign):
            b = hi if sign > 0 else lo
            # gallop from any feasible value
            r, m = query(self.pc, [], TIMEOUT["feas"], want_model=True, slice_=False)
            if r != "sat":
                return b
            v = m.eval(num.z(x), model_completion=True)
            v = v.as_long() if z3.is_int_value(v) else Fraction(v.numerator_as_long(), v.denominator_as_long()).__floor__()
            step = 1
            # invariant: sign*(x) can reach v
            while True:
                w = v + sign * step
                c = (w <= x) if sign > 0 else (x <= w)
                if c is False or (c is not True and query(self.pc, [c], TIMEOUT["feas"])[0] == "unsat"):
                    break
                v = w
                step *= 2
                if step > 1 << 80:
                    return b
            a, bnd = v, v + sign * step      # bnd infeasible
            while abs(bnd - a) > 1:
                w = (a + bnd) // 2
                c = (w <= x) if sign > 0 else (x <= w)
                if c is False or (c is not True and query(self.pc, [c], TIMEOUT["feas"])[0] == "unsat"):
                    bnd = w
                else:
                    a = w
            return a
        r = (search(-1), search(1))
        self.dec[kk] = r
        return r

    def concretize(self, x, limit=4200):
        """A concrete value of integer x on this path (forks over all values)."""
        if not isinstance(x, L):
            return x
        kk = ("conc", num.key(x))
        c = self.dec.get(kk)
        if c is not None:
            return c
        lo, hi = num.lo(x), num.hi(x)
        if lo is None or hi is None or hi - lo > 70:
            lo, hi = self.rng(x)
        if lo is None or hi is None or hi - lo > limit:
            raise Unsupported("case split over too many values")
        if lo == hi:
            if self.proves(x == lo):
                self.dec[kk] = lo
                return lo
        for v in range(lo, hi + 1):
            c = (x == v)
            if self.known(c) is True or c is True:
                self.dec[kk] = v
                return v
        # binary forking keeps the number of queries low
        mid = (lo + hi) // 2
        while hi > lo:
            mid = (lo + hi) // 2
            if self.br(x <= mid):
                hi = mid
            else:
                lo = mid + 1
        self.dec[kk] = lo
        return lo

    # ----- heap
    def alloc(self, v):
        self.nobj += 1
        self.heap[self.nobj] = v
        return self.nobj
