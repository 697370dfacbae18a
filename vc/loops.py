"""Loop invariants: loops are cut at their headers.

At the entry of the loop the invariant is an obligation; then the variables the
loop stores to are forgotten, the invariant is assumed, and one iteration (or
the exit) is followed; at the back edge the invariant is an obligation again.

An invariant object provides
  vars                the source names of the local variables the loop stores to
  applies(M, V)       (optional) whether this is the loop it was written for
  enter(M, V)         ghost state at the entry (V: the variables)
  havoc(M, V, g)      new variables and ghosts (and heap) of an arbitrary
                      iteration; assumes whatever holds by definition
  inv(M, V, g)        list of (name, condition)
  next(M, V, g0, V0)  ghosts after the iteration that started in g0, V0
  step(M, V, V0)      (optional) measures of its own, as (name, condition that
                      the iteration from V0 to V brought it down)
"""
import num
from num import znot
from core import Fork, Dead, Unsupported, query, TIMEOUT
import seqs


class Vars:
    """The variables of a frame, by source name."""

    def __init__(self, M, S, fr, regs):
        al = seqs.local_allocs(fr.fn)
        self.cells = {}
        for r, (b, name, t) in al.items():
            if r in fr.regs:
                self.cells.setdefault(name, []).append(fr.regs[r])
        self.named = {n: fr.regs[r] for n, r in regs.items()}
        self.M, self.S = M, S

    def ptr(self, n):
        if n in self.named:
            return self.named[n]
        c = self.cells.get(n)
        if not c:
            raise Unsupported("no variable " + n)
        return max(c, key=lambda p: p.obj)

    def __getitem__(self, n):
        return self.M.load(self.ptr(n))

    def __setitem__(self, n, v):
        self.M.store(self.ptr(n), v)

    def snapshot(self):
        return {n: self[n] for n in set(self.cells) | set(self.named)}


def prove(M, obs):
    """Discharge obligations met during execution."""
    from verify import Failure
    rep = M.rep
    for name, c in obs:
        k = rep.counts.setdefault(name, [0, 0])
        k[0] += 1
        if c is True or not isinstance(c, bool) and M.S.known(c) is True:
            k[1] += 1
            continue
        goal = [] if c is False else [znot(c)]
        r, _ = query(M.S.pc, goal, TIMEOUT["prove"])
        if r == "unsat":
            k[1] += 1
            continue
        r, _ = query(M.S.pc, goal, TIMEOUT["prove"], slice_=False)
        if r == "unsat":
            k[1] += 1
            continue
        f = Failure(name, r, str(c)[:300])
        f.input, f.out = None, None
        rep.failures.append(f)
        if len(rep.failures) > 20:
            raise Unsupported("too many failed obligations")


# ------------------------------------------------------------- termination

def line(fn, bi):
    return next((i["line"] for i in fn["blocks"][bi]["ins"] if i.get("line")), 0)


def relation(M, new, old, ask):
    d = num.sub(new, old)
    if not isinstance(d, num.L):
        return "=" if d == 0 else ">" if d > 0 else "<"
    for r, c in (("<", num.cmp(new, "<", old)), (">", num.cmp(new, ">", old)), ("=", num.cmp(new, "==", old))):
        if c is True or not isinstance(c, bool) and M.S.known(c) is True:
            return r
        if ask and c is not False and query(M.S.pc, [znot(c)], TIMEOUT["feas"])[0] == "unsat":
            return r
    return "?"


def progress(M, key, ln, objs, heap, extra):
    """How the integers of the loop (its variables, and the integer fields of
    the objects its invariant describes) move in an iteration that comes round:
    ranking() looks for a lexicographic order in which all iterations descend.
    Go's integers are bounded, and the values compared here are those after
    wrapping: what moves in one direction only cannot do so for ever."""
    S = M.S

    def ints(o):
        a, b = heap.get(o), S.heap.get(o)
        if isinstance(a, tuple) and isinstance(b, tuple):
            prs = [((i,), x, y) for i, (x, y) in enumerate(zip(a, b))]
        else:
            prs = [((), a, b)]
        return [(i, x, y) for i, x, y in prs if all(isinstance(z, (int, num.L)) and not isinstance(z, bool) for z in (x, y))]
    cand = [((n,) + i, x, y) for n, o in objs for i, x, y in ints(o)]
    rel = {}
    for ask in (False, True):
        for n, x, y in cand:
            if rel.get(n, "?") == "?":
                rel[n] = relation(M, y, x, ask)
        if any(r in "<>" for r in rel.values()):
            break
    for n, c in extra:
        ok = c is True or not isinstance(c, bool) and query(S.pc, [znot(c)], TIMEOUT["prove"])[0] == "unsat"
        rel[n] = "<" if ok else "?"
    M.rep.loops.setdefault(key, (ln, []))[1].append(rel)


def ranking(rep):
    """One obligation per loop: no infinite run."""
    from verify import Failure
    for (fn, bi, _), (ln, rels) in rep.loops.items():
        k = rep.counts.setdefault("loops terminate (ranking found)", [0, 0])
        k[0] += 1
        rest = list(rels)
        while rest:
            for n in rest[0]:
                vals = {r.get(n, "?") for r in rest}
                if vals <= {"<", "="} and "<" in vals or vals <= {">", "="} and ">" in vals:
                    rest = [r for r in rest if r.get(n) == "="]
                    break
            else:
                break
        if not rest:
            k[1] += 1
            continue
        f = Failure("loop at %s:%s terminates" % (fn, ln), "unknown", "no ranking: %s" % rest[:3])
        f.input, f.out = None, None
        rep.failures.append(f)


def consistent(M):
    """Assumptions of a contract or an invariant must not contradict the path."""
    r, _ = query(M.S.pc, [], TIMEOUT["feas"], slice_=False)
    if r == "unsat":
        raise Unsupported("contradictory assumptions")


def match(M, fn):
    """Which loops of fn the invariants registered for it (or, for a function
    that is not one of the code as it was when the invariants were written, for
    the function that calls it) belong to: header -> (invariant, variable of
    the invariant -> register).  An invariant is only a hint, whatever loop it
    is matched with: its obligations are checked for that loop."""
    key = ("invmatch", fn["name"], id(M.invs))
    c = M.p.loops.get(key)
    if c is not None:
        return c[0]
    out = {}
    own = fn["name"] in M.invs
    if own:
        todo = sorted(M.invs[fn["name"]].items(), key=lambda kv: kv[0][0])
    elif fn["name"].lstrip("(*").startswith(M.mod) and fn["name"] not in known():
        todo = [kv for d in M.invs.values() for kv in sorted(d.items(), key=lambda kv: kv[0][0]) if kv[0][1] or hasattr(kv[1], "applies")]
    else:
        todo = []
    if todo:
        lp = seqs.natloops(M, fn)
        al = seqs.local_allocs(fn)
        order = list(al)
        heads = sorted(lp)
        cells = {}
        for h in heads:
            st = seqs.loopstores(fn, lp[h])
            cells[h] = [r for r in order if r in st]

        def take(test):
            for kv in list(todo):
                for i, h in enumerate(heads):
                    if h not in out:
                        m = test(kv[0], kv[1], i, cells[h])
                        if m is not None:
                            out[h] = (kv[1], m)
                            if kv in todo:
                                todo.remove(kv)
                            # one that can tell whether it belongs to a loop
                            # may be tried with every loop it fits
                            if not hasattr(kv[1], "applies"):
                                break

        def names(cs):
            return {al[r][1]: r for r in cs}
        take(lambda k, inv, i, cs: names(cs) if own and i == k[0] and frozenset(names(cs)) == k[1] else None)
        # renamed variables: by type and order of declaration
        def renamed(inv, cs):
            want = [(n + ":int").split(":")[:2] for n in getattr(inv, "order", ())]
            have = [(r, M.p.tname(al[r][2]).lstrip("*")) for r in cs]
            if not want or sorted(w[1] for w in want) != sorted(h[1] for h in have):
                return None
            m = {}
            for n, ty in want:
                m[n] = have.pop(next(i for i, h in enumerate(have) if h[1] == ty))[0]
            return m
        take(lambda k, inv, i, cs: renamed(inv, cs) if own and i == k[0] else None)
        take(lambda k, inv, i, cs: names(cs) if k[1] and frozenset(names(cs)) == k[1] else None)
        take(lambda k, inv, i, cs: {n: names(cs)[n] for n in k[1]} if k[1] and k[1] <= set(names(cs)) else None)
        take(lambda k, inv, i, cs: renamed(inv, cs) if own else None)
        take(lambda k, inv, i, cs: {} if not k[1] and (own and len(heads) == 1 or hasattr(inv, "applies") and not cs) else None)
    M.p.loops[key] = (out, M.invs)
    return out


KNOWN = []


def known():
    if not KNOWN:
        import os
        KNOWN.append(frozenset(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "functions.txt")).read().split()))
    return KNOWN[0]


def entry(M, S, fr):
    base = S.copy()
    try:
        _entry(M, S, fr)
    except Fork:
        M.S = base
        raise


def _entry(M, S, fr):
    fn = fr.fn
    m = match(M, fn).get(fr.bi)
    if m is None:
        return
    inv, regs = m
    body = seqs.natloops(M, fn)[fr.bi]
    st = seqs.loopstores(fn, body)
    cut = fr.cut.get(fr.bi)
    V = Vars(M, S, fr, regs)
    V.fields = seqs.fieldstores(fn, body)
    if cut is None and hasattr(inv, "applies") and not inv.applies(M, V):
        return
    cells = {fr.regs[r].obj for r in st if r in fr.regs}
    if cut is not None and fr.prev in body:
        g0, V0, heap = cut
        g = inv.next(M, V, g0, V0)
        obs = [("loop invariant is preserved: " + n, c) for n, c in inv.inv(M, V, g)]
        ok = cells | set(inv.objs(M, V))
        bad = [o for o, v in heap.items() if o not in ok and S.heap[o] is not v and repr(S.heap[o]) != repr(v)]
        obs.append(("frame: the loop changes only what its invariant describes", not bad))
        prove(M, obs)
        progress(M, (fn["name"], fr.bi, id(inv)), line(fn, fr.bi),
                 [(r, fr.regs[r].obj) for r in sorted(st) if r in fr.regs] + list(enumerate(inv.objs(M, V))), heap,
                 inv.step(M, V, V0) if hasattr(inv, "step") else ())
        raise Dead()
    g = inv.enter(M, V)
    obs = [("loop invariant holds at entry: " + n, c) for n, c in inv.inv(M, V, g)]
    prove(M, obs)
    for o in cells:
        S.heap[o] = seqs.Havoc()
    g = inv.havoc(M, V, g)
    for n, c in inv.inv(M, V, g):
        S.assume(c)
    try:
        consistent(M)
    except Unsupported:
        # impossible combinations of cases an invariant splits into
        if getattr(inv, "splits", False):
            raise Dead()
        raise
    fr.cut = dict(fr.cut)
    fr.cut[fr.bi] = (g, V.snapshot(), dict(S.heap))
