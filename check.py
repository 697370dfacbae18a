#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property on /repo's current tree.

  check.py Cxx [--tier quick|thorough]     verify, search, write evidence
  check.py --replay FILE                   run a recorded failing input again
"""
import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vc"))
sys.setrecursionlimit(20000)
import runner                                    # noqa: E402

T0 = time.time()
LIMIT = 800.0


def machine(ssa):
    import exec as X
    import ext
    import floats
    M = X.Machine(X.Prog(ssa), ext=ext.EXT,
                  opaque_types={"math/big.Float": floats.BF, "math/big.Int": floats.BI})
    M.init_globals()
    return M


def run_task(arg):
    """One proof task, in its own process."""
    tid, ssa, contracts, deadline = arg
    import core
    import tasks
    import verify

    def onalarm(*a):
        raise core.Unsupported("time budget")
    r = verify.Report(tid, "")
    try:
        signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, max(1.0, deadline - time.time()), 2.0)
        core.DEADLINE[0] = deadline
        M = machine(ssa)
        for c in contracts:
            fn, mk = tasks.CONTRACT[c]
            M.contracts[fn] = mk()
        case = tasks.TASKS[tid]()
        if callable(case):
            r = case(M)
        else:
            r = verify.verify(M, *case)
    except core.Unsupported as e:
        r.error = r.error or "unsupported: %s" % e
    except BaseException as e:
        r.error = r.error or "internal: %s %s" % (e, traceback.format_exc()[-800:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    r.tid = tid
    for f in r.failures:
        f.model = f.pc = f.args = f.env = None
    return r


def run_library(dst):
    """Contracts of library functions, discharged on the library's source."""
    def onalarm(*a):
        raise TimeoutError
    try:
        signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, 120.0)
        import stdlib
        rs = stdlib.discharge(stdlib.ARGS, dst)
        return {n: (sum(c[1] for c in r.counts.values()), round(r.wall, 2)) for n, r in rs.items()}
    except BaseException:
        return {}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def fetch(h, tid, deadline):
    """The report of a task; a worker that is stuck counts as undecided."""
    import verify
    try:
        return h.get(timeout=max(1.0, deadline + 25 - time.time()))
    except mp.TimeoutError:
        r = verify.Report(tid, "")
        r.tid = tid
        r.error = "time budget (worker stuck)"
        return r


def run_search(arg):
    prop, exe, seed, tier, ssa = arg
    import search
    R = runner.Runner(exe)
    s = search.Search(prop, R, seed, tier, search.mine(ssa))
    err = None
    try:
        if hasattr(s, prop):
            s.go()
    except Exception as e:
        err = "search: %s %s" % (e, traceback.format_exc()[-800:])
    return {"evals": s.evals, "distinct": len(s.distinct), "samples": s.samples[-3:], "fails": s.fails, "err": err,
            "known": getattr(s, "known", {})}


def replay_request(inp):
    """Runner requests for an input found by the solver."""
    from fractions import Fraction
    q = {k: v for k, v in inp.items() if k != "x"}
    if "x" not in inp:
        return [q]
    x = dict(inp["x"])
    if x.get("form") != 1:
        x.update(neg=bool(x["neg"]), prec=int(x["prec"]))
        return [dict(q, x=x)]
    m, e = Fraction(x["m"]), int(x["e"])
    out = []
    for n in (3000, max(1, min(int(x["prec"]), 5000)), 400):
        k = m * (1 << n)
        i = k.numerator // k.denominator
        if i == 0:
            continue
        if Fraction(i) != k:
            i |= 1
        prec = max(min(int(x["prec"]), 1 << 20), i.bit_length())
        t = (i & -i).bit_length() - 1
        y = {"form": 1, "neg": bool(x["neg"]), "mant": "%x" % (i >> t), "exp": e - n + t, "prec": max(min(int(x["prec"]), 1 << 20), (i >> t).bit_length()),
             "mode": int(x["mode"]), "acc": int(x["acc"])}
        out.append(dict(q, x=y))
        out.append(dict(q, x=dict(y, prec=prec)))
    return out


def known_findings():
    fn = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("finding:"):
                out.append(l)
    return out


def replay(path):
    d = json.load(open(path))
    b = os.path.join(runner.BUILD, "replay-runner")
    runner.build_runner(b)
    R = runner.Runner(b)
    reqs = d.get("requests") or []
    for q, a in zip(reqs, R.call(reqs)):
        print("request", json.dumps(q))
        print("answer ", json.dumps(a))
    print("recorded:", d.get("message"))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.setup:
        os.makedirs(runner.BUILD, exist_ok=True)
        runner.build_frontend()
        runner.build_runner(os.path.join(runner.BUILD, "setup-runner"))
        return 0
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(runner.BUILD, prop), exist_ok=True)
    bdir = os.path.join(runner.BUILD, prop)
    ssa, exe = os.path.join(bdir, "ssa.json"), os.path.join(bdir, "runner")
    runner.dump_ssa(ssa)
    full = runner.build_runner(exe)

    import tasks
    P = tasks.PROPS[prop]
    limit = LIMIT if tier == "quick" else LIMIT
    dl1 = T0 + limit * 0.5
    dl2 = T0 + limit * 0.85
    reports, failed_deps, inlined_retry = {}, [], []
    ctx = mp.get_context("fork")
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        sr = pool.apply_async(run_search, ((prop, exe, seed, tier, ssa),))
        lib = pool.apply_async(run_library, (os.path.join(bdir, "library.json"),))
        # callee contracts first
        order = []
        for t in P["deps"]:
            order.append((t, pool.apply_async(run_task, ((t, ssa, [], dl1),))))
        proven = []
        for t, h in order:
            r = fetch(h, t, dl1)
            reports[t] = r
            if r.ok() and t in tasks.CONTRACT:
                proven.append(t)
            elif not r.ok():
                failed_deps.append(t)
        use = [t for t in proven]
        # the functions that carry the property, callers checked against the contracts
        hs = [(t, pool.apply_async(run_task, ((t, ssa, [u for u in use if u != t], dl2),))) for t in P["main"]]
        main_reports = {}
        left, skipped, found = list(hs), [], None
        while left:
            for t, h in left:
                if h.ready() or time.time() > dl2 + 20:
                    main_reports[t] = fetch(h, t, dl2)
            left = [(t, h) for t, h in left if t not in main_reports]
            if found is None and sr.ready() and sr.get()["fails"]:
                found = time.time()
            if left and found and (any(not r.ok() for r in main_reports.values()) or time.time() > found + 60):
                # a failing input (and, if one comes soon, a failed obligation): no need to go on
                skipped = [t for t, h in left]
                break
            if left:
                left[0][1].wait(0.2)
        P = dict(P, main=[t for t in P["main"] if t in main_reports])
        bad = [t for t in P["main"] if not main_reports[t].ok()]
        if not skipped and bad and use and not all("time budget" in (main_reports[t].error or "") for t in bad):
            # a contract may be too weak for a changed caller: check the bodies instead
            hs = [(t, pool.apply_async(run_task, ((t, ssa, [], dl2),))) for t in bad]
            for t, h in hs:
                r = fetch(h, t, dl2)
                if r.ok():
                    inlined_retry.append(t)
                    main_reports[t] = r
        try:
            s = sr.get(timeout=max(1.0, T0 + limit * 0.9 - time.time()))
        except mp.TimeoutError:
            s = {"evals": 0, "distinct": 0, "samples": [], "fails": [], "err": "search: out of time", "known": {}}
        libok = {}
        if not skipped:
            try:
                libok = lib.get(timeout=max(1.0, min(130.0, T0 + limit * 0.9 - time.time())))
            except mp.TimeoutError:
                pass
        if skipped:
            print("%d proof tasks not run to the end: a failing input was found" % len(skipped))
        pool.terminate()
    reports.update(main_reports)
    bad = [t for t in P["main"] if not main_reports[t].ok()]

    # concrete failing inputs: the search, and the solver's models run on the real code
    import judges
    R = runner.Runner(exe)
    import search as S
    concrete = list(s["fails"])
    replayed = 0
    if not concrete and bad:
        srch = S.Search(prop, R, seed, tier, S.mine(ssa))
        named = srch.named()
        js = judges.judges(prop, named)
        for t in bad:
            for f in main_reports[t].failures:
                if not getattr(f, "input", None):
                    continue
                for q in replay_request(f.input):
                    j = js.get(q.get("op"))
                    if j is None:
                        continue
                    ans = R.call([q])[0]
                    replayed += 1
                    m = j(q, ans)
                    if m:
                        concrete.append((q, ans, m))
                        break
                if concrete:
                    break
            if concrete:
                break
        if not concrete and time.time() - T0 < limit * 0.6 and tier == "quick" and hasattr(srch, prop):
            # look harder
            for k in range(3):
                if time.time() - T0 > limit * 0.75:
                    break
                s2 = run_search((prop, exe, seed + 1000 + k, "thorough" if k else "quick", ssa))
                s["evals"] += s2["evals"]
                if s2["fails"]:
                    concrete = s2["fails"]
                    break

    gen = sum(c[0] for t in main_reports.values() for c in t.counts.values())
    dis = sum(c[1] for t in main_reports.values() for c in t.counts.values())
    depgen = sum(c[0] for t in P["deps"] for c in reports[t].counts.values())
    depdis = sum(c[1] for t in P["deps"] for c in reports[t].counts.values())
    ok = not bad and not concrete
    if s["err"]:
        print("note:", s["err"])
    # ---------------------------------------------------------------- evidence
    import evidence
    ev = evidence.make(prop, tier, seed, P, reports, main_reports, failed_deps, inlined_retry, s, replayed,
                       gen + depgen, dis + depdis, time.time() - T0, 0 if ok else 1, full, libok)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in sorted((s.get("known") or {}).items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, v))
    print("%s: %d proof tasks, %d obligations generated, %d discharged, %d concrete evaluations, %.1f s" %
          (prop, len(reports), gen + depgen, dis + depdis, s["evals"], time.time() - T0))
    for t in failed_deps:
        print("callee contract not discharged (callers checked against the body): %s %s" % (t, reports[t].error or ""))
    for t in bad:
        r = main_reports[t]
        if r.error:
            print("undecided: %s: %s" % (t, r.error))
        if r.vacuous:
            print("vacuous: %s: %s" % (t, r.vacuous))
        for f in r.failures[:4]:
            print("failed obligation: %s: %s (%s) %s" % (t, f.name, f.status, (f.detail or "")[:300]))
    if a.v:
        for t, r in sorted(reports.items()):
            print("  %-40s paths %d wall %.1f queries %d solver %.1f %s" % (t, r.paths, r.wall, r.queries, r.solver_s, "ok" if r.ok() else "FAILED"))
    if ok:
        return 0
    rp = os.path.join(bdir, "replay.json")
    d = {"property": prop, "failed_obligations": [
        {"task": t, "function": main_reports[t].fn, "error": main_reports[t].error, "vacuous": main_reports[t].vacuous,
         "obligations": [{"name": f.name, "status": f.status, "detail": (f.detail or "")[:2000], "input": getattr(f, "input", None),
                          "outcome": getattr(f, "out", None)} for f in main_reports[t].failures[:10]]} for t in bad]}
    if concrete:
        q, ans, m = concrete[0]
        d.update(requests=[q], answer=ans, message=m, how="python3 check.py --replay " + rp)
        print("failing input: %s" % json.dumps(q)[:600])
        print("  %s" % str(m)[:600])
    with open(rp, "w") as f:
        json.dump(d, f, indent=1, default=str)
    print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if concrete else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    sys.exit(main())
