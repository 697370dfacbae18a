"""The evidence file of one run."""

BASE = ["the verification condition generator in /verif/vc and the SSA construction of golang.org/x/tools/go/ssa (frontend/main.go)",
        "z3 4.x (python bindings) and cvc5 1.1.2 as back ends",
        "the Go 1.27 compiler implements the language specification; int is 64 bits"]
ASSUME = {"math/big.": "assumed contract of math/big (vc/ext.py, exact rational semantics, audited by the concrete runs of every check)",
          "math.": "assumed contract of math (bit conversion and classification of floats)",
          "fmt.": "assumed contract of fmt.Sprintf for the verbs used",
          "strings.": "assumed contract of strings.Index / strings.Repeat"}


def make(prop, tier, seed, P, reports, mains, failed, retry, s, replayed, gen, dis, wall, viol, full, lib=()):
    used = sorted({e for r in reports.values() for e in r.exts})
    exts = [e for e in used if e not in lib]
    fns = sorted({r.fn for r in reports.values() if r.fn})
    backs = {}
    for r in reports.values():
        for k, v in r.backs.items():
            backs[k] = backs.get(k, 0) + v
    cov = {
        "obligations": gen,
        "discharged": dis,
        "checker_cmd": "python3-vt check.py %s --tier %s" % (prop, tier),
        "trusted_base": BASE + sorted({v for e in exts for k, v in ASSUME.items() if e.startswith(k) or e.startswith("(" + k) or e.startswith("(*" + k)}),
        "functions_under_contract": fns,
        "bodies_inlined": sorted({i for r in reports.values() for i in r.inlined}),
        "callee_contracts_used": sorted({c for r in reports.values() for c in r.contracts}),
        "library_contracts_assumed": exts,
        "library_contracts_discharged_on_library_source": {e: {"obligations": lib[e][0], "seconds": lib[e][1]} for e in used if e in lib},
        "callee_contracts_not_discharged": failed,
        "checked_again_with_bodies": retry,
        "solver_queries": sum(r.queries for r in reports.values()),
        "solver_seconds": round(sum(r.solver_s for r in reports.values()), 2),
        "back_ends": backs,
        "paths": sum(r.paths for r in reports.values()),
        "tasks": {t: {"function": r.fn, "case": r.case, "clauses": r.counts, "paths": r.paths, "seconds": round(r.wall, 2),
                      "ok": r.ok(), "note": r.error or r.vacuous or "", "kind": getattr(r, "kind", "proved")} for t, r in sorted(reports.items())},
        "evaluations": s["evals"],
        "distinct_nontrivial": s["distinct"],
        "rule": "concrete audit on the real code: boundary values of each format, rounding midpoints and neighbours, constants mined from the program text, seeded random values; distinct by full request",
        "samples": s["samples"],
        "models_replayed": replayed,
    }
    bounded = sorted(t for t, r in reports.items() if getattr(r, "kind", "") == "bounded")
    if bounded:
        cov["bounded_not_proved"] = bounded
    return {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "proof"), "coverage": cov,
            "assumptions": sorted(set(["integers are mathematical with explicit wrap-around modulo 2^n",
                                       "no concurrent modification of arguments during a call"] +
                                      ["library function assumed: " + e for e in exts] + P.get("assumptions", []))),
            "wall_s": round(wall, 2), "violations": viol}
