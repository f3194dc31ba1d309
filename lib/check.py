"""Decides one property: every harness of the tier, replay of every counterexample, evidence."""
import json, os, sys, time
from . import engine as E
from . import props as P

KF_FILE = os.path.join(E.VERIF, "known_findings.json")


def known():
    try:
        return json.load(open(KF_FILE))["findings"]
    except FileNotFoundError:
        return []


def check(pid, tier):
    t0 = time.time()
    p = P.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hs = p["quick"] + (p.get("thorough", []) if tier == "thorough" else [])
    if tier == "thorough":
        hs = p.get("thorough_only", hs)
    evp = os.path.join(E.VERIF, "evidence", pid + ".json")
    rdir = os.path.join(E.VERIF, "evidence", "replay", pid)
    os.makedirs(rdir, exist_ok=True)
    problems, violations, findings = [], [], []
    tot = dict(paths=0, assumed=0, panics=0, instrs=0, forks=0, queries=0, cached=0, sat=0, unsat=0, solver_s=0.0, solver_max=0.0, asserts=0, asserts_solver=0, replays=0)
    per, samples, funcs, covers = {}, [], {}, {}
    kfs = [k for k in known() if k["property"] == pid]
    try:
        vsym, driver = E.build_vsym()
        built = {}
        for h in hs:
            crate, entry = h["crate"], h["entry"]
            if crate not in built:
                built[crate] = P.CRATES[crate].build()
            ll, so = built[crate]
            tmo = h.get("timeout", 300)
            if tier == "quick":
                tmo = min(tmo, int(780 - (time.time() - t0)))
                if tmo < 5:
                    problems.append(f"{entry}: not run (time limit)")
                    continue
            try:
                r = E.run_vsym(vsym, ll, entry, tmo, extra=h.get("args", ()))
            except E.Inconclusive as x:
                problems.append(str(x))
                continue
            for k, n in r["errors"].items():
                problems.append(f"{entry}: {k} (x{n})")
            if r["timeout"]:
                problems.append(f"{entry}: time limit")
            if r["unknown"]:
                problems.append(f"{entry}: {r['unknown']} solver queries undecided")
            np = sum(r["panics"].values())
            for a, b in (("paths", r["paths"]), ("assumed", r["assumed"]), ("panics", np), ("instrs", r["instrs"]), ("forks", r["forks"]), ("queries", r["queries"]), ("cached", r["cached"]),
                         ("sat", r["sat"]), ("unsat", r["unsat"]), ("solver_s", r["solver_s"])):
                tot[a] += b
            tot["solver_max"] = max(tot["solver_max"], r["solver_max_s"])
            for a in r["asserts"].values():
                tot["asserts"] += a["reached"]
                tot["asserts_solver"] += a["solver"]
            # counterexamples: an assertion, or a panic where the property excludes one
            cands = list(r["violations"])
            if r["no_panic"]:
                cands += [dict(v, kind="panic") for v in r["panic_samples"]]
            confirmed, unconfirmed = {}, {}
            for i, v in enumerate(cands):
                f = os.path.join(rdir, f"{entry}-{i}.cex")
                with open(f, "w") as fh:
                    fh.write(E.cex_text(v, entry))
                res = None
                for real in (False, True):
                    o = E.replay(driver, so, entry, f, real)
                    tot["replays"] += 1
                    if v["kind"] == "assert" and o.kind == "assert":
                        res = o.violated
                    elif v["kind"] == "panic" and o.kind == "panic":
                        res = "panic at " + v["msg"]
                    elif o.kind == "panic" and r["no_panic"]:
                        res = "panic at " + (o.panic or "?")
                    if res:
                        break
                if res:
                    confirmed.setdefault(res, f)
                else:
                    unconfirmed.setdefault(v["msg"], (f, o.kind))
            for m, f in confirmed.items():
                kf = next((k for k in kfs if k["harness"] == entry and k["what"] == m), None)
                if kf:
                    findings.append(kf["summary"])
                else:
                    violations.append((entry, m, f))
            for m, (f, k) in unconfirmed.items():
                if m not in confirmed:
                    problems.append(f"{entry}: counterexample for '{m}' did not reproduce natively ({k}): {f}")
            # vacuity
            if not cands:
                for c in h.get("covers", []):
                    if c not in r["covers"]:
                        problems.append(f"{entry}: witness '{c}' never evaluated")
                for c, ok in r["covers"].items():
                    if not ok:
                        problems.append(f"{entry}: witness '{c}' is not reachable")
                if not r["asserts"]:
                    problems.append(f"{entry}: no assertion reached")
            # agreement of the symbolic run with native execution on sampled paths
            sam = [dict(s) for s in r["samples"]] + [dict(s) for s in r["panic_samples"]]
            for i, s in enumerate(sam[:40]):
                f = os.path.join(rdir, "sample.cex")
                with open(f, "w") as fh:
                    fh.write(E.cex_text(s, entry))
                o = E.replay(driver, so, entry, f)
                tot["replays"] += 1
                want = s["kind"]
                if o.kind != want or (want == "ok" and o.obs != s["obs"]):
                    g = os.path.join(rdir, f"{entry}-diverge-{i}.cex")
                    os.replace(f, g)
                    problems.append(f"{entry}: symbolic and native execution disagree (symbolic {want} {s['msg']} {s['obs'][:6]}, native {o.kind} {o.panic} {o.obs[:6]}): {g}")
            if len(samples) < 6 and sam:
                s = sam[-1]
                samples.append({"harness": entry, "outcome": s["kind"], "where": s["msg"], "inputs": [k for _, k in s["inputs"]][:24], "observed": s["obs"][:12]})
            for c, ok in r["covers"].items():
                covers[f"{entry}: {c}"] = ok
            for f, x in r["coverage"].items():
                if f.startswith("/") or ".." in f:
                    continue
                g = P.CRATES[crate].name + ":" + f
                e = funcs.setdefault(g, (set(), set()))
                e[0].update(x["functions"])
                e[1].update(x["lines"])
            per[entry] = {"bounds": h["bounds"], "paths": r["paths"], "excluded_by_assumption": r["assumed"], "panics": r["panics"], "queries": r["queries"],
                          "unsat": r["unsat"], "solver_s": r["solver_s"], "solver_max_s": r["solver_max_s"], "wall_s": r["wall_s"], "asserts": {k: v["reached"] for k, v in r["asserts"].items()}}
            print(f"  {entry}: {r['paths']} paths, {np} panicking, {r['assumed']} excluded, {r['queries']} queries, {r['solver_s']:.1f} s solver, {r['wall_s']:.1f} s", flush=True)
    except E.Inconclusive as x:
        problems.append(str(x))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["panics"],
            "transitions": tot["forks"],
            "traces_validated_against_impl": tot["replays"],
            "samples": samples or ["no path completed"],
            "exhaustive": not problems,
            "obligations": tot["asserts"],
            "discharged": tot["asserts"] - sum(1 for _ in violations),
            "explanation": "states = feasible symbolic paths explored to their end (each covers all inputs with that control flow); transitions = solver-decided forks; obligations = assertion instances reached, each shown unsatisfiable in its negation by z3 or by the simplifier",
            "queries": tot["queries"], "answered_from_cache": tot["cached"], "sat": tot["sat"], "unsat": tot["unsat"], "solver_s": round(tot["solver_s"], 3), "solver_max_s": tot["solver_max"],
            "assertions_decided_by_solver": tot["asserts_solver"],
            "ir_instructions": tot["instrs"],
            "harnesses": per,
            "reached": covers,
            "functions_encoded": {g: {"functions": sorted(x[0])[:80], "lines": len(x[1])} for g, x in sorted(funcs.items())},
            "problems": problems, "known_findings": findings,
        },
        "assumptions": p["assumptions"] + P.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    txt = json.dumps(ev, indent=1)
    if len(txt) > 60000:
        for x in ev["coverage"]["functions_encoded"].values():
            x["functions"] = x["functions"][:15]
        txt = json.dumps(ev, indent=1)
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    with open(evp + ".tmp", "w") as f:
        f.write(txt)
    os.replace(evp + ".tmp", evp)
    for f in dict.fromkeys(findings):
        print(f"KNOWN-FINDING: property={pid} {f}")
    if violations:
        for entry, m, f in violations:
            print(f"  {entry}: {m}")
            print(f"    inputs: {' '.join(l.split()[-1] for l in open(f) if l.startswith('nd '))[:400]}")
        print(f"VIOLATION property={pid} replay={violations[0][2]}")
        return 1
    if problems:
        for x in problems[:20]:
            print(f"INCONCLUSIVE {pid}: {x}")
        return 2
    print(f"OK {pid} ({tier}): {tot['paths']} paths, {tot['asserts']} assertion instances, {tot['queries']} solver queries, {ev['wall_s']} s")
    return 0
