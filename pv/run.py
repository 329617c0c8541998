"""python -m pv.run PROP tier"""
import os, sys, json, time, subprocess, importlib, queue, pickle

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
sys.path.insert(0, ROOT)
T0 = time.time()


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    os.environ["VERIF_TIER"] = tier
    budget = float(os.environ.get("PV_BUDGET",
                                  "780" if tier == "quick" else "7200"))
    njobs = int(os.environ.get("PV_JOBS", "7"))
    import multiprocessing as mp
    ctx = mp.get_context("spawn")
    try:
        from pv import harness as H
        mod = importlib.import_module(f"pv.props.{prop}")
        jobs = H.load_jobs(mod, tier)
        err = None
    except Exception:
        import traceback
        err = traceback.format_exc()
        jobs = []
    names = [j.name for j in jobs]
    assert len(set(names)) == len(names), "duplicate case names"
    only = os.environ.get("PV_ONLY")
    if only:
        names = [n for n in names if only in n]
    results = {}
    wt = {j.name: getattr(j, "weight", 1) for j in jobs}
    nw = max(1, min(njobs, len(names)))
    if sum(wt[n] for n in names) <= 6:
        nw = 1
    if err is None and nw == 1:
        byname = {j.name: j for j in jobs}
        for n in names:
            if time.time() - T0 > budget:
                results[n] = dict(name=n, status="inconclusive",
                                  notes=["time budget"])
                continue
            results[n] = byname[n].run(tier)
    elif err is None:
        results = parallel(ctx, H, prop, tier, names, wt, nw, budget)
    finish(prop, tier, mod if err is None else None, names, results, err)


def parallel(ctx, H, prop, tier, names, wt, nw, budget):
    buckets = [[] for _ in range(nw)]
    load = [0] * nw
    for n in sorted(names, key=lambda n: -wt[n]):
        k = load.index(min(load))
        buckets[k].append(n)
        load[k] += wt[n]
    q = ctx.Queue()
    procs = [ctx.Process(target=H.worker, args=(prop, tier, b, q), daemon=True)
             for b in buckets if b]
    for p in procs:
        p.start()
    results = {}
    while len(results) < len(names):
        left = budget - (time.time() - T0)
        if left <= 0:
            break
        try:
            kind, n, r = q.get(timeout=min(left, 5))
            if kind == "done":
                results[n] = r
                if r["status"] == "violated" and "PV_FAILFAST" in os.environ:
                    break       # development only (tools/mutate.py)
        except queue.Empty:
            if not any(p.is_alive() for p in procs) and q.empty():
                break
    for p in procs:
        if p.is_alive():
            p.terminate()
    for n in names:
        if n not in results:
            results[n] = dict(name=n, status="inconclusive",
                              notes=["not finished (time budget or worker "
                                     "ended)"])
    return results


def finish(prop, tier, mod, names, results, err):
    known = []
    kp = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(kp):
        for line in open(kp):
            if line.startswith("KNOWN-FINDING:") and f"property={prop} " in line:
                known.append(line.strip())
    evd = os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    viol, kn, inc = [], [], []
    for n in names:
        r = results[n]
        if r["status"] == "violated":
            k = [x for x in known if f"case={n} " in x + " "]
            (kn if k else viol).append((n, r, k))
        elif r["status"] == "inconclusive":
            inc.append((n, r))
    held = [n for n in names if results[n]["status"] == "held"]
    rl = list(results.values())
    cov = dict(
        explanation=(mod.__doc__ or "").strip() if mod else "check failed to "
        "load",
        method="symbolic execution of the real code (jaxpr traced from "
               "/repo's current source, or the python source itself) with z3 "
               "deciding the negated property",
        harnesses=len(names), harnesses_held=len(held),
        harnesses_inconclusive=[dict(case=n, notes=r.get("notes", [])[:3])
                                for n, r in inc],
        goals=sum(r.get("goals", 0) for r in rl),
        queries=sum(r.get("queries", 0) for r in rl),
        queries_unsat=sum(r.get("unsat", 0) for r in rl),
        paths=sum(r.get("paths", 0) for r in rl),
        solver_time_s=round(sum(r.get("solver_s", 0) for r in rl), 3),
        encodings_validated_against_execution=sum(
            r.get("validated", 0) for r in rl),
        functions_encoded=sorted({f for r in rl for f in r.get("funcs", [])}),
        bounds={r["name"]: r.get("bounds", "") for r in rl},
        jax_primitives=sorted({p for r in rl for p in r.get("prims", [])}),
        samples=[dict(case=r["name"], status=r["status"],
                      goals=r.get("goals", 0), vacuity=r.get("vacuity"),
                      wall_s=round(r.get("wall_s", 0), 2))
                 for r in rl[:400]],
    )
    if err:
        cov["load_error"] = err[-1500:]
    notes = sorted({x for r in rl for x in r.get("notes", []) if
                    r["status"] == "held"})
    ev = dict(property=prop, tier=tier,
              seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
              coverage=cov, wall_s=round(time.time() - T0, 2),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + notes + [
                  "floating point numbers are treated as real numbers"],
              violations=[dict(case=n, what=r["violations"][:1])
                          for n, r, _ in viol])
    with open(os.path.join(evd, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for n, r, k in kn:
        print(k[0])
    for n, r in inc:
        print(f"INCONCLUSIVE case={n} {r.get('notes', [''])[:2]}")
    print(f"{prop} {tier}: {len(held)}/{len(names)} harnesses held, "
          f"{cov['queries']} queries, {cov['goals']} goals, "
          f"{cov['paths']} paths, solver {cov['solver_time_s']}s, wall "
          f"{ev['wall_s']}s")
    if err:
        # the package itself cannot be loaded/driven: a broken build, not a
        # property verdict
        print("CHECK COULD NOT LOAD:", err[-800:])
    rc = 0
    if viol:
        rc = 1
        for n, r, _ in viol:
            safe = "".join(c if c.isalnum() or c in "-_" else "_" for c in n)
            rp = os.path.join(evd, f"{prop}.{safe}.replay.json")
            with open(rp, "w") as f:
                json.dump(dict(property=prop, case=n, funcs=r.get("funcs"),
                               **r["violations"][0]), f, indent=1,
                          default=str)
            print(f"case {n}: {r['violations'][0].get('what')}"[:600])
            print(f"VIOLATION property={prop} replay={rp}")
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
