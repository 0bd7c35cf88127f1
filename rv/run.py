"""usage: python -m rv.run <PROPERTY> [--replay FILE] [--scenario S] [--cases N]"""
import argparse
import atexit
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
from collections import Counter

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")

import torch  # noqa: E402

torch.set_num_threads(1)

from rv import core  # noqa: E402
from rv.registry import PROPERTIES  # noqa: E402

# A generous watchdog: firing means "no answer" for what is left, never a verdict.
WALL = {"quick": 300.0, "thorough": 780.0}


def _worker(args):
    prop, module, jobs, tier, known, deadline = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = importlib.import_module(module)
    outs, unrun = [], 0
    for scenario, seed in jobs:
        if time.time() > deadline:
            unrun += 1
            continue
        t0 = time.time()
        o = core.run_case(prop, scenario, mod.SCENARIOS[scenario].fn, seed, tier, known)
        o["t"] = time.time() - t0
        outs.append(o)
    return outs, unrun


def _isolated(mod, work):
    """Like _worker over all of `work`, but a case that kills its process is a violation of its own."""
    ctx = mp.get_context("fork")
    todo = [list(w[2]) for w in work]
    rest = work[0]
    outs, unrun, live = [], 0, {}

    def child(conn, jobs):
        for j in jobs:
            conn.send(("start", j))
            conn.send(("done", _worker((rest[0], rest[1], [j], rest[3], rest[4], rest[5]))))
        conn.send(("end", None))
        conn.close()

    while todo or live:
        while todo and len(live) < 8:
            jobs = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, jobs))
            p.start()
            b.close()
            live[a] = [p, jobs, None, time.time()]
        for c in mp.connection.wait(list(live), timeout=5):
            rec = live[c]
            try:
                kind, x = c.recv()
            except (EOFError, OSError):
                kind, x = "died", None
            if kind == "start":
                rec[2], rec[3] = x, time.time()
            elif kind == "done":
                outs += x[0]
                unrun += x[1]
                rec[1].remove(rec[2])
                rec[2] = None
            else:
                rec[0].join()
                del live[c]
                if kind == "died" and rec[2] is not None:
                    why = mod.died(rec[0].pid) or f"exit {rec[0].exitcode}"
                    hung = rec[3] < 0
                    outs.append(core.verdict(rec[2][0], rec[2][1], "harness_error" if hung else "violation",
                                             ("stopped after 240 s: " if hung else "the process ended: ") + why))
                    rec[1].remove(rec[2])
                    if rec[1]:
                        todo.append(rec[1])
        for rec in live.values():
            if rec[2] is not None and rec[3] > 0 and time.time() - rec[3] > 240:
                rec[3] = -1
                rec[0].kill()
    return outs, unrun


def run_property(prop, tier, base_seed, only=None, cases=None, procs=8):
    module = PROPERTIES[prop]
    mod = importlib.import_module(module)
    known = core.load_known(prop)
    jobs = []
    for name, sc in mod.SCENARIOS.items():
        if only and name != only:
            continue
        n = cases or (min(getattr(mod, "QUICK", 1) * sc.quick, sc.thorough) if tier == "quick" else sc.thorough)
        jobs += [(name, base_seed * 1_000_003 + i) for i in range(n)]
    # interleave so every process gets a mix
    jobs.sort(key=lambda j: (j[1], j[0]))
    t0 = time.time()
    deadline = t0 + WALL[tier]
    nproc = max(1, min(procs, len(jobs)))
    chunks = [[] for _ in range(nproc * 8)]
    for i, j in enumerate(jobs):
        chunks[i % len(chunks)].append(j)
    work = [(prop, module, c, tier, known, deadline) for c in chunks if c]
    outs, unrun = [], 0
    if hasattr(mod, "died"):
        outs, unrun = _isolated(mod, work)
    elif nproc == 1:
        for w in work:
            o, u = _worker(w)
            outs += o
            unrun += u
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc) as pool:
            for o, u in pool.imap_unordered(_worker, work):
                outs += o
                unrun += u
    return mod, outs, unrun, time.time() - t0, known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--scenario")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--times", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hooks = importlib.import_module(PROPERTIES[prop])
    if hasattr(hooks, "before_run"):
        hooks.before_run()
        atexit.register(hooks.after_run)

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        mod = importlib.import_module(PROPERTIES[r["property"]])
        job = (r["scenario"], r["seed"])
        work = (r["property"], PROPERTIES[r["property"]], [job], r["tier"], core.load_known(r["property"]), time.time() + 900)
        o = (_isolated(mod, [work])[0] if hasattr(mod, "died") else _worker(work)[0])[0]
        print(json.dumps(o, indent=1, default=str))
        if o["status"] == "violation":
            print(f"VIOLATION property={r['property']} replay={a.replay}")
            sys.exit(1)
        sys.exit(0 if o["status"] in ("ok", "skip") else 2)

    mod, outs, unrun, wall, known = run_property(
        prop, tier, seed, only=a.scenario, cases=a.cases, procs=a.procs)

    viol = [o for o in outs if o["status"] == "violation"]
    herr = [o for o in outs if o["status"] == "harness_error"]
    ok = [o for o in outs if o["status"] in ("ok",)]
    events, per, max_dev = Counter(), {}, {}
    known_hits = {}
    for o in outs:
        events.update(o["events"])
        p = per.setdefault(o["scenario"], Counter())
        p["cases"] += 1
        p[o["status"]] += 1
        p["oracle_decisions"] += o["oracle_calls"]
        for k, v in o["known_hits"].items():
            known_hits.setdefault(k, v)
        for k, v in o["max_dev"].items():
            k = f"{o['scenario']}: {k}"
            max_dev[k] = max(v, max_dev.get(k, -1))
    sigs = {o["sig"] for o in outs if o["sig"] and o["status"] == "ok" and o["oracle_calls"]}

    inconclusive = []
    if not a.scenario and not a.cases:
        for name, sc in mod.SCENARIOS.items():
            p = per.get(name, Counter())
            if p["oracle_decisions"] < sc.floor or p["ok"] + p["violation"] == 0:
                inconclusive.append(f"scenario {name}: only {p['oracle_decisions']} oracle decisions")
        if unrun > 0.5 * (unrun + len(outs)):
            inconclusive.append(f"watchdog: {unrun} cases not run")

    samples = []
    seen = set()
    for o in sorted(ok, key=lambda o: (o["scenario"], o["seed"])):
        if o["scenario"] in seen or not o["oracle_calls"]:
            continue
        seen.add(o["scenario"])
        samples.append({"scenario": o["scenario"], "case_seed": o["seed"],
                        "oracle_decisions": o["oracle_calls"], "observed": o["events"], **o["desc"]})

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(outs),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:12],
            "oracle_decisions": sum(o["oracle_calls"] for o in outs),
            "events_observed": dict(sorted(events.items())),
            "per_scenario": {k: dict(v) for k, v in sorted(per.items())},
            "largest_deviation_seen": {k: float(f"{v:.3g}") for k, v in
                                       sorted(max_dev.items(), key=lambda kv: -kv[1])[:20]},
            "cases_not_run_before_watchdog": unrun,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(f"{prop} {tier} seed={seed}: {len(outs)} cases, {len(sigs)} distinct, "
          f"{ev['coverage']['oracle_decisions']} oracle decisions, "
          f"{len(viol)} violations, {len(herr)} harness errors, {wall:.1f}s")
    if a.verbose:
        print(json.dumps(ev["coverage"], indent=1, default=str))
    if a.times:
        tm = Counter()
        for o in outs:
            tm[o["scenario"]] += o["t"]
        for k, v in tm.most_common():
            print(f"   {k:40s} {v:7.1f}s total {v / per[k]['cases'] * 1e3:8.1f} ms/case")
    for k in sorted(known_hits):
        print(f"KNOWN-FINDING: property={prop} {k}: {known.get(k, '')}")
    if viol:
        rdir = os.path.join(core.VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        viol.sort(key=lambda o: (o["scenario"], o["seed"]))
        shown = Counter()
        first = None
        for o in viol:
            shown[o["scenario"]] += 1
            if shown[o["scenario"]] > 2:
                continue
            path = os.path.join(rdir, f"{prop}-{o['scenario']}-{o['seed']}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, **o}, f, indent=1, default=str)
            first = first or path
            print(f"  [{o['scenario']} seed={o['seed']}] {o['msg'][:400]}")
            if a.verbose:
                print(o.get("info", ""))
        print("  violations per scenario:", dict(shown))
        print(f"VIOLATION property={prop} replay={first}")
        sys.exit(1)
    if herr:
        for o in herr[:3]:
            print("HARNESS ERROR", o["scenario"], o["seed"], o["msg"], o["info"][-1500:])
        sys.exit(2)
    if inconclusive:
        print("INCONCLUSIVE:", "; ".join(inconclusive))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
