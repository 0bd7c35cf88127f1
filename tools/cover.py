"""Development tool: lines of /repo that no check reaches.

usage: cover.py [Cxx ...]   runs every scenario's quick cases of the given (default: all) properties in one process per
property under sys.monitoring, and prints for each source file the executable lines that were never run."""
import collections, importlib, json, os, subprocess, sys
REPO = os.environ.get("RV_REPO", "/repo")
ROOTS = [f"{REPO}/theseus/", f"{REPO}/torchlie/torchlie/", f"{REPO}/torchkin/torchkin/"]


def lines_of(path):
    out = set()

    def walk(c):
        out.update(l for _, _, l in c.co_lines() if l)
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                walk(k)
    walk(compile(open(path).read(), path, "exec"))
    return out


def one(prop, dest):
    seen = collections.defaultdict(set)
    mon = sys.monitoring
    mon.use_tool_id(3, "cover")

    def line(code, n):
        f = code.co_filename
        if any(f.startswith(r) for r in ROOTS):
            seen[f].add(n)
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    import torch
    torch.set_num_threads(1)
    from rv import core
    from rv.registry import PROPERTIES
    module = PROPERTIES[prop] if isinstance(PROPERTIES, dict) else f"rv.props.{prop.lower()}"
    mod = importlib.import_module(module if isinstance(module, str) else f"rv.props.{prop.lower()}")
    known = {f["key"] for f in json.load(open("/verif/known_findings.json"))["findings"] if f["property"] == prop}
    if hasattr(mod, "before_run"):
        mod.before_run()
    for s, sc in mod.SCENARIOS.items():
        for k in range(min(sc.quick, 300)):
            core.run_case(prop, s, sc.fn, 1000003 + k, "quick", known)
    json.dump({f: sorted(v) for f, v in seen.items()}, open(dest, "w"))


if __name__ == "__main__":
    if sys.argv[1:2] == ["--one"]:
        one(sys.argv[2], sys.argv[3])
        sys.exit()
    props = sys.argv[1:] or [f"C{k:02d}" for k in range(1, 31)]
    run = []
    done = {}

    def reap(p, d):
        p.wait()
        if os.path.exists(d):
            for f, v in json.load(open(d)).items():
                done.setdefault(f, set()).update(v)
        else:
            print("no result:", d)
    for p in props:
        d = f"/tmp/w/cover-{p}.json"
        if os.path.exists(d):
            os.remove(d)
        run.append((subprocess.Popen([sys.executable, __file__, "--one", p, d], stdout=subprocess.DEVNULL,
                                     stderr=open(d + ".err", "w")), d))
        if len(run) >= 4:
            reap(*run.pop(0))
    for r in run:
        reap(*r)
    tot = hit = 0
    for root in ROOTS:
        for dp, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                ls = lines_of(path)
                got = done.get(path, set()) & ls
                miss = sorted(ls - got)
                tot += len(ls)
                hit += len(got)
                if miss:
                    print(f"{path[len(REPO) + 1:]}: {len(got)}/{len(ls)} missing {' '.join(map(str, miss))}")
    print(f"{hit}/{tot} lines")
