"""C14: batch elements are independent problems."""
import torch

import theseus as th
from theseus.optimizer.nonlinear import NonlinearOptimizerStatus as S

from .. import gen, optim
from ..core import D32, D64, Scenario, Skip
from . import c09, c10, c13

ID = "C14"
RULE = ("a case solves a random batch of problems and then some of its elements alone, in another order, or "
        "next to other partners; states visited, solutions, statuses and gradients must agree")
ASSUMPTIONS = ["Dogleg's 1e-7 regularizers make its steps batch dependent at ~1e-4; compared up to that"]


def distinct(rec, start, i):
    out = [{n: t[i] for n, t in start.items()}]
    for r in rec:
        s = {n: t[i] for n, t in r.items()}
        if any(not torch.equal(s[n], out[-1][n]) for n in s):
            out.append(s)
    return out


def worst_cond(spec, names, states, kw, kind):
    """Largest condition number met along the run (per element), and largest step."""
    L = c13.Lin(spec, names)
    c = torch.ones(spec.B, dtype=D64)
    for s in states:
        A, b, e = L.at(s)
        if not torch.isfinite(A).all():
            return c * float("inf")
        per = None
        if kind == "lm":
            per = torch.full((spec.B,), kw.get("damping", 1e-3), dtype=D64)
        N, _ = c10.normal(A, b, per, False, 0.0)
        c = torch.maximum(c, torch.linalg.cond(N))
    return c


def start_of(spec, b, names, B):
    return {n: b.values[n].expand(B, *b.values[n].shape[1:]) for n in names}


def sc_alone(case):
    spec = optim.smooth_spec(case, B=case.randint(2, 5), batch1_p=0.2)
    optim.scatter(spec, case.choice([0.05, 0.3, 0.8]), case)
    if all(v.value.shape[0] == 1 for v in spec.vars.values()):
        raise Skip()
    if case.chance(0.3):  # one element far from the others
        k = case.randint(0, spec.B - 1)
        for n in spec.optim_names():
            v = spec.vars[n]
            if v.kind in ("Vector", "Point2", "Point3") and v.value.shape[0] > 1:
                v.value[k] *= 20.0
    kind, cls, solver, kw = optim.pick_optimizer(case)
    mode = case.choice(["unroll", "unroll", "implicit", "truncated"])
    kw = dict(kw, backward_mode=mode)
    maxit = case.randint(1, 9)
    if mode == "truncated":
        kw["backward_num_iterations"] = case.randint(1, maxit)
    # a mean-error criterion is a documented batch-level rule; it is not used here
    params = dict(max_iterations=maxit, abs_err_tolerance=0.0, rel_err_tolerance=case.choice([0.0, 1e-3, 1e-6]))
    case.sig(spec.signature(), kind, solver.__name__, mode, maxit, sorted(kw.items(), key=str))
    case.describe(opt=kind, solver=solver.__name__, mode=mode, B=spec.B, costs=[c.kind for c in spec.costs])
    b = optim.build(spec)
    names = list(b.objective.optim_vars)
    order = list(names)
    case.rng.shuffle(order)
    grad = case.chance(0.6) and kind != "dog"
    gn = case.rng.sample(list(spec.vars), min(3, len(spec.vars))) if grad else []
    leaves = {n: optim.leaf_for(spec, b, n) for n in gn}
    rec = []
    vals, info = optim.solve(case, spec, b, kind, cls, solver, kw, leaves, rec, order,
                             vectorize=case.chance(0.8), **params)
    B = spec.B
    start = start_of(spec, b, names, B)
    cond = worst_cond(spec, order, [start] + rec, kw, kind)
    pick = case.rng.sample(range(B), min(2, B))
    for i in pick:
        if not float(cond[i]) < 1e7:
            case.event("ill-conditioned")
            continue
        sel = [i]
        b1 = optim.build(spec, sel=sel)
        l1 = {n: optim.leaf_for(spec, b1, n) for n in gn}
        r1 = []
        v1, i1 = optim.solve(case, spec, b1, kind, cls, solver, kw, l1, r1, order, vectorize=case.chance(0.8), **params)
        s1 = start_of(spec, b1, names, 1)
        tol = 1e-10 * (1 + float(cond[i]))
        if mode == "truncated" or mode == "implicit":
            # in the batch, the first loop runs until every element converged, so one that was
            # alone may take the second loop's steps from an earlier iteration; states agree anyway
            pass
        a, c = distinct(rec, start, i), distinct(r1, s1, 0)
        case.event("compared:" + kind)
        if kind == "dog":
            for s, t in list(zip(a, c))[:1 if mode == "implicit" else 2]:
                for n in names:
                    case.close(s[n], t[n], 1e-3 * (1 + float(t[n].abs().max())), "first states alone and in a batch")
            continue
        if kind == "alm" and len(a) != len(c):
            # rejected attempts only use up iterations while other elements accept theirs, so a
            # limit on iterations may cut an element's run at another point (documented)
            short = info.status[i] if len(a) < len(c) else i1.status[0]
            case.event("cut by the iteration limit")
            case.check(short == S.MAX_ITERATIONS, "an element stopped early because of its batch", got=short.name)
            k = min(len(a), len(c)) - (1 if mode == "implicit" else 0)
            for s, t in zip(a[:k], c[:k]):
                for n in names:
                    case.close(s[n], t[n], 1e3 * tol * (1 + float(t[n].abs().max())), "states alone and in a batch")
            continue
        m = min(len(a), len(c))
        for s in a[m:] + c[m:]:  # further steps are only rounding noise at the solution
            d = max(float((s[n] - a[m - 1][n]).abs().max()) / (1 + float(s[n].abs().max())) for n in names)
            case.check(d < 1e-5 + tol * 1e4, "number of steps an element takes depends on its batch", got=len(a),
                       alone=len(c), d=d)
        for k, (s, t) in enumerate(zip(a, c)):
            for n in names:
                case.close(s[n], t[n], tol * (1 + float(t[n].abs().max())) * 10 ** min(k, 4),
                           "states alone and in a batch", k=k)
        for n in names:
            case.close(vals[n][i], v1[n][0], tol * 1e4 * (1 + float(v1[n].abs().max())), "solutions alone and in a batch")
        limit = kind == "alm" and S.MAX_ITERATIONS in (info.status[i], i1.status[0])
        case.check(limit or info.status[i] == i1.status[0], "status depends on the batch", got=info.status[i].name,
                   alone=i1.status[0].name, its=len(a), err=float(info.last_err[i]), its1=len(c), it=len(rec), it1=len(r1))
        if kind in ("gn", "lm") and mode == "unroll":
            case.check(int(info.converged_iter[i]) == int(i1.converged_iter[0]), "converged_iter depends on the batch")
        if grad and vals[names[0]].requires_grad and v1[names[0]].requires_grad:
            w = {n: case.randn(*v1[n].shape) for n in names}
            L = sum((vals[n][i] * w[n][0]).sum() for n in names)
            M = sum((v1[n] * w[n]).sum() for n in names)
            G = torch.autograd.grad(L, list(leaves.values()), retain_graph=True, allow_unused=True)
            H = torch.autograd.grad(M, list(l1.values()), allow_unused=True)
            for n, g, h in zip(leaves, G, H):
                case.check((g is None) == (h is None), "gradient exists alone or in a batch only")
                if g is None:
                    continue
                if not torch.isfinite(h).all() or float(h.abs().max()) > 1e6:
                    case.event("gradient out of range")
                    continue
                big = 1 + float(h.abs().max())
                if g.shape[0] == B:
                    row = g[i:i + 1]
                    oth = [j for j in range(B) if j != i]
                    case.check(bool((g[oth] == 0).all()), "an element's solution depends on another element's input",
                               leak=float(g[oth].abs().max()))
                else:
                    row = g
                case.event("gradients compared")
                case.close(row, h, 1e5 * tol * big, "gradients alone and in a batch", cond=float(cond[i]))


def sc_permute(case):
    """A permuted batch gives the permuted answers; duplicated elements give equal answers."""
    spec = optim.smooth_spec(case, B=case.randint(2, 5), batch1_p=0.2)
    optim.scatter(spec, case.choice([0.05, 0.3, 0.8]), case)
    if all(v.value.shape[0] == 1 for v in spec.vars.values()):
        raise Skip()
    kind, cls, solver, kw = optim.pick_optimizer(case)
    kw = dict(kw, backward_mode=case.choice(["unroll", "implicit"]))
    params = dict(max_iterations=case.randint(1, 8), abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    case.sig(spec.signature(), kind, solver.__name__, sorted(kw.items(), key=str))
    case.describe(opt=kind, params=params, kw=kw)
    B = spec.B
    sel = [case.randint(0, B - 1) for _ in range(case.randint(2, 6))]
    if case.chance(0.5):
        sel = list(range(B))
        case.rng.shuffle(sel)
    b = optim.build(spec)
    p = optim.build(spec, sel=sel)
    names = list(b.objective.optim_vars)
    rec, rp = [], []
    v, info = optim.solve(case, spec, b, kind, cls, solver, kw, None, rec, vectorize=True, **params)
    w, inf2 = optim.solve(case, spec, p, kind, cls, solver, kw, None, rp, vectorize=True, **params)
    start = start_of(spec, b, names, B)
    cond = worst_cond(spec, names, [start] + rec, kw, kind)
    for j, i in enumerate(sel):
        if not float(cond[i]) < 1e7:
            continue
        tol = 1e-8 * (1 + float(cond[i]))
        a, c = distinct(rec, start, i), distinct(rp, start_of(spec, p, names, len(sel)), j)
        m = 2 if kind == "dog" else min(len(a), len(c), 5)
        if kind in ("alm", "dog") and kw["backward_mode"] == "implicit":
            m -= 1  # the forced last step starts where the iteration limit cut the run
        for s, t in list(zip(a, c))[:m]:
            for n in names:
                lim = 1e-3 if kind == "dog" else tol
                case.close(s[n], t[n], lim * (1 + float(t[n].abs().max())), "states in another batch arrangement")
        case.event("compared:" + kind)
        if kind in ("gn", "lm"):
            case.close(info.last_err[i], inf2.last_err[j], tol * 10 * (1 + float(info.last_err[i])), "last_err")
    for j in range(len(sel)):
        for k in range(j):
            if sel[j] == sel[k] and float(cond[sel[j]]) < 1e7 and kind != "dog":
                for n in names:
                    case.close(w[n][j], w[n][k], 1e-8 * (1 + float(cond[sel[j]])) * (1 + float(w[n][k].abs().max())),
                               "two copies of one element got different solutions")


SCENARIOS = {
    "alone": Scenario(sc_alone, quick=140, thorough=3500, floor=100),
    "permute": Scenario(sc_permute, quick=80, thorough=1500, floor=60),
}
