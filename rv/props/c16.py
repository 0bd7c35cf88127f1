"""C16: backward modes return the derivatives they stand for."""
import math
import warnings

import torch

import theseus as th

from .. import gen, optim
from ..core import D32, D64, Scenario, Skip
from . import c09, c10, c13

ID = "C16"
RULE = ("a case differentiates a layer's outputs with respect to random inputs (auxiliary values, weights, "
        "measurements, starting points); gradients are compared with finite differences of the iterations the "
        "mode covers, with the implicit-function or direct-loss formula, and across solvers and call orders")
ASSUMPTIONS = ["costs with kinks are not generated", "error evaluations and steps are decided by C02, C13"]


def problem(case, **kw):
    o = dict(B=case.randint(1, 3), max_vars=2, n_costs=case.randint(1, 3), batch1_p=0.25, robust_losses=("welsch", "geman"),
             ad_modes=("vmap", "dense"))
    o.update(kw)
    spec = optim.smooth_spec(case, **o)
    optim.scatter(spec, case.choice([0.05, 0.3]), case)
    return spec


def plain_opt(case, kinds=("gn", "lm")):
    while True:
        kind, cls, solver, kw = optim.pick_optimizer(case)
        if kind in kinds:
            return kind, cls, solver, kw


def pick_leaves(case, spec, aux_only=False):
    names = [n for n, v in spec.vars.items() if not (aux_only and v.role == "opt")]
    used = set(spec.optim_names()) | set(spec.aux_names())
    names = [n for n in names if n in used]
    if not names:
        raise Skip()
    return case.rng.sample(names, min(len(names), case.randint(1, 4)))


def weights_for(case, vals):
    return {n: case.randn(*t.shape) for n, t in vals.items()}


def loss(vals, w):
    return sum((vals[n] * w[n]).sum() for n in vals)


def as_inputs(spec, b, pert):
    """{name: retract(value, tangent)}"""
    return {n: optim.perturb(spec, b, n, t) for n, t in pert.items()}


def compare_fd(case, f, leaves, grads, msg, tol=2e-5):
    """Directional central differences at two step sizes."""
    dirs = {n: case.randn(*t.shape) for n, t in leaves.items()}
    got = sum(float((g * dirs[n]).sum()) for (n, g) in zip(leaves, grads) if g is not None)
    gmag = sum(float(g.abs().sum()) for g in grads if g is not None)
    if not gmag < 1e5:
        case.check(gmag == gmag, msg + ": NaN gradient") if all(bool(torch.isfinite(t).all()) for t in leaves.values()) else None
        raise Skip()

    def D(h):
        return (f({n: d * h for n, d in dirs.items()}) - f({n: d * -h for n, d in dirs.items()})) / (2 * h)
    a, b = D(1e-4), D(5e-5)
    best = b + (b - a) / 3
    unc = abs(a - b)
    sc = 1 + gmag
    if not unc < 1e-3 * sc:
        case.event("finite differences unreliable")
        return
    case.event("gradient checked")
    case.oracle_calls += 1
    case.max_dev[msg] = max(case.max_dev.get(msg, 0.0), abs(got - best) / sc)
    if not abs(got - best) <= 3 * unc + tol * sc:
        case.fail(msg, got=got, fd=best, unc=unc, gmag=gmag)


def sc_unrolled(case):
    """Unroll: derivative of everything; truncated: of the last iterations only."""
    spec = problem(case)
    kind, cls, solver, kw = plain_opt(case)
    T = case.randint(1, 5)
    k = case.choice([None, None, case.randint(1, T)])
    mode = {"backward_mode": "unroll"} if k is None else {"backward_mode": "truncated", "backward_num_iterations": k}
    P = dict(max_iterations=T, abs_err_tolerance=0.0, rel_err_tolerance=0.0, step_size=case.choice([1.0, 0.6]))
    case.sig(spec.signature(), kind, solver.__name__, T, k)
    case.describe(opt=kind, solver=solver.__name__, T=T, k=k, costs=[c.kind for c in spec.costs])
    names = pick_leaves(case, spec)
    b = optim.build(spec)
    leaves = {n: optim.leaf_for(spec, b, n) for n in names}
    rec = []
    vals, info = optim.solve(case, spec, b, kind, cls, solver, {**kw, **mode}, leaves, rec, **P)
    if len(rec) < T:
        raise Skip()  # stopped at an exact fixed point
    w = weights_for(case, vals)
    if not loss(vals, w).requires_grad:
        case.check(all(n in spec.optim_names() for n in names) and k is not None and k < T,
                   "outputs do not depend on the inputs")
        return
    grads = torch.autograd.grad(loss(vals, w), list(leaves.values()), allow_unused=True)
    for n, g in zip(names, grads):
        case.check(g is None or bool(torch.isfinite(g).all()), "non-finite gradient", name=n)
    if k is None or k == T:
        def f(pert):
            bb = optim.build(spec)
            with torch.no_grad():
                v, _ = optim.solve(case, spec, bb, kind, cls, solver, kw, inputs=as_inputs(spec, bb, pert), **P)
            return float(loss(v, w))
        compare_fd(case, f, leaves, grads, "unrolled gradient")
        return
    # truncated: the state after T - k iterations is a constant
    fixed = rec[T - k - 1]
    for n, g in zip(names, grads):
        if n in spec.optim_names():
            case.check(g is None or not bool(g.any()), "truncated gradient reaches the starting point")
    aux = {n: t for n, t in leaves.items() if n not in spec.optim_names()}
    if not aux:
        return

    def f(pert):
        bb = optim.build(spec)
        with torch.no_grad():
            inp = {**fixed, **as_inputs(spec, bb, pert)}
            v, _ = optim.solve(case, spec, bb, kind, cls, solver, kw, inputs=inp, **{**P, "max_iterations": k})
        return float(loss(v, w))
    case.event("truncated")
    compare_fd(case, f, aux, [g for n, g in zip(names, grads) if n in aux], "truncated gradient")


def sc_second(case):
    """The unrolled gradient is itself differentiable, or the second pass refuses."""
    spec = problem(case, B=case.randint(1, 2))
    kind, cls, solver, kw = plain_opt(case)
    T = case.randint(1, 3)
    P = dict(max_iterations=T, abs_err_tolerance=0.0, rel_err_tolerance=0.0, step_size=case.choice([1.0, 0.6]))
    case.sig(spec.signature(), kind, solver.__name__, T)
    case.describe(opt=kind, solver=solver.__name__, T=T, costs=[c.kind for c in spec.costs])
    names = pick_leaves(case, spec)
    b = optim.build(spec)
    base = {n: 0.1 * case.randn(*optim.leaf_for(spec, b, n).shape) for n in names}
    r = {n: case.randn(*t.shape) for n, t in base.items()}
    w = {}

    def first(lv, graph):
        rec = []
        vals, _ = optim.solve(case, spec, optim.build(spec), kind, cls, solver, kw, lv, rec, **P)
        if len(rec) < T:
            raise Skip()
        w.update({} if w else weights_for(case, vals))
        out = loss(vals, w)
        if not out.requires_grad:
            raise Skip()
        return torch.autograd.grad(out, list(lv.values()), create_graph=graph, allow_unused=True)

    def along(gs):
        return sum((g * r[n]).sum() for n, g in zip(names, gs) if g is not None)
    lv = {n: t.clone().requires_grad_() for n, t in base.items()}
    try:
        gs = first(lv, True)
        s = along(gs)
        if not (torch.is_tensor(s) and s.requires_grad):
            H = [None] * len(names)
        else:
            H = torch.autograd.grad(s, list(lv.values()), allow_unused=True)
    except RuntimeError as e:
        case.check(solver is th.CholmodSparseSolver and "requires grad" in str(e), f"second derivative raised: {e}")
        case.event("refused")
        return

    def f(pert):
        return float(along(first({n: (base[n] + t).requires_grad_() for n, t in pert.items()}, False)))
    compare_fd(case, f, lv, H, "second derivative")


def sc_implicit(case):
    """Implicit: derivative of one Gauss-Newton step with the Hessian held fixed."""
    spec = problem(case)
    kind, cls, solver, kw = plain_opt(case, ("gn", "lm", "alm", "dog"))
    T = case.randint(2, 12)
    P = dict(max_iterations=T, abs_err_tolerance=0.0, rel_err_tolerance=case.choice([0.0, 1e-6]))
    case.sig(spec.signature(), kind, solver.__name__, T)
    case.describe(opt=kind, solver=solver.__name__, T=T, costs=[c.kind for c in spec.costs])
    names = pick_leaves(case, spec)
    b = optim.build(spec)
    leaves = {n: optim.leaf_for(spec, b, n) for n in names}
    rec = []
    vals, info = optim.solve(case, spec, b, kind, cls, solver, {**kw, "backward_mode": "implicit"}, leaves, rec, **P)
    aux = {n: t for n, t in leaves.items() if n not in spec.optim_names()}
    w = weights_for(case, vals)
    L = loss(vals, w)
    if not aux:
        if L.requires_grad:
            for g in torch.autograd.grad(L, list(leaves.values()), allow_unused=True):
                case.check(g is None or not bool(g.any()), "implicit gradient reaches the starting point")
        return
    case.check(L.requires_grad, "outputs do not depend on the inputs")
    grads = torch.autograd.grad(L, list(leaves.values()), allow_unused=True)
    for n, g in zip(names, grads):
        case.check(g is None or bool(torch.isfinite(g).all()), "non-finite gradient", name=n)
        if n in spec.optim_names():
            case.check(g is None or not bool(g.any()), "implicit gradient reaches the starting point")
    order = list(b.objective.optim_vars)
    x = rec[-2] if len(rec) > 1 else {n: b.values[n].expand(spec.B, *b.values[n].shape[1:]) for n in order}
    lin = c13.Lin(spec, order)
    A, bb, _ = lin.at(x)
    N, _ = c10.normal(A, bb, None, False, 0.0)
    if not float(torch.linalg.cond(N).max()) < 1e7:
        raise Skip()

    def f(pert):
        st = {**x, **as_inputs(spec, b, pert)}
        A, bb, _ = lin.at(st)
        d = torch.linalg.solve(N, (A.transpose(1, 2) @ bb.unsqueeze(2)).squeeze(2))
        return float(loss(lin.retract(x, d), w))
    base = lin.retract(x, torch.linalg.solve(N, (A.transpose(1, 2) @ bb.unsqueeze(2)).squeeze(2)))
    for n in order:
        case.close(vals[n], base[n], 1e-5 * (1 + float(base[n].abs().max())), "last implicit step")
    compare_fd(case, f, aux, [g for n, g in zip(names, grads) if n in aux], "implicit gradient", tol=1e-4)


def sc_dlm(case):
    """Direct loss minimization: (dE(x) - dE(x_eps)) / eps with x_eps one GN step on the perturbed problem."""
    spec = problem(case)
    kind, cls, solver, kw = plain_opt(case, ("gn", "lm", "alm", "dog"))
    T = case.randint(1, 10)
    P = dict(max_iterations=T, abs_err_tolerance=0.0, rel_err_tolerance=case.choice([0.0, 1e-6]))
    eps = case.choice([None, 1e-3, 0.1, case.logu(1e-3, 1.0)])
    case.sig(spec.signature(), kind, solver.__name__, T, eps)
    case.describe(opt=kind, solver=solver.__name__, T=T, eps=eps, costs=[c.kind for c in spec.costs])
    names = pick_leaves(case, spec, aux_only=case.chance(0.8))
    b = optim.build(spec)
    leaves = {n: optim.leaf_for(spec, b, n) for n in names}
    dkw = {**kw, "backward_mode": case.choice(["dlm", "DLM", th.BackwardMode.DLM])}
    if eps is not None:
        dkw["dlm_epsilon"] = eps
    vals, info = optim.solve(case, spec, b, kind, cls, solver, dkw, leaves, **P)
    b2 = optim.build(spec)
    with torch.no_grad():
        ref, _ = optim.solve(case, spec, b2, kind, cls, solver, kw, **P)
    for n in vals:
        case.close(vals[n], ref[n], 1e-9 * (1 + float(ref[n].abs().max())), "DLM forward differs from the plain one")
    aux = {n: t for n, t in leaves.items() if n not in spec.optim_names()}
    w = weights_for(case, vals)
    if not aux:
        if loss(vals, w).requires_grad:
            for g in torch.autograd.grad(loss(vals, w), list(leaves.values()), allow_unused=True):
                case.check(g is None or not bool(g.any()), "DLM gradient reaches the starting point")
        return
    grads = torch.autograd.grad(loss(vals, w), list(leaves.values()), allow_unused=True)
    eps = eps or 1e-2
    order = list(b.objective.optim_vars)
    lin = c13.Lin(spec, order)
    x = {n: vals[n].detach() for n in order}
    A, bb, _ = lin.at(x)
    rows, rhs, k, nc = [], [], 0, A.shape[2]
    for n in order:
        v = spec.vars[n]
        J = torch.zeros(spec.B, x[n][0].numel(), nc, dtype=D64)
        for j in range(v.G.dof):
            e = torch.zeros(spec.B, v.G.dof, dtype=D64)
            e[:, j] = 1e-5
            J[:, :, k + j] = ((v.G.retract(x[n], e) - v.G.retract(x[n], -e)) / 2e-5).flatten(1)
        k += v.G.dof
        rows.append(math.sqrt(2) * eps * J)
        rhs.append(-math.sqrt(2) * (eps * x[n] - 0.5 * w[n]).flatten(1))
    A2, b2_ = torch.cat([A] + rows, 1), torch.cat([bb] + rhs, 1)
    N, g = c10.normal(A2, b2_, None, False, 0.0)
    if not float(torch.linalg.cond(N).max()) < 1e7:
        raise Skip()
    d = torch.linalg.solve(N, g)
    if not float(d.norm(dim=1).max()) < 20:
        raise Skip()
    xe = lin.retract(x, d)
    twin = optim.plain(spec)

    def dE(state):
        pert = {n: torch.zeros_like(t).requires_grad_(True) for n, t in aux.items()}
        with torch.enable_grad():
            twin.objective.update({**state, **as_inputs(spec, b, pert)})
            return torch.autograd.grad(twin.objective.error_metric().sum(), list(pert.values()), allow_unused=True)
    want = [None if p is None else (p - q) / eps for p, q in zip(dE(x), dE(xe))]
    got = [g for n, g in zip(names, grads) if n in aux]
    for n, g, h in zip(aux, got, want):
        if h is None:
            case.check(g is None or not bool(g.any()), "DLM gradient of an unused input", name=n)
            continue
        case.event("gradient checked")
        if not torch.isfinite(h).all() or float(h.abs().max()) > 1e6:
            continue
        z = torch.zeros_like(h) if g is None else g
        case.close(z, h, 3e-5 * (1 + float(h.abs().max())) / min(1.0, eps * 10), "DLM gradient", name=n)


def sc_modes(case):
    """Solvers, ways of calling, and the order of forward and backward passes do not matter."""
    specs = []
    base = problem(case, B=case.randint(1, 3), all_costs_batched=True)
    kind, cls, solver, kw = plain_opt(case, ("gn", "lm"))
    kw.pop("ellipsoidal_damping", None)
    kw.pop("damping_eps", None)
    T = case.randint(1, 4)
    every = [{"backward_mode": "unroll"}, {"backward_mode": "implicit"}, {"backward_mode": "dlm"},
             {"backward_mode": "truncated", "backward_num_iterations": 1}]
    P = dict(max_iterations=T, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    names = pick_leaves(case, base, aux_only=True)
    n_calls = case.randint(2, 4)
    modes = [case.choice(every)] * n_calls
    if case.chance(0.6):  # the mode changes from call to call
        modes = [case.choice(every) for _ in range(n_calls)]
    for j in range(n_calls):
        s = base.clone()
        if j:
            for n in names + [v for v in s.vars if case.chance(0.5)]:
                v = s.vars[n]
                v.value = gen.draw_value(case, v, v.value.shape[0])
        specs.append(s)
    case.sig(base.signature(), kind, solver.__name__, T, modes)
    case.describe(opt=kind, solver=solver.__name__, T=T, modes=modes, costs=[c.kind for c in base.costs])
    want, ws = [], []
    other = case.choice([th.CholeskyDenseSolver, th.LUDenseSolver, th.CholmodSparseSolver])
    for s, mode in zip(specs, modes):  # each alone, with another solver
        b = optim.build(s)
        L = {n: optim.leaf_for(s, b, n) for n in names}
        v, _ = optim.solve(case, s, b, kind, cls, other, {**kw, **mode}, L, **P)
        if not ws:
            ws = [weights_for(case, v) for _ in specs]
        l = loss(v, ws[len(want)])
        if not l.requires_grad:
            raise Skip()
        g = torch.autograd.grad(l, list(L.values()), allow_unused=True)
        if not all(h is None or (bool(torch.isfinite(h).all()) and float(h.abs().max()) < 1e4) for h in g):
            raise Skip()
        want.append((float(l), g))
    # one layer, all forwards, then backwards in random order, some twice
    b = optim.build(base)
    opt = optim.make_optimizer(case, b.objective, cls, solver, **P)
    layer = th.TheseusLayer(opt, vectorize=case.chance(0.8))
    live = []
    for s, mode in zip(specs, modes):
        bs = optim.build(s)
        L = {n: optim.leaf_for(s, bs, n) for n in names}
        inp = {n: t.clone() for n, t in bs.values.items() if n in set(s.optim_names()) | set(s.aux_names())}
        inp.update(as_inputs(s, bs, L))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v, _ = layer.forward(inp, optimizer_kwargs={**kw, **mode})
        live.append((L, v))
    todo = list(range(n_calls)) + [case.randint(0, n_calls - 1)]
    case.rng.shuffle(todo)
    for j in todo:
        L, v = live[j]
        l = loss(v, ws[j])
        case.close(torch.tensor(float(l)), torch.tensor(want[j][0]), 1e-5 * (1 + abs(want[j][0])), "forward value across solvers")
        g = torch.autograd.grad(l, list(L.values()), allow_unused=True, retain_graph=True)
        for n, a, c in zip(names, g, want[j][1]):
            if c is None or a is None:
                case.check((a is None or not bool(a.any())) and (c is None or not bool(c.any())), "missing gradient")
                continue
            case.event("gradient checked")
            case.close(a, c, 1e-5 * (1 + float(c.abs().max())), "gradient depends on solver or call order", mode=str(modes[j]), modes=str(modes))
    with torch.no_grad(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        v, _ = layer.forward(None, optimizer_kwargs={**kw, **mode})
    case.check(not any(t.requires_grad for t in v.values()), "gradients recorded although disabled")


SCENARIOS = {
    "unrolled": Scenario(sc_unrolled, quick=100, thorough=2000, floor=80),
    "second": Scenario(sc_second, quick=60, thorough=1200, floor=20),
    "implicit": Scenario(sc_implicit, quick=100, thorough=2000, floor=80),
    "dlm": Scenario(sc_dlm, quick=80, thorough=1500, floor=80),
    "modes": Scenario(sc_modes, quick=60, thorough=1000, floor=60),
}
