"""Shared machinery for the optimizer properties: random runs and reference solutions."""
import warnings

import torch

import theseus as th

from . import gen
from .core import D32, D64
from .props import c09

SMOOTH = ("diff", "between", "vec", "product", "adgroup", "dint", "gp", "qsp", "nonhol")
SMOOTH_LOSSES = ("welsch", "huber", "geman")


def smooth_spec(case, **kw):
    """A regular problem: every variable has a prior, every cost is smooth."""
    o = dict(prior=True, zero_p=0.0, kinds=SMOOTH, max_vars=2, n_costs=case.randint(1, 4),
             robust_losses=SMOOTH_LOSSES, robust_p=0.2)
    o.update(kw)
    o.setdefault("tiny", case.chance(0.12))
    return gen.make_spec(case, **o)


def pick_optimizer(case, adaptive=True):
    """(class, constructor kwargs, optimize kwargs, description)."""
    kind = case.choice(["gn", "gn", "lm", "lm"] + (["alm", "alm", "dog", "dog"] if adaptive else []))
    dense = case.choice([th.CholeskyDenseSolver, th.LUDenseSolver])
    solver = case.choice([dense, dense, th.CholmodSparseSolver])
    kw = {}
    if kind == "gn":
        cls = th.GaussNewton
    elif kind == "lm":
        cls = th.LevenbergMarquardt
        kw["damping"] = case.logu(1e-4, 1.0)
        if solver is not th.CholmodSparseSolver and case.chance(0.4):
            kw["ellipsoidal_damping"] = True
            if case.chance(0.5):
                kw["damping_eps"] = case.logu(1e-6, 1e-2)
    elif kind == "alm":
        cls = th.LevenbergMarquardt
        solver = dense
        kw["adaptive_damping"] = True
        kw["damping"] = case.logu(1e-3, 1e2)
        if case.chance(0.4):
            kw["ellipsoidal_damping"] = True
            if case.chance(0.5):
                kw["damping_eps"] = case.logu(1e-6, 1e-2)
        if case.chance(0.4):
            kw["up_damping_ratio"] = case.rng.uniform(2.0, 12.0)
            kw["down_damping_ratio"] = case.rng.uniform(2.0, 12.0)
        if case.chance(0.4):
            kw["damping_accept"] = case.rng.uniform(0.0, 0.5)
    else:
        cls = th.Dogleg
        kw["trust_region_init"] = case.logu(0.05, 5.0)
        if case.chance(0.4):
            kw["accept_threshold"] = case.rng.uniform(0.0, 0.2)
            kw["shrink_threshold"] = case.rng.uniform(0.25, 0.4)
            kw["expand_threshold"] = case.rng.uniform(0.5, 0.9)
        if case.chance(0.4):
            kw["shrink_ratio"] = case.rng.uniform(0.2, 0.8)
            kw["expand_ratio"] = case.rng.uniform(1.2, 3.0)
    return kind, cls, solver, kw


def make_optimizer(case, objective, cls, solver, order=True, **params):
    o = names = None
    if order:
        o, names = c09.ordering(case, objective)
    lk = {"ordering": o} if o else None
    return cls(objective, linear_solver_cls=solver, linearization_kwargs=lk, **params)


def scatter(spec, factor, case):
    """Moves the initial values of the optimization variables away from where they are."""
    for n in spec.optim_names():
        v = spec.vars[n]
        v.value = v.G.retract(v.value, case.randn(v.value.shape[0], v.G.dof) * factor)


def plain(spec, dtype=D64):
    """Twin objective, never vectorized, used to evaluate errors and linearizations."""
    b = gen.build(spec, dtype)
    b.objective.update()
    return b


def error_at(twin, state):
    with torch.no_grad():
        twin.objective.update({n: t for n, t in state.items()})
        return twin.objective.error_metric()


def solve(case, spec, b, kind, cls, solver, kw, leaves=None, record=None, order=None, inputs=None, **params):
    """One fresh layer run.  `leaves`: {name: tangent leaf}; the named variables are passed to the
    layer as retract(value, leaf)."""
    lk = None
    if order:
        lk = {"ordering": th.VariableOrdering(b.objective, default_order=False)}
        for n in order:
            lk["ordering"].append(b.objective.get_optim_var(n))
    opt = cls(b.objective, linear_solver_cls=solver, linearization_kwargs=lk, **params)
    layer = th.TheseusLayer(opt, vectorize=params.pop("vectorize_layer", True))
    inp = dict(inputs or {})
    for n, leaf in (leaves or {}).items():
        inp[n] = perturb(spec, b, n, leaf)
    okw = dict(kw)
    if record is not None:
        def cb(o, info, delta, it):
            record.append({n: v.tensor.detach().clone() for n, v in o.objective.optim_vars.items()})
        okw["end_iter_callback"] = cb
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return layer.forward(inp or None, optimizer_kwargs=okw)


def leaf_for(spec, b, n):
    v = spec.vars[n]
    t = b.values[n]
    shape = tuple(t.shape) if v.kind == "raw" else (t.shape[0], v.G.dof)
    return torch.zeros(*shape, dtype=t.dtype, requires_grad=True)


def build(spec, sel=None, dtype=D64, values=None):
    b = gen.build(spec, dtype, sel=sel, values=values)
    b.values = {n: gen.slice_value(spec, (values or {}).get(n, v.value), sel).to(dtype) for n, v in spec.vars.items()}
    return b


def perturb(spec, b, n, t):
    """The value of variable n moved by the tangent t (covariances stay symmetric)."""
    if spec.vars[n].kind != "raw":
        return spec.vars[n].G.retract(b.values[n], t)
    if t.ndim == 3 and t.shape[1] == t.shape[2]:
        t = 0.5 * (t + t.transpose(1, 2))
    return b.values[n] + t
