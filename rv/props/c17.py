"""C17: a layer's answer depends only on the values it is given, not on its history."""
import copy
import warnings

import torch

import theseus as th

from .. import gen, optim
from ..core import D32, D64, Scenario, Skip

QUICK = 3  # so many times each scenario's quick cases
ID = "C17"
RULE = ("a case puts one layer through a random history (forward calls with partial inputs and changing options, "
        "batch sizes, gradients, dtype conversions, parameter changes, failing calls) and compares every answer "
        "with that of a freshly built layer holding the same values")
ASSUMPTIONS = []


class Probe(Exception):
    pass


def kwargs_for(case, kind, solver):
    """Random options for this call."""
    kw = {}
    for k in ("track_best_solution", "track_err_history", "track_state_history"):
        if case.chance(0.5):
            kw[k] = True
    mode = case.choice([None, "unroll", "implicit", "truncated", "dlm"])
    if mode:
        kw["backward_mode"] = mode
    if mode == "truncated":
        kw["backward_num_iterations"] = case.randint(1, 2)
    if mode == "dlm" and case.chance(0.5):
        kw["dlm_epsilon"] = case.logu(1e-3, 1e-1)
    if kind == "lm":
        if case.chance(0.6):
            kw["damping"] = case.logu(1e-3, 10.0)
        if solver is not th.CholmodSparseSolver:
            if case.chance(0.3):
                kw["adaptive_damping"] = True
            if case.chance(0.3):
                kw["ellipsoidal_damping"] = True
                kw["damping_eps"] = case.logu(1e-5, 1e-2)
    if kind == "dog" and case.chance(0.6):
        kw["trust_region_init"] = case.logu(0.1, 3.0)
    return kw


def compare_info(case, a, b, tol, names):
    for f in ("best_err", "last_err", "err_history", "best_iter", "converged_iter"):
        x, y = getattr(a, f), getattr(b, f)
        case.check((x is None) == (y is None), f"info.{f} present or not")
        if x is None:
            continue
        fin = torch.isfinite(y)
        case.check(bool((torch.isfinite(x) == fin).all()), f"info.{f}: which entries are set")
        if f in ("best_iter", "converged_iter"):
            continue  # ties and last-bit convergence may differ
        z = torch.zeros((), dtype=y.dtype)
        case.close(torch.where(fin, x, z), torch.where(fin, y, z), tol * (1 + float(y[fin].abs().max() if fin.any() else 0)),
                   f"info.{f}")
    for f in ("state_history", "best_solution"):
        x, y = getattr(a, f), getattr(b, f)
        case.check((x is None) == (y is None), f"info.{f} present or not")
        if x is None or f == "best_solution":
            continue
        for n in names:
            case.check(tuple(x[n].shape) == tuple(y[n].shape) and x[n].dtype == y[n].dtype, f"info.{f} shape")


class World:
    """The persistent layer and a model of the values it holds."""

    def __init__(self, case, spec, kind, cls, solver, P):
        self.case, self.spec, self.kind, self.cls, self.solver, self.P = case, spec, kind, cls, solver, dict(P)
        self.dtype = D64
        b = gen.build(spec)
        self.b = b
        self.order = list(b.objective.optim_vars)
        case.rng.shuffle(self.order)
        o = th.VariableOrdering(b.objective, default_order=False)
        for n in self.order:
            o.append(b.objective.get_optim_var(n))
        self.vec = case.chance(0.75)
        self.opt = cls(b.objective, linear_solver_cls=solver, linearization_kwargs={"ordering": o}, **P)
        self.layer = th.TheseusLayer(self.opt, vectorize=self.vec)
        self.names = list(b.objective.optim_vars)
        self.used = self.names + list(b.objective.aux_vars)
        self.model = {n: spec.vars[n].value.clone() for n in self.used}
        self.known = True  # whether the model knows the optimization variables' values
        self.kept = []  # (tensor, clone) pairs that must never change

    def keep(self, t):
        if isinstance(t, torch.Tensor):
            self.kept.append((t, t.detach().clone()))

    def fresh(self):
        vals = {n: v for n, v in self.model.items()}
        spec = self.spec
        b = gen.build(spec, self.dtype, values=vals)
        b.values = {n: vals.get(n, v.value).to(self.dtype) for n, v in spec.vars.items()}
        return b


def sc_history(case):
    spec = optim.smooth_spec(case, max_vars=2, n_costs=case.randint(1, 3), batch1_p=0.25, ad_modes=("vmap", "dense"))
    optim.scatter(spec, 0.2, case)
    kind = case.choice(["gn", "lm", "lm", "dog"])
    cls = {"gn": th.GaussNewton, "lm": th.LevenbergMarquardt, "dog": th.Dogleg}[kind]
    solver = case.choice([th.CholeskyDenseSolver, th.LUDenseSolver, th.CholmodSparseSolver])
    P = dict(max_iterations=case.randint(1, 4), abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    W = World(case, spec, kind, cls, solver, P)
    case.sig(spec.signature(), kind, solver.__name__, P["max_iterations"])
    case.describe(opt=kind, solver=solver.__name__, costs=[c.kind for c in spec.costs])
    hist = []
    for step in range(case.randint(3, 8)):
        op = case.choice(["forward"] * 5 + ["to", "params", "update", "direct", "fail", "batch"])
        hist.append(op)
        case.describe(history=list(hist))
        case.event("op:" + op)
        if op == "to":
            W.dtype = case.choice([D32, D64])
            W.layer.to(dtype=W.dtype)
            W.model = {n: t.to(W.dtype) for n, t in W.model.items()}
            case.check(W.layer.dtype == W.dtype, "layer.dtype after to()")
        elif op == "params":
            p = {"max_iterations": case.randint(1, 4), "step_size": case.rng.uniform(0.4, 1.0) if kind != "dog" else 1.0}
            W.opt.set_params(**p)
            W.P.update(p)
        elif op == "update":
            new = {}
            for n in W.used:
                if case.chance(0.4):
                    v = spec.vars[n]
                    new[n] = gen.draw_value(case, v, W.model[n].shape[0]).to(W.dtype)
            W.b.objective.update(new)
            W.model.update({n: t.clone() for n, t in new.items()})
        elif op == "direct":
            n = case.choice(W.used)
            t = gen.draw_value(case, spec.vars[n], W.model[n].shape[0]).to(W.dtype)
            W.b.objective.get_optim_var(n).update(t) if n in W.names else W.b.objective.get_aux_var(n).update(t)
            W.model[n] = t.clone()
        elif op == "batch":  # everything at a new batch size
            B = case.randint(1, 4)
            new = {}
            for n in W.used:
                v = spec.vars[n]
                k = 1 if (W.model[n].shape[0] == 1 and n not in W.names and case.chance(0.5)) else B
                new[n] = gen.draw_value(case, v, k).to(W.dtype)
            W.b.objective.update(new)
            W.model = {n: t.clone() for n, t in new.items()}
            W.known = True
        elif op == "fail":
            fail_once(case, W)
        else:
            forward_once(case, W)
    forward_once(case, W)
    for t, c in W.kept:
        case.same(t.detach(), c, "a tensor given to or returned by an earlier call changed")


def fail_once(case, W):
    how = case.choice(["option", "mode", "shape", "callback", "nan"])
    case.event("fail:" + how)
    inp, kw = None, {}
    exc = Exception
    if how == "option":
        kw = {"backward_mode": "truncated"}
    elif how == "mode":
        kw = {"backward_mode": "nonsense"}
    elif how == "shape":
        n = case.choice(W.used)
        t = W.model[n]
        inp = {n: torch.cat([t, t], dim=-1)}
    elif how == "callback":
        def cb(*a):
            raise Probe()
        kw = {"end_iter_callback": cb}
        exc = Probe
    else:
        n = case.choice(W.names)
        v = W.spec.vars[n]
        if v.kind not in ("Vector", "Point2", "Point3"):
            return
        inp = {n: torch.full_like(W.model[n], float("nan"))}
        if W.solver is th.CholmodSparseSolver:
            return
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            W.layer.forward(inp, optimizer_kwargs=kw)
        if how != "nan":
            case.fail("an invalid call was accepted", how=how)
    except exc:
        pass
    if how == "shape":
        W.b.objective.update({n: t for n, t in W.model.items()})
    elif how in ("callback", "nan"):
        # what the optimization variables hold now is unspecified: give them values again
        new = {n: gen.draw_value(case, W.spec.vars[n], W.model[n].shape[0]).to(W.dtype) for n in W.names}
        W.b.objective.update(new)
        W.model.update({n: t.clone() for n, t in new.items()})


def forward_once(case, W):
    spec = W.spec
    kw = kwargs_for(case, W.kind, W.solver)
    if kw.get("backward_num_iterations", 0) > W.P["max_iterations"]:
        kw["backward_num_iterations"] = W.P["max_iterations"]
    given = {}
    for n in W.used:
        if case.chance(case.choice([0.0, 0.3, 1.0])):
            given[n] = gen.draw_value(case, spec.vars[n], W.model[n].shape[0]).to(W.dtype)
    grad = case.chance(0.5)
    gnames = [n for n in given if grad and case.chance(0.5)]
    for n in gnames:
        given[n].requires_grad_(True)
    W.model.update({n: t.detach().clone() for n, t in given.items()})
    for t in given.values():
        W.keep(t)
    W.keep_in = {n: t for n, t in W.model.items()}
    ref = W.fresh()
    okw = dict(kw)
    before = copy.deepcopy(kw)
    inp = dict(given)
    arg = inp if inp or case.chance(0.5) else None
    aux_before = {n: W.b.objective.aux_vars[n].tensor.detach().clone() for n in W.b.objective.aux_vars}
    inference = not grad and case.chance(0.3)
    with torch.set_grad_enabled(grad), torch.inference_mode(inference), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        vals, info = W.layer.forward(arg, optimizer_kwargs=okw)
    if inference:  # tensors made in this mode may not be used with gradients later
        case.event("inference mode")
        vals = {k: t.clone() for k, t in vals.items()}
        for v in W.b.objective.optim_vars.values():
            v.update(v.tensor.clone())
    with torch.set_grad_enabled(grad), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        case.check(okw == before, "the caller's options were modified")
        case.check(set(inp) == set(given) and all(inp[n] is given[n] for n in given), "the caller's inputs were modified")
        fin = {n: t.detach().clone().requires_grad_(n in gnames) for n, t in given.items()}
        want, winfo = optim.solve(case, spec, ref, W.kind, W.cls, W.solver, kw, order=W.order, inputs=fin, **W.P)
    tol = 1e-7 if W.dtype == D64 else 3e-3
    scale = max(1.0, max(float(t.detach().abs().max()) for t in want.values()))
    ok = scale < 1e3 and all(bool(torch.isfinite(t).all()) for t in want.values()) and \
        float(winfo.last_err.max()) < 1e6
    case.check(list(vals) == W.names, "names of the solution")
    if ok:
        case.event("answers compared")
        for n in W.names:
            case.check(vals[n].dtype == W.dtype, "dtype of the solution")
            if W.dtype == D64 or W.kind == "gn":
                case.close(vals[n].detach(), want[n].detach(), tol * scale, "solution of a reused layer", name=n)
        if W.dtype == D64:
            compare_info(case, info, winfo, tol, W.names)
        if gnames and W.dtype == D64 and any(v.requires_grad for v in want.values()):
            w = {n: case.randn(*want[n].shape) for n in W.names}
            g = torch.autograd.grad(sum((vals[n] * w[n]).sum() for n in W.names), [given[n] for n in gnames],
                                    allow_unused=True)
            h = torch.autograd.grad(sum((want[n] * w[n]).sum() for n in W.names), [fin[n] for n in gnames],
                                    allow_unused=True)
            for a, c in zip(g, h):
                z = [torch.zeros(()) if t is None else t for t in (a, c)]
                if torch.isfinite(z[1]).all() and float(z[1].abs().max()) < 1e4:
                    case.event("gradients compared")
                    za, zc = torch.broadcast_tensors(*z)
                    case.close(za, zc, 1e-5 * (1 + float(zc.abs().max())), "gradient of a reused layer",
                               mode=str(kw.get("backward_mode")))
    for n, t in aux_before.items():
        want_aux = given[n] if n in given else t
        case.same(W.b.objective.aux_vars[n].tensor.detach(), want_aux.detach(), "auxiliary value after forward")
    for n in W.names:
        W.keep(vals[n])
    for t in (info.best_err, info.last_err, info.err_history):
        W.keep(t)
    # a fresh start for the next call keeps rounding from growing into a difference
    new = {n: vals[n].detach().clone() for n in W.names}
    if not ok or case.chance(0.3):
        new = {n: gen.draw_value(case, spec.vars[n], new[n].shape[0]).to(W.dtype) for n in W.names}
        W.b.objective.update(new)
    W.model.update({n: t.clone() for n, t in new.items()})


SCENARIOS = {
    "history": Scenario(sc_history, quick=120, thorough=2500, floor=120),
}
