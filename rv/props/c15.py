"""C15: failures in the middle of an optimization are contained."""
import warnings

import torch

import theseus as th
from theseus.optimizer.nonlinear import NonlinearOptimizerStatus as S

from .. import gen, optim
from ..core import D32, D64, Scenario, Skip

ID = "C15"
RULE = ("a case injects one fault (linear solver failure, exception in a cost, retraction or callback, singular or "
        "non-finite element) at a random point of a run and checks what is reported, what is left behind, and that "
        "the same layer then solves as a fresh one")
ASSUMPTIONS = ["after an exception the values of optimization variables are those of some visited state"]


class Injected(Exception):
    pass


def setup(case, kinds=("gn", "lm", "alm", "dog")):
    spec = optim.smooth_spec(case, max_vars=2, n_costs=case.randint(1, 3), batch1_p=0.2)
    optim.scatter(spec, case.choice([0.1, 0.5]), case)
    while True:
        kind, cls, solver, kw = optim.pick_optimizer(case)
        if kind in kinds:
            break
    b = optim.build(spec)
    P = dict(max_iterations=case.randint(2, 9), abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    opt = cls(b.objective, linear_solver_cls=solver, **P)
    layer = th.TheseusLayer(opt, vectorize=case.chance(0.7))
    mode = case.choice(["unroll", "implicit", "truncated", "dlm"])
    kw = dict(kw, backward_mode=mode)
    if mode == "truncated":
        kw["backward_num_iterations"] = case.randint(1, P["max_iterations"])
    return spec, b, kind, cls, solver, kw, P, opt, layer


def fresh_inputs(case, spec, b):
    used = list(b.objective.optim_vars) + list(b.objective.aux_vars)
    return {n: gen.draw_value(case, spec.vars[n], spec.vars[n].value.shape[0]) for n in used}


def still_works(case, spec, b, kind, cls, solver, kw, P, layer):
    """The layer, given complete inputs, answers as a fresh one."""
    inp = fresh_inputs(case, spec, b)
    b2 = optim.build(spec)
    with warnings.catch_warnings(), torch.no_grad():
        warnings.simplefilter("ignore")
        v, i = layer.forward(inp, optimizer_kwargs=dict(kw))
        w, j = optim.solve(case, spec, b2, kind, cls, solver, kw, inputs={n: t.clone() for n, t in inp.items()}, **P)
    if not float(j.last_err.max()) < 1e6:
        return
    case.event("works afterwards")
    for n in w:
        case.close(v[n], w[n], 1e-6 * (1 + float(w[n].abs().max())), "answer after a failure", name=n)
    case.close(i.last_err, j.last_err, 1e-6 * (1 + float(j.last_err.max())), "error after a failure")
    case.check([s.name for s in i.status] == [s.name for s in j.status], "status after a failure")


def sc_linear(case):
    """The linear solver fails at the n-th call."""
    spec, b, kind, cls, solver, kw, P, opt, layer = setup(case)
    n_fail = case.randint(0, P["max_iterations"] + 1)
    grad = case.chance(0.4)
    mode = kw["backward_mode"]
    real = opt.linear_solver.solve
    calls = [0]
    text = "injected failure"

    def solve(*a, **k):
        calls[0] += 1
        if calls[0] == n_fail + 1:
            raise RuntimeError(text)
        return real(*a, **k)
    names = list(b.objective.optim_vars)
    states = []

    def cb(o, info, delta, it):
        states.append({n: v.tensor.detach().clone() for n, v in o.objective.optim_vars.items()})
    case.sig(spec.signature(), kind, solver.__name__, mode, n_fail, grad)
    case.describe(opt=kind, solver=solver.__name__, mode=mode, n_fail=n_fail, grad=grad)
    start = {n: b.values[n].expand(spec.B, *b.values[n].shape[1:]).clone() for n in names}
    aux = {n: v.tensor.clone() for n, v in b.objective.aux_vars.items()}
    inp = {n: start[n].clone().requires_grad_(grad) for n in names}
    opt.linear_solver.solve = solve
    raised = info = None
    try:
        with warnings.catch_warnings(record=True) as ws, torch.set_grad_enabled(grad):
            warnings.simplefilter("always")
            vals, info = layer.forward(inp, optimizer_kwargs={**kw, "end_iter_callback": cb, "track_best_solution": True,
                                                              "track_err_history": True})
    except RuntimeError as e:
        raised = e
    finally:
        del opt.linear_solver.solve
    failed = calls[0] > n_fail
    case.check(torch.is_grad_enabled(), "gradient mode was left changed")
    for n, t in aux.items():
        case.same(b.objective.aux_vars[n].tensor, t, "auxiliary variable after a failure")
    visited = [start] + states
    now = {n: b.objective.optim_vars[n].tensor.detach() for n in names}
    case.check(any(all(torch.equal(now[n].expand_as(s[n]), s[n]) for n in names) for s in visited[-1:]),
               "variables hold a state that was never reached")
    if not failed:
        case.check(raised is None and all(s != S.FAIL for s in info.status), "failure reported without one")
        case.event("fault not reached")
    else:
        case.event("fault:" + ("grad" if grad else "nograd") + ":" + mode)
        if raised is not None:
            case.check(text in str(raised), "the cause of the failure is not reported", got=str(raised)[:200])
            # only a loop that records gradients may raise
            case.check(grad and mode != "dlm", "raised without gradients")
        else:
            # inside implicit's last step a failing Gauss-Newton falls back to the regular step
            fell_back = mode == "implicit" and all(s != S.FAIL for s in info.status)
            case.check(fell_back or all(s == S.FAIL for s in info.status), "status after a linear solver failure",
                       got=[s.name for s in info.status])
            if not fell_back:
                case.check(any(text in str(w.message) for w in ws), "no warning about the failure")
                if mode in ("unroll", "dlm"):
                    case.check(len(states) <= n_fail, "iterated on after the failure")
            twin = optim.plain(spec)
            E = torch.stack([optim.error_at(twin, s) for s in visited], 1)
            if float(E.abs().max()) < 1e8:
                big = 1e-8 * (1 + float(E.max()))
                case.close(info.best_err, E.min(dim=1).values, big, "best_err after a failure")
                case.close(optim.error_at(twin, info.best_solution), info.best_err, big, "best_solution after a failure")
                case.close(info.last_err, E[:, -1], big, "last_err after a failure")
                H = info.err_history
                case.close(H[:, :len(visited)], E, big, "err_history after a failure")
                case.check(bool(torch.isinf(H[:, len(visited):]).all()), "err_history after the failure")
    still_works(case, spec, b, kind, cls, solver, kw, P, layer)


def sc_exceptions(case):
    """User code raises at the n-th use."""
    spec, b, kind, cls, solver, kw, P, opt, layer = setup(case)
    where = case.choice(["error", "jacobians", "retract", "callback", "weight"])
    n_fail = case.randint(0, 12)
    names = list(b.objective.optim_vars)
    case.sig(spec.signature(), kind, solver.__name__, kw["backward_mode"], where, n_fail)
    case.describe(opt=kind, solver=solver.__name__, mode=kw["backward_mode"], where=where, n=n_fail)
    calls = [0]

    def wrap(fn):
        def inner(*a, **k):
            calls[0] += 1
            if calls[0] == n_fail + 1:
                raise Injected()
            return fn(*a, **k)
        return inner
    inp = fresh_inputs(case, spec, b)
    # "auxiliary variables hold exactly what they were given" must survive the exception
    aux = {n: inp[n] for n in b.objective.aux_vars}
    kw2 = dict(kw)
    patched = []

    def patch(owner, attr):
        own = attr in owner.__dict__
        old = getattr(owner, attr)
        setattr(owner, attr, wrap(old))
        patched.append((owner, attr, old, own))
    if where in ("error", "jacobians"):
        c = case.choice(list(b.costs.values()))
        patch(type(c), where)
    elif where == "weight":
        c = case.choice(list(b.weights.values()))
        patch(type(c), case.choice(["weight_error", "weight_jacobians_and_error"]))
    elif where == "retract":
        v = b.objective.get_optim_var(case.choice(names))
        patch(type(v), "_retract_impl")
    else:
        kw2["end_iter_callback"] = wrap(lambda *a: None)
    cnt0 = dict(b.objective.cost_functions)
    keys = [list(b.objective.optim_vars), list(b.objective.aux_vars), list(cnt0)]
    given = {n: t.clone() for n, t in inp.items()}
    hit = False
    grad = case.chance(0.5)
    try:
        with warnings.catch_warnings(), torch.set_grad_enabled(grad):
            warnings.simplefilter("ignore")
            layer.forward(inp, optimizer_kwargs=kw2)
    except Injected:
        hit = True
    finally:
        for owner, attr, old, own in patched:
            if own:
                setattr(owner, attr, old)
            else:
                delattr(owner, attr)
    case.check(hit == (calls[0] > n_fail), "an exception of user code was swallowed")
    case.event(("raised:" if hit else "not reached:") + where)
    for n in given:
        case.same(inp[n], given[n], "an input tensor was modified")
    case.check(keys == [list(b.objective.optim_vars), list(b.objective.aux_vars), list(b.objective.cost_functions)],
               "the objective's contents changed")
    if hit and calls[0] > 0 and where != "error" or n_fail > 3:
        for n, t in aux.items():
            case.same(b.objective.aux_vars[n].tensor.detach(), t, "auxiliary variable after an exception")
    for n in names:
        case.check(bool(torch.isfinite(b.objective.optim_vars[n].tensor).all()), "non-finite variable after an exception")
    case.check(torch.is_grad_enabled(), "gradient mode was left changed")
    still_works(case, spec, b, kind, cls, solver, kw, P, layer)


def sc_elements(case):
    """A batch element whose system is singular, or whose inputs are not finite."""
    spec, b, kind, cls, solver, kw, P, opt, layer = setup(case, kinds=("gn", "lm"))
    what = case.choice(["zero", "nan", "inf"])
    n = case.choice(list(b.objective.optim_vars))
    v = spec.vars[n]
    i = case.randint(0, spec.B - 1)
    inp = fresh_inputs(case, spec, b)
    grad = case.chance(0.4)
    case.sig(spec.signature(), kind, solver.__name__, kw["backward_mode"], what, n, i)
    case.describe(opt=kind, solver=solver.__name__, mode=kw["backward_mode"], what=what)
    if what == "zero":
        for ws in spec.weights.values():
            for a in ws.aux:
                t = inp[a]
                if t.shape[0] > i and ws.kind != "gp":
                    inp[a] = t.clone()
                    inp[a][i] = 0.0
        kw = {k: x for k, x in kw.items() if k not in ("damping", "damping_eps", "ellipsoidal_damping")}
        if kind == "lm":
            kw["damping"] = 0.0
    else:
        t = inp[n].clone()
        t[i if t.shape[0] > 1 else 0] = float(what)
        inp[n] = t
    given = {k: t.clone() for k, t in inp.items()}
    try:
        with warnings.catch_warnings(), torch.set_grad_enabled(grad):
            warnings.simplefilter("ignore")
            vals, info = layer.forward(inp, optimizer_kwargs={**kw, "track_best_solution": True})
        case.event("returned")
        # whatever happened to the bad element, an element's reported best is a true record
        twin = optim.plain(spec)
        twin.objective.update({k: t for k, t in inp.items()})
        e = optim.error_at(twin, {k: t.detach() for k, t in info.best_solution.items()})
        for j in range(spec.B):
            if bool(torch.isfinite(e[j])) and bool(torch.isfinite(info.best_err[j])) and float(e[j]) < 1e8:
                case.close(e[j], info.best_err[j], 1e-7 * (1 + float(e[j])), "best_solution beside a bad element")
                case.event("good element beside a bad one")
    except (RuntimeError, ValueError) as ex:
        case.event("raised")
        case.oracle_calls += 1
    for k in given:
        case.same(inp[k].detach(), given[k], "an input tensor was modified")
    case.check(torch.is_grad_enabled(), "gradient mode was left changed")
    still_works(case, spec, b, kind, cls, solver, kw if what != "zero" or kind == "gn" else {**kw, "damping": 0.1}, P, layer)


def sc_masked(case):
    """Evaluations on part of the batch: right when they work, without traces when they do not."""
    spec = optim.smooth_spec(case, B=case.randint(2, 4), max_vars=2, n_costs=case.randint(1, 2),
                             batch1_p=case.choice([0.0, 0.0, 0.2]))
    b = optim.build(spec)
    c = case.choice(list(b.costs.values()))
    c = getattr(c, "cost_function", c)  # a robust cost applies its weight, which is not masked
    vs = list(c.optim_vars) + list(c.aux_vars)
    B = max(v.shape[0] for v in vs)
    mask = torch.tensor([case.chance(0.6) for _ in range(B)])
    fits = all(v.shape[0] == B for v in vs) and len({id(v) for v in vs}) == len(vs)
    kept = [(v, v.tensor, v.tensor.clone()) for v in vs]
    where = case.choice(["none", "body", "nested", "jacobians", "jacobians"])
    case.sig(spec.signature(), c.name, tuple(mask.tolist()), where)
    case.describe(cost=type(c).__name__, mask=mask.tolist(), where=where, fits=fits)
    J0, e0 = c.jacobians()

    def untouched(msg):
        for v, t, was in kept:
            case.check(v.shape == was.shape, f"shape of a variable {msg}", name=v.name, got=tuple(v.shape))
            case.same(v.tensor, was, f"variable {msg}", name=v.name)
        J, e = c.jacobians()
        case.same(e, e0, f"error {msg}")
    if where in ("none", "jacobians"):
        if where == "jacobians":
            def bad(*a, **k):
                raise Injected()
            own = "jacobians" in c.__dict__
            c.jacobians = bad
        try:
            J, e = th.masked_jacobians(c, mask)
            case.check(fits or not bool(mask.any()), "a mask of another size was accepted")
            case.check(where == "none" or not bool(mask.any()), "an exception of user code was swallowed")
            if where == "none":
                case.event("masked jacobians")
                m = mask.view(-1, 1)
                case.close(e, torch.where(m, e0, torch.zeros_like(e0)), 1e-10 * (1 + float(e0.abs().max())), "masked error")
                for j, j0 in zip(J, J0):
                    case.close(j, torch.where(m.unsqueeze(2), j0, torch.zeros_like(j0)), 1e-8 * (1 + float(j0.abs().max())),
                               "masked jacobian")
        except Injected:
            case.event("raised inside")
        except AssertionError:
            case.check(not fits, "a mask that fits was refused")
            case.event("refused")
        finally:
            if where == "jacobians":
                del c.jacobians
    else:
        n = case.randint(1, len(vs))
        part = case.rng.sample(vs, n)
        part = list({id(v): v for v in part}.values())
        ok = all(v.shape[0] == B for v in part)
        try:
            with th.masked_variables(part, mask):
                case.check(ok, "a mask of another size was accepted")
                for v, t, was in kept:
                    want = was[mask] if any(v is p for p in part) else was
                    case.same(v.tensor, want, "variable while masked", name=v.name)
                if where == "nested" and int(mask.sum()) > 0:
                    m2 = torch.tensor([case.chance(0.5) for _ in range(int(mask.sum()))])
                    try:
                        with th.masked_variables(part, m2):
                            for v, t, was in kept:
                                if any(v is p for p in part):
                                    case.same(v.tensor, was[mask][m2], "variable while masked twice", name=v.name)
                            raise Injected()
                    except Injected:
                        pass
                    for v, t, was in kept:
                        if any(v is p for p in part):
                            case.same(v.tensor, was[mask], "variable after the inner mask", name=v.name)
                if case.chance(0.6):
                    raise Injected()
            case.event("left normally")
        except Injected:
            case.event("raised inside")
        except AssertionError:
            case.check(not ok, "a mask that fits was refused")
            case.event("refused")
    untouched("after a masked evaluation")


SCENARIOS = {
    "linear": Scenario(sc_linear, quick=120, thorough=2500, floor=100),
    "exceptions": Scenario(sc_exceptions, quick=120, thorough=2500, floor=100),
    "elements": Scenario(sc_elements, quick=80, thorough=1500, floor=60),
    "masked": Scenario(sc_masked, quick=150, thorough=3000, floor=150),
}
