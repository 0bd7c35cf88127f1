"""C07: automatically differentiated cost functions: modes agree, failures leave no trace."""
import warnings

import torch

import theseus as th

from .. import gen, geo, ref
from ..core import D32, D64, Scenario, Skip
from . import c06

ID = "C07"
RULE = ("a case is an error function with random variables and broadcast pattern, evaluated through "
        "every differentiation mode over a history of updates, dtype conversions, copies and failures")
ASSUMPTIONS = ["error functions are smooth at the generated values and act per batch element"]

MODES = ("vmap", "dense", "loop_batch")


def _spec(case, **kw):
    return gen.Gen(case, kinds=(case.choice(["vec", "adgroup"]),), n_costs=1, robust_p=0.0, batch1_p=0.4,
                   zero_p=0.0, ad_modes=("vmap",), max_vars=1, **kw).make()


def _options(case, mode):
    o = {}
    if mode != "vmap" and case.chance(0.4):
        o["autograd_vectorize"] = True
        if case.chance(0.3):
            o["autograd_create_graph"] = False
        if case.chance(0.3):
            o["autograd_strategy"] = "reverse-mode"
    if mode != "vmap" and case.chance(0.2):
        o["autograd_create_graph"] = False
    if case.chance(0.2):
        o["autograd_mode"] = th.AutogradMode[mode.upper()]
    elif case.chance(0.2):
        o["autograd_mode"] = mode.upper()
    return o


def _make(case, cs, b, mode, opts, wrap=None, name=None):
    fn = gen.ERR_FNS[cs.opts["fn"]]
    kw = dict(autograd_mode=mode)
    kw.update(opts)
    w = b.weights[cs.weight]
    return th.AutoDiffCostFunction([b.vars[n] for n in cs.opt], wrap(fn) if wrap else fn, cs.dim, cost_weight=w,
                                   aux_vars=[b.vars[n] for n in cs.aux], name=name, **kw)


def _vals(b):
    return {n: v.tensor.double() for n, v in b.vars.items()}


def _evaluate(case, spec, cs, cost, b, what, low):
    vals = {n: v.detach() for n, v in _vals(b).items()}
    before = {n: v.tensor.clone() for n, v in b.vars.items()}
    ids = {n: id(v.tensor) for n, v in b.vars.items()}
    want = gen.ref_error(spec, cs, vals)
    eB = max(vals[n].shape[0] for n in cs.opt + cs.aux)
    want = want.expand(eB, -1)
    err = cost.error()
    J, err2 = cost.jacobians()
    sc = 1 + float(want.abs().max())
    vt = 3e-4 if low else 1e-6
    for e in (err, err2):
        case.close(e.expand(eB, -1), want, vt * sc, f"error {what}")
    c06._check_jac(case, spec, cs, J, vals, 5e-3 if low else 1e-5, eB)
    for n, t in before.items():
        case.same(b.vars[n].tensor, t, "evaluation changed a variable")
        case.check(id(b.vars[n].tensor) == ids[n], "evaluation replaced a variable's tensor")
    return J, err


def sc_modes(case):
    """All modes agree with the derivative, along a history on the same object."""
    spec = _spec(case)
    cs = spec.costs[0]
    b = gen.build_parts(spec)
    opts = {m: _options(case, m) for m in MODES}
    costs = {m: _make(case, cs, b, m, opts[m]) for m in MODES}
    case.sig(cs.opts["fn"], *[b.vars[n].tensor for n in cs.opt + cs.aux])
    case.describe(fn=cs.opts["fn"], groups=[spec.vars[n].kind for n in cs.opt], B=spec.B,
                  batches=[spec.vars[n].value.shape[0] for n in cs.opt + cs.aux])
    low = False
    dt = D64
    names = cs.opt + cs.aux
    for step in range(case.randint(1, 4)):
        Js = {}
        for m in MODES:
            Js[m], _ = _evaluate(case, spec, cs, costs[m], b, m, low)
            case.check(all(j.dtype == dt for j in Js[m]), f"Jacobian dtype in mode {m}")
        for m in MODES[1:]:
            for i, (x, y) in enumerate(zip(Js[m], Js["vmap"])):
                case.close(x, y, (2e-4 if low else 1e-9) * (1 + float(y.abs().max())), f"{m} vs vmap")
        case.event("agreement of three modes")
        op = case.choice(["update", "batch", "dtype", "copy", "fresh"])
        if op == "update":
            n = case.choice(names)
            b.vars[n].update(gen.draw_value(case, spec.vars[n], b.vars[n].shape[0]).to(dt))
        elif op == "batch":
            nb = case.randint(1, 5)
            some = case.rng.sample(names, case.randint(1, len(names)))
            if not set(some) & set(cs.opt):
                some.append(cs.opt[0])
            for n in names:
                k = nb if n in some or spec.vars[n].draw != "group" else 1
                b.vars[n].update(gen.draw_value(case, spec.vars[n], k).to(dt))
        elif op == "dtype":
            dt = D32 if dt == D64 else D64
            low = True
            for c in costs.values():
                c.to(dtype=dt)
        elif op == "copy":
            new = {}
            for m, c in costs.items():
                new[m] = c.copy(keep_variable_names=True)
                c2 = new[m]
                for v in list(c2.optim_vars) + list(c2.aux_vars):
                    case.check(all(v is not x for x in b.vars.values()), "copies share variables")
            m = case.choice(MODES)
            twin = new[m]
            tb = gen.Built()
            tb.vars = dict(b.vars)
            for n, v in zip(cs.opt + cs.aux, list(twin.optim_vars) + list(twin.aux_vars)):
                tb.vars[n] = v
            n = case.choice(cs.opt)
            tb.vars[n].update(gen.draw_value(case, spec.vars[n], b.vars[n].shape[0]).to(dt))
            _evaluate(case, spec, cs, twin, tb, f"copy of mode {m}", low)
            case.event("copy evaluated")
        else:
            m = case.choice(MODES)
            costs[m] = _make(case, cs, b, m, opts[m])


def sc_grad(case):
    """Gradients flow through errors and Jacobians to every tensor they depend on."""
    spec = _spec(case)
    cs = spec.costs[0]
    grads = [n for n in cs.opt + cs.aux if spec.vars[n].kind in ("Vector", "raw", "Point2", "Point3")]
    if not grads:
        raise Skip()
    case.sig(cs.opts["fn"], *[spec.vars[n].value for n in cs.opt + cs.aux])
    case.describe(fn=cs.opts["fn"], B=spec.B)
    res = {}
    proj = None
    for m in MODES:
        leaf = {n: spec.vars[n].value.clone().requires_grad_(True) for n in grads}
        b = gen.build_parts(spec)
        cost = _make(case, cs, b, m, {})
        for n in grads:
            b.vars[n].update(leaf[n])
        J, e = cost.jacobians()
        if proj is None:
            proj = [case.randn(*j.shape) for j in J], case.randn(*e.shape)
        loss = sum((j * p).sum() for j, p in zip(J, proj[0])) + (e * proj[1]).sum()
        g = torch.autograd.grad(loss, list(leaf.values()), allow_unused=True)
        res[m] = {n: torch.zeros_like(leaf[n]) if x is None else x for n, x in zip(grads, g)}
        with torch.no_grad():
            J2, e2 = cost.jacobians()
        for x, y in zip(J, J2):
            case.close(x, y, 1e-10 * (1 + float(y.abs().max())), "Jacobian under no_grad")
        case.check(not e2.requires_grad, "error has a graph under no_grad")
        held = {n: b.vars[n].tensor for n in b.vars}
        with torch.inference_mode():
            for n in case.rng.sample(sorted(b.vars), case.randint(0, len(b.vars))):
                b.vars[n].update(b.vars[n].tensor.detach().clone())  # made in this mode
            now = {n: (b.vars[n].tensor, b.vars[n]._num_updates) for n in b.vars}
            J3, e3 = cost.jacobians()
            e4 = cost.error()
            for x, y in zip(list(J) + [e, e], list(J3) + [e3, e4]):
                case.close(y, x, 1e-10 * (1 + float(x.abs().max())), "values in inference mode")
            for n, (t, k) in now.items():
                case.check(b.vars[n].tensor is t and b.vars[n]._num_updates == k,
                           "an evaluation in inference mode changed a variable")
        for n, t in held.items():
            b.vars[n].update(t)
        for x, y in zip(J, cost.jacobians()[0]):
            case.close(y, x, 1e-10 * (1 + float(x.abs().max())), "Jacobian after inference mode")
        case.event("inference mode compared")
    for m in MODES[1:]:
        for n in grads:
            case.close(res[m][n], res["vmap"][n], 1e-8 * (1 + float(res["vmap"][n].abs().max())),
                       f"gradient: {m} vs vmap")
    # against finite differences of the reference error (only the error's part is simple)
    n = case.choice(grads)
    h = 1e-5
    vals = {k: v.value for k, v in spec.vars.items()}
    d = case.randn(*spec.vars[n].value.shape)

    def loss_at(s):
        v = dict(vals)
        v[n] = vals[n] + s * d
        e = gen.ref_error(spec, cs, v)
        Js = ref.fd_jacobian(lambda ds: gen.ref_error(
            spec, cs, {**v, **{k: spec.vars[k].G.retract(v[k], x) for k, x in zip(cs.opt, ds)}}),
            [spec.vars[k].G.dof for k in cs.opt], 1e-3)
        return float(sum((j.expand_as(p) * p).sum() for j, p in zip(Js, proj[0]))
                     + (e.expand_as(proj[1]) * proj[1]).sum())

    fd = (loss_at(1e-4) - loss_at(-1e-4)) / 2e-4
    case.close(torch.tensor((res["vmap"][n] * d).sum().item()), torch.tensor(fd),
               2e-4 * (1 + abs(fd) + float(res["vmap"][n].abs().max())), "gradient vs finite difference")
    case.event("gradient compared")


class _Boom(Exception):
    pass


def sc_fault(case):
    """An error function that fails once leaves no trace."""
    spec = _spec(case)
    cs = spec.costs[0]
    b = gen.build_parts(spec)
    mode = case.choice(MODES)
    state = {"left": None, "fired": False}

    def wrap(fn):
        def f(optim_vars, aux_vars):
            if state["left"] is not None:
                if state["left"] == 0:
                    state["left"], state["fired"] = None, True
                    if state["late"]:
                        fn(optim_vars, aux_vars)
                    raise _Boom()
                state["left"] -= 1
            return fn(optim_vars, aux_vars)
        return f

    cost = _make(case, cs, b, mode, {}, wrap)
    obj = None
    use = case.choice(["cost", "objective", "vectorized"])
    if use != "cost":
        obj = th.Objective(dtype=D64)
        obj.add(cost)
        if case.chance(0.5):
            twin_w = b.weights[cs.weight]
            obj.add(th.AutoDiffCostFunction([b.vars[n] for n in cs.opt], cost._err_fn, cs.dim, cost_weight=twin_w,
                                            aux_vars=[b.vars[n] for n in cs.aux], autograd_mode=mode, name="twin"))
        if use == "vectorized":
            th.Vectorize(obj)
        obj.update()
    case.sig(cs.opts["fn"], mode, use, *[b.vars[n].tensor for n in cs.opt + cs.aux])
    case.describe(fn=cs.opts["fn"], mode=mode, use=use, B=spec.B)
    if case.chance(0.5):
        _evaluate(case, spec, cs, cost, b, "before the failure", False)

    def flags():
        out = [torch.is_grad_enabled()]
        for f in (lambda: th.SO2(tensor=torch.ones(1, 2, dtype=D64)),
                  lambda: th.SE2(tensor=torch.ones(1, 4, dtype=D64))):
            try:
                f()
                out.append("accepted")
            except ValueError:
                out.append("refused")
        return out

    old = flags()
    state.update(left=case.choice([0, 0, 0, 1, 1, 2, 3]), late=case.chance(0.5), fired=False)
    before = {n: v.tensor.clone() for n, v in b.vars.items()}
    try:
        if obj is None:
            cost.error() if case.chance(0.3) else cost.jacobians()
        else:
            k = case.choice(["jac", "error", "tmp"])
            if k == "tmp":
                n = case.choice(cs.opt)
                obj.error({n: gen.draw_value(case, spec.vars[n], b.vars[n].shape[0])}, also_update=False)
            elif k == "error":
                obj.error()
            else:
                for c in obj._get_jacobians_iter():
                    c.weighted_jacobians_error()
    except _Boom:
        pass
    case.check(flags() == old, "global state after a failing error function")
    case.event("failure injected" if state["fired"] else "failure point not reached")
    state["left"] = None
    for n, t in before.items():
        case.same(b.vars[n].tensor, t, "a failing error function changed a variable")
    _evaluate(case, spec, cs, cost, b, "after the failure", False)
    c2 = cost.copy(keep_variable_names=True)
    cost.to(dtype=D64)
    c2.to(dtype=D32)
    c2.jacobians()
    if obj is not None:
        want = gen.ref_reported(spec, cs, {n: v.detach() for n, v in _vals(b).items()})
        got = obj.error()
        reps = got.shape[1] // cs.dim
        case.close(got, want.expand(got.shape[0], -1).repeat(1, reps), 1e-6 * (1 + float(want.abs().max())),
                   "objective error after the failure")


def sc_dim(case):
    """A function whose output doesn't have the declared dimension is refused."""
    spec = _spec(case)
    cs = spec.costs[0]
    b = gen.build_parts(spec)
    mode = case.choice(MODES)
    fn = gen.ERR_FNS[cs.opts["fn"]]
    wrong = cs.dim + case.choice([-1, 1, 2])
    cost = th.AutoDiffCostFunction([b.vars[n] for n in cs.opt], fn, wrong, cost_weight=b.weights[cs.weight],
                                   aux_vars=[b.vars[n] for n in cs.aux], autograd_mode=mode)
    case.sig(cs.opts["fn"], mode, wrong, *[b.vars[n].tensor for n in cs.opt])
    case.raises(ValueError, cost.error, "error() of a function with another dimension")
    case.raises(ValueError, cost.jacobians, "jacobians() of a function with another dimension")
    case.raises(ValueError, lambda: th.AutoDiffCostFunction([], fn, cs.dim), "no optimization variables")
    case.raises(ValueError, lambda: th.AutoDiffCostFunction([b.vars[cs.opt[0]]], fn, cs.dim,
                                                            autograd_mode=case.choice(["x", "VMAPP", 7])),
                "unknown mode")
    case.event("refused")


SCENARIOS = {
    "modes": Scenario(sc_modes, 220, 3500),
    "grad": Scenario(sc_grad, 100, 1500),
    "fault": Scenario(sc_fault, 180, 3000),
    "dim": Scenario(sc_dim, 40, 300),
}
