"""C08: robust cost functions implement their loss, and linearize it correctly."""
import math

import torch

import theseus as th
from theseus.optimizer import DenseLinearization

from .. import gen, geo
from ..core import D32, D64, Scenario, Skip
from . import c06

QUICK = 3  # so many times each scenario's quick cases
ID = "C08"
RULE = ("a case is a robust loss, or a robust cost function over a random inner cost function, weight, "
        "radius and batch pattern, compared with the loss formula before and after random changes")
ASSUMPTIONS = ["values below 1e-9 may be replaced by the library's numerical guard terms",
               "at the corner of a piecewise loss either one-sided derivative is accepted"]

LOSS = ("welsch", "huber", "hinge", "geman")


def _rho(loss, x, r, m):
    """(rho, rho') in float64, by the formulas in the documentation."""
    if loss == "welsch":
        return r * -torch.expm1(-x / r), torch.exp(-x / r)
    if loss == "huber":
        return torch.where(x > r, 2 * (r * x).sqrt() - r, x), torch.where(x > r, (r / x.clamp(min=1e-300)).sqrt(), torch.ones_like(x + r))
    if loss == "hinge":
        z = torch.zeros_like(x + r)
        return (torch.where(x > r, x.sqrt() - r.sqrt(), z),
                torch.where(x > r, 0.5 / x.clamp(min=1e-300).sqrt(), z))
    return m * r * x / (m * r + x), (m * r) ** 2 / (m * r + x) ** 2


def sc_loss(case):
    loss = case.choice(LOSS)
    cls = gen.LOSSES[loss]
    dt = geo.pick_dtype(case)
    B, d = case.randint(1, 5), case.randint(1, 3)
    lr = case.rand(case.choice([1, B]), 1, lo=-4.0, hi=4.0).to(dt)
    mu = case.rand(case.choice([1, B]), 1, lo=1.0, hi=10.0).to(dt)
    r = lr.double().exp()
    x = torch.zeros(B, d, dtype=D64)
    for i in range(B):
        for j in range(d):
            ri = float(r[min(i, r.shape[0] - 1), 0])
            k = case.randint(0, 5)
            x[i, j] = (0.0 if k == 0 else ri * case.rng.uniform(0.2, 0.999) if k == 1 else
                       ri * case.rng.uniform(1.001, 3) if k == 2 else ri * case.logu(1e-6, 1e-2) if k == 3 else
                       ri * case.logu(10, 1e4) if k == 4 else ri * case.rng.uniform(0, 2))
    x = x.to(dt)
    args = (lr, mu) if loss == "geman" else (lr,)
    case.sig(loss, x, lr, mu, str(dt))
    case.describe(loss=loss, dtype=str(dt), B=B, dim=d)
    keep = x.clone()
    want, dwant = _rho(loss, x.double(), r, mu.double())
    sep = ((x.double() - r).abs() > (1e-5 if dt == D32 else 1e-12) * r).expand(B, d)
    tol = 3e-5 if dt == D32 else 1e-9
    v, g = cls.evaluate(x, *args), cls.linearize(x, *args)
    case.check(v.dtype == dt and g.dtype == dt, "dtype of the loss")
    sc = 1 + want.abs() + (r if dt == D32 else 0)
    case.close(v / sc.to(dt), (want / sc).expand(B, d), tol, f"{loss} value")
    case.check(tuple(g.shape) == (B, d), "shape of linearize")
    dsc = 1 + dwant.abs()
    case.close((g / dsc.to(dt))[sep], (dwant / dsc).expand(B, d)[sep], tol * 10, f"{loss} derivative")
    case.check(bool((v >= -tol * r.max()).all()) and bool((g >= 0).all()), "loss or derivative is negative")
    case.same(x, keep, "the loss changed its input")
    # autograd through the value is the derivative; through both it's finite
    xg = x.clone().requires_grad_(True)
    lg = lr.clone().requires_grad_(True)
    ga = torch.autograd.grad(cls.evaluate(xg, *((lg, mu) if loss == "geman" else (lg,))).sum(), [xg, lg],
                             allow_unused=True)
    case.check(all(t is None or bool(torch.isfinite(t).all()) for t in ga), f"{loss}: gradient is not finite")
    case.close((ga[0] / dsc.to(dt))[sep], (dwant / dsc).expand(B, d)[sep], tol * 20, f"{loss} autograd derivative")
    ga = torch.autograd.grad(cls.linearize(xg, *((lg, mu) if loss == "geman" else (lg,))).sum(), [xg, lg],
                             allow_unused=True)
    case.check(all(t is None or bool(torch.isfinite(t).all()) for t in ga),
               f"{loss}: gradient of the derivative is not finite")
    case.event(loss)


def _build(case):
    kinds = case.choice([("diff",), ("between",), ("vec",), ("product",), ("reproj",), ("hinge",), ("coll",),
                         ("nonhol",), ("dint",), ("gp",)])
    spec = gen.Gen(case, kinds=kinds, n_costs=1, robust_p=1.0, flatten_p=0.4, zero_p=0.25, batch1_p=0.4,
                   max_vars=1, ad_modes=("vmap", "dense")).make()
    return spec, spec.costs[0]


def _verify(case, spec, cs, cost, b, what, low=False, via=None):
    """Compare a robust cost's report (its own, or `via`: what an objective serves for it) with the formulas."""
    vals = {n: v.tensor.double().detach() for n, v in b.vars.items()}
    inner = cost.cost_function
    with torch.no_grad():
        J, e = inner.jacobians()
    W = gen.ref_weight_matrix(spec, cs, vals)
    e0 = gen.ref_error(spec, cs, vals)
    we = (W @ e0.unsqueeze(-1)).squeeze(-1)
    wJ = [W @ j.double() for j in J]
    loss, r = cs.robust["loss"], vals[cs.robust["radius"]].exp()
    m = vals[cs.robust["mu"]] if cs.robust["mu"] else None
    x = we * we if cs.robust["flatten"] else (we * we).sum(1, keepdim=True)
    v, g = _rho(loss, x, r, m)
    corner = ((x - r).abs() < 1e-3 * (r + x)).any(1) if loss in ("huber", "hinge") else torch.zeros(
        v.shape[0], dtype=torch.bool)
    B = max(v.shape[0], we.shape[0])
    err = via[0] if via else cost.weighted_error()
    case.check(err.shape[1] == cs.dim and cost.dim() == cs.dim, "dimension of the robust error")
    tol = 2e-3 if low else 1e-6
    sc = 1 + float(v.abs().max()) + float(x.max()) * (1 if low else 0)
    sq = err.double() ** 2
    case.check(bool((err >= 0).all()), "the reported robust error is negative")
    if cs.robust["flatten"]:
        case.close(sq.expand(B, -1), v.expand(B, -1), tol * sc, f"{loss} flat squared error {what}")
    else:
        case.close(sq.sum(1, keepdim=True).expand(B, -1), v.expand(B, -1), tol * sc, f"{loss} squared error {what}")
        case.close(err, err[:, :1].expand_as(err), tol, "robust error spread over its dimensions")
    Jr, er = via[1:] if via else cost.weighted_jacobians_error()
    s = g.sqrt()
    keep = ~corner.expand(B) if corner.shape[0] == 1 else ~corner
    js = 1 + max(float(j.abs().max()) for j in wJ) * (1 + float(s.max()))
    case.check(len(Jr) == len(wJ), "number of robust Jacobians")
    for i, (a, j) in enumerate(zip(Jr, wJ)):
        t = s.unsqueeze(2) * j
        n = max(t.shape[0], a.shape[0], B)
        case.close(a.expand(n, -1, -1)[keep], t.expand(n, -1, -1)[keep], tol * 10 * js, f"{loss} robust Jacobian {i} {what}")
    t = (s * we).expand(B, -1)
    case.close(er.expand(B, -1)[keep], t[keep], tol * 10 * (1 + float(we.abs().max())), f"{loss} rescaled error {what}")
    for e1, e2 in () if via else ((cost.error(), err), (cost.jacobians()[1], er)):
        case.close(e1, e2, 1e-12, "error() vs weighted_error()")
    case.event(f"{loss}{'/flat' if cs.robust['flatten'] else ''}")


def sc_cost(case):
    spec, cs = _build(case)
    b = gen.build_parts(spec)
    cost = b.costs[cs.name]
    used = cs.opt + cs.all_aux() + spec.weights[cs.weight].aux
    case.sig(spec.signature(), *[b.vars[n].tensor for n in used])
    case.describe(kind=cs.kind, loss=cs.robust["loss"], flat=cs.robust["flatten"], B=spec.B,
                  weight=spec.weights[cs.weight].kind)
    names = {v.name for v in cost.aux_vars}
    case.check(cs.robust["radius"] in names and set(cs.aux) <= names, "auxiliary variables of a robust cost")
    case.check([v.name for v in cost.optim_vars] == cs.opt, "optimization variables of a robust cost")
    case.check(cost.weight is b.weights[cs.weight], "weight of a robust cost")
    low = False
    dt = D64
    _verify(case, spec, cs, cost, b, "")
    for _ in range(case.randint(1, 4)):
        op = case.choice(["opt", "radius", "weight", "aux", "newweight", "dtype", "copy"])
        if op == "dtype" and cs.kind in ("gp",):
            continue
        if op in ("opt", "radius", "weight", "aux"):
            n = {"opt": case.choice(cs.opt), "radius": case.choice([cs.robust["radius"], cs.robust["mu"] or cs.robust["radius"]]),
                 "weight": case.choice(spec.weights[cs.weight].aux), "aux": case.choice(cs.all_aux())}[op]
            if cs.kind == "gp" and n not in cs.opt:
                continue
            b.vars[n].update(gen.draw_value(case, spec.vars[n], b.vars[n].shape[0]).to(dt))
        elif op == "newweight":
            if spec.weights[cs.weight].kind == "gp":
                continue
            nm = f"new{len(spec.weights)}"
            vs = gen.VarSpec(nm + "v", "raw", 1, "scale", "aux")
            vs.value = gen.draw_value(case, vs, 1)
            spec.vars[vs.name] = vs
            b.vars[vs.name] = th.Variable(vs.value.to(dt), name=vs.name)
            spec.weights[nm] = gen.WeightSpec(nm, "scale", [vs.name])
            b.weights[nm] = gen.build_weight(spec.weights[nm], b.vars)
            cost.weight = b.weights[nm]
            cs.weight = nm
            case.check(cost.weight is b.weights[nm] and cost.cost_function.weight is b.weights[nm], "weight setter")
        elif op == "dtype":
            dt = D32 if dt == D64 else D64
            low = True
            cost.to(dtype=dt)
        else:
            twin = cost.copy(keep_variable_names=True)
            case.check(type(twin) is type(cost) and twin.flatten_dims == cost.flatten_dims
                       and type(twin.loss) is type(cost.loss), "copy of a robust cost")
            tb = gen.Built()
            tb.vars = dict(b.vars)
            tb.vars.update({v.name: v for v in list(twin.optim_vars) + list(twin.aux_vars)})
            for v in twin.weight.aux_vars:
                tb.vars[v.name] = v
            n = cs.opt[0]
            tb.vars[n].update(gen.draw_value(case, spec.vars[n], tb.vars[n].shape[0]).to(dt))
            _verify(case, spec, cs, twin, tb, "of a copy", low)
        _verify(case, spec, cs, cost, b, f"after {op}", low)


def sc_siblings(case):
    """Several similar robust costs (other losses, radii, flattening) in one objective, vectorized or not:
    each is served its own loss."""
    kind = case.choice([("diff",), ("between",), ("vec",), ("product",), ("reproj",), ("hinge",), ("coll",),
                        ("nonhol",), ("dint",), ("gp",)])
    spec = gen.Gen(case, kinds=kind, n_costs=case.randint(2, 6), robust_p=0.9, flatten_p=0.4, zero_p=0.2,
                   batch1_p=0.4, max_vars=3, ad_modes=("vmap", "dense"),
                   robust_losses=case.rng.sample(["welsch", "huber", "geman", "hinge"], case.randint(1, 4))).make()
    b = gen.build(spec)
    obj = b.objective
    vec = case.chance(0.75)
    if vec:
        th.Vectorize(obj)
    obj.update()
    case.sig(spec.signature(), vec, *[v.tensor for v in b.vars.values()])
    robust = [c for c in spec.costs if c.robust]
    case.describe(kind=kind[0], losses=[(c.robust["loss"], c.robust["flatten"]) for c in robust], vec=vec, B=spec.B)
    for step in range(case.randint(1, 3)):
        if step:
            n = case.choice([n for n in list(obj.optim_vars) + list(obj.aux_vars)])
            if spec.vars[n].kind == "raw" and any(w.kind == "gp" and n in w.aux for w in spec.weights.values()):
                continue
            obj.update({n: gen.draw_value(case, spec.vars[n], b.vars[n].shape[0])})
        whole = obj.error()
        lin = DenseLinearization(obj)
        lin.linearize()
        start = {v.name: c for v, c in zip(lin.ordering, lin.var_start_cols)}
        row = 0
        for cs in spec.costs:
            rows = slice(row, row + cs.dim)
            row += cs.dim
            if not cs.robust or len(set(cs.opt)) < len(cs.opt):
                continue
            J = [lin.A[:, rows, start[n]:start[n] + spec.vars[n].dof] for n in cs.opt]
            _verify(case, spec, cs, b.costs[cs.name], b, f"in {'a vectorized' if vec else 'an'} objective",
                    via=(whole[:, rows], J, -lin.b[:, rows]))
    case.event(f"siblings/{len(set((c.robust['loss'], c.robust['flatten']) for c in robust))} kinds/{'vec' if vec else 'plain'}")


def sc_grad(case):
    """The gradient of half the reported squared error is J^T e of the rescaled problem."""
    spec, cs = _build(case)
    if cs.kind in ("coll", "hinge", "gp"):
        raise Skip()
    vec = [n for n in cs.opt if spec.vars[n].kind in ("Vector", "Point2", "Point3")]
    if not vec:
        raise Skip()
    b = gen.build_parts(spec)
    zero = cs.kind in ("diff",) and case.chance(0.4)
    if zero:
        a = cs.aux[0]
        b.vars[a].update(b.vars[cs.opt[0]].tensor.clone())
    leaf = {n: b.vars[n].tensor.clone().requires_grad_(True) for n in vec}
    for n in vec:
        b.vars[n].update(leaf[n])
    cost = b.costs[cs.name]
    case.sig(spec.signature(), *[b.vars[n].tensor for n in cs.opt])
    case.describe(kind=cs.kind, loss=cs.robust["loss"], flat=cs.robust["flatten"], zero_residual=zero)
    err = cost.weighted_error()
    g = torch.autograd.grad(0.5 * (err ** 2).sum(), list(leaf.values()), allow_unused=True)
    Jr, er = cost.weighted_jacobians_error()
    with torch.no_grad():
        vals = {n: v.tensor.detach() for n, v in b.vars.items()}
        we = gen.ref_weighted(spec, cs, vals)
        x = we * we if cs.robust["flatten"] else (we * we).sum(1, keepdim=True)
        r = vals[cs.robust["radius"]].exp()
        if bool(((x - r).abs() < 1e-3 * (x + r)).any()):
            raise Skip()
    for n, gi in zip(vec, g):
        gi = torch.zeros_like(leaf[n]) if gi is None else gi
        j = Jr[cs.opt.index(n)]
        t = (j.transpose(1, 2) @ er.unsqueeze(2)).squeeze(2)
        if leaf[n].shape[0] == 1 and t.shape[0] > 1:
            t = t.sum(0, keepdim=True)
        case.close(gi, t, 1e-6 * (1 + float(t.abs().max())), f"{cs.robust['loss']} gradient vs J^T e")
    h = torch.autograd.grad(sum((j ** 2).sum() for j in Jr) + (er ** 2).sum(), list(leaf.values()), allow_unused=True)
    case.check(all(t is None or bool(torch.isfinite(t).all()) for t in h),
               f"{cs.robust['loss']}: gradient through the rescaled Jacobians is not finite")
    case.event("zero residual" if zero else "gradient")


SCENARIOS = {
    "loss": Scenario(sc_loss, 400, 4000),
    "cost": Scenario(sc_cost, 350, 5000),
    "siblings": Scenario(sc_siblings, 250, 4000),
    "grad": Scenario(sc_grad, 200, 2500),
}
