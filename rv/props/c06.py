"""C06: built-in cost functions and weights: documented errors, true Jacobians."""
import math

import torch

import theseus as th

from .. import gen, geo, ref
from ..core import D32, D64, Scenario, Skip

ID = "C06"
RULE = ("a case is one cost function (kind x group x batch/broadcast pattern x dtype) with random "
        "values, its error and Jacobians compared with an independent formula and with its "
        "closed-form or finite-difference derivative")
ASSUMPTIONS = ["derivatives are with respect to right perturbations of each variable",
               "elements within the finite-difference stencil of a kink are skipped",
               "optimization variables have the full batch size (auxiliary ones may be broadcast)"]

KINDS = ("diff", "between", "mfb", "reproj", "coll", "effobj", "dint", "gp", "qsp", "hinge", "nonhol",
         "product", "vec", "adgroup")


def mfb_key(g):
    return f"MovingFrameBetween/{g}/jacobian-omits-log-derivative"


def _fd(spec, cs, vals, h):
    dofs = [spec.vars[n].G.dof for n in cs.opt]

    def f(ds):
        v = dict(vals)
        for n, d in zip(cs.opt, ds):
            v[n] = spec.vars[n].G.retract(v[n], d)
        return gen.ref_error(spec, cs, v)

    return ref.fd_jacobian(f, dofs, h)


def _mfb_no_log(spec, cs, vals):
    """The documented defect: derivative of the frame difference, without the log map's."""
    G = spec.vars[cs.opt[0]].G
    f1, f2, p1, p2 = [G.mat(vals[n]) for n in cs.opt]
    a, b = G.inv(f1) @ p1, G.inv(f2) @ p2
    c = G.inv(a) @ b
    jb1 = -G.Ad(G.inv(c))
    return [jb1 @ (-G.Ad(G.inv(a))), -G.Ad(G.inv(b)), jb1, torch.eye(G.dof, dtype=D64).expand_as(jb1)]


def _snapshot(b):
    return {n: v.tensor.clone() for n, v in b.vars.items()}


def _check_jac(case, spec, cs, J, vals, tol, B):
    dofs = [spec.vars[n].G.dof for n in cs.opt]
    want, want2 = _fd(spec, cs, vals, 1e-3), _fd(spec, cs, vals, 4e-4)
    case.check(len(J) == len(dofs), "number of Jacobians")
    for i, (a, w, w2) in enumerate(zip(J, want, want2)):
        case.check(tuple(a.shape) == (B, cs.dim, dofs[i]), f"{cs.kind}: Jacobian shape", got=tuple(a.shape))
        w, w2 = w.expand(B, -1, -1), w2.expand(B, -1, -1)
        smooth = (w - w2).abs().flatten(1).amax(1) < 1e-6 * (1 + w.abs().flatten(1).amax(1))
        case.event("jacobian blocks", int(smooth.sum()))
        if not bool(smooth.any()):
            continue
        scale = 1 + float(w[smooth].abs().max())
        if cs.kind == "mfb":
            d = (a.double() - w)[smooth].abs().max()
            if d > tol * scale:
                alt = _mfb_no_log(spec, cs, vals)[i].expand(B, -1, -1)
                known = (a.double() - alt)[smooth].abs().max() <= tol * scale
                case.check(False, f"mfb: Jacobian {i}",
                           key=mfb_key(spec.vars[cs.opt[0]].kind) if known else None)
            continue
        case.close(a[smooth], w[smooth], tol * scale, f"{cs.kind}: Jacobian {i}")


def sc_cost(case):
    kind = case.choice(KINDS)
    spec = gen.Gen(case, kinds=(kind,), n_costs=1, robust_p=0.0, batch1_p=0.35, zero_p=0.2,
                   ad_modes=("vmap", "dense", "loop_batch"), max_vars=1).make()
    cs = case.choice(spec.costs)
    f32 = case.chance(0.3) and kind not in ("vec", "adgroup")
    dt = D32 if f32 else D64
    b = gen.build_parts(spec, dt)
    cost = b.costs[cs.name]
    used = cs.opt + cs.all_aux() + spec.weights[cs.weight].aux
    vals = {n: b.vars[n].tensor.double() for n in spec.vars}
    case.sig(kind, str(dt), *[vals[n] for n in used])
    case.describe(kind=cs.kind, groups=[spec.vars[n].kind for n in cs.opt], B=spec.B, dtype=str(dt),
                  weight=spec.weights[cs.weight].kind)
    before = _snapshot(b)
    err = cost.error()
    J, err2 = cost.jacobians()
    we = cost.weighted_error()
    wJ, we2 = cost.weighted_jacobians_error()
    for n, t in before.items():
        case.same(b.vars[n].tensor, t, "evaluation changed a variable")
    nw = [vals[n].shape[0] for n in cs.opt + cs.aux]
    eB = max(nw)
    wB = max([eB] + [vals[n].shape[0] for n in spec.weights[cs.weight].aux])
    vtol, jtol = (3e-4, 5e-3) if f32 else (1e-6, 1e-5)
    if spec.weights[cs.weight].kind == "gp" and f32:
        raise Skip()
    want = gen.ref_error(spec, cs, vals).expand(eB, -1)
    scale = 1 + float(want.abs().max())
    case.check(cost.dim() == cs.dim, "dim()")
    for e, t in ((err, want), (err2, want)):
        case.check(e.dtype == dt, "error dtype")
        case.close(e.expand(eB, -1), t, vtol * scale, f"{cs.kind}: error")
    case.check(all(j.dtype == dt for j in J + wJ), "Jacobian dtype")
    _check_jac(case, spec, cs, J, vals, jtol, J[0].shape[0])
    W = gen.ref_weight_matrix(spec, cs, vals)
    wwant = (W @ want.unsqueeze(-1)).squeeze(-1).expand(wB, -1)
    ws = 1 + float(W.abs().max())
    case.close(we.expand(wB, -1), wwant, vtol * scale * ws, f"{cs.kind}: weighted error")
    case.close(we2.expand(wB, -1), wwant, vtol * scale * ws, f"{cs.kind}: weighted error with Jacobians")
    for i, (j, wj) in enumerate(zip(J, wJ)):
        t = W @ j.double()
        case.close(wj.expand(t.shape[0], -1, -1), t, 1e-4 * ws * (1 + float(j.abs().max())) if f32 else
                   1e-9 * ws * (1 + float(j.abs().max())), f"{cs.kind}: weighted Jacobian {i}")
    case.event(f"kind {cs.kind}")
    # a second evaluation at other values, on the same object
    n = case.choice(cs.opt)
    b.vars[n].update(gen.draw_value(case, spec.vars[n], vals[n].shape[0]).to(dt))
    vals[n] = b.vars[n].tensor.double()
    want = gen.ref_error(spec, cs, vals).expand(eB, -1)
    scale = 1 + float(want.abs().max())
    case.close(cost.error().expand(eB, -1), want, vtol * scale, f"{cs.kind}: error after update")
    J, _ = cost.jacobians()
    _check_jac(case, spec, cs, J, vals, jtol, J[0].shape[0])


def sc_residual(case):
    """Pose costs whose residual rotation is in any regime (zero, tiny, near pi)."""
    kind = case.choice(["diff", "between", "mfb", "dint", "gp"])
    g = case.choice(["SO2", "SE2", "SO3", "SE3"])
    G, cls = ref.group(g), geo.CLS[g]
    dt = geo.pick_dtype(case, 0.25)
    if kind == "gp":
        dt = D64
    B = case.randint(1, 4)
    u = geo.tangents(case, G, B)  # the residual
    R = G.exp(u)
    rnd = lambda: G.mat(G.random(case, B, scale=1.0))  # noqa: E731
    w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=dt)))
    mk = lambda M: geo.make(case, G, cls, G.tensor(M), dt)  # noqa: E731
    if kind == "diff":
        a = rnd()
        A, X = mk(a), mk(a @ R)
        opt = [X]
        cost = th.Difference(X, A, w)
    elif kind == "between":
        x, m = rnd(), rnd()
        X, M, Y = mk(x), mk(m), mk(x @ m @ R)
        opt = [X, Y]
        cost = th.Between(X, Y, M, w)
    elif kind == "mfb":
        f1, f2, p1, m = rnd(), rnd(), rnd(), rnd()
        rel = G.inv(f1) @ p1
        F1, F2, P1, M, P2 = mk(f1), mk(f2), mk(p1), mk(m), mk(f2 @ rel @ m @ R)
        opt = [F1, F2, P1, P2]
        cost = th.eb.MovingFrameBetween(F1, F2, P1, P2, M, w)
    else:
        x = rnd()
        X, Y = mk(x), mk(x @ R)
        v1, v2 = [th.Vector(tensor=case.randn(B, G.dof, dtype=dt)) for _ in range(2)]
        dtv = th.Variable(case.rand(case.choice([1, B]), 1, lo=0.3, hi=1.8, dtype=dt))
        opt = [X, v1, Y, v2]
        if kind == "gp":
            w = th.eb.GPCostWeight(th.Variable(torch.eye(G.dof, dtype=dt).unsqueeze(0)), dtv)
            cost = th.eb.GPMotionModel(X, v1, Y, v2, dtv, w)
        else:
            cost = th.eb.DoubleIntegrator(X, v1, Y, v2, dtv, w)
    case.sig(kind, g, str(dt), *[v.tensor for v in opt])
    case.describe(kind=kind, group=g, dtype=str(dt), B=B)
    m = lambda v: G.mat(v.tensor)  # noqa: E731
    if kind == "diff":
        Z = G.inv(m(A)) @ m(X)
    elif kind == "between":
        D = G.inv(m(X)) @ m(Y)
        Z = G.inv(m(M)) @ D
    elif kind == "mfb":
        a, b = G.inv(m(F1)) @ m(P1), G.inv(m(F2)) @ m(P2)
        D = G.inv(a) @ b
        Z = G.inv(m(M)) @ D
    else:
        Z = G.inv(m(X)) @ m(Y)
    theta = geo.ang(G, u)
    # near pi the logarithm jumps: rounding of the inputs decides the branch
    edge = (math.pi - theta).abs() < (0.25 if dt == D32 else 2e-2)
    ok = ~edge
    r = G.log(Z)
    lin = geo.lin_norm(G, r) + (5 if dt == D64 else 30)
    tv, tj = geo.tol_value(G, theta, lin, dt), geo.tol_jac(G, theta, lin, dt)
    if not bool(ok.any()):
        raise Skip()
    J, e = cost.jacobians()
    dl = G.jlog(r)
    if kind in ("dint", "gp"):
        d = G.dof
        I = torch.eye(d, dtype=D64).expand(B, d, d)
        z = torch.zeros_like(I)
        dtt = dtv.tensor.double().view(-1, 1, 1)
        want = torch.cat([r - dtv.tensor.double() * v1.tensor.double(),
                          v2.tensor.double() - v1.tensor.double()], 1)
        wj = [torch.cat([-dl @ G.Ad(G.inv(Z)), z], 1), torch.cat([-dtt * I, -I], 1),
              torch.cat([dl, z], 1), torch.cat([z, I], 1)]
    else:
        want = r
        if kind == "diff":
            wj = [dl]
        elif kind == "between":
            wj = [-dl @ G.Ad(G.inv(D)), dl]
        else:
            n1 = -G.Ad(G.inv(D))
            nolog = [n1 @ (-G.Ad(G.inv(a))), -G.Ad(G.inv(b)), n1, torch.eye(G.dof, dtype=D64).expand(B, -1, -1)]
            wj = [dl @ x for x in nolog]
    for what, got in (("jacobians", e), ("error()", cost.error())):
        geo.close_b(case, got[ok], want[ok], tv[ok], f"{kind} {g} {what}")
    for i, (j, t) in enumerate(zip(J, wj)):
        scale = (1 + t.abs().flatten(1).amax(1))
        if kind == "mfb":
            bad = bool(((j.double() - t).abs().flatten(1).amax(1) > tj * scale)[ok].any())
            if bad:
                known = bool(((j.double() - nolog[i]).abs().flatten(1).amax(1) <= tj * scale)[ok].all())
                case.check(False, f"mfb: Jacobian {i}", key=mfb_key(g) if known else None)
            continue
        geo.close_b(case, j[ok], t.expand_as(j)[ok], (tj * scale)[ok], f"{kind} {g} Jacobian {i}")
    case.event(f"{kind}/{g}")


def sc_weight(case):
    """Weights constructed in every accepted way, applied with every broadcast pattern."""
    kind = case.choice(["scale", "diag", "gp"])
    dt = geo.pick_dtype(case)
    eB = case.randint(1, 4)
    wB = case.choice([1, eB])
    if eB == 1:
        wB = case.randint(1, 4)
    d = case.randint(1, 3)
    dim = 2 * d if kind == "gp" else d
    zero = torch.zeros(wB, dtype=torch.bool)
    if kind == "scale":
        how = case.choice(["var", "float", "t0", "t1", "t2"])
        s = case.randn(wB, 1, dtype=dt)
        zero = case.rand(wB) < 0.3
        s[zero] = 0.0
        if how in ("float", "t0"):
            s, wB, zero = s[:1], 1, zero[:1]
        if how == "float":
            dt, s = D32, s.to(D32)
        arg = {"var": lambda: th.Variable(s.clone()), "float": lambda: float(s), "t0": lambda: s.view(()).clone(),
               "t1": lambda: s.view(-1).clone(), "t2": lambda: s.clone()}[how]()
        w = th.ScaleCostWeight(arg)
        W = torch.diag_embed(s.double().expand(wB, dim))
    elif kind == "diag":
        how = case.choice(["var", "list", "t1", "t2"])
        s = case.randn(wB, dim, dtype=dt)
        zero = case.rand(wB) < 0.3
        s[zero] = 0.0
        if not bool(zero.all()) and case.chance(0.5):
            s[~zero, 0] = torch.where(torch.tensor(dim > 1), 0.0, 1.0).to(dt)
        if how in ("list", "t1"):
            s, wB, zero = s[:1], 1, zero[:1]
        if how == "list":
            dt, s = D32, s.to(D32)
        arg = {"var": lambda: th.Variable(s.clone()), "list": lambda: s.view(-1).tolist(),
               "t1": lambda: s.view(-1).clone(), "t2": lambda: s.clone()}[how]()
        w = th.DiagonalCostWeight(arg)
        W = torch.diag_embed(s.double())
    else:
        how = case.choice(["var", "t2", "both"])
        A = case.randn(wB, d, d)
        Q = A @ A.transpose(1, 2) + torch.eye(d, dtype=D64)
        dtB = case.choice([1, max(wB, eB)])
        if how == "t2":
            Q = Q[:1]
        t = case.rand(dtB, 1, lo=0.3, hi=2.0)
        Q, t, dt = Q.to(dt), t.to(dt), dt
        if how == "t2":
            w = th.eb.GPCostWeight(Q[0].clone(), t.view(-1).clone())
        else:
            w = th.eb.GPCostWeight(th.Variable(Q.clone()), th.Variable(t.clone()))
        q, tt = Q.double(), t.double().view(-1, 1, 1)
        blk = torch.cat([torch.cat(torch.broadcast_tensors(12 / tt ** 3 * q, -6 / tt ** 2 * q), 2),
                         torch.cat(torch.broadcast_tensors(-6 / tt ** 2 * q, 4 / tt * q), 2)], 1)
        W = torch.linalg.cholesky(blk).transpose(1, 2)
        wB = blk.shape[0]
        zero = None
    case.describe(kind=kind, how=how, eB=eB, wB=wB, dtype=str(dt))
    e = case.randn(eB, dim, dtype=dt)
    Js = [case.randn(eB, dim, case.randint(1, 3), dtype=dt) for _ in range(case.randint(1, 3))]
    case.sig(kind, how, e, W)
    ke, kj = e.clone(), [j.clone() for j in Js]
    tol = (1e-3 if kind == "gp" else 1e-5) if dt == D32 else 1e-9
    sc = 1 + float(W.abs().max())
    want = (W @ e.double().unsqueeze(-1)).squeeze(-1)
    case.close(w.weight_error(e), want, tol * sc * 5, f"{kind} weight_error")
    nj, ne = w.weight_jacobians_and_error(Js, e)
    case.close(ne, want, tol * sc * 5, f"{kind} weight_jacobians_and_error: error")
    case.check(len(nj) == len(Js), "number of weighted Jacobians")
    for a, j in zip(nj, kj):
        case.close(a, W @ j.double(), tol * sc * 5, f"{kind} weighted Jacobian")
        case.check(a.dtype == dt, "dtype of weighted Jacobian")
    case.same(e, ke, "weight changed its input error")
    for a, b in zip(Js, kj):
        case.same(a, b, "weight changed its input Jacobians")
    z = w.is_zero()
    if zero is not None:
        case.check(z.dtype == torch.bool and z.view(-1).tolist() == zero.tolist(), f"{kind} is_zero")
    else:
        case.check(not bool(z.any()), "gp is_zero")
    case.event(f"{kind}/{how}")


def sc_fast_local(case):
    """With fast approximate local Jacobians on, the Jacobian of Difference is the identity,
    for every batch size, dtype and sequence of changes of these."""
    from theseus.global_params import _THESEUS_GLOBAL_PARAMS as gp
    G, cls = geo.pick_group(case)
    dt = D64
    B = case.randint(1, 4)
    t = lambda b: G.random(case, b)  # noqa: E731
    x, a = geo.make(case, G, cls, t(B), dt), geo.make(case, G, cls, t(case.choice([1, B])), dt)
    cost = th.Difference(x, a, th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=dt))))
    case.sig(G.name, x.tensor, a.tensor)
    old = gp.fast_approx_local_jacobians
    low = False  # whether the values have been rounded to single precision
    try:
        for _ in range(case.randint(2, 5)):
            fast = case.chance(0.7)
            th.set_global_params({"fast_approx_local_jacobians": fast})
            k = case.choice(["batch", "dtype", "value"])
            if k == "batch":
                B = case.randint(1, 4)
                x.update(t(B).to(dt))
                a.update(t(case.choice([1, B])).to(dt))
            elif k == "dtype":
                dt = case.choice([D32, D64])
                cost.to(dtype=dt)
                low = low or dt == D32
            else:
                x.update(t(B).to(dt))
            (J,), e = cost.jacobians()
            case.check(J.dtype == dt and tuple(J.shape) == (B, G.dof, G.dof), "shape/dtype of the Jacobian",
                       got=(J.dtype, tuple(J.shape)))
            r = G.log(G.inv(G.mat(a.tensor)) @ G.mat(x.tensor)).expand(B, -1)
            ok = geo.ang(G, r) < 2.8
            want = torch.eye(G.dof, dtype=D64).expand(B, -1, -1) if fast else G.jlog(r)
            th_, lin = geo.ang(G, r), geo.lin_norm(G, r) + 3
            if bool(ok.any()):
                geo.close_b(case, e[ok], r[ok], geo.tol_value(G, th_, lin, D32 if low else D64)[ok] * 3, "error")
                geo.close_b(case, J[ok], want[ok], (geo.tol_jac(G, th_, lin, D32 if low else D64) * 3)[ok], "Jacobian")
            case.event("fast" if fast else "exact")
    finally:
        th.set_global_params({"fast_approx_local_jacobians": old})


def sc_refuse(case):
    """Inconsistent arguments are refused."""
    V = lambda d, b=1: th.Vector(tensor=case.randn(b, d))  # noqa: E731
    w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=D64)))
    one = lambda *s: th.Variable(torch.ones(*s, dtype=D64))  # noqa: E731
    g = [th.SO2, th.SE2, th.SO3, th.SE3]
    a, b = case.rng.sample(g, 2)
    d = case.randint(2, 4)
    A = lambda: a(dtype=D64)  # noqa: E731
    k = case.choice(["between", "between2", "mfb", "diff", "dint", "gp", "hinge_dim", "hinge_order", "nonhol",
                     "gp_pd", "gp_dt", "scale_dim", "dt_dim"])
    case.describe(what=k)
    case.sig(k, a.__name__, b.__name__, d)
    f = {
        "between": lambda: th.Between(A(), b(dtype=D64), A(), w),
        "between2": lambda: th.Between(A(), A(), b(dtype=D64), w),
        "mfb": lambda: th.eb.MovingFrameBetween(*[b(dtype=D64) if i == d else A() for i in range(5)], w),
        "diff": lambda: th.Difference(V(d), V(d + 1), w),
        "dint": lambda: th.eb.DoubleIntegrator(V(d), V(d), V(d), V(d + 1), one(1, 1), w),
        "gp": lambda: th.eb.GPMotionModel(V(d), V(d), V(d), V(d), one(1, 1), w),
        "hinge_dim": lambda: th.eb.HingeCost(V(d), one(1, d + 1), one(1, d), one(1, d), w),
        "hinge_order": lambda: th.eb.HingeCost(V(d), th.Variable(2 * torch.ones(1, d, dtype=D64)), one(1, d),
                                               one(1, d), w),
        "nonhol": lambda: th.eb.Nonholonomic(V(3), V(d if d != 3 else 5), w),
        "gp_pd": lambda: th.eb.GPCostWeight(-torch.eye(d, dtype=D64), one(1, 1)),
        "gp_dt": lambda: th.eb.GPCostWeight(torch.eye(d, dtype=D64), th.Variable(torch.zeros(1, 1, dtype=D64))),
        "scale_dim": lambda: th.ScaleCostWeight(torch.ones(d, d + 1, dtype=D64)),
        "dt_dim": lambda: th.eb.DoubleIntegrator(V(d), V(d), V(d), V(d), torch.ones(d, d, dtype=D64), w),
    }[k]
    case.raises(ValueError, f, f"invalid arguments ({k})")
    case.event("refused")


FORMS = {"reproj": {2: "calib", 3: "calib"}, "coll": {0: "origin", 1: "tensor", 2: "cell", 3: "scalar"},
         "effobj": {0: "origin", 1: "tensor", 2: "cell", 3: "scalar"}, "dint": {0: "scalar"}, "gp": {0: "scalar"},
         "qsp": {0: "qsp"}, "hinge": {0: "limit", 1: "limit", 2: "limit"}}


def _form(case, how, t):
    """Some way the constructors accept of giving the value t (batch, ...), other than a variable."""
    ways = [t.clone()]
    one = t.shape[0] == 1 and t.numel() == 1
    if how == "calib":
        return None if not bool(t.any()) and t.shape[0] == 1 else th.Vector(tensor=t.clone())
    if how == "origin":
        ways += [t[0].clone()] if t.shape[0] == 1 else []
    if how in ("scalar", "qsp"):
        ways += [t.reshape(-1).clone()] if how == "scalar" else []
        ways += [t.reshape(()).clone()] if one and how == "scalar" else []
    if one and how != "origin":
        ways += [float(t)] * 2
    if how == "limit" and t.shape[0] == 1 and bool((t == t[0, 0]).all()):
        ways += [float(t[0, 0])] * 2
    return case.choice(ways)


def sc_forms(case):
    """Arguments given as numbers or tensors, left out, or wrapped in variables make the same cost function; unnamed
    cost functions get along in one objective; what was wrapped can be updated like any variable."""
    kind = case.choice(sorted(FORMS))
    spec = gen.Gen(case, kinds=(kind,), n_costs=1, robust_p=0.0, batch1_p=0.6, ad_modes=("dense",), max_vars=1).make()
    cs = spec.costs[0]
    for i, how in FORMS[kind].items():
        v = spec.vars[cs.aux[i]]
        if how == "calib" and case.chance(0.6):
            v.value = torch.zeros(1, 1, dtype=D64)
        if how == "limit" and case.chance(0.6):
            v.value = v.value[:1, :1].expand(1, v.value.shape[1]).clone()
    if kind == "hinge" and bool((spec.vars[cs.aux[0]].value > spec.vars[cs.aux[1]].value[:1]).any()):
        raise Skip()
    ws = spec.weights[cs.weight]
    own = ws.kind not in ("scale", "diag", "gp")  # a weight class of this harness
    case.sig(kind, ws.kind, *[spec.vars[n].value for n in cs.opt + cs.aux])
    old = torch.get_default_dtype()
    torch.set_default_dtype(D64)
    try:
        ref_ = gen.build_parts(spec, D64)
        rc = ref_.costs[cs.name]
        b = gen.build_parts(spec, D64)
        o = [b.vars[n] for n in cs.opt]

        def weight():
            if own:
                return b.weights[cs.weight]
            t = [spec.vars[n].value.clone() for n in ws.aux]
            if ws.kind == "scale":
                if t[0].numel() == 1 and float(t[0]) == 1.0 and kind == "reproj" and case.chance(0.5):
                    return None
                return th.ScaleCostWeight(case.choice([t[0], t[0].reshape(-1)] + ([float(t[0]), t[0].reshape(())]
                                                                                  if t[0].numel() == 1 else [])))
            if ws.kind == "diag":
                return th.DiagonalCostWeight(case.choice([t[0]] + ([t[0].tolist()] if t[0].shape[0] == 1 else [])))
            return th.eb.GPCostWeight(case.choice([t[0]] + ([t[0][0]] if t[0].shape[0] == 1 else [])), _form(case, "scalar", t[1]))

        def build(name):
            a = [_form(case, FORMS[kind][i], spec.vars[n].value) if i in FORMS[kind] else b.vars[n] for i, n in enumerate(cs.aux)]
            w = weight()
            if kind == "reproj":
                extra = {} if w is None else {"weight": w}
                extra.update({k: x for k, x in zip(("calib_k1", "calib_k2"), a[2:]) if x is not None})
                return th.eb.Reprojection(o[0], o[1], a[1], a[0], name=name, **extra)
            if kind == "coll":
                return th.eb.Collision2D(o[0], *a, w, name=name)
            cls = {"effobj": th.eb.EffectorObjectContactPlanar, "dint": th.eb.DoubleIntegrator, "gp": th.eb.GPMotionModel,
                   "qsp": th.eb.QuasiStaticPushingPlanar, "hinge": th.eb.HingeCost}[kind]
            return cls(*o, *a, w, name=name)
        names = [None, None] if case.chance(0.6) else ["one", "two"]
        alts = [build(n) for n in names]
        case.describe(kind=kind, weight=ws.kind, names=names, B=spec.B)

        def agree(what, costs):
            for alt in costs:
                case.check(alt.dim() == rc.dim(), f"{what}: dim")
                tol = 1e-12 if kind != "gp" else 1e-9
                pairs = [(alt.error(), rc.error()), (alt.weighted_error(), rc.weighted_error())]
                for f in ("jacobians", "weighted_jacobians_error"):
                    (J, e), (K, h) = getattr(alt, f)(), getattr(rc, f)()
                    pairs += list(zip(J, K)) + [(e, h)]
                for k, (x, y) in enumerate(pairs):
                    if x.shape != y.shape:
                        x, y = torch.broadcast_tensors(x, y)
                    case.close(x, y, tol * (1 + float(y.abs().max())), f"{what} [{kind}]", item=k)
        agree("cost made from numbers and tensors", alts)
        agree("copy of a cost made from numbers and tensors", [alts[0].copy()])
        obj = th.Objective(dtype=D64)
        for alt in alts:
            obj.add(alt)
        obj.update()
        want = torch.cat([alt.weighted_error().expand(obj.batch_size, -1) for alt in alts], 1)
        case.close(obj.error(), want, 1e-9 * (1 + float(want.abs().max())), f"objective of two such costs [{kind}]")
        # what was wrapped is a variable like any other
        todo = [i for i in FORMS[kind] if FORMS[kind][i] != "limit"] or list(FORMS[kind])
        i = case.choice(todo)
        alt = case.choice(alts)
        rv, av = ref_.vars[cs.aux[i]], {id(x): x for x in alt.aux_vars}
        names_ = {"reproj": {2: "calib_k1", 3: "calib_k2"}, "coll": {0: "sdf_origin", 1: "sdf_data", 2: "sdf_cell_size", 3: "cost_eps"},
                  "effobj": {0: "sdf_origin", 1: "sdf_data", 2: "sdf_cell_size", 3: "eff_radius"}, "dint": {0: "dt"}, "gp": {0: "dt"},
                  "qsp": {0: "c_square"}, "hinge": {0: "down_limit", 1: "up_limit", 2: "threshold"}}
        v = getattr(alt, names_[kind][i])
        twice = [n for n in cs.aux if n == cs.aux[i]]
        if len(twice) > 1 or (kind != "gp" and cs.aux[i] in ws.aux):
            return  # one variable for two arguments in the spec
        case.check(id(v) in av, "a wrapped argument is no auxiliary variable")
        new = rv.tensor * (1.3 if kind != "hinge" or i != 0 else 1.0)
        new = new.abs() + (0.1 if kind != "coll" or i != 1 else 0.0) if FORMS[kind][i] in ("scalar", "qsp", "cell", "calib") else new
        rv.update(new)
        v.update(new.reshape(v.shape) if v.shape.numel() == new.numel() else new)
        if kind == "gp" and ws.aux[1] == cs.aux[0]:  # (the spec's weight and cost share their dt)
            w = alt.weight.dt
            w.update(new.reshape(w.shape) if w.shape.numel() == new.numel() else new)
        agree("after updating a wrapped argument", [alt])
    finally:
        torch.set_default_dtype(old)
    case.event(f"forms {kind}")


SCENARIOS = {
    "forms": Scenario(sc_forms, 300, 3000),
    "cost": Scenario(sc_cost, 700, 12000),
    "residual": Scenario(sc_residual, 500, 8000),
    "weight": Scenario(sc_weight, 300, 3000),
    "fast_local": Scenario(sc_fast_local, 120, 1500),
    "refuse": Scenario(sc_refuse, 60, 300),
}
