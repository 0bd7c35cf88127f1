"""C20: Jacobians and gradients of Lie group operations are their derivatives."""
import torch

import theseus as th
import torchlie.functional as lieF

from .. import lieops as lo
from .. import ref
from ..core import D32, D64, Scenario, Skip
from ..geo import (ang, close_b, lin_norm, make, pick_dtype, pick_group, tangents, tol_jac)

QUICK = 3  # so many times each scenario's quick cases
ID = "C20"
RULE = ("a case is one operation on random elements (regime-mixed batch), its returned "
        "Jacobians and its autograd gradient compared with closed-form float64 derivatives")
ASSUMPTIONS = ["derivatives are taken with respect to right perturbations (x exp(d))",
               "small-angle thresholds: accuracy of the approximation order only"]


def _pair(case, G, cls, dtype, b0, b1):
    u0 = tangents(case, G, b0)
    x = make(case, G, cls, G.tensor(G.exp(u0)), dtype)
    # relative element with its own angle regime so that between/local hit every regime
    d = tangents(case, G, b1)
    M = G.mat(x.tensor)
    Y = (M[:1] if b1 == 1 else M) @ G.exp(d) if b0 == b1 or b1 == 1 else G.exp(d)
    if case.chance(0.3):
        Y = G.exp(tangents(case, G, b1))
    y = make(case, G, cls, G.tensor(Y), dtype)
    return x, y, u0


OPS = ["exp", "log", "compose", "inverse", "between", "local", "transform", "untransform"]


def sc_jac(case):
    G, cls = pick_group(case)
    dtype = pick_dtype(case)
    op = case.choice(OPS)
    if op in ("transform", "untransform") and G.ang_slice() is None:
        op = "local"
    B = case.choice([1, 2, 3, 4])
    case.describe(group=G.name, op=op, dtype=str(dtype), batch=B)
    n = 2 if G.name in ("SO2", "SE2") else 3
    near_pi_limit = 0.3 if dtype == D32 else 1e-2

    if op == "exp":
        u = tangents(case, G, B, big=True).to(dtype)
        args, theta, lin = [u], ang(G, u.double()), lin_norm(G, u.double())
        f = (lambda J=None, a=None: (th.Vector if G.name == "Vector" else cls).exp_map(a[0], jacobians=J))
    else:
        b1 = B if case.chance(0.85) else 1
        if op in ("transform", "untransform") and B == 1 and case.chance(0.3):
            b1 = case.randint(2, 3)
        x, y, u0 = _pair(case, G, cls, dtype, B, b1 if op not in ("transform", "untransform") else B)
        if op in ("compose", "between", "local"):
            args = [x.tensor, y.tensor]
        elif op in ("transform", "untransform"):
            args = [x.tensor, case.randn(b1, n, dtype=dtype, scale=case.choice([0.1, 1.0, 10.0]))]
        else:
            args = [x.tensor]
        meth = {"log": "log_map", "compose": "compose", "inverse": "inverse", "between": "between",
                "local": "local",
                "transform": "rotate" if G.name in ("SO2", "SO3") else "transform_from",
                "untransform": "unrotate" if G.name in ("SO2", "SO3") else "transform_to"}[op]

        def f(J=None, a=None):
            v = [make_t(G, cls, t) for t in a[:1]]
            kw = {"jacobian" if op == "inverse" else "jacobians": J} if J is not None else {}
            if op in ("compose", "between", "local"):
                v.append(make_t(G, cls, a[1]))
                return getattr(v[0], meth)(v[1], **kw)
            if op in ("transform", "untransform"):
                return getattr(v[0], meth)(a[1], **kw)
            return getattr(v[0], meth)(**kw)

    case.sig(G.name, op, *args)
    kinds = lo.group_args(op)
    margs = [G.mat(a) if k == 1 else a.double() for a, k in zip(args, kinds)]
    kind, val, Js = lo.value_and_jacs(G, op, margs)
    if op in ("log", "local"):
        Z = margs[0] if op == "log" else G.inv(margs[0]) @ margs[1]
        theta, lin = G.angle(Z), lin_norm(G, val)
    elif op != "exp":
        theta = torch.full((val.shape[0],), 1.0, dtype=D64)
        lin = torch.ones(val.shape[0], dtype=D64) * float(
            sum(m.abs().max() for m in margs)) ** (2 if kind == "G" else 1)
    tol = tol_jac(G, theta, lin, dtype, op) * float(1 + (margs[0].abs().max() if op == "local" else 0))
    if op not in ("exp", "log", "local"):
        tol = torch.full_like(tol, 1e-10 if dtype == D64 else 5e-5) * (1 + lin)
    ok = torch.ones(val.shape[0], dtype=torch.bool)
    if op in ("log", "local"):  # sign of the rotation vector is a convention near pi
        import math
        ok = theta < math.pi - near_pi_limit
        if not ok.any():
            case.trivial = True
    J = []
    out = f(J, args)
    out_t = out if isinstance(out, torch.Tensor) else out.tensor
    want_n = len(Js)
    case.check(len(J) == want_n, f"{op}[{G.name}] returns {want_n} Jacobian(s), got {len(J)}")
    for i, (g, w) in enumerate(zip(J, Js)):
        case.check(g.dtype == dtype, f"Jacobian dtype of {op}[{G.name}]")
        if g.shape != w.shape:  # per-input batch size of one stands for every element
            case.check(g.shape[0] in (1, w.shape[0]) and g.shape[1:] == w.shape[1:],
                       f"{op}[{G.name}] Jacobian {i} shape {tuple(g.shape)} vs {tuple(w.shape)}")
            g = g.expand_as(w)
        close_b(case, g[ok], w[ok], tol[ok], f"jacobian {op}[{G.name} arg{i}]")
        case.event(f"jac {op} {G.name}")
    # asking for Jacobians must not change the value
    plain = f(None, args)
    plain_t = plain if isinstance(plain, torch.Tensor) else plain.tensor
    case.close(out_t, plain_t, 1e-12 if dtype == D64 else 1e-6, "value with and without Jacobians",
               rtol=1e-6)
    if not ok.all():
        return
    # a non-empty Jacobian list is refused
    if case.chance(0.1) and G.name in ("SO2", "SE2", "SO3", "SE3"):
        case.raises(ValueError, lambda: f([torch.zeros(1)], args), "non-empty Jacobian list")

    # autograd: directional derivatives along the tangent directions
    leaves = [a.clone().requires_grad_(True) for a in args]
    o = f([] if case.chance(0.3) else None, leaves)
    o = o if isinstance(o, torch.Tensor) else o.tensor
    W = case.randn(*o.shape, dtype=dtype)
    gr = torch.autograd.grad(o, leaves, W, allow_unused=True)
    for i, (g, a, k) in enumerate(zip(gr, args, kinds)):
        dirs = lo.out_dirs(G, kind, val, Js[i])  # (B, dof, *out)
        want = (dirs * W.double().unsqueeze(1)).flatten(2).sum(2)
        g = torch.zeros_like(a) if g is None else g
        if k == 1:
            got = (lo.in_dirs(G, margs[i]) * g.double().unsqueeze(1)).flatten(2).sum(2)
        else:
            got = g.double()
        t = tol * float(1 + val.abs().max()) * (1 + float(W.abs().max())) * 0.3
        if a.shape[0] == 1 and want.shape[0] != 1:
            want = want.sum(0, keepdim=True)
            t = t.sum(0, keepdim=True)
        close_b(case, got, want, t, f"gradient {op}[{G.name} arg{i}]")
        case.event(f"grad {op} {G.name}")


def make_t(G, cls, t):
    if G.ang_slice() is None:
        return cls(tensor=t)
    return cls(tensor=t, disable_checks=True)


def sc_second(case):
    """Gradients are themselves differentiable: against differences of the first gradient."""
    G, cls = pick_group(case, names=("SO2", "SE2", "SO3", "SE3"))
    lie = G.name in ("SO3", "SE3") and case.chance(0.5)
    B = case.choice([1, 2, 3])
    n = 2 if G.name in ("SO2", "SE2") else 3
    w = G.ang_slice()

    def tangent():
        u = case.randn(B, G.dof)
        for b in range(B):
            a = u[b, w]
            u[b, w] = a / float(a.norm()) * case.rng.uniform(0.15, 2.7)
        return u
    ops = ["exp", "log", "compose", "inverse", "transform", "untransform"]
    ops += ["adjoint", "left_act", "left_project", "quat"] if lie else ["between", "local"] + (["adjoint"] if G.name != "SO2" else [])
    op = case.choice(ops)
    X, Y, p = G.tensor(G.exp(tangent())), G.tensor(G.exp(tangent())), case.randn(B, n)
    if op == "local":  # the relative rotation stays away from pi
        Y = G.tensor(G.mat(X) @ G.exp(tangent()))
    if lie:
        F = getattr(lieF, G.name)
        fs = {"exp": (F.exp, [(tangent(), 0)]), "log": (F.log, [(X, 1)]), "inverse": (F.inv, [(X, 1)]),
              "adjoint": (F.adj, [(X, 1)]), "compose": (F.compose, [(X, 1), (Y, 1)]),
              "transform": (F.transform, [(X, 1), (p, 0)]), "untransform": (F.untransform, [(X, 1), (p, 0)]),
              "left_act": (F.left_act, [(X, 1), (case.randn(B, 3, case.randint(1, 3)), 0)]),
              "left_project": (F.left_project, [(X, 1), (case.randn(*X.shape), 0)])}
        if op == "quat":
            if G.name == "SO3":
                q = case.randn(B, 4)
                fs[op] = (F.quaternion_to_rotation, [(q / q.norm(dim=1, keepdim=True), 0)])
            else:
                op = "exp"
    else:
        def on(name, *more):
            return lambda x, *a: getattr(make_t(G, cls, x), name)(*[k(t) for k, t in zip(more, a)])

        def group(t):
            return make_t(G, cls, t)

        def plain(t):
            return t
        tr, un = ("rotate", "unrotate") if G.name in ("SO2", "SO3") else ("transform_from", "transform_to")
        fs = {"exp": (cls.exp_map, [(tangent(), 0)]), "log": (on("log_map"), [(X, 1)]), "inverse": (on("inverse"), [(X, 1)]),
              "adjoint": (on("adjoint"), [(X, 1)]), "compose": (on("compose", group), [(X, 1), (Y, 1)]),
              "between": (on("between", group), [(X, 1), (Y, 1)]), "local": (on("local", group), [(X, 1), (Y, 1)]),
              "transform": (on(tr, plain), [(X, 1), (p, 0)]), "untransform": (on(un, plain), [(X, 1), (p, 0)])}
    f, args = fs[op]
    kinds, args = [k for _, k in args], [a for a, _ in args]
    case.describe(group=G.name, op=op, torchlie=lie, batch=B)
    case.sig(G.name, op, lie, *args)

    def value(a):
        o = f(*a)
        return o if isinstance(o, torch.Tensor) else o.tensor
    W = case.randn(*value(args).shape)
    rs = [case.randn(B, G.dof) if k else case.randn(*a.shape) for a, k in zip(args, kinds)]

    def first(a, graph):  # only along the group: across it, the gradient is a convention
        gs = torch.autograd.grad((value(a) * W).sum(), a, create_graph=graph, allow_unused=True)
        rx = [G.tensor(G.mat(x) @ G.hat(r)) if k else r for x, k, r in zip(a, kinds, rs)]
        return sum((g * r).sum() for g, r in zip(gs, rx) if g is not None)

    def at(h, ds):
        moved = [G.tensor(G.mat(a) @ G.exp(h * d)) if k else a + h * d for a, k, d in zip(args, kinds, ds)]
        return [m.detach().clone().requires_grad_() for m in moved]
    ds = [case.randn(B, G.dof) if k else case.randn(*a.shape) for a, k in zip(args, kinds)]
    h = 1e-4
    # five points: the error is of order h^4
    want = (8 * (first(at(h, ds), False) - first(at(-h, ds), False)) - (first(at(2 * h, ds), False) - first(at(-2 * h, ds), False))) / (12 * h)
    a = at(0.0, ds)
    s = first(a, True)
    got = torch.zeros((), dtype=D64)
    if torch.is_tensor(s) and s.requires_grad:
        for x, k, d, g in zip(args, kinds, ds, torch.autograd.grad(s, a, allow_unused=True)):
            if g is not None:
                along = G.tensor(G.mat(x.detach()) @ G.hat(d)) if k else d
                got = got + (g * along).sum()
    case.close(got, torch.as_tensor(want, dtype=D64), 1e-5 * (1 + abs(float(want))), f"second derivative {op}[{G.name}{' torchlie' if lie else ''}]")
    case.event(f"second {op} {G.name}{' torchlie' if lie else ''}")


def sc_se2_parts(case):
    dtype = pick_dtype(case)
    B = case.choice([1, 2, 4])
    u = tangents(case, ref.SE2, B)
    x = make(case, ref.SE2, th.SE2, ref.SE2.tensor(ref.SE2.exp(u)), dtype)
    case.sig(u)
    M = ref.SE2.mat(x.tensor)
    J = []
    x.theta(jacobians=J)
    w = torch.zeros(B, 1, 3, dtype=D64)
    w[:, 0, 2] = 1
    case.close(J[0], w, 0, "SE2.theta jacobian")
    J = []
    x.xy(jacobians=J)
    w = torch.zeros(B, 2, 3, dtype=D64)
    w[:, :, :2] = M[:, :2, :2]
    case.close(J[0], w, 1e-12 if dtype == D64 else 1e-6, "SE2.xy jacobian")


def sc_tangent_opt(case):
    """Steps of a torch optimizer on a group tensor: inside the Lie-tangent context x <- x exp(projected update), outside it
    plain addition; the contexts nest, and end with the block however it ends."""
    from theseus.geometry.utils import LieGroupTensor, _LieGroupContext, enable_lie_tangent, no_lie_tangent, \
        set_lie_tangent_enabled
    G, cls = pick_group(case, names=("SO2", "SE2", "SO3", "SE3"))
    dtype = pick_dtype(case)
    B = case.choice([1, 3])
    u = tangents(case, G, B, lin=1.0)
    x = make(case, G, cls, G.tensor(G.exp(u)), dtype)
    kind = case.choice(["SGD", "SGD", "momentum", "nesterov", "Adam", "RMSprop", "Adagrad", "add_", "addcdiv_", "addcmul_"])
    lr = case.logu(1e-2, 1.0) if kind in ("SGD", "momentum", "nesterov") else case.logu(1e-2, 0.3)
    mu, eps = 0.5 * float(case.rand(())) + 0.1, case.logu(1e-4, 1e-1)

    def mk(ps):
        if kind == "Adam":
            return torch.optim.Adam(ps, lr=lr, eps=eps)
        if kind in ("RMSprop", "Adagrad"):
            return getattr(torch.optim, kind)(ps, lr=lr, eps=eps)
        return torch.optim.SGD(ps, lr=lr, momentum=0.0 if kind == "SGD" else mu, nesterov=kind == "nesterov")
    case.sig(G.name, kind, u)
    case.describe(group=G.name, kind=kind, dtype=str(dtype))
    p = LieGroupTensor(x)
    plain = lambda: torch.Tensor(p.data.clone()).as_subclass(torch.Tensor).to(dtype)  # noqa: E731
    q = torch.zeros(p.shape, dtype=dtype)
    methods = kind.endswith("_")
    if not methods:
        p.requires_grad_(True)
        q.requires_grad_(True)
        o1, o2 = mk([p]), mk([q])
    eps_v = 1e-4 if dtype == D64 else 1e-2
    for k in range(case.randint(1, 4)):
        on = case.chance(0.65)
        ctxs = []
        for _ in range(case.randint(0, 2)):  # what is around it does not count
            ctxs.append(case.choice([(enable_lie_tangent, True), (no_lie_tangent, False)]))
        ctxs.append((case.choice([enable_lie_tangent, lambda: set_lie_tangent_enabled(True)] if on else
                                 [no_lie_tangent, lambda: set_lie_tangent_enabled(False)]), on))
        if not on and case.chance(0.3):
            ctxs = []
        E = case.randn(B, *G.shape, dtype=dtype, scale=0.3)
        E2 = case.randn(B, *G.shape, dtype=dtype).abs() + 0.5
        before = plain()
        M = G.mat(before)
        boom = case.chance(0.2)

        def step():
            if methods:
                val = case.choice([1, -0.5, 0.25])
                with torch.no_grad():
                    r = p.add_(E, alpha=val) if kind == "add_" else getattr(p, kind)(E, E2, value=val)
                    case.check(r is p, f"{kind} returns something else")
                return val * (E if kind == "add_" else E / E2 if kind == "addcdiv_" else E * E2)
            p.grad = E.clone()
            q.grad = E.clone()
            old = q.detach().clone()
            with torch.no_grad():
                o1.step()
                o2.step()
            return q.detach() - old
        U = []

        def nest(cs):
            if not cs:
                U.append(step())
                if boom:
                    raise KeyError("inside")
                return
            with cs[0][0]():
                nest(cs[1:])
                case.check(_LieGroupContext.get_context() is cs[0][1], "an inner context changed the outer one")
        try:
            nest(ctxs)
            case.check(not boom, "an exception inside a context was swallowed")
        except KeyError:
            case.check(boom, "an exception appeared")
        case.check(_LieGroupContext.get_context() is False, "a Lie-tangent context outlived its block")
        U = U[0]
        if on:
            d = (lo.in_dirs(G, M) * U.double().unsqueeze(1)).flatten(2).sum(2)
            if not float(d.norm(dim=1).max()) < 6:
                raise Skip()
            case.close(G.mat(plain()), M @ G.exp(d), eps_v * (1 + float(M.abs().max())), f"tangent {kind} step[{G.name}]")
        else:
            case.close(plain(), before + U, 1e-9 if dtype == D64 else 1e-3, f"plain {kind} step[{G.name}]")
            with torch.no_grad():  # back onto the group
                p.set_(before.clone())
        case.event(f"{kind}/{'tangent' if on else 'plain'}")


SCENARIOS = {
    "jac": Scenario(sc_jac, 3000, 30000),
    "se2_parts": Scenario(sc_se2_parts, 100, 500),
    "second": Scenario(sc_second, 300, 4000),
    "tangent_opt": Scenario(sc_tangent_opt, 400, 4000),
}
