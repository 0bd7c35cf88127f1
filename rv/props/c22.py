"""C22: Gaussians on manifolds and posterior samples."""
import copy
import warnings

import torch

import theseus as th
from theseus.optimizer import ManifoldGaussian, local_gaussian, retract_gaussian

from .. import gen, geo, optim, ref
from ..core import D32, D64, Scenario, Skip

QUICK = 3  # so many times each scenario's quick cases
ID = "C22"
RULE = ("a case is a random Gaussian on a random group moved between the group and a tangent plane, or a random "
        "history of one, or a linear problem whose posterior is sampled")
ASSUMPTIONS = ["samples are judged with 6-sigma bounds on the mean and covariance of a few thousand draws",
               "sampling is checked for vector variables (x_samples stores one number per degree of freedom)"]


def spd(case, B, n, dtype=D64, cond=50.0):
    Q = torch.linalg.qr(case.randn(B, n, n))[0]
    w = torch.exp(case.rand(B, n) * float(torch.tensor(cond).log()))
    P = Q @ torch.diag_embed(w) @ Q.transpose(1, 2)
    return (0.5 * (P + P.transpose(1, 2))).to(dtype)


def element(case, G, cls, u, dtype):
    return geo.make(case, G, cls, G.tensor(G.exp(u)).to(dtype), dtype)


def sc_tangent(case):
    """local_gaussian and retract_gaussian."""
    G, cls = geo.pick_group(case, names=("SO2", "SE2", "SO3", "SE3", "Vector", "Point2", "Point3"))
    dtype = case.choice([D64, D64, D32])
    B = case.randint(1, 5)
    big = case.chance(0.5)
    scale = case.choice([1e-4, 0.05, 0.4, 0.9])
    u = case.randn(B, G.dof, scale=scale)
    n = u.norm(dim=1, keepdim=True)
    u = torch.where(n > 2.5, u * (2.5 / n), u)
    x = element(case, G, cls, case.randn(B, G.dof, scale=1.0 if big else 0.1).clamp(-1.5, 1.5), dtype)
    P = spd(case, B, G.dof, dtype, case.choice([1.0, 50.0, 1e3]))
    case.sig(G.name, str(dtype), u, P)
    case.describe(group=G.name, dtype=str(dtype), B=B, scale=scale)
    x0 = x.tensor.clone()
    mean = x.retract(u.to(dtype))
    g = ManifoldGaussian([mean], precision=P)
    m0 = mean.tensor.clone()
    J = G.jexp(u)  # right Jacobian of the exponential, from an independent series
    lam = J.transpose(1, 2) @ P.double() @ J
    e = (2e-7 if dtype == D64 else 2e-3)
    ep = e * (1 + float(lam.abs().max()))
    mu, L = local_gaussian(x, g, return_mean=True)
    case.close(mu, u, e * (1 + scale), "mean in the tangent plane")
    case.close(L, lam, ep, "precision in the tangent plane")
    eta, L2 = local_gaussian(x, g, return_mean=False)
    case.same(L2, L, "precision with return_mean=False")
    case.close(eta, (lam @ u.unsqueeze(-1)).squeeze(-1), ep * (1 + scale) * G.dof, "information vector")
    # and back
    r = retract_gaussian(x, mu, L)
    case.check(isinstance(r, ManifoldGaussian) and len(r.mean) == 1 and type(r.mean[0]) is cls, "retract_gaussian type")
    case.close(G.mat(r.mean[0].tensor), G.mat(m0), e * 10 * (1 + float(m0.abs().max())), "round trip mean")
    case.close(r.precision, P, 20 * ep, "round trip precision")
    # retract alone
    Q = spd(case, B, G.dof, dtype)
    r = retract_gaussian(x, u.to(dtype), Q)
    Ji = torch.linalg.inv(J)
    case.close(r.precision, Ji.transpose(1, 2) @ Q.double() @ Ji,
               e * 20 * (1 + float(Q.abs().max())) * float(Ji.abs().max()) ** 2, "precision on the manifold")
    case.close(r.mean[0].tensor, x.retract(u.to(dtype)).tensor, 1e-12, "mean on the manifold")
    case.check(r.precision.dtype == dtype and L.dtype == dtype and mu.dtype == dtype, "dtype")
    case.same(x.tensor, x0, "the base point is unchanged")
    case.same(g.mean[0].tensor, m0, "the Gaussian is unchanged")
    case.same(g.precision, P, "the Gaussian is unchanged")
    case.event(f"tangent:{G.name}")
    # refused
    other = th.SO3(dtype=dtype) if cls is not th.SO3 else th.SO2(dtype=dtype)
    case.raises(ValueError, lambda: local_gaussian(other, g), "local_gaussian of another class")
    two = ManifoldGaussian([mean.copy(), mean.copy()])
    case.raises(ValueError, lambda: local_gaussian(x, two), "local_gaussian of two variables")


def draw(case, cls, G, B, dtype):
    return element(case, G, cls, case.randn(B, G.dof, scale=0.7), dtype)


def sc_history(case):
    """Updates, copies, conversions of a Gaussian over several variables."""
    dtype = case.choice([D64, D32])
    B = case.randint(1, 4)
    k = case.randint(1, 3)
    groups = [geo.pick_group(case, names=("SO2", "SE2", "SO3", "SE3", "Vector", "Point2", "Point3")) for _ in range(k)]
    mean = [draw(case, c, G, B, dtype) for G, c in groups]
    dof = sum(G.dof for G, _ in groups)
    state = [m.tensor.clone() for m in mean]
    if case.chance(0.3):
        g = ManifoldGaussian(mean)
        prec = torch.eye(dof, dtype=dtype).repeat(B, 1, 1)
    else:
        prec = spd(case, B, dof, dtype)
        g = ManifoldGaussian(mean, precision=prec.clone(), name="g")
        case.check(g.name == "g", "name")
    case.sig([c.__name__ for _, c in groups], str(dtype), *state, prec)

    def same(g, state, prec, dtype, what):
        case.check(g.dof == dof and len(g.mean) == k, f"dof {what}")
        for m, t in zip(g.mean, state):
            case.same(m.tensor, t, f"mean {what}")
        case.same(g.precision, prec, f"precision {what}")
        case.check(g.dtype == dtype and g.precision.dtype == dtype, f"dtype {what}")
        case.check(g.device == torch.device("cpu"), "device")

    same(g, state, prec, dtype, "initially")
    copies = []
    for _ in range(case.randint(1, 6)):
        op = case.choice(["update", "update", "copy", "deepcopy", "to", "bad"])
        case.event(op)
        if op == "update":
            B = case.randint(1, 4)
            new = [draw(case, c, G, B, dtype) for G, c in groups]
            state = [m.tensor.clone() for m in new]
            prec = spd(case, B, dof, dtype)
            g.update(new, prec.clone())
            for m in new:  # the given variables and the Gaussian's are not the same objects
                case.check(all(m is not h for h in g.mean), "update adopts the caller's variables")
        elif op in ("copy", "deepcopy"):
            c = g.copy() if op == "copy" else copy.deepcopy(g)
            if op == "copy" and case.chance(0.5):
                c = g.copy(new_name="h")
                case.check(c.name == "h", "name of the copy")
            same(c, state, prec, dtype, "of a copy")
            copies.append((c, state, prec, dtype))
            if case.chance(0.5):
                g, c2 = c, g
                copies[-1] = (c2, state, prec, dtype)
        elif op == "to":
            dtype = case.choice([D64, D32])
            g.to(dtype=dtype)
            state, prec = [t.to(dtype) for t in state], prec.to(dtype)
        else:
            bad = case.choice(["len", "shape", "sym", "dtype"])
            P = spd(case, B, dof, dtype)
            m = [h.copy() for h in g.mean]
            if bad == "len":
                m = m + [m[0].copy()]
            elif bad == "shape":
                P = case.choice([P[:, :, :-1], P[:, :-1, :-1], P[0], P.repeat(2, 1, 1)])
            elif bad == "sym":
                if dof == 1:
                    continue
                P[-1, 0, dof - 1] += case.choice([0.05, -1.0]) * (1 + float(P.abs().max()))
            else:
                P = P.to(D32 if dtype == D64 else D64)
            case.event("refused:" + bad)
            case.raises(ValueError, lambda: g.update(m, P), f"update with bad {bad}")
        same(g, state, prec, dtype, "after " + op)
        for c in copies:
            same(*c, "of a copy later")


def sc_samples(case):
    """Samples of the posterior at the current point of a linear problem."""
    B = case.randint(1, 3)
    dtype = D64
    k = case.randint(1, 3)
    o = th.Objective(dtype=dtype)
    dofs = [case.randint(1, 3) for _ in range(k)]
    vs = [th.Vector(tensor=case.randn(B, d), name=f"v{i}") for i, d in enumerate(dofs)]
    for i, v in enumerate(vs):
        w = th.DiagonalCostWeight(torch.exp(case.randn(B, dofs[i], scale=0.5)))
        o.add(th.Difference(v, th.Vector(tensor=case.randn(B, dofs[i]), name=f"t{i}"), w, name=f"p{i}"))
    for i in range(k - 1):
        if dofs[i] == dofs[i + 1] and case.chance(0.8):
            o.add(th.Between(vs[i], vs[i + 1], th.Vector(tensor=case.randn(B, dofs[i]), name=f"m{i}"),
                             th.ScaleCostWeight(case.rand(B, 1, lo=0.3, hi=2.0)), name=f"b{i}"))
    solver = case.choice([th.CholeskyDenseSolver, th.LUDenseSolver])
    opt = th.GaussNewton(o, linear_solver_cls=solver, max_iterations=1)
    layer = th.TheseusLayer(opt, vectorize=case.chance(0.5))
    T = case.logu(0.05, 20.0)
    n = 4000
    case.sig(dofs, T, *[v.tensor for v in vs])
    case.describe(dofs=dofs, T=T, B=B)
    case.check(layer.compute_samples(None) is None, "no solver, no samples")
    o.update()
    if case.chance(0.5):
        layer.forward()
    s = opt.linear_solver
    s.linearization.linearize()
    H = s.linearization.AtA.clone()
    d = torch.linalg.solve(H, s.linearization.Atb).squeeze(-1)
    order = list(s.linearization.ordering)
    x = torch.cat([v.tensor for v in order], 1)
    before = [v.tensor.clone() for v in vs]
    torch.manual_seed(case.rng.getrandbits(32))
    X = layer.compute_samples(s, n_samples=n, temperature=T)
    case.check(tuple(X.shape) == (B, sum(dofs), n) and X.dtype == dtype, "shape of the samples", got=tuple(X.shape))
    for v, t in zip(vs, before):
        case.same(v.tensor, t, "sampling changes the variables")
    L = torch.linalg.cholesky(H / T)
    Z = L.transpose(1, 2) @ (X - (x + d).unsqueeze(-1))  # standard normal
    N = sum(dofs)
    case.close(Z.mean(2), torch.zeros(B, N), 6 / n ** 0.5, "mean of the samples")
    C = Z @ Z.transpose(1, 2) / n
    case.close(C, torch.eye(N).expand(B, -1, -1), 6.5 * (2 / n) ** 0.5, "covariance of the samples")
    case.close((Z ** 3).mean(2), torch.zeros(B, N), 6.5 * (15 / n) ** 0.5, "skewness of the samples")
    flat = Z.reshape(B * N, n)
    case.check((flat.abs() > 1.0).double().mean(1).sub(0.3173).abs().max() < 6.5 * (0.3173 * 0.6827 / n) ** 0.5,
               "the samples are not normal")
    case.check(len(torch.unique(X[0, 0])) == n, "repeated samples")
    Y = layer.compute_samples(s, n_samples=3, temperature=T)
    case.check(Y.shape[-1] == 3 and not torch.equal(Y, X[..., :3]), "samples are fresh")
    case.event("samples", n)


SCENARIOS = {
    "tangent": Scenario(sc_tangent, 800, 12000),
    "history": Scenario(sc_history, 500, 8000),
    "samples": Scenario(sc_samples, 150, 2500),
}
