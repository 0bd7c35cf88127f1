"""C10: linear solvers solve the damped normal equations; failures are reported, never hidden."""
import warnings

import torch

import theseus as th
from theseus.optimizer import VariableOrdering
from theseus.optimizer.linear import LinearOptimizer
from theseus.optimizer.linear.linear_optimizer import LinearOptimizerStatus

from .. import gen
from ..core import D32, D64, Scenario, Skip
from . import c09

QUICK = 3  # so many times each scenario's quick cases
ID = "C10"
RULE = ("a case is a random objective linearized at random values and solved by every linear solver "
        "with random damping (none, scalar, tensor, per element; spherical or ellipsoidal; eps), its "
        "solution checked against the normal equations of an independently assembled system")
ASSUMPTIONS = ["systems with condition number above 5e11 (float64) or 800 (float32) are not compared"]

SOLVERS = (th.CholeskyDenseSolver, th.LUDenseSolver, th.CholmodSparseSolver)


def objective(case, dtype=D64, prior=True, **kw):
    spec = gen.make_spec(case, all_costs_batched=case.chance(0.7), prior=prior, zero_p=0.1, **kw)
    if case.chance(0.25):
        c09.add_repeated(case, spec)
    a, p = gen.build(spec, dtype).objective, gen.build(spec, dtype).objective
    if case.chance(0.5):
        th.Vectorize(a)
    a.update()
    p.update()
    return spec, a, p


def damping_of(case, B, dtype, dense, random_kinds=True):
    """(kwargs, per-element damping tensor or None, ellipsoidal, eps)."""
    kind = case.choice(["none", "float", "float", "zero"] + (["t0", "t1", "tB", "tB"] if dense else []))
    lam = case.logu(1e-3, 1e2)
    if kind == "none":
        return {}, None, False, 0.0, kind
    if kind == "zero":
        return {"damping": 0.0, "ellipsoidal_damping": False}, None, False, 0.0, kind
    kw = {"float": lam, "t0": torch.tensor(lam, dtype=D64), "t1": torch.tensor([lam], dtype=D64)}
    if kind == "tB":
        some = case.choice([0.0, 0.3])  # elements without damping, next to damped ones
        t = torch.tensor([0.0 if case.chance(some) else case.logu(1e-3, 1e2) for _ in range(B)], dtype=D64)
        per = t
        if case.chance(0.3):
            t = t.view(-1, 1)
        val = t.to(dtype) if case.chance(0.5) else t
    else:
        per = torch.full((B,), lam, dtype=D64)
        val = kw[kind]
    out = {"damping": val}
    ell = dense and case.chance(0.5)
    out["ellipsoidal_damping"] = ell
    eps = 1e-8
    if ell and case.chance(0.6):
        eps = case.logu(1e-6, 1e-1)
        out["damping_eps"] = eps
    return out, per, ell, eps if ell else 0.0, kind


def normal(A, b, per, ell, eps):
    At = A.transpose(1, 2)
    N = At @ A
    if per is not None:
        if ell:
            D = per.view(-1, 1) * N.diagonal(dim1=1, dim2=2) + eps
        else:
            D = per.view(-1, 1).expand(-1, N.shape[1])
        N = N + torch.diag_embed(D)
    return N, (At @ b.unsqueeze(2)).squeeze(2)


def check_solution(case, x, N, g, dtype, what):
    eps = 2e-16 if dtype == D64 else 1.2e-7
    cond = torch.linalg.cond(N)
    case.check(x.dtype == dtype, f"{what}: dtype of the solution")
    case.check(tuple(x.shape) == tuple(g.shape), f"{what}: shape of the solution")
    case.check(bool(torch.isfinite(x).all()), f"{what}: non-finite solution")
    w = torch.linalg.solve(N, g)
    x = x.detach().double()
    # float32 systems are also assembled in float32: every entry carries that error
    scale = 300.0 * eps * g.shape[1]
    for i in range(x.shape[0]):
        if float(cond[i]) * eps > 1e-4:
            case.event("ill-conditioned")
            continue
        case.event("solved")
        den = float(w[i].norm()) + 1e-12
        dev = float((x[i] - w[i]).norm())
        # normwise bound: |dx| <= cond * eps * (|x| + |g| / |N|)
        lim = scale * float(cond[i]) * (den + float(g[i].norm() / torch.linalg.matrix_norm(N[i], 2)))
        case.check(dev <= lim + 1e-300, f"{what}: not the solution of the normal equations",
                   dev=dev, limit=lim, kappa=float(cond[i]))
        case.max_dev[what.split("[")[0]] = max(case.max_dev.get(what.split("[")[0], 0.0), dev / lim)


def sc_solve(case):
    dtype = D32 if case.chance(0.25) else D64
    spec, a, p = objective(case, dtype)
    solvers = []
    for cls in SOLVERS:
        o, names = c09.ordering(case, a)
        kw = {}
        cd = 0.0
        if cls is th.CholmodSparseSolver and case.chance(0.4):
            cd = case.logu(1e-3, 1.0)
            kw["damping"] = cd
        elif cls is not th.CholmodSparseSolver and case.chance(0.3):
            kw["check_singular"] = True
        solvers.append((cls, cls(a, linearization_kwargs={"ordering": o} if o else None, **kw), names, cd, kw))
    case.describe(costs=[c.kind for c in spec.costs], B=spec.B, dtype=str(dtype))
    case.sig(spec.signature(), dtype, [repr(k[4]) for k in solvers])
    for rnd in range(case.randint(1, 3)):
        if rnd:
            c09.change(case, spec, [a, p], dtype)
        grad = case.chance(0.5)
        for cls, s, names, cd, kw in solvers:
            dense = cls is not th.CholmodSparseSolver
            with torch.set_grad_enabled(grad):
                s.linearization.linearize()
                A, b = c09.assemble(p, names)
                for _ in range(2):
                    dk, per, ell, eps, kind = damping_of(case, a.batch_size, dtype, dense)
                    if not dense:
                        if kind in ("none", "zero") and cd:
                            per = torch.full((a.batch_size,), cd, dtype=D64)
                    N, g = normal(A, b, per, ell, eps)
                    top = float(torch.linalg.cond(N).max())
                    if kw.get("check_singular"):  # goes by the matrix before damping
                        top = max(top, float(torch.linalg.cond(normal(A, b, None, False, 0.0)[0]).max()))
                    if not top < (1e10 if dtype == D64 else 1e5):
                        case.event("singular-skip")
                        continue
                    x = s.solve(**dk)
                    case.event(f"{cls.__name__}:{kind}:{'ell' if ell else 'sph'}")
                    check_solution(case, x, N, g, dtype, f"{cls.__name__}[{kind}]")


def sc_singular(case):
    """Exactly singular elements: refused with RuntimeError, or zeroed by check_singular."""
    dtype = D32 if case.chance(0.4) else D64
    B, d = case.randint(1, 5), case.randint(1, 3)
    bad = [case.chance(0.4) for _ in range(B)]
    x = th.Vector(tensor=case.randn(B, d, dtype=dtype), name="x")
    y = th.Point2(tensor=case.randn(B, 2, dtype=dtype), name="y")
    wx = case.rand(B, 1, lo=0.5, hi=2.0, dtype=dtype)
    wy = case.rand(B, 1, lo=0.5, hi=2.0, dtype=dtype)
    tgt = wy if case.chance(0.5) else wx
    for i in range(B):
        if bad[i]:
            tgt[i] = 0.0
    ob = th.Objective(dtype=dtype)
    tx = th.Vector(tensor=case.randn(B, d, dtype=dtype), name="tx")
    ty = th.Point2(tensor=case.randn(B, 2, dtype=dtype), name="ty")
    ob.add(th.Difference(x, tx, th.ScaleCostWeight(th.Variable(wx, name="wx"))))
    ob.add(th.Difference(y, ty, th.ScaleCostWeight(th.Variable(wy, name="wy"))))
    if case.chance(0.4):
        th.Vectorize(ob)
    ob.update()
    cls = case.choice(SOLVERS)
    chk = cls is not th.CholmodSparseSolver and case.chance(0.6)
    s = cls(ob, **({"check_singular": True} if chk else {}))
    case.sig(cls.__name__, chk, tuple(bad), d, dtype, case.seed)
    case.describe(bad=bad, solver=cls.__name__, chk=chk, dtype=str(dtype))
    s.linearization.linearize()
    want = torch.cat([tx.tensor - x.tensor, ty.tensor - y.tensor], 1).double()
    eps = 1e-12 if dtype == D64 else 1e-4
    if any(bad) and not chk:
        case.event("refused")
        case.raises(RuntimeError, s.solve, f"{cls.__name__}: a singular system was solved")
        # and so does the optimizer: loudly with gradients, with a status without
        opt = case.choice([th.GaussNewton, LinearOptimizer, th.Dogleg])(ob, linear_solver_cls=cls)
        before = {n: v.tensor.clone() for n, v in ob.optim_vars.items()}
        case.raises(RuntimeError, opt.optimize, f"{cls.__name__}: optimize() with gradients")
        with torch.no_grad(), warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            info = opt.optimize(track_best_solution=True)
        case.check(all(z.name == "FAIL" for z in info.status), "status after a failed solve")
        case.check(any(issubclass(r.category, RuntimeWarning) for r in rec), "no warning after a failed solve")
        for n, v in ob.optim_vars.items():
            case.same(v.tensor, before[n], "variables after a failed solve")
        return
    dmp = None
    kw = {}
    if chk and case.chance(0.5):
        dmp = case.rand(B, lo=0.1, hi=2.0)
        if case.chance(0.4):
            dmp = dmp[:1]
        kw = dict(damping=dmp.to(dtype), ellipsoidal_damping=case.chance(0.5), damping_eps=1e-3)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        if all(bad) and chk:
            sol = s.solve(**kw)
        else:
            sol = s.solve(**kw)
    sing = any(issubclass(r.category, RuntimeWarning) and "ingular" in str(r.message) for r in rec)
    if chk:
        case.check(sing == any(bad), "check_singular's warning")
    A = torch.diag_embed(torch.cat([wx.expand(-1, d), wy.expand(-1, 2)], 1).double())
    b = torch.cat([wx * (tx.tensor - x.tensor), wy * (ty.tensor - y.tensor)], 1).double()
    per = dmp.expand(B) if dmp is not None else None
    N, g = normal(A, b, per, kw.get("ellipsoidal_damping", False), 1e-3 if kw.get("ellipsoidal_damping") else 0.0)
    case.check(sol.dtype == dtype, "dtype of the solution")
    for i in range(B):
        w = torch.zeros(d + 2, dtype=D64) if bad[i] else torch.linalg.solve(N[i], g[i])
        case.close(sol[i], w, eps * (1 + float(w.abs().max())), f"element {'singular' if bad[i] else 'regular'}")
    if not any(bad) and dmp is None:
        case.close(sol, want, eps * 10, "solution")


def sc_linear_optimizer(case):
    """One linear step from anywhere minimizes a linear least-squares problem."""
    dtype = D32 if case.chance(0.25) else D64
    B = case.randint(1, 4)
    nv = case.randint(1, 4)
    dims = [case.randint(1, 3) for _ in range(nv)]
    V = [th.Vector(tensor=case.randn(B, k, dtype=dtype), name=f"v{case.randint(0, 99)}_{i}") for i, k in enumerate(dims)]
    ob = th.Objective(dtype=dtype)
    start = [sum(dims[:i]) for i in range(nv)]
    rows, rhs = [], []
    n = sum(dims)
    for j in range(nv + case.randint(0, 3)):
        i = j if j < nv else case.randint(0, nv - 1)
        w = case.rand(case.choice([1, B]), 1, lo=0.3, hi=2.0, dtype=dtype)
        t = case.randn(case.choice([1, B]), dims[i], dtype=dtype)
        tv = th.Vector(tensor=t, name=f"t{j}")
        wv = th.ScaleCostWeight(th.Variable(w, name=f"w{j}"))
        R = torch.zeros(B, dims[i], n, dtype=D64)
        other = [k for k in range(nv) if k != i and dims[k] == dims[i]]
        if j >= nv and other:
            k = case.choice(other)
            ob.add(th.Between(V[i], V[k], tv, wv))
            R[:, range(dims[i]), range(start[k], start[k] + dims[i])] = 1.0
            R[:, range(dims[i]), range(start[i], start[i] + dims[i])] = -1.0
        else:
            ob.add(th.Difference(V[i], tv, wv))
            R[:, range(dims[i]), range(start[i], start[i] + dims[i])] = 1.0
        rows.append(w.double().unsqueeze(2) * R)
        rhs.append((w * t).double().expand(B, -1))
    A, b = torch.cat(rows, 1), torch.cat(rhs, 1)
    cls = case.choice(SOLVERS)
    names = [v.name for v in V]
    case.sig(B, tuple(dims), cls.__name__, dtype, len(rows), case.seed)
    opt = LinearOptimizer(ob, linear_solver_cls=cls, vectorize=case.chance(0.5))
    if case.chance(0.5):
        layer = th.TheseusLayer(opt, vectorize=case.chance(0.5))
        vals, info = layer.forward({V[0].name: case.randn(B, dims[0], dtype=dtype)})
        case.check(set(vals) == set(names), "values returned by the layer")
    else:
        ob.update()
        info = opt.optimize()
        vals = {v.name: v.tensor for v in ob.optim_vars.values()}
    want = torch.linalg.lstsq(A, b.unsqueeze(2)).solution.squeeze(2)
    for i, v in enumerate(V):
        case.close(vals[v.name], want[:, start[i]:start[i] + dims[i]], 1e-10 if dtype == D64 else 3e-4,
                   "linear least-squares solution")
        case.close(info.best_solution[v.name], vals[v.name], 0.0, "best_solution")
    case.check(all(s == LinearOptimizerStatus.CONVERGED for s in info.status) and len(info.status) == B, "status")


SCENARIOS = {
    "solve": Scenario(sc_solve, quick=150, thorough=4000, floor=90),
    "singular": Scenario(sc_singular, quick=120, thorough=2000, floor=80),
    "linear-optimizer": Scenario(sc_linear_optimizer, quick=80, thorough=1500, floor=60),
}
