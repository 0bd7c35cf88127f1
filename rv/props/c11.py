"""C11: derivatives of linear solves and sparse products equal the true derivatives."""
import torch

import theseus as th
from theseus.utils.sparse_matrix_utils import mat_vec, sparse_mtv, sparse_mv, tmat_vec

from .. import gen
from ..core import D32, D64, Scenario, Skip
from . import c09, c10

QUICK = 3  # so many times each scenario's quick cases
ID = "C11"
RULE = ("a case is a chain of solves (or sparse products) at different values of one problem, whose "
        "gradients with respect to every tensor are taken afterwards and compared with automatic "
        "differentiation of an explicit dense solution of the same normal equations")
ASSUMPTIONS = ["damping is a constant", "elements with condition number above 1e6 are skipped"]


def assemble_grad(p, names):
    """c09.assemble, keeping the graph."""
    V = p.optim_vars
    start, n = {}, 0
    for k in names:
        start[k] = n
        n += V[k].dof()
    B = p.batch_size
    rows, rhs = [], []
    for c in p.cost_functions.values():
        J, e = c.weighted_jacobians_error()
        d = c.dim()
        R = torch.zeros(B, d, n, dtype=e.dtype)
        for v, j in zip(c.optim_vars, J):
            s = start[v.name]
            pad = torch.zeros(B, d, n - s - v.dof(), dtype=e.dtype)
            R = R + torch.cat([torch.zeros(B, d, s, dtype=e.dtype), j.expand(B, -1, -1), pad], 2)
        rows.append(R)
        rhs.append(-e.expand(B, -1))
    return torch.cat(rows, 1), torch.cat(rhs, 1)


def sc_solve(case):
    dtype = D32 if case.chance(0.2) else D64
    spec = gen.make_spec(case, all_costs_batched=case.chance(0.7), prior=True, zero_p=0.0, n_costs=case.randint(1, 4),
                         kinds=("diff", "between", "vec", "product", "adgroup", "dint", "gp"), max_vars=2)
    if case.chance(0.25):
        c09.add_repeated(case, spec)
    names = [n for n in spec.vars if case.chance(0.7)] or list(spec.vars)[:1]
    vec = case.chance(0.5)
    built = [gen.build(spec, dtype), gen.build(spec, D64)]
    a, p = built[0].objective, built[1].objective
    if vec:
        th.Vectorize(a)
    cls = case.choice([th.CholmodSparseSolver, th.CholmodSparseSolver, th.CholmodSparseSolver,
                       th.CholeskyDenseSolver, th.LUDenseSolver])
    dense = cls is not th.CholmodSparseSolver
    o, order = c09.ordering(case, a)
    s = cls(a, linearization_kwargs={"ordering": o} if o else None)
    detach = case.chance(0.3)
    leaves, outs, refs = [], [], []
    case.describe(costs=[c.kind for c in spec.costs], solver=cls.__name__, vec=vec, B=spec.B, dtype=str(dtype))
    case.sig(spec.signature(), cls.__name__, vec, dtype, tuple(names), order)
    for rnd in range(case.randint(1, 3)):
        lv = []
        for n in names:
            v = spec.vars[n]
            t = gen.draw_value(case, v, v.value.shape[0])
            # the float64 twin keeps exact group elements
            lv.append((t.to(dtype, copy=True).requires_grad_(), t.clone().requires_grad_()))
        a.update({n: x[0] for n, x in zip(names, lv)})
        p.update({n: x[1] for n, x in zip(names, lv)})
        if detach:
            s.linearization.linearize(_detach_hessian=True)
        else:
            s.linearization.linearize()
        dk, per, ell, eps, kind = c10.damping_of(case, a.batch_size, dtype, dense)
        if detach:
            dk, per, ell, eps = {}, None, False, 0.0
        A, b = assemble_grad(p, order)
        N, _ = c10.normal(A, b, per, ell, eps)
        g = (A.transpose(1, 2) @ b.unsqueeze(2)).squeeze(2)
        if float(torch.linalg.cond(N.detach()).max()) > (1e6 if dtype == D64 else 50):
            raise Skip()
        if detach:
            N = N.detach()
        x = s.solve(**dk)
        y = torch.linalg.solve(N, g)
        case.close(x, y, 1e-9 if dtype == D64 else 1e-3, "solution", rtol=1e-9 if dtype == D64 else 1e-3)
        w = case.randn(*x.shape)
        if case.chance(0.5):
            outs.append((x * w.to(dtype)).sum())
        else:  # the gradient arrives in another memory layout
            outs.append((x.t() * w.t().contiguous().to(dtype)).sum())
        refs.append((y * w).sum())
        leaves.append(lv)
        case.event(f"solve:{cls.__name__}:{'detached' if detach else kind}")
    L1 = [x[0] for lv in leaves for x in lv]
    L2 = [x[1] for lv in leaves for x in lv]
    order_b = list(range(len(outs)))
    case.rng.shuffle(order_b)
    got = [torch.zeros_like(x) for x in L1]
    if case.chance(0.5):  # backward one by one, in another order
        for i in order_b:
            gs = torch.autograd.grad(outs[i], L1, allow_unused=True, retain_graph=True)
            got = [k if q is None else k + q for k, q in zip(got, gs)]
        if case.chance(0.5):  # and again: backward must not consume the solver's state
            i = order_b[0]
            g1 = torch.autograd.grad(outs[i], L1, allow_unused=True, retain_graph=True)
            g2 = torch.autograd.grad(outs[i], L1, allow_unused=True)
            for u, v in zip(g1, g2):
                case.check((u is None) == (v is None), "gradient presence")
                if u is not None:
                    case.same(u, v, "repeated backward")
    else:
        gs = torch.autograd.grad(sum(outs), L1, allow_unused=True)
        got = [k if q is None else q for k, q in zip(got, gs)]
    want = torch.autograd.grad(sum(refs), L2, allow_unused=True)
    tol = 1e-7 if dtype == D64 else 2e-2
    for i, (u, v) in enumerate(zip(got, want)):
        v = torch.zeros_like(u).double() if v is None else v
        case.check(u.dtype == dtype, "dtype of the gradient")
        nm = names[i % len(names)]
        if spec.vars[nm].kind in ("SO2", "SE2", "SO3", "SE3"):
            # tangential part: the normal one is a matter of the extension off the group
            G, t = spec.vars[nm].G, L2[i].detach()
            E = torch.eye(G.dof, dtype=D64)
            h = 1e-6
            for k in range(G.dof):
                dt = (G.retract(t, h * E[k:k + 1]) - G.retract(t, -h * E[k:k + 1])) / (2 * h)
                du, dv = (u.double() * dt).flatten(1).sum(1), (v * dt).flatten(1).sum(1)
                case.close(du, dv, tol * (1 + float(dv.abs().max())) + (1e-6 if dtype == D64 else 0), f"gradient[{nm}]")
        else:
            case.close(u, v, tol * (1 + float(v.abs().max())), f"gradient[{nm}]")
    case.event("gradients", len(got))


def sc_spmv(case):
    B, m, n = case.randint(1, 4), case.randint(1, 7), case.randint(1, 7)
    dense_p = case.rng.random()
    mask = case.rand(m, n) < dense_p
    if not bool(mask.any()):
        mask[case.randint(0, m - 1), case.randint(0, n - 1)] = True
    rows = [torch.nonzero(mask[r]).flatten().tolist() for r in range(m)]
    if case.chance(0.4):
        for r in rows:
            case.rng.shuffle(r)  # columns of a row need not be sorted
    it = case.choice([torch.int32, torch.int64])
    ptr = torch.tensor([0] + [sum(len(r) for r in rows[:i + 1]) for i in range(m)], dtype=it)
    col = torch.tensor([c for r in rows for c in r], dtype=it)
    ri = torch.tensor([i for i, r in enumerate(rows) for _ in r])
    val = case.randn(B, len(col)).requires_grad_()
    tr = case.chance(0.5)
    v = case.randn(B, m if tr else n).requires_grad_()
    case.sig(B, m, n, tuple(map(tuple, rows)), tr, it)
    A = torch.zeros(B, m, n, dtype=D64).index_put((torch.arange(B).view(-1, 1), ri.view(1, -1), col.long().view(1, -1)), val)
    want = ((A.transpose(1, 2) if tr else A) @ v.unsqueeze(2)).squeeze(2)
    fn = sparse_mtv if tr else sparse_mv
    got = fn(n, ptr, col, val, v)
    what = "sparse_mtv" if tr else "sparse_mv"
    case.close(got, want, 1e-12, what)
    raw = (tmat_vec if tr else mat_vec)(B, n, ptr, col, val.detach(), v.detach())
    case.close(raw, want, 1e-12, what + " without gradients")
    w = case.randn(*want.shape)
    sub = case.choice([(val, v), (val,), (v,)])
    g1 = torch.autograd.grad((got * w).sum(), sub)
    g2 = torch.autograd.grad((want * w).sum(), sub)
    for x, y in zip(g1, g2):
        case.close(x, y, 1e-12, what + " gradient")
    case.event(what)


def again(case, solve, ref, pairs, scale, what):
    """Solutions changed in place, and second derivatives: the true ones, or an error.

    `pairs` are the leaves of the solver's problem and their twins in the reference's.
    """
    L1, L2 = [q[0] for q in pairs], [q[1] for q in pairs]
    x, y = solve(), ref()
    w, c = case.randn(*y.shape), case.randn(*y.shape)
    power = case.choice([1, 2])
    mode = case.choice(["changed in place", "second derivative"])

    def second(out, leaves, like):
        gs = torch.autograd.grad(out, leaves, create_graph=True, allow_unused=True)
        s = sum((g * r.to(g.dtype)).sum() for g, r in zip(gs, like) if g is not None)
        if not (torch.is_tensor(s) and s.requires_grad):
            return [None] * len(leaves)
        return torch.autograd.grad(s, leaves, allow_unused=True)

    if mode == "changed in place":
        # without and with autograd's knowledge
        untracked = case.chance(0.3)

        def mine():
            z = x
            if untracked:
                out = (z ** power * w.to(z.dtype)).sum() if power == 1 else (z * w.to(z.dtype)).sum()
                with torch.no_grad():
                    z.mul_(0.3)
                return torch.autograd.grad(out, L1, allow_unused=True)
            z.mul_(w.to(z.dtype)).add_(c.to(z.dtype))
            return torch.autograd.grad((z ** power).sum(), L1, allow_unused=True)
        want = torch.autograd.grad((y * w).sum() if untracked else ((y * w + c) ** power).sum(), L2, allow_unused=True)
    else:
        like = [case.randn(*t.shape) for t in L2]

        def mine():
            return second((x ** power * w.to(x.dtype)).sum(), L1, like)
        want = second((y ** power * w).sum(), L2, like)
    try:
        got = mine()
    except RuntimeError:
        case.event(f"{mode}: refused")
        return
    for u, v in zip(got, want):
        if u is None and v is None:
            continue
        v = torch.zeros_like(u).double() if v is None else v
        u = torch.zeros_like(v) if u is None else u
        case.close(u, v, 1e-6 * scale * (1 + float(v.abs().max())), f"{what}: gradient, {mode}",
                   key=None if mode == "changed in place" else f"second-derivative/{what}")
    case.event(mode)


def sc_again(case):
    spec = gen.make_spec(case, all_costs_batched=case.chance(0.7), prior=True, zero_p=0.0, n_costs=case.randint(1, 3),
                         kinds=("diff", "between", "vec", "product", "adgroup", "dint", "gp"), max_vars=2)
    names = [n for n in spec.vars if spec.vars[n].kind not in ("SO2", "SE2", "SO3", "SE3")]
    if not names:
        raise Skip()
    a, p = gen.build(spec, D64).objective, gen.build(spec, D64).objective
    if case.chance(0.5):
        th.Vectorize(a)
    a.update()
    p.update()
    cls = case.choice([th.CholmodSparseSolver, th.CholmodSparseSolver, th.CholeskyDenseSolver, th.LUDenseSolver])
    o, order = c09.ordering(case, a)
    s = cls(a, linearization_kwargs={"ordering": o} if o else None)
    pairs = []
    for n in names:
        t = gen.draw_value(case, spec.vars[n], spec.vars[n].value.shape[0])
        pairs.append((t.clone().requires_grad_(), t.clone().requires_grad_()))
    a.update({n: q[0] for n, q in zip(names, pairs)})
    p.update({n: q[1] for n, q in zip(names, pairs)})
    detach = case.chance(0.3)
    s.linearization.linearize(**({"_detach_hessian": True} if detach else {}))
    A, b = assemble_grad(p, order)
    N = A.transpose(1, 2) @ A
    if float(torch.linalg.cond(N.detach()).max()) > 1e4:
        raise Skip()
    g = (A.transpose(1, 2) @ b.unsqueeze(2)).squeeze(2)
    case.describe(costs=[c.kind for c in spec.costs], solver=cls.__name__, B=spec.B, detach=detach)
    case.sig(spec.signature(), cls.__name__, detach, tuple(names))
    again(case, s.solve, lambda: torch.linalg.solve(N.detach() if detach else N, g), pairs, 1.0, cls.__name__)


SCENARIOS = {
    "again": Scenario(sc_again, quick=80, thorough=2000, floor=40),
    "solve": Scenario(sc_solve, quick=160, thorough=4000, floor=90),
    "spmv": Scenario(sc_spmv, quick=150, thorough=2500, floor=120),
}
