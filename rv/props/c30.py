"""C30: the native code behind the GPU and BaSpaCho solvers, run on the CPU under sanitizers."""
import os
import shutil
import subprocess
import sys

import torch

import theseus as th
from theseus.optimizer.linear import BaspachoSparseSolver, LUCudaSparseSolver

from .. import core, gen, optim
from ..core import D32, D64, Scenario, Skip
from ..native import load
from ..native.mats import csr, dense
from . import c09, c10, c11

ID = "C30"
RULE = ("a case is a random sequence of calls of the native modules (built from the sources in the tree, with every "
        "kernel thread executed on the CPU) or of the solvers that use them, its results checked against dense "
        "arithmetic and its memory accesses watched by AddressSanitizer, UBSan or ThreadSanitizer")
ASSUMPTIONS = ["the CUDA runtime, cuSOLVER and BaSpaCho themselves are replaced by stand-ins that follow their documentation",
               "tensors on the device are ordinary tensors"]


def before_run():
    if os.environ.get("RV_NATIVE"):
        return
    from ..native.build import build
    try:
        folder = build(os.environ.get("RV_REPO", "/repo"))
    except RuntimeError as e:
        print(e)
        print("INCONCLUSIVE: the native sources could not be built here")
        sys.exit(2)
    load.reexec(folder)


def after_run():
    d = os.path.dirname(load.LOG)
    if d and os.path.basename(d).startswith("log-"):
        shutil.rmtree(d, ignore_errors=True)


def summary(text):
    keep = [x.strip() for x in text.splitlines() if "ERROR: " in x or "runtime error" in x or " #0 " in x or " #1 " in x]
    return " | ".join(keep[:4])[:380]


def died(pid):
    return summary(load.reports(pid))


def watched(fn):
    def run(case):
        mods = load.modules()
        if set(mods) != {"mat_mult", "baspacho_solver", "cusolver_lu_solver"}:
            raise ImportError(f"native modules: {sorted(mods)}")
        before, k0 = load.reports(), load.counts()
        try:
            fn(case)
        finally:
            new = load.reports()[len(before):]
            k1 = load.counts()
            case.event("kernel launches", sum(b[0] - a[0] for a, b in zip(k0, k1)))
            case.event("kernel threads", sum(b[1] - a[1] for a, b in zip(k0, k1)))
        case.check(not new, "sanitizer report: " + summary(new), report=new[:1500])
        case.event("sanitizer silent")
    return run


# ------------------------------------------------------------------ matrices

def batch(case):
    return case.choice([1, 2, 3, 5, 16, 17, 33])


def awkward(case, t):
    """The same values, perhaps laid out otherwise: (tensor, contiguous?)."""
    k = case.choice(["plain", "plain", "plain", "transposed", "strided", "offset"])
    if k == "transposed" and t.dim() == 2:
        t = t.t().contiguous().t()
    elif k == "strided":
        t = torch.stack([t, torch.full_like(t, 7)], -1).flatten(-2)[..., ::2]
    elif k == "offset":
        t = torch.cat([torch.full_like(t[:1], 5), t])[1:]
    return t, t.is_contiguous()


def kernel(case, what, fn, ok):
    """Calls fn; with arguments in another layout it may refuse, but not be wrong."""
    if ok:
        return fn()
    try:
        x = fn()
    except RuntimeError:
        case.event("layout refused")
        return None
    case.event("layout accepted")
    return x


def sc_kernels(case):
    M = load.modules()["mat_mult"]
    m, n, B = case.randint(1, 9), case.randint(1, 7), batch(case)
    if case.chance(0.15):
        m = case.randint(20, 70)
    rp, ci, mask = csr(case, m, n)
    it = torch.int32
    val, c1 = awkward(case, case.randn(B, len(ci)))
    A = dense(val, rp, ci, n)
    case.describe(rows=m, cols=n, nnz=len(ci), B=B)
    case.sig(m, n, B, ci.tolist(), rp.tolist(), c1)
    tol = 1e-12 * (1 + m + n)
    for t in (torch.int32, torch.int64):
        v, c2 = awkward(case, case.randn(B, n))
        u, c3 = awkward(case, case.randn(B, m))
        x = kernel(case, "mat_vec", lambda: M.mat_vec(B, n, rp.to(t), ci.to(t), val, v), c1 and c2)
        if x is not None:
            case.close(x, (A @ v.unsqueeze(2)).squeeze(2), tol * 10, "mat_vec")
        x = kernel(case, "tmat_vec", lambda: M.tmat_vec(B, n, rp.to(t), ci.to(t), val, u), c1 and c3)
        if x is not None:
            case.close(x, (A.transpose(1, 2) @ u.unsqueeze(2)).squeeze(2), tol * 10, "tmat_vec")
    want = A.transpose(1, 2) @ A
    pat = (mask.double().t() @ mask.double()) > 0
    if case.chance(0.4):  # a larger pattern
        extra = case.rand(n, n) < 0.3
        pat = pat | extra | extra.t()
    if case.chance(0.8):
        pat = pat | torch.eye(n, dtype=torch.bool)
    cj = [torch.nonzero(pat[r]).flatten() for r in range(n)]
    rp2 = torch.tensor([0] + [len(c) for c in cj]).cumsum(0)
    ci2 = torch.cat(cj)
    P = kernel(case, "mult_MtM", lambda: M.mult_MtM(B, rp.to(it), ci.to(it), val, rp2.to(it), ci2.to(it)), c1)
    if P is None:
        return
    case.check(tuple(P.shape) == (B, len(ci2)), "shape of MtM")
    case.close(dense(P, rp2, ci2, n), want, tol * 30, "mult_MtM")
    case.event("products")
    al, c4 = awkward(case, case.rand(B))
    be, c5 = awkward(case, case.rand(B))
    if case.chance(0.2):
        al, c4 = al[:1].expand(B), B == 1
    before = P.clone()
    x = kernel(case, "apply_damping", lambda: M.apply_damping(B, n, rp2.to(it), ci2.to(it), P, al, be) or P, c4 and c5)
    if x is not None:
        D = dense(before, rp2, ci2, n)
        on = pat.diagonal().double()
        D = D + torch.diag_embed((al.view(-1, 1) * D.diagonal(dim1=1, dim2=2) + be.view(-1, 1)) * on)
        case.close(dense(P, rp2, ci2, n), D, tol * 30, "apply_damping")
        case.event("damped")
    if case.chance(0.3):  # wrong sizes are refused
        case.raises(RuntimeError, lambda: M.mat_vec(B + 1, n, rp.to(it), ci.to(it), val, case.randn(B + 1, n)), "mat_vec: batch")
        case.raises(RuntimeError, lambda: M.mat_vec(B, n, rp.to(it), ci.to(it), val.contiguous(), case.randn(B, n + case.choice([-1, 1]))), "mat_vec: columns")
        case.raises(RuntimeError, lambda: M.tmat_vec(B, n, rp.to(it), ci.to(it), val, case.randn(B, m + 1)), "tmat_vec: rows")
        case.raises(RuntimeError, lambda: M.mult_MtM(B, rp.to(it), ci.to(it), val[:, :-1].contiguous(), rp2.to(it), ci2.to(it)), "mult_MtM: entries")


def block_pattern(case, sizes, mask):
    """CSR of the blocks of M^T M for a mask by columns, as the solver would pass it."""
    start = [0]
    for s in sizes:
        start.append(start[-1] + s)
    col = torch.stack([mask[:, a:b].any(1) for a, b in zip(start, start[1:])], 1).double()
    P = (col.t() @ col) > 0
    rp, ci = [0], []
    for r in range(len(sizes)):
        ci += torch.nonzero(P[r]).flatten().tolist()
        rp.append(len(ci))
    return torch.tensor(rp), torch.tensor(ci), P


def sc_baspacho(case):
    S = load.modules()["baspacho_solver"].SymbolicDecomposition
    dev = case.choice(["cpu", "cuda"])
    sizes = [case.randint(1, 4) for _ in range(case.randint(1, 5))]
    n = sum(sizes)
    m = n + case.randint(0, 6)
    rp, ci, mask = csr(case, m, n)
    for j in range(n):  # a row of its own for every column
        mask[j] = False if case.chance(0.5) else mask[j]
        mask[j, j] = True
    rp, ci = [0], []
    for r in range(m):
        ci += torch.nonzero(mask[r]).flatten().tolist()
        rp.append(len(ci))
    rp, ci = torch.tensor(rp), torch.tensor(ci)
    brp, bci, P = block_pattern(case, sizes, mask)
    sym = S(torch.tensor(sizes), brp, bci, dev)
    case.describe(device=dev, sizes=sizes, rows=m)
    case.sig(dev, sizes, mask.tolist())
    live = []
    owner = torch.repeat_interleave(torch.arange(len(sizes)), torch.tensor(sizes))
    allowed = P[owner][:, owner]
    for _ in range(case.randint(1, 3)):
        B = batch(case)
        num = sym.create_numeric_decomposition(B)
        N = torch.zeros(B, n, n, dtype=D64)
        for _ in range(case.randint(1, 3)):
            if case.chance(0.6):
                val, ok = awkward(case, case.randn(B, len(ci)))
                if kernel(case, "add_MtM", lambda: num.add_MtM(val, rp, ci) or True, ok) is not None:
                    A = dense(val, rp, ci, n)
                    N = N + A.transpose(1, 2) @ A
                case.event("add_MtM")
            else:
                q = case.randn(B, n, n) * allowed
                q = q @ q.transpose(1, 2) * 0.2 if bool(allowed.all()) else torch.diag_embed(case.rand(B, n) + 0.1)
                rr, cc = [0], []
                for r in range(n):
                    cc += torch.nonzero(allowed[r]).flatten().tolist()
                    rr.append(len(cc))
                rr, cc = torch.tensor(rr), torch.tensor(cc)
                rows = torch.repeat_interleave(torch.arange(n), rr[1:] - rr[:-1])
                val, ok = awkward(case, q[:, rows, cc].contiguous())
                if kernel(case, "add_M", lambda: num.add_M(val, rr, cc) or True, ok) is not None:
                    N = N + q
                case.event("add_M")
        al, o1 = awkward(case, case.rand(B))
        be, o2 = awkward(case, case.rand(B) + 0.05)
        if case.chance(0.8):
            if kernel(case, "damp", lambda: num.damp(al, be) or True, o1 and o2) is not None:
                N = N + torch.diag_embed(al.view(-1, 1) * N.diagonal(dim1=1, dim2=2) + be.view(-1, 1))
                case.event("damp")
        if not float(torch.linalg.cond(N).max()) < 1e8:
            case.event("ill-conditioned")
            continue
        live.append((num, N, B))
    if case.chance(0.5):
        del sym  # the numeric decompositions keep what they need
    case.rng.shuffle(live)
    for num, N, B in live:
        num.factor()
    for num, N, B in live * case.randint(1, 2):
        x0 = case.randn(B, n)
        x, ok = awkward(case, x0.clone())
        if kernel(case, "solve", lambda: num.solve(x) or True, ok) is not None:
            c = float(torch.linalg.cond(N).max())
            w = torch.linalg.solve(N, x0)
            case.close(x, w, 1e-13 * c * (1 + float(w.abs().max())) + 1e-12, "solve")
            case.event("solve")
    if case.chance(0.3) and live:
        num, N, B = live[0]
        case.raises(RuntimeError, lambda: num.solve(case.randn(B, n + 1)), "solve: wrong size")
        case.raises(RuntimeError, lambda: num.solve(case.randn(B + 1, n)), "solve: wrong batch")
        case.raises(RuntimeError, lambda: num.damp(case.rand(B + 1), case.rand(B + 1)), "damp: wrong batch")
        case.raises(RuntimeError, lambda: num.add_MtM(case.randn(B + 1, len(ci)), rp, ci), "add_MtM: wrong batch")


def sc_lu(case):
    mod = load.modules()["cusolver_lu_solver"]
    n = case.randint(1, 8)
    mask = case.rand(n, n) < case.choice([0.2, 0.5, 1.1])
    mask = mask | mask.t() | torch.eye(n, dtype=torch.bool)
    cj = [torch.nonzero(mask[r]).flatten() for r in range(n)]
    rp = torch.tensor([0] + [len(c) for c in cj]).cumsum(0).to(torch.int32)
    ci = torch.cat(cj).to(torch.int32)
    rows = torch.repeat_interleave(torch.arange(n), torch.tensor([len(c) for c in cj]))
    B = batch(case)
    ctxs = []
    case.describe(n=n, B=B, nnz=len(ci))
    case.sig(n, B, mask.tolist())
    for _ in range(case.randint(1, 2)):
        o = case.choice(["AMD", "RCM", "MDQ", None])
        s = mod.CusolverLUSolver(B, n, rp, ci) if o is None else mod.CusolverLUSolver(B, n, rp, ci, getattr(mod.Ordering, o))
        case.check(s.batch_size == B and s.num_rows == n and s.num_cols == n and s.nnz == len(ci), "solver attributes")
        case.raises(RuntimeError, lambda: s.solve(case.randn(B, n)), "solve before factor")
        ctxs.append([s, None, s.factor_id])
    for _ in range(case.randint(2, 7)):
        c = case.choice(ctxs)
        s = c[0]
        if c[1] is None or case.chance(0.4):
            N = case.randn(B, n, n) * mask
            N = N + N.transpose(1, 2) + torch.eye(n, dtype=D64) * 2 * n
            val, ok = awkward(case, N[:, rows, ci.long()].contiguous())
            r = kernel(case, "factor", lambda: s.factor(val), ok)
            if r is None:
                c[1] = None
                c[2] = s.factor_id
                continue
            case.check(list(r) == [-1] * B, "singularity positions of regular matrices")
            case.check(s.factor_id != c[2], "factor_id after a new factorization")
            c[1], c[2] = N, s.factor_id
            case.event("factor")
        x0 = case.randn(B, n)
        x, ok = awkward(case, x0.clone())
        if kernel(case, "solve", lambda: s.solve(x) or True, ok) is not None:
            case.close(x, torch.linalg.solve(c[1], x0), 1e-10, "solve")
            case.event("solve")
        case.check(s.factor_id == c[2], "factor_id without a new factorization")
    if case.chance(0.5):
        s = ctxs[0][0]
        case.raises(RuntimeError, lambda: s.factor(case.randn(B + 1, len(ci))), "factor: wrong batch")
        case.raises(RuntimeError, lambda: s.factor(case.randn(B, len(ci) + 1)), "factor: wrong number of entries")
        if ctxs[0][1] is not None:
            case.raises(RuntimeError, lambda: s.solve(case.randn(B, n + 1)), "solve: wrong size")


# ------------------------------------------------------------------ solvers

def native_solver(case, objective, kind, dtype=D64, contexts=None, order=True):
    o, names = c09.ordering(case, objective) if order else (None, list(objective.optim_vars))
    lk = {"ordering": o} if o else None
    if kind == "lu":
        kw = {}
        if contexts:
            kw["num_solver_contexts"] = contexts
        if case.chance(0.5):
            kw["batch_size"] = case.choice([objective.batch_size, 2])
        s = LUCudaSparseSolver(objective, linearization_kwargs=lk, **kw)
    else:
        s = BaspachoSparseSolver(objective, linearization_kwargs=lk)
        if kind == "baspacho-cuda":
            s.reset(device="cuda")
    return s, names


def damping(case, B, dtype):
    kind = case.choice(["none", "float", "t0", "t1", "tB", "expanded", "strided"])
    lam = case.logu(1e-3, 1e2)
    if kind == "none":
        return {}, None, False, 0.0, kind
    if kind in ("tB", "strided"):
        some = case.choice([0.0, 0.3])  # elements without damping, next to damped ones
        per = torch.tensor([0.0 if case.chance(some) else case.logu(1e-3, 1e2) for _ in range(B)], dtype=D64)
        val = per.to(dtype) if kind == "tB" else torch.stack([per, -per], 1).to(dtype)[:, 0]
    else:
        per = torch.full((B,), lam, dtype=D64)
        val = {"float": lam, "t0": torch.tensor(lam, dtype=dtype), "t1": torch.tensor([lam], dtype=dtype),
               "expanded": torch.tensor([lam], dtype=dtype).expand(B)}[kind]
    ell = case.chance(0.5)
    out = {"damping": val, "ellipsoidal_damping": ell}
    eps = 1e-8
    if ell and case.chance(0.6):
        eps = case.logu(1e-6, 1e-1)
        out["damping_eps"] = eps
    return out, per, ell, eps if ell else 0.0, kind


KINDS = ("baspacho", "baspacho", "baspacho-cuda", "lu", "lu")


def sc_solve(case):
    dtype = D32 if case.chance(0.25) else D64
    spec, a, p = c10.objective(case, dtype)
    kind = case.choice(KINDS)
    case.describe(costs=[c.kind for c in spec.costs], B=spec.B, dtype=str(dtype), solver=kind)
    case.sig(spec.signature(), dtype, kind)
    with load.world():
        s, names = native_solver(case, a, kind, dtype, contexts=case.choice([None, 2, 3]))
        for rnd in range(case.randint(1, 4)):
            if rnd:
                c09.change(case, spec, [a, p], dtype)
            with torch.set_grad_enabled(case.chance(0.5)):
                s.linearization.linearize()
                A, b = c09.assemble(p, names)
                for _ in range(2):
                    dk, per, ell, eps, dkind = damping(case, a.batch_size, dtype)
                    N, g = c10.normal(A, b, per, ell, eps)
                    if not float(torch.linalg.cond(N).max()) < (1e10 if dtype == D64 else 1e5):
                        case.event("singular-skip")
                        continue
                    x = s.solve(**dk)
                    case.event(f"{kind}:{dkind}:{'ell' if ell else 'sph'}")
                    c10.check_solution(case, x, N, g, dtype, f"{kind}[{dkind}]")


def upstream(case, x):
    """(loss of x, same loss as a function): gradients that arrive in various layouts."""
    w = case.randn(*x.shape)
    k = case.choice(["dense", "transposed", "sum", "column", "flip", "reverse"])
    B, n = x.shape
    j = case.randint(0, n - 1)
    f = {"dense": lambda z: (z * w.to(z)).sum(),
         "transposed": lambda z: (z.t() * w.t().contiguous().to(z)).sum(),
         "sum": lambda z: z.sum(),
         "column": lambda z: (z[:, j] ** 2).sum() + z.sum(1).square().sum(),
         "flip": lambda z: (z.flip(1).t() * w.t().contiguous().to(z)).sum(),
         "reverse": lambda z: (z.transpose(0, 1).contiguous() * w.t().contiguous().to(z)).sum()}[k]
    return f, k


def sc_grad(case):
    dtype = D32 if case.chance(0.2) else D64
    spec = gen.make_spec(case, all_costs_batched=case.chance(0.7), prior=True, zero_p=0.0, n_costs=case.randint(1, 4),
                         kinds=("diff", "between", "vec", "product", "adgroup", "dint", "gp"), max_vars=2)
    if case.chance(0.25):
        c09.add_repeated(case, spec)
    names = [n for n in spec.vars if spec.vars[n].kind not in ("SO2", "SE2", "SO3", "SE3")]
    names = [n for n in names if case.chance(0.8)] or names[:1]
    if not names:
        raise Skip()
    a, p = gen.build(spec, dtype).objective, gen.build(spec, D64).objective
    if case.chance(0.5):
        th.Vectorize(a)
    a.update()
    p.update()
    kind = case.choice(KINDS)
    contexts = case.choice([1, 2, 3])
    rounds = case.randint(1, 3)
    detach = case.chance(0.3)
    case.describe(costs=[c.kind for c in spec.costs], solver=kind, B=spec.B, dtype=str(dtype), detach=detach)
    case.sig(spec.signature(), kind, contexts, rounds, detach, dtype, tuple(names))
    with load.world():
        s, order = native_solver(case, a, kind, dtype, contexts=contexts)
        jobs = []
        for _ in range(rounds):
            lv = []
            for n in names:
                t = gen.draw_value(case, spec.vars[n], spec.vars[n].value.shape[0])
                lv.append((t.to(dtype, copy=True).requires_grad_(), t.clone().requires_grad_()))
            a.update({n: x[0] for n, x in zip(names, lv)})
            p.update({n: x[1] for n, x in zip(names, lv)})
            s.linearization.linearize(**({"_detach_hessian": True} if detach else {}))
            dk, per, ell, eps, dkind = damping(case, a.batch_size, dtype)
            if detach:
                dk, per, ell, eps, dkind = {}, None, False, 0.0, "detached"
            A, b = c11.assemble_grad(p, order)
            N, _ = c10.normal(A, b, per, ell, eps)
            g = (A.transpose(1, 2) @ b.unsqueeze(2)).squeeze(2)
            if float(torch.linalg.cond(N.detach()).max()) > (1e6 if dtype == D64 else 50):
                raise Skip()
            if detach:
                N = N.detach()
            x, y = s.solve(**dk), torch.linalg.solve(N, g)
            case.close(x, y, 1e-9 if dtype == D64 else 1e-3, "solution", rtol=1e-9 if dtype == D64 else 1e-3)
            f, up = upstream(case, y)
            jobs.append((f(x), f(y), lv, dkind, up))
        todo = list(range(rounds))
        case.rng.shuffle(todo)
        tol = 1e-7 if dtype == D64 else 2e-2
        for i in todo * (2 if case.chance(0.3) else 1):
            out, ref, lv, dkind, up = jobs[i]
            if not out.requires_grad:
                continue
            L1, L2 = [q[0] for q in lv], [q[1] for q in lv]
            stale = kind == "lu" and rounds - 1 - i >= contexts
            if stale:
                used = any(z is not None for z in torch.autograd.grad(ref, L2, allow_unused=True, retain_graph=True))
                if used:
                    case.raises(RuntimeError, lambda: torch.autograd.grad(out, L1, allow_unused=True, retain_graph=True),
                                "gradient of a solve whose factorization was overwritten")
                    case.event("stale context refused")
                continue
            got = torch.autograd.grad(out, L1, allow_unused=True, retain_graph=True)
            want = torch.autograd.grad(ref, L2, allow_unused=True, retain_graph=True)
            for n, u, v in zip(names, got, want):
                if u is None and v is None:
                    continue
                u = torch.zeros_like(v).to(dtype) if u is None else u
                v = torch.zeros_like(u).double() if v is None else v
                case.check(u.dtype == dtype, "dtype of the gradient")
                case.close(u, v, tol * (1 + float(v.abs().max())), f"gradient[{n}]: {kind} {dkind} upstream {up}")
            case.event(f"backward:{kind}:{up}")


def sc_again(case):
    spec = gen.make_spec(case, all_costs_batched=case.chance(0.7), prior=True, zero_p=0.0, n_costs=case.randint(1, 3),
                         kinds=("diff", "between", "vec", "product", "dint", "gp"), max_vars=2)
    names = [n for n in spec.vars if spec.vars[n].kind not in ("SO2", "SE2", "SO3", "SE3")]
    if not names:
        raise Skip()
    a, p = gen.build(spec, D64).objective, gen.build(spec, D64).objective
    a.update()
    p.update()
    kind, detach = case.choice(KINDS), case.chance(0.3)
    with load.world():
        s, order = native_solver(case, a, kind, D64, contexts=2)
        pairs = []
        for n in names:
            t = gen.draw_value(case, spec.vars[n], spec.vars[n].value.shape[0])
            pairs.append((t.clone().requires_grad_(), t.clone().requires_grad_()))
        a.update({n: q[0] for n, q in zip(names, pairs)})
        p.update({n: q[1] for n, q in zip(names, pairs)})
        s.linearization.linearize(**({"_detach_hessian": True} if detach else {}))
        A, b = c11.assemble_grad(p, order)
        N = A.transpose(1, 2) @ A
        if float(torch.linalg.cond(N.detach()).max()) > 1e4:
            raise Skip()
        g = (A.transpose(1, 2) @ b.unsqueeze(2)).squeeze(2)
        case.describe(costs=[c.kind for c in spec.costs], solver=kind, B=spec.B, detach=detach)
        case.sig(spec.signature(), kind, detach, tuple(names))
        c11.again(case, s.solve, lambda: torch.linalg.solve(N.detach() if detach else N, g), pairs, 1.0, kind)


def sc_layer(case):
    spec = optim.smooth_spec(case)
    kind = case.choice(KINDS)
    lm = case.chance(0.5)
    iters = case.randint(1, 4)
    mode = case.choice(["unroll", "implicit", "truncated", "none"])
    kw = {"damping": case.logu(1e-3, 1.0)} if lm else {}
    if lm and case.chance(0.5):
        kw["ellipsoidal_damping"] = True
    okw = dict(kw)
    if mode != "none":
        okw["backward_mode"] = mode
    if mode == "truncated":
        okw["backward_num_iterations"] = case.randint(1, iters)
    step = case.choice([1.0, 0.7])
    contexts = case.choice([1, iters, iters + 2])
    leafs = [n for n in spec.vars if spec.vars[n].kind != "raw"][:3]
    case.describe(costs=[c.kind for c in spec.costs], solver=kind, mode=mode, iters=iters, lm=lm, contexts=contexts)
    case.sig(spec.signature(), kind, mode, iters, lm, contexts)
    res = []
    for native in (False, True):
        b = optim.build(spec)
        b.objective.update()
        leaves = {n: optim.leaf_for(spec, b, n) for n in leafs} if mode != "none" else {}
        cls = th.LevenbergMarquardt if lm else th.GaussNewton
        common = dict(max_iterations=iters, step_size=step, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
        with load.world():
            if native:
                S = LUCudaSparseSolver if kind == "lu" else BaspachoSparseSolver
                sk = {"num_solver_contexts": contexts} if kind == "lu" else {}
                opt = cls(b.objective, linear_solver_cls=S, linear_solver_kwargs=sk, **common)
                if kind == "baspacho-cuda":
                    opt.linear_solver.reset(device="cuda")
            else:
                opt = cls(b.objective, linear_solver_cls=th.CholeskyDenseSolver, **common)
            layer = th.TheseusLayer(opt)
            inp = {n: optim.perturb(spec, b, n, t) for n, t in leaves.items()}
            states = []

            def cb(o, info, delta, it):
                states.append({n: v.tensor.detach().clone() for n, v in o.objective.optim_vars.items()})
            with torch.set_grad_enabled(mode != "none"):
                sol, info = layer.forward(inp or None, optimizer_kwargs=dict(okw, end_iter_callback=cb))
            err = None
            if mode != "none":
                out = sum((t * wt(case, t)).sum() for t in (sol[n] for n in sorted(b.objective.optim_vars)))
                try:
                    g = torch.autograd.grad(out, list(leaves.values()), allow_unused=True)
                    g = [torch.zeros_like(t) if q is None else q for q, t in zip(g, leaves.values())]
                except RuntimeError as e:
                    g, err = None, str(e)
            else:
                g = None
        res.append((states, {n: t.detach() for n, t in sol.items()}, g, err, info))
    (s0, z0, g0, _, i0), (s1, z1, g1, err, i1) = res
    A = i0.last_err
    if not bool(torch.isfinite(A).all()) or float(A.max()) > 1e8:
        raise Skip()
    if len(s0) != len(s1):
        case.check(abs(len(s0) - len(s1)) <= 1 and float(A.min()) < 1e-10, "number of iterations")
        raise Skip()
    tol = 1e-6
    for k, (u, v) in enumerate(zip(s0, s1)):
        for n in u:
            case.close(v[n], u[n], tol * (1 + float(u[n].abs().max())), f"state: {n} after iteration {k}")
    for n in z0:
        case.close(z1[n], z0[n], tol * (1 + float(z0[n].abs().max())), f"solution: {n}")
    case.event(f"layer:{kind}:{mode}")
    if g0 is None:
        return
    if err is not None:
        need = {"unroll": iters, "truncated": okw.get("backward_num_iterations", 0), "implicit": 1}[mode]
        case.check(kind == "lu" and contexts < need, f"backward raised: {err}")
        case.event("stale context refused")
        return
    for n, u, v in zip(leafs, g0, g1):
        m = float(u.abs().max()) if u.numel() else 0.0
        if m > 1e5:
            continue
        case.close(v, u, 1e-5 * (1 + m), f"gradient: {n} ({mode})")
    case.event("gradients")


def wt(case, t):
    """Fixed pseudo-random weights of t's shape."""
    return torch.sin(torch.arange(t.numel(), dtype=D64) * 1.7 + 0.3).view(t.shape)


def sc_race(case):
    """The kernels on several threads under ThreadSanitizer, in a process of their own."""
    env = load.environment(load.FOLDER, "tsan")
    env["RV_EMUL_THREADS"] = str(case.randint(3, 6))
    log = env["RV_NATIVE_LOG"] = env["RV_NATIVE_LOG"] + f".race{case.seed}-"
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS"):
        env.pop(k)
    env["TSAN_OPTIONS"] = f"halt_on_error=0:log_path={log}:exitcode=0:report_signal_unsafe=0"
    r = subprocess.run([sys.executable, "-m", "rv.native.race", str(case.seed)], env=env, capture_output=True, text=True, timeout=240)
    import glob
    txt = "".join(open(f, errors="replace").read() for f in glob.glob(log + "*"))
    last = r.stdout.strip().splitlines()[-1:] or [""]
    if r.returncode == 2:
        raise OSError("race harness: " + r.stderr[-500:])
    case.check(r.returncode == 0, "results of concurrent threads: " + (r.stdout + r.stderr)[-300:])
    mine = "mat_mult" in txt or "baspacho" in txt
    lines = [x.strip() for x in txt.splitlines() if "WARNING" in x or " #0 " in x]
    case.check(not mine, "ThreadSanitizer report: " + " | ".join(lines[:4])[:380], report=txt[:1500])
    for w in last[0].split():
        k, v = w.split("=")
        case.event(k, int(v))
    case.sig(case.seed)


SCENARIOS = {
    "kernels": Scenario(watched(sc_kernels), 150, 1500, 300),
    "baspacho": Scenario(watched(sc_baspacho), 120, 1200, 100),
    "lu": Scenario(watched(sc_lu), 100, 1000, 200),
    "solve": Scenario(watched(sc_solve), 120, 1200, 200),
    "grad": Scenario(watched(sc_grad), 120, 1200, 100),
    "again": Scenario(watched(sc_again), 60, 600, 20),
    "layer": Scenario(watched(sc_layer), 60, 600, 100),
    "race": Scenario(sc_race, 3, 12, 3),
}
