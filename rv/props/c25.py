"""C25: the cross-entropy optimizer (DCEM) and its soft top-k projection (LML)."""
import contextlib
import io
import math
import warnings

import torch

import theseus as th
from theseus.optimizer.nonlinear import NonlinearOptimizerStatus as S
from theseus.third_party.lml import LML

from ..core import D32, D64, Scenario, Skip

QUICK = 3  # so many times each scenario's quick cases
ID = "C25"
RULE = ("a case is a random input of the soft top-k layer, or a run of DCEM on a random batch of problems whose "
        "error queries are recorded; every new mean is recomputed from the recorded samples, the samples are compared "
        "with the distribution they should come from, and the record, the gradient and repeatability are checked")
ASSUMPTIONS = ["error evaluations are decided by C02",
               "normality of the samples is judged on their first four moments at 6 standard errors"]


def lml_ref(x, N):
    """Values of the layer, by bisection in float64."""
    lo = -x.max(dim=-1, keepdim=True).values - 50.0
    hi = -x.min(dim=-1, keepdim=True).values + 50.0
    for _ in range(200):
        mid = (lo + hi) / 2
        f = torch.sigmoid(x + mid).sum(-1, keepdim=True) - N
        lo, hi = torch.where(f < 0, mid, lo), torch.where(f < 0, hi, mid)
    return torch.sigmoid(x + (lo + hi) / 2)


def quiet(fn):
    """The layer prints when it can't reach the accuracy asked for."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fn()
    return r, out.getvalue()


def sc_lml(case):
    dtype = D64 if case.chance(0.7) else D32
    nx = case.randint(2, 60)
    N = case.randint(1, max(1, nx - 1)) if case.chance(0.9) else nx + case.randint(0, 2)
    B = case.randint(1, 5)
    scale = case.logu(1e-3, 30.0)
    x = case.randn(B, nx) * scale + case.randn(B, 1) * case.choice([0.0, 1.0, 10.0])
    if case.chance(0.2):  # ties
        x = (x / scale).round() * scale
    x = x.to(dtype)
    eps = case.choice([1e-3, 1e-4, 1e-8]) if dtype == D64 else case.choice([1e-3, 1e-4])
    n_iter = 100
    single = B == 1 and case.chance(0.5)
    xin = (x[0] if single else x).clone().requires_grad_()
    kw = {} if case.chance(0.8) else {"branch": case.randint(3, 40)}
    layer = LML(N=N, eps=eps, n_iter=n_iter, **kw)
    y, said = quiet(lambda: layer(xin))
    case.describe(B=B, nx=nx, N=N, eps=eps, scale=scale, single=single, dtype=str(dtype))
    case.sig(B, nx, N, eps, single, dtype)
    case.check(y.shape == xin.shape and y.dtype == dtype, "soft top-k: shape or dtype of the output")
    yd = y.detach().double().view(B, nx)
    g = case.randn(B, nx).to(dtype)
    dx = torch.autograd.grad((y * (g[0] if single else g)).sum(), xin)[0].double().view(B, nx)
    if nx <= N:
        case.close(yd, torch.ones_like(yd), 2e-5, "soft top-k of at most N values keeps all")
        case.check(not dx.any(), "soft top-k of at most N values has no gradient")
        return
    xd = x.double()
    want = lml_ref(xd, N)
    r = 1e-13 if dtype == D64 else 4e-6
    # an error of eps in the threshold changes y by at most y(1-y) eps
    tol = eps + r * (1 + xd.abs().max().item())
    case.check(not said, "soft top-k: warned", info=said)
    case.close(yd, want, 0.26 * tol + r, "soft top-k: values")
    case.close(yd.sum(1), torch.full((B,), float(N), dtype=D64), (want * (1 - want)).sum(1).max().item() * 1.1 * tol + nx * r,
               "soft top-k: sum of the weights")
    order = xd.argsort(dim=1, descending=True)
    case.check((yd.gather(1, order).diff(dim=1) <= r).all(), "soft top-k: larger values get larger weights")
    h = yd * (1 - yd)
    # the derivative the layer stands for, at its own output (y(1-y) loses digits where y is nearly 1)
    gd = g.double()
    grad = h * (gd - (h * gd).sum(1, keepdim=True) / h.sum(1, keepdim=True))
    ok = h.sum(1) > (1e-6 if dtype == D64 else 1e-2)
    case.close(dx[ok], grad[ok], (1e-8 if dtype == D64 else 1e-4) * (1 + gd.abs().max().item()), "soft top-k: gradient")
    if dtype == D64 and eps <= 1e-8 and scale > 0.05:
        d = case.randn(B, nx)
        t = 1e-5
        fd = ((lml_ref(xd + t * d, N) - lml_ref(xd - t * d, N)) / (2 * t) * gd).sum(1)
        case.close((dx * d).sum(1), fd, 1e-5 * (1 + scale), "soft top-k: gradient against finite differences", rtol=1e-4)
    # permuting the input permutes the output
    p = torch.randperm(nx, generator=case.gen)
    z, _ = quiet(lambda: layer(xin.detach()[..., p]))
    case.close(z.double().view(B, nx), yd[:, p], 0.6 * tol + r, "soft top-k: depends on the order of the values")
    case.event("lml")


class Problem:
    """Random per-element objectives, evaluated here without the optimizer's code."""

    def __init__(self, case, kind=None, B=None):
        self.B = B or case.randint(1, 4)
        self.kind = kind or case.choice(["quad", "quad", "bent", "flat"])
        self.dofs = [case.randint(1, 3) for _ in range(case.randint(1, 3))]
        self.n = sum(self.dofs)
        self.rows = self.n + case.randint(0, 2)
        self.aux_batch = case.choice([1, self.B])
        self.A = case.randn(self.aux_batch, self.rows, self.n)
        if self.kind == "quad":  # well conditioned
            self.A = torch.eye(self.rows, self.n, dtype=D64).expand(self.aux_batch, -1, -1) * case.rng.uniform(0.7, 1.5) + 0.15 * self.A
        self.t = case.randn(self.aux_batch, self.n)
        self.x0 = case.randn(self.B, self.n)
        self.names = [f"x{i}" for i in range(len(self.dofs))]
        case.rng.shuffle(self.names)

    def residual(self, x, A, t):
        d = torch.einsum("bij,bj->bi", A.expand(x.shape[0], -1, -1), x - t)
        if self.kind == "bent":
            d = d + 0.3 * torch.sin(2 * d)
        elif self.kind == "flat":
            d = torch.tanh(d)
        return d

    def error(self, x, A=None, t=None):
        A, t = self.A if A is None else A, self.t if t is None else t
        return (self.residual(x, A, t) ** 2).sum(1) / 2

    def build(self, dtype):
        off = [0]
        for d in self.dofs:
            off.append(off[-1] + d)
        V = [th.Vector(tensor=self.x0[:, off[i]:off[i + 1]].clone().to(dtype), name=self.names[i]) for i in range(len(self.dofs))]
        A = th.Variable(self.A.clone().to(dtype), name="A")
        t = th.Vector(tensor=self.t.clone().to(dtype), name="t")

        def err(optim_vars, aux_vars):
            x = torch.cat([v.tensor for v in optim_vars], dim=1)
            return self.residual(x, aux_vars[0].tensor, aux_vars[1].tensor)
        o = th.Objective(dtype=dtype)
        o.add(th.AutoDiffCostFunction(V, err, self.rows, cost_weight=th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=dtype), name="w")), aux_vars=[A, t], name="c"))
        o.update()
        return o

    def cat(self, d):
        return torch.cat([d[n] for n in self.names], dim=1)


def record(o, log):
    """Records every error query with its own inputs (instance-level wrapper)."""
    orig = o.error_metric

    def wrapped(*a, **k):
        r = orig(*a, **k)
        d = a[0] if a else k.get("input_tensors")
        log.append(("sample" if d is not None else "query",
                    {n: t.detach().clone() for n, t in (d or {n: v.tensor for n, v in o.optim_vars.items()}).items()},
                    r.detach().clone()))
        return r
    o.error_metric = wrapped


def params(case, grad=False):
    n = case.randint(4, 40)
    kw = dict(n_sample=n, n_elite=case.choice([1, 2, case.randint(1, n - 1)]))
    kw["temp"] = case.choice([1.0, case.logu(0.1, 20.0), None, float("inf")] if not grad else [1.0, 1.0, case.logu(0.2, 4.0), None])
    kw["normalize"] = case.chance(0.7)
    kw["lml_eps"] = 1e-12 if grad else case.choice([1e-3, 1e-6])
    kw["init_sigma"] = case.logu(0.1, 3.0)
    return kw


def hard(kw):
    return kw["temp"] is None or kw["temp"] == float("inf")


def weights(kw, f):
    """Weights of the samples from their errors (B, n), by the documented rule."""
    n, N = f.shape[1], kw["n_elite"]
    if hard(kw):
        w = torch.zeros_like(f)
        w.scatter_(1, f.argsort(dim=1)[:, :N], 1.0)
        return w, 0.0
    g = f
    if kw["normalize"]:
        g = (f - f.mean(1, keepdim=True)) / (f.std(1, keepdim=True) + 1e-6)
    if N == 1:
        return torch.softmax(-g * kw["temp"], dim=1), 0.0
    return lml_ref(-g * kw["temp"], N), kw["lml_eps"]


def sc_run(case):
    p = Problem(case)
    dtype = D64 if case.chance(0.8) else D32
    kw = params(case)
    if dtype == D32:
        kw["lml_eps"] = 1e-3
    maxit = case.randint(1, 8)
    at, rt = case.choice([(0.0, 0.0), (1e-6, 1e-4), (1e-2, 1e-1), (0.0, 0.3)])
    o = p.build(dtype)
    tensor_sigma = case.chance(0.3)
    sig = kw["init_sigma"]
    if tensor_sigma:
        kw["init_sigma"] = (case.rand(p.B, p.n, lo=0.3, hi=1.5) * sig).to(dtype)
    # the order of the optimizer's variables is its ordering's
    opt = th.DCEM(o, max_iterations=maxit, abs_err_tolerance=at, rel_err_tolerance=rt, vectorize=False, **kw)
    okw = {}
    if case.chance(0.3):  # given per call instead
        s2 = case.logu(0.1, 3.0)
        okw["init_sigma"] = s2
        sigma0 = torch.full((p.B, p.n), s2, dtype=D64)
    else:
        s = kw["init_sigma"]
        sigma0 = s.double() if torch.is_tensor(s) else torch.full((p.B, p.n), float(s), dtype=D64)
    tr = [case.chance(0.7) for _ in range(3)]
    case.describe(kind=p.kind, B=p.B, dofs=p.dofs, dtype=str(dtype), maxit=maxit, at=at, rt=rt, **{k: str(v)[:20] for k, v in kw.items()})
    case.sig(p.kind, p.B, p.dofs, dtype, maxit, at, rt, kw["n_sample"], kw["n_elite"], kw["temp"], kw["normalize"])
    rt_ = 1e-9 if dtype == D64 else 2e-4
    for run in range(case.choice([1, 2])):
        if run:
            p.x0 = case.randn(p.B, p.n)
            k = 0
            new = {}
            for n, d in zip(p.names, p.dofs):
                new[n] = p.x0[:, k:k + d].to(dtype)
                k += d
            o.update(new)
        aux = {n: v.tensor for n, v in o.aux_vars.items()}
        log, cbs = [], []
        record(o, log)

        def cb(opt_, info_, mu, it):
            case.check(opt_ is opt, "callback: optimizer")
            cbs.append((it, {k: v.detach().clone() for k, v in mu.items()}, {n: v.tensor.detach().clone() for n, v in o.optim_vars.items()}, len(log)))
        x0 = p.cat({n: v.tensor.detach().clone() for n, v in o.optim_vars.items()}).double()
        seed = case.randint(0, 10**6)
        torch.manual_seed(seed)
        with torch.set_grad_enabled(case.chance(0.5)), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            verbose = case.chance(0.3)
            info, said = quiet(lambda: opt.optimize(track_best_solution=tr[0], track_err_history=tr[1], track_state_history=tr[2],
                                                    end_iter_callback=cb, **okw, **({"verbose": True} if verbose else {})))
            if verbose:
                case.check(said.count("Iteration:") == len(cbs) + 1, "DCEM: lines of a verbose run", said=said[:200])
                case.event("verbose run")
        del o.error_metric
        for n, t in aux.items():
            case.check(o.aux_vars[n].tensor is t, "DCEM changed an auxiliary variable")
        K = len(cbs)
        case.check([c[0] for c in cbs] == list(range(K)) and 1 <= K <= maxit, "DCEM: iterations")
        mu, sigma = x0, sigma0
        pos, states, Z = 0, [x0], []
        # the queries before the first sample are the initial error
        for it, got_mu, got_vars, end in cbs:
            ent = [e for e in log[pos:end] if e[0] == "sample"]
            pos = end
            case.check(len(ent) == kw["n_sample"], "DCEM: number of samples evaluated", info=len(ent))
            for e in ent:
                case.check(set(e[1]) == set(p.names), "DCEM: a sample sets every variable")
            X = torch.stack([p.cat(e[1]).double() for e in ent], dim=1)  # B, n_sample, n
            f = torch.stack([e[2].double() for e in ent], dim=1)
            ref = torch.stack([p.error(X[:, i]) for i in range(X.shape[1])], dim=1)
            case.close(f, ref, rt_ * 10, "DCEM: error of a sample", rtol=rt_ * 10)
            Z.append(((X - mu.unsqueeze(1)) / sigma.unsqueeze(1), sigma))
            w, weps = weights(kw, f)
            N = kw["n_elite"]
            new = (w.unsqueeze(2) * X).sum(1) / N
            spread = (X - X.mean(1, keepdim=True)).abs().amax(1)
            # the weights' threshold is known to weps, rounding of errors is scaled by 1/std when normalizing
            amp = 1.0
            if not hard(kw):
                amp = kw["temp"] * ((1 / (f.std(1) + 1e-6)).max().item() if kw["normalize"] else 1.0) * max(1.0, f.abs().max().item())
            tol = (weps * kw["n_sample"] * 0.3 / N) * (X.abs().amax(1).amax(1, keepdim=True) + spread) + rt_ * (1 + amp) * (1 + X.abs().max())
            if hard(kw) and dtype == D32:
                s_, _ = f.sort(dim=1)
                if ((s_[:, N] - s_[:, N - 1]) if N < f.shape[1] else torch.ones(1)).min() < 1e-5:
                    raise Skip()
            m = p.cat(got_mu).double()
            case.check(set(got_mu) == set(p.names), "DCEM: the new mean has every variable")
            d = (m - new).abs()
            case.check((d <= tol).all(), "DCEM: the new mean is not the elite mean of the samples", info=dict(it=it, got=m.tolist(), want=new.tolist(), tol=tol.tolist()))
            case.close(p.cat(got_vars).double(), m, 0.0, "DCEM: the variables are not set to the new mean")
            # the spread used for the next iteration, about the mean that was used
            ws = w.sum(1, keepdim=True) / N
            var = (w.unsqueeze(2) * (X - m.unsqueeze(1)) ** 2).sum(1) / N
            nsig = (var + 1e-20).sqrt()
            vt = (weps * kw["n_sample"] * 0.3 / N + rt_ * (1 + amp)) * (spread ** 2 * 4 + rt_ * (1 + X.abs().max() ** 2))
            got = opt.sigma.detach().double() if it == K - 1 and hasattr(opt, "sigma") else None
            if got is not None:
                bad = (got ** 2 - nsig ** 2).abs() > vt * 2 + 1e-18 + 4e-10 * nsig + (1e-6 * nsig ** 2 if dtype == D32 else 0)
                case.check(not bad.any(), "DCEM: the new spread is not that of the elite", info=dict(got=got.tolist(), want=nsig.tolist()))
            mu, sigma = m, nsig
            states.append(m)
            case.event("step")
            if (sigma < 1e-7 * (1 + mu.abs())).any() or not torch.isfinite(sigma).all():
                sigma = sigma.clamp_min(1e-300)
                Z.append(None)  # too narrow to standardize what follows
        # -- the record
        hist = torch.stack([p.error(s) for s in states], dim=1)
        case.close(p.cat({n: v.tensor.detach() for n, v in o.optim_vars.items()}).double(), states[-1], 0.0, "DCEM: final state")
        case.close(info.last_err.double(), hist[:, -1], rt_ * 10, "DCEM: last_err", rtol=rt_ * 10)
        if tr[1]:
            case.close(info.err_history[:, :K + 1].double(), hist, rt_ * 10, "DCEM: error history", rtol=rt_ * 10)
            case.check(torch.isinf(info.err_history[:, K + 1:]).all(), "DCEM: error history after the last iteration")
        if tr[2]:
            for n in p.names:
                H = info.state_history[n]
                for k in range(K + 1):
                    case.close(H[..., k].double(), _part(p, states[k], n), 0.0 if k else rt_, "DCEM: state history")
        if tr[0]:
            b = info.best_err.double()
            case.close(b, hist[:, 1:].min(1).values if not _beats(hist) else torch.minimum(hist.min(1).values, b), rt_ * 10,
                       "DCEM: best error", rtol=rt_ * 10)
            sol = p.cat(info.best_solution).double()
            case.close(p.error(sol), b, rt_ * 10, "DCEM: the best solution doesn't have the best error", rtol=rt_ * 10)
        # stopping: all elements satisfy the tolerances at one iteration
        e0, e1 = hist[:, :-1], hist[:, 1:]
        dlt = (e0 - e1).abs()
        u = (1e-12 if dtype == D64 else 2e-4) * (e0 + e1)
        lo = (dlt + u < at) | ((dlt + u) / e0.abs() < rt)
        hi = (dlt - u < at) | ((dlt - u) / e0.abs() < rt)
        hi = hi | ((e1 - u).mean(0, keepdim=True) < at)  # the error of the whole batch is negligible
        for k in range(K):
            last = k == K - 1
            if not last:
                case.check(not lo[:, k].all(), "DCEM: went on after every element had converged")
            elif K < maxit:
                case.check(hi[:, k].all(), "DCEM: stopped before every element had converged")
        for i in range(p.B):
            if lo[i].any():
                case.check(info.status[i] == S.CONVERGED, "DCEM: status of a converged element", info=str(info.status[i]))
            elif not hi[i].any():
                case.check(info.status[i] == S.MAX_ITERATIONS and info.converged_iter[i] == -1, "DCEM: status of an element that didn't converge")
        # -- samples come from N(mu, diag(sigma^2)), independently
        zs = []
        for q in Z:
            if q is None:
                break
            zs.append(q[0])
        if zs and dtype == D64:
            z = torch.cat([q.reshape(-1) for q in zs])
            M = z.numel()
            if M >= 60:
                case.check(z.mean().abs() < 6 / math.sqrt(M), "DCEM: samples are not centred at the mean", info=z.mean().item())
                case.check((z.pow(2).mean() - 1).abs() < 6 * math.sqrt(2 / M) + 12 / M, "DCEM: samples don't have the spread", info=z.pow(2).mean().item())
                case.check(z.pow(3).mean().abs() < 6 * math.sqrt(15 / M) + 40 / M, "DCEM: samples are skewed")
                case.check(z.abs().max() < 7.5, "DCEM: a sample is too far out")
                case.event("samples", M)
            c = torch.cat(zs, dim=1)  # B, samples, n
            flat = c.permute(1, 0, 2).reshape(c.shape[1], -1)
            if flat.shape[1] > 1 and flat.shape[0] >= 8:
                cc = (flat[:, :-1] * flat[:, 1:]).mean(0).abs()
                case.check(cc.max() < 7 / math.sqrt(flat.shape[0]), "DCEM: batch elements or coordinates share samples", info=cc.tolist())
            flat = c.permute(0, 2, 1).reshape(-1, c.shape[1])
            same = (c[:, 1:] == c[:, :-1]).all()
            case.check(c.shape[1] < 2 or not same, "DCEM: the samples of an iteration are all the same")
        # -- the same seed gives the same run
        if run == 0 and case.chance(0.3):
            q = p.build(dtype)
            opt2 = th.DCEM(q, max_iterations=maxit, abs_err_tolerance=at, rel_err_tolerance=rt, **kw)
            torch.manual_seed(seed)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                quiet(lambda: opt2.optimize(**okw))
            case.close(p.cat({n: v.tensor.detach() for n, v in q.optim_vars.items()}).double(), states[-1], rt_, "DCEM: not repeatable")


def _beats(hist):
    return (hist[:, 0] <= hist[:, 1:].min(1).values).any()


def _part(p, s, name):
    k = 0
    for n, d in zip(p.names, p.dofs):
        if n == name:
            return s[:, k:k + d]
        k += d


def sc_grad(case):
    """The unrolled gradient is that of the seeded run."""
    p = Problem(case, kind=case.choice(["quad", "bent"]))
    kw = params(case, grad=True)
    n_it = case.randint(1, 3)
    case.describe(kind=p.kind, B=p.B, n_it=n_it, **{k: str(v) for k, v in kw.items()})
    case.sig(p.kind, p.B, p.dofs, n_it, kw["n_sample"], kw["n_elite"], kw["normalize"])
    o = p.build(D64)
    layer = th.TheseusLayer(th.DCEM(o, max_iterations=n_it, abs_err_tolerance=0.0, rel_err_tolerance=0.0, **kw), vectorize=case.chance(0.3))
    seed = case.randint(0, 10**6)

    def run(A, t, x0):
        k, d = 0, {"A": A, "t": t}
        for n, m in zip(p.names, p.dofs):
            d[n] = x0[:, k:k + m]
            k += m
        torch.manual_seed(seed)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            (sol, _), said = quiet(lambda: layer.forward(d))
        return p.cat(sol)
    base = [p.A.clone(), p.t.clone(), p.x0.clone()]
    leaves = [b.clone().requires_grad_() for b in base]
    s = run(*leaves)
    c = case.randn(*s.shape)
    if hard(kw):  # the mean moves with the initial one only
        g = torch.autograd.grad((s * c).sum(), leaves, allow_unused=True)
        case.check(all(q is None or torch.isfinite(q).all() for q in g), "DCEM: gradient is not finite")
        g = [torch.zeros_like(b) if q is None else q for q, b in zip(g, base)]
    else:
        g = torch.autograd.grad((s * c).sum(), leaves)
        case.check(all(torch.isfinite(q).all() for q in g), "DCEM: gradient is not finite")
    with torch.no_grad():
        for i in range(3):
            d = case.randn(*base[i].shape)
            d = d / d.norm()

            def at(h):
                q = [b.clone() for b in base]
                q[i] = q[i] + h * d
                return (run(*q) * c).sum()
            h = 3e-5
            f1 = (at(h) - at(-h)) / (2 * h)
            f2 = (at(2 * h) - at(-2 * h)) / (4 * h)
            fd = (4 * f1 - f2) / 3
            noise = (f1 - f2).abs().item()
            if noise > 1e-3 * (1 + abs(fd.item())):
                case.event("rough")
                continue
            case.close((g[i] * d).sum(), fd, 2e-5 * (1 + abs(fd.item())) + 3 * noise, "DCEM: gradient of the run", info=dict(leaf=i))
            case.event("direction")


def sc_solve(case):
    """It finds the minimum of a benign problem."""
    p = Problem(case, kind="quad")
    o = p.build(D64)
    opt = th.DCEM(o, max_iterations=25, n_sample=150, n_elite=15, temp=None,
                  init_sigma=3.0, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    torch.manual_seed(case.randint(0, 10**6))
    e0 = p.error(p.x0)
    with torch.no_grad(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt.optimize()
        for m in ("implicit", "truncated"):
            case.raises(NotImplementedError, lambda: opt.optimize(backward_mode=m, backward_num_iterations=1), "DCEM: unsupported backward mode")
    e1 = o.error_metric()
    case.describe(B=p.B, n=p.n)
    case.sig(p.B, p.dofs)
    case.check((e1 < 0.05 * e0 + 1e-2).all(), "DCEM: doesn't reduce the error of a quadratic", info=dict(e0=e0.tolist(), e1=e1.tolist()))


SCENARIOS = {
    "lml": Scenario(sc_lml, 250, 4000),
    "run": Scenario(sc_run, 220, 3500),
    "grad": Scenario(sc_grad, 60, 800),
    "solve": Scenario(sc_solve, 16, 150),
}
