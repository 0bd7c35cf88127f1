"""C26: numerical and sparse utilities."""
import contextlib
import io
import time

import numpy as np
import torch
import torch.nn.functional as F

import theseus as th
import theseus.utils as tu
from theseus.third_party.utils import grid_sample

from .. import geo, ref
from ..core import D32, D64, Scenario, Skip

QUICK = 3  # so many times each scenario's quick cases
ID = "C26"
RULE = ("a case is a random call of one utility (numeric derivatives, Jacobian checker, sparse products and generators, "
        "MLP builder, timer, differentiable grid sampling) compared with an independent computation")
ASSUMPTIONS = ["finite differences are accurate to the square of their step", "the timer is compared with readings of the same clock outside it"]
GROUPS = ("SO2", "SE2", "SO3", "SE3")


# -- numeric derivatives -----------------------------------------------------------------
def rnd(case, name, B, dt=D64, dof=None, nm=None):
    G = ref.group(name, dof)
    if name in GROUPS:
        cls = getattr(th, name)
        return cls.exp_map((case.randn(B, G.dof) * 0.8).to(dt))
    return {"Vector": lambda t: th.Vector(tensor=t), "Point2": lambda t: th.Point2(tensor=t),
            "Point3": lambda t: th.Point3(tensor=t)}[name](case.randn(B, G.dof).to(dt))


def sc_numjac(case):
    name = case.choice(GROUPS + ("Vector", "Point2", "Point3"))
    dof = case.randint(1, 4) if name == "Vector" else None
    B = case.randint(1, 4)
    dt = D64 if case.chance(0.8) else D32
    delta = case.choice([1e-3, 1e-4, 1e-2]) if dt == D64 else 1e-2
    op = case.choice(["compose", "between", "inverse", "first", "log", "three"])
    bs = [case.choice([1, B]) for _ in range(3)]
    args = [rnd(case, name, b, dt, dof) for b in bs]
    n = {"compose": 2, "between": 2, "inverse": 1, "first": 2, "log": 1, "three": 3}[op]
    args, bs = args[:n], bs[:n]
    Bm = max(bs)
    d = args[0].dof()
    calls = []

    def f(a):
        calls.append([x.tensor.clone() for x in a])
        if op == "compose":
            return a[0].compose(a[1])
        if op == "between":
            return a[0].between(a[1])
        if op == "inverse":
            return a[0].inverse()
        if op == "first":
            return a[0].compose(a[0])
        if op == "log":
            return th.Vector(tensor=a[0].log_map())
        return a[0].compose(a[1]).compose(a[2])

    J = []
    if op in ("compose", "between"):
        getattr(args[0], op)(args[1], jacobians=J)
    elif op == "inverse":
        I = type(args[0])(*([d] if name == "Vector" else []), dtype=dt)
        args[0].between(I, jacobians=J)
        J = J[:1]
    elif op == "first":
        K = []
        args[0].compose(args[0], jacobians=K)
        J = [K[0] + K[1], torch.zeros(Bm, d, d, dtype=dt)]
    elif op == "log":
        args[0].log_map(jacobians=J)
    else:
        K, L = [], []
        ab = args[0].compose(args[1], jacobians=K)
        ab.compose(args[2], jacobians=L)
        J = [L[0] @ K[0], L[0] @ K[1], L[1]]
    kw = {} if op != "log" and case.chance(0.5) else {"function_dim": d}
    keep = [a.tensor.clone() for a in args]
    got = tu.numeric_jacobian(f, list(args), delta_mag=delta, **kw)
    case.sig(name, op, dof, Bm, delta, *keep)
    case.describe(group=name, op=op, B=bs, delta=delta, dtype=str(dt))
    case.check(len(got) == n, "one Jacobian per argument")
    tol = (40 * delta * delta + 1e-11 / delta) if dt == D64 else 2e-2
    for g, w in zip(got, J):
        case.check(g.dtype == dt, "dtype of a numeric Jacobian")
        case.close(g, w.expand(Bm, d, d), tol, f"numeric Jacobian of {op}")
    for a, t in zip(args, keep):
        case.same(a.tensor, t, "numeric_jacobian changes its arguments")
    case.check(len(calls) == 2 * n * d, "function evaluations")
    case.event(f"{name}/{op}")


def sc_numgrad(case):
    n = case.randint(1, 6)
    A = case.randn(n, n).numpy()
    b = case.randn(n).numpy()
    x = case.randn(n).numpy()
    f = lambda v: float(np.sin(b @ v) + 0.5 * v @ A @ v)  # noqa: E731
    want = np.cos(b @ x) * b + 0.5 * (A + A.T) @ x
    h = case.choice([1e-4, 1e-3])
    x0 = x.copy()
    got = tu.numeric_grad(f, h=h)(x)
    case.sig(x, A)
    case.close(torch.from_numpy(got), torch.from_numpy(want), 1e-6 + 20 * h * h * (1 + float(np.abs(b).max()) ** 3), "numeric gradient")
    case.check(np.array_equal(x, x0), "numeric_grad changes its argument")
    case.event("gradient")


class Probe(th.CostFunction):
    """Difference of group elements plus a vector term, with switchable mistakes in its Jacobians."""

    def __init__(self, opt, aux, weight, wrong=None, name=None):
        super().__init__(weight, name=name)
        self.n = len(opt)
        for i, v in enumerate(opt):
            setattr(self, f"o{i}", v)
            self.register_optim_var(f"o{i}")
        for i, v in enumerate(aux):
            setattr(self, f"a{i}", v)
            self.register_aux_var(f"a{i}")
        self.wrong, self.seen = wrong, []

    def opt(self):
        return [getattr(self, f"o{i}") for i in range(self.n)]

    def aux(self):
        return [getattr(self, f"a{i}") for i in range(self.n)]

    def _err(self, J=None):
        es = []
        for i, (o, a) in enumerate(zip(self.opt(), self.aux())):
            K = [] if J is not None else None
            es.append(a.local(o, jacobians=K))
            if J is not None:
                row = []
                for j, p in enumerate(self.opt()):
                    row.append(K[1] if i == j else torch.zeros(K[1].shape[0], o.dof(), p.dof(), dtype=o.dtype))
                J.append(row)
        return torch.cat(es, 1)

    def error(self):
        return self._err()

    def jacobians(self):
        self.seen.append([v.tensor.clone() for v in self.opt() + self.aux()])
        rows = []
        e = self._err(rows)
        J = [torch.cat([r[j] for r in rows], 1) for j in range(self.n)]
        if self.wrong is not None and self.wrong[4](len(self.seen)):
            j, r, c, by, _ = self.wrong
            J[j] = J[j].clone()
            J[j][:, r, c] += by
        return J, e

    def dim(self):
        return sum(v.dof() for v in self.opt())

    def _copy_impl(self, new_name=None):
        return Probe([v.copy() for v in self.opt()], [v.copy() for v in self.aux()], self.weight.copy(), self.wrong, new_name)


class Fails(Exception):
    pass


def sc_checkjac(case):
    """check_jacobians: accepts exact Jacobians, rejects wrong ones, evaluates at valid random elements, and always
    puts the variables back."""
    n = case.randint(1, 3)
    kinds = [case.choice(GROUPS + ("Vector", "Point2", "Point3")) for _ in range(n)]
    B = case.randint(1, 3)
    mk = lambda k, nm: (lambda v: type(v)(tensor=v.tensor, name=nm))(rnd(case, k, case.choice([1, B]), D64, 2))  # noqa: E731
    opt = [mk(k, f"o{i}") for i, k in enumerate(kinds)]
    aux = [mk(k, f"a{i}") for i, k in enumerate(kinds)]
    w = th.ScaleCostWeight(torch.tensor(2.0, dtype=D64))
    tol = case.choice([1e-3, 1e-4, 1e-2])
    mode = case.choice(["right", "small", "wrong", "wrong", "nan", "late", "raise"])
    checks = case.randint(1, 4)
    dims = [v.dof() for v in opt]
    j = case.randint(0, n - 1)
    r, c = case.randint(0, sum(dims) - 1), case.randint(0, dims[j] - 1)
    by = {"right": 0.0, "small": tol * 0.3, "wrong": tol * case.choice([3, -3, 30, -1e3]), "nan": float("nan"), "late": 5.0, "raise": 0.0}[mode]
    late = case.randint(1, checks)
    cf = Probe(opt, aux, w, (j, r, c, by, (lambda k: k == late) if mode == "late" else (lambda k: True)))
    if mode == "raise":
        def boom():
            raise Fails
        cf.error = boom
    keep = [v.tensor for v in opt + aux]
    vals = [t.clone() for t in keep]
    case.sig(*kinds, mode, tol, checks, j, r, c, *vals)
    case.describe(kinds=kinds, mode=mode, tol=tol, checks=checks)
    run = lambda: tu.check_jacobians(cf, num_checks=checks, tol=tol)  # noqa: E731
    state = torch.get_rng_state()
    if mode in ("right", "small"):
        run()
        case.oracle_calls += 1
        case.check(len(cf.seen) == checks, f"{len(cf.seen)} checks of {checks}")
    elif mode == "raise":
        case.raises(Fails, run, "the cost's own exception")
    else:
        try:
            run()
            case.fail(f"check_jacobians accepts an error of {by:.3g} (tolerance {tol})")
        except RuntimeError as e:
            case.check(opt[j].name in str(e), f"the variable isn't named: {e}")
        if mode == "late":
            case.check(len(cf.seen) == late, "the check that fails")
    if mode in ("right", "small", "wrong", "nan") and case.chance(0.4):  # through a layer: one report for all its costs
        seen = len(cf.seen)
        o = th.Objective(dtype=D64)
        good = th.Difference(opt[0], aux[0], th.ScaleCostWeight(torch.tensor(1.0, dtype=D64)), name="good")
        for f in case.rng.sample([cf, good], 2):
            o.add(f)
        layer = th.TheseusLayer(th.GaussNewton(o), vectorize=case.chance(0.5))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            layer.verify_jacobians(num_checks=checks, tol=tol)
        ok = mode in ("right", "small")
        case.check(("successful" in out.getvalue()) == ok and (f"{cf.name} failed" in out.getvalue()) != ok
                   and "good failed" not in out.getvalue(), "what verify_jacobians reports", said=out.getvalue()[:300])
        del cf.seen[seen:]
        case.event("verify_jacobians")
    torch.set_rng_state(state)
    for v, t, x in zip(opt + aux, keep, vals):
        case.check(v.tensor is t, "the variable's tensor isn't restored")
        case.same(v.tensor, x, "the variable's value isn't restored")
    for s in cf.seen:
        for k, t in zip(kinds + kinds, s):
            if k in ("SO3", "SE3"):
                R = t[:, :, :3]
                case.close(R @ R.transpose(1, 2), torch.eye(3, dtype=D64)[None], 1e-6, "value used is no rotation")
            elif k in ("SO2", "SE2"):
                case.close(t[:, -2:].norm(dim=1), torch.ones(1, dtype=D64), 1e-6, "value used is no rotation")
    if len(cf.seen) > 1:
        case.check(not torch.equal(cf.seen[0][0], cf.seen[1][0]), "all checks use the same values")
    case.event(mode)


# -- sparse products ------------------------------------------------------------------------
def csr(case, rows, cols, p):
    m = case.rand(rows, cols) < p
    ptr, ind = [0], []
    for r in range(rows):
        ind += [c for c in range(cols) if m[r, c]]
        ptr.append(len(ind))
    return ptr, ind


def dense(B, rows, cols, ptr, ind, val):
    out = torch.zeros(B, rows, cols, dtype=val.dtype)
    r = torch.tensor([k for k in range(rows) for _ in range(ptr[k], ptr[k + 1])], dtype=torch.long)
    if len(ind):
        out = out.index_put((torch.arange(B)[:, None], r[None], torch.tensor(ind)[None]), val)
    return out


def sc_sparse(case):
    B, rows, cols = case.randint(1, 3), case.randint(1, 7), case.randint(1, 7)
    ptr, ind = csr(case, rows, cols, case.choice([0.2, 0.5, 1.0]))
    if not ind:
        raise Skip()
    it = case.choice([torch.int64, torch.int32])
    P, I = torch.tensor(ptr, dtype=it), torch.tensor(ind, dtype=it)
    t = case.chance(0.5)
    dt = D64 if case.chance(0.8) else D32
    val = case.randn(B, len(ind)).to(dt).requires_grad_(True)
    v = case.randn(B, rows if t else cols).to(dt).requires_grad_(True)
    case.sig(ptr, ind, val, v, t)
    case.describe(B=B, rows=rows, cols=cols, nnz=len(ind), transposed=t, dtype=str(dt))
    got = (tu.sparse_mtv if t else tu.sparse_mv)(cols, P, I, val, v)
    v2, val2 = v.detach().double().requires_grad_(True), val.detach().double().requires_grad_(True)
    A = dense(B, rows, cols, ptr, ind, val2)
    want = ((A.transpose(1, 2) if t else A) @ v2.unsqueeze(2)).squeeze(2)
    tol = 1e-10 if dt == D64 else 1e-4
    case.close(got, want, tol, "sparse product")
    raw = (tu.tmat_vec if t else tu.mat_vec)(B, cols, P, I, val.detach(), v.detach())
    case.close(raw, want, tol, "sparse product, no gradient")
    g = case.randn(*got.shape)
    ga = torch.autograd.grad((got.double() * g).sum(), [val, v])
    gb = torch.autograd.grad((want * g).sum(), [val2, v2])
    for a, b, n in zip(ga, gb, ("values", "vector")):
        case.close(a, b, tol * 10, f"gradient of a sparse product, {n}")
    case.event("transposed" if t else "plain")


def sc_random(case):
    rows, cols, B = case.randint(1, 9), case.randint(1, 9), case.randint(1, 3)
    fill, mn = case.choice([0.0, 0.2, 0.6, 0.95]), case.randint(0, 4)
    rng = torch.Generator()
    seed = case.randint(0, 10 ** 6)
    rng.manual_seed(seed)
    dt = case.choice([D64, D32])
    ind, ptr, val, skel = tu.random_sparse_matrix(B, rows, cols, fill, mn, rng, "cpu", int_dtype=torch.int32 if case.chance(0.4) else torch.int64,
                                                  float_dtype=dt)
    case.sig(rows, cols, fill, mn, seed)
    case.describe(rows=rows, cols=cols, fill=fill, min_entries=mn)
    D = np.asarray(skel.todense())
    case.check(D.shape == (rows, cols) and set(np.unique(D)) <= {0.0, 1.0}, "random sparse pattern")
    case.check(ptr.shape == (rows + 1,) and int(ptr[0]) == 0 and int(ptr[-1]) == len(ind) and bool((ptr[1:] >= ptr[:-1]).all()), "row pointers")
    case.check(val.shape == (B, len(ind)) and val.dtype == dt, "values of a random sparse matrix")
    pat = np.zeros((rows, cols))
    for r in range(rows):
        row = ind[ptr[r]:ptr[r + 1]].tolist()
        case.check(len(set(row)) == len(row) and all(0 <= c < cols for c in row), "columns of a row")
        pat[r, row] = 1.0
    case.check(np.array_equal(pat, D), "pattern and index arrays disagree")
    case.check(pat.sum() >= int(fill * rows * cols), "fewer entries than asked for")
    if rows > 1:
        case.check((pat.sum(0) >= min(rows, mn)).all(), "a column has fewer entries than asked for")
    case.check(pat[-1].sum() >= 1, "the last row is empty")
    rng.manual_seed(seed)
    again = tu.random_sparse_binary_matrix(rows, cols, fill, mn, rng)
    case.check(np.array_equal(np.asarray(again.todense()), D), "the same generator state gives another matrix")
    n, lo = case.randint(0, 30), case.randint(1, 4)
    hi = lo + case.randint(1, 4)
    parts = tu.split_into_param_sizes(n, lo, hi, rng)
    case.check(sum(parts) == n and all(0 < p <= hi for p in parts) and all(p >= lo for p in parts[:-1]), f"split of {n} in [{lo},{hi}): {parts}")
    case.event("random")


# -- neural and image utilities -----------------------------------------------------------------
def sc_mlp(case):
    i, h, o, d = case.randint(1, 5), case.randint(1, 6), case.randint(1, 4), case.randint(0, 4)
    act = case.choice(["relu", "elu", "tanh", None])
    net = tu.build_mlp(i, h, o, d, *([act] if act else []))
    f = {"relu": F.relu, "elu": F.elu, "tanh": torch.tanh, None: F.relu}[act]
    ps = list(net.parameters())
    case.sig(i, h, o, d, str(act), *ps)
    dims = [i] + [h] * d + [o]
    case.check([tuple(p.shape) for p in ps] == [s for a, b in zip(dims, dims[1:]) for s in ((b, a), (b,))], "layers of the MLP")
    x = y = case.randn(3, i).float()
    for k in range(0, len(ps), 2):
        y = y @ ps[k].T + ps[k + 1]
        if k < len(ps) - 2:
            y = f(y)
    case.close(net(x), y, 1e-5, "output of the MLP")
    case.raises(NotImplementedError, lambda: tu.build_mlp(i, h, o, d, "sigmoid"), "unknown activation")
    case.event(f"depth {d}")


def sc_grid(case):
    """The differentiable grid sampling equals torch's, with first and second derivatives of the image's interpolation."""
    N, C, IH, IW, H, W = (case.randint(a, b) for a, b in ((1, 3), (1, 3), (2, 6), (2, 6), (1, 4), (1, 4)))
    img = case.randn(N, C, IH, IW).requires_grad_(True)
    g = case.rand(N, H, W, 2, lo=-1.5, hi=1.5) if case.chance(0.6) else case.rand(N, H, W, 2, lo=-0.95, hi=0.95)
    pix = (g + 1) / 2 * (torch.tensor([IW, IH], dtype=D64) - 1)
    if bool(((pix - pix.round()).abs() < 1e-4).any()):
        raise Skip()
    g.requires_grad_(True)
    case.sig(img, g)
    case.describe(image=[N, C, IH, IW], out=[H, W])
    got = grid_sample(img, g)
    want = F.grid_sample(img, g, mode="bilinear", padding_mode="border", align_corners=True)
    case.close(got, want, 1e-9, "grid sample")
    c = case.randn(*got.shape)
    ga = torch.autograd.grad((got * c).sum(), [img, g], create_graph=True)
    gb = torch.autograd.grad((want * c).sum(), [img, g])
    inside = (pix > 0).all(-1) & (pix < torch.tensor([IW - 1, IH - 1])).all(-1)
    case.close(ga[0], gb[0], 1e-9, "grid sample, gradient of the image")
    case.close(ga[1][inside], gb[1][inside], 1e-9 * IW * IH, "grid sample, gradient of the grid")
    s = torch.autograd.grad((ga[1][inside] * 1.0).sum(), img, allow_unused=True)[0] if bool(inside.any()) else None
    if s is not None:
        case.check(bool(torch.isfinite(s).all()) and s.shape == img.shape, "second derivative of grid sample")
    case.event("inside" if bool(inside.all()) else "beyond the border")


def sc_timer(case):
    active = case.chance(0.7)
    t = tu.Timer("cpu", active=active)
    want = {}
    spans = {}
    last = 0.0
    ops = []
    for _ in range(case.randint(1, 6)):
        name = case.choice([None, "f1", "f2", "f3"])
        off = case.chance(0.3)
        ctx = case.chance(0.5)
        fails = ctx and case.chance(0.3)
        ops.append((name, off, ctx, fails))
        nap = case.choice([0.0, 2e-4, 1e-3])

        def work():
            s = time.perf_counter_ns()
            time.sleep(nap)
            e = time.perf_counter_ns()
            return (e - s) / 1e9

        outer0 = time.perf_counter_ns()
        if ctx:
            try:
                with t(name, deactivate=off):
                    inner = work()
                    if fails:
                        raise Fails
            except Fails:
                pass
        else:
            t.start(name, deactivate=off)
            inner = work()
            t.end()
        outer = (time.perf_counter_ns() - outer0) / 1e9
        if active and not off:
            case.check(inner * 0.999 <= t.elapsed_time <= outer * 1.001, f"elapsed time {t.elapsed_time} not in [{inner}, {outer}]")
            last = t.elapsed_time
            if name:
                want[name] = want.get(name, 0) + 1
                spans.setdefault(name, []).append(t.elapsed_time)
        else:
            case.check(t.elapsed_time == last, "a deactivated timer measures")
    st = t.stats()
    case.sig(repr(ops), active)
    case.check({k: len(v) for k, v in st.items() if v} == want, f"calls recorded {dict((k, len(v)) for k, v in st.items())}, made {want}")
    for k, v in spans.items():
        case.check(list(st[k]) == v, "times recorded")
    case.event("active" if active else "inactive")


SCENARIOS = {
    "numjac": Scenario(sc_numjac, 150, 2500),
    "numgrad": Scenario(sc_numgrad, 60, 800),
    "checkjac": Scenario(sc_checkjac, 200, 3000),
    "sparse": Scenario(sc_sparse, 200, 3000),
    "random": Scenario(sc_random, 150, 2000),
    "mlp": Scenario(sc_mlp, 80, 1000),
    "grid": Scenario(sc_grid, 120, 2000),
    "timer": Scenario(sc_timer, 60, 800),
}
