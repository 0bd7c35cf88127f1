"""C19: torchlie's functional operators and LieTensors implement SO(3)/SE(3): values,
Jacobians and gradients, for arbitrary batch shapes with broadcasting."""
import math

import torch
import torchlie as lie
from torchlie.lie_tensor import euclidean_enabled
import torchlie.functional as F

from .. import lieops as lo
from .. import ref
from ..core import D32, D64, Scenario, Skip
from ..geo import ang, angle_of, lin_norm, pick_dtype, tol_jac, tol_value

QUICK = 3  # so many times each scenario's quick cases
ID = "C19"
RULE = ("a case is one operator of torchlie.functional (or its LieTensor counterpart) on inputs "
        "with random leading batch dimensions (including none, and broadcasting) and regime-mixed "
        "angles, compared in value, Jacobian and gradient with closed-form float64 references")
ASSUMPTIONS = ["gradients with respect to group tensors are compared along the group's tangent "
               "directions only (the library promises nothing off the manifold)"]

FN = {"SO3": F.SO3, "SE3": F.SE3}
LT = {"SO3": lie.SO3, "SE3": lie.SE3}


def _tan(case, G, shape, big=False):
    n = 1
    for s in shape:
        n *= s
    u = case.randn(n, G.dof) * case.choice([0.1, 1.0, 5.0])
    w = G.ang_slice()
    for b in range(n):
        a = u[b, w]
        if case.chance(0.2):
            k = case.randint(0, 2)
            a = torch.zeros_like(a)
            a[k] = case.choice([-1.0, 1.0])
        t = angle_of(case)
        if big and case.chance(0.2):
            t = case.rng.uniform(3.2, 6.0)
        u[b, w] = a / a.norm() * t
    return u.view(*shape, G.dof)


def _shapes(case, allow_empty=True):
    """Two broadcastable leading shapes."""
    base = [case.randint(1, 3) for _ in range(case.choice([0, 1, 1, 1, 2, 2, 3]))]
    a, b = list(base), list(base)
    r = case.rng.random()
    if r < 0.35 and base:
        i = case.randint(0, len(base) - 1)
        (a if case.chance(0.5) else b)[i] = 1
    elif r < 0.45 and base:
        b = b[case.randint(1, len(base)):]
        if case.chance(0.5):
            a, b = b, a
    return tuple(a), tuple(b)


OPS = ["exp", "log", "compose", "inverse", "transform", "untransform"]
FNAME = {"inverse": "inv"}


def _sum_lead(x, target_shape, keep):
    """Reduce broadcast leading dims of x to `target_shape` (keep = trailing dims)."""
    lead = x.shape[: x.ndim - keep]
    while len(lead) > len(target_shape):
        x = x.sum(0)
        lead = lead[1:]
    for i, s in enumerate(target_shape):
        if s == 1 and x.shape[i] != 1:
            x = x.sum(i, keepdim=True)
    return x


def _relerr(case, got, want, tol, msg, trailing, key=None):
    """Elementwise over leading dims with per-element tolerance."""
    case.oracle_calls += 1
    if tuple(got.shape) != tuple(want.shape):
        case.fail(f"{msg}: shape {tuple(got.shape)} != {tuple(want.shape)}", key)
        return
    g, w = got.detach().double(), want.detach().double()
    if not torch.isfinite(g).all():
        case.fail(f"{msg}: non-finite", key)
        return
    d = (g - w).abs()
    for _ in range(trailing):
        d = d.amax(-1)
    r = float((d / tol).max()) if d.numel() else 0.0
    k = msg.split("[")[0] + " (ratio to tolerance)"
    case.max_dev[k] = max(r, case.max_dev.get(k, -1))
    if not r <= 1:
        i = int((d / tol).flatten().argmax())
        case.fail(f"{msg}: |diff| {float(d.flatten()[i]):.3e} > "
                  f"{float(torch.as_tensor(tol).expand_as(d).flatten()[i]):.1e}", key)


def sc_ops(case):
    name = case.choice(["SO3", "SE3"])
    G, fn = ref.group(name), FN[name]
    dtype = pick_dtype(case)
    op = case.choice(OPS)
    sa, sb = _shapes(case)
    case.describe(group=name, op=op, dtype=str(dtype), shapes=[list(sa), list(sb)])
    passthrough = case.chance(0.25)
    faster = case.chance(0.25)
    lie.set_global_params({"_allow_passthrough_ops": passthrough, "_faster_log_maps": faster})
    try:
        _ops(case, name, G, fn, dtype, op, sa, sb)
    finally:
        lie.reset_global_params()
        lie.set_global_params({"_allow_passthrough_ops": False, "_faster_log_maps": False})


def _ops(case, name, G, fn, dtype, op, sa, sb):
    mk = lambda s: G.tensor(G.exp(_tan(case, G, s))).to(dtype)  # noqa: E731
    kinds = lo.group_args(op)
    if op == "exp":
        args = [_tan(case, G, sa, big=True).to(dtype)]
    elif op in ("log", "inverse"):
        args = [mk(sa)]
    elif op == "compose":
        args = [mk(sa), mk(sb)]
    else:
        args = [mk(sa), case.randn(*sb, 3, dtype=dtype, scale=case.choice([0.1, 1.0, 10.0]))]
    case.sig(name, op, *args)
    margs = [G.mat(a) if k == 1 else a.double() for a, k in zip(args, kinds)]
    kind, val, Js = lo.value_and_jacs(G, op, margs)
    lead = val.shape[:-2] if kind == "G" else val.shape[:-1]
    if op == "exp":
        theta, lin = ang(G, margs[0]), lin_norm(G, margs[0])
    elif op == "log":
        theta, lin = G.angle(margs[0]), lin_norm(G, val)
    else:
        theta = torch.ones(lead, dtype=D64)
        lin = torch.full(lead, float(sum(m.abs().max() for m in margs)), dtype=D64)
    tv = tol_value(G, theta, lin, dtype, op)
    tj = tol_jac(G, theta, lin, dtype, op)
    if op not in ("exp", "log"):
        tv = (1e-11 if dtype == D64 else 1e-5) * (1 + lin) ** 2
        tj = tv
    ok_all = True
    if op == "log":
        ok = theta < math.pi - (0.3 if dtype == D32 else 1e-2)
        ok_all = bool(ok.all())
    f = getattr(fn, FNAME.get(op, op))
    jf = getattr(fn, "j" + FNAME.get(op, op))
    keep = [a.clone() for a in args]
    out = f(*args)
    case.check(out.dtype == dtype, "dtype of the result")
    outm = G.mat(out) if kind == "G" else out
    if op == "log":
        _relerr(case, G.exp(out), margs[0], tv, f"exp_ref(log)[{name}]", 2)
    if ok_all:
        _relerr(case, outm, val, tv, f"{op}[{name}]", 2 if kind == "G" else 1)
    for a, k in zip(args, keep):
        case.same(a, k, "operators must not change their inputs")
    J = []
    out2 = f(*args, jacobians=J)
    J3, out3 = jf(*args)
    case.close(out2, out, 1e-12 if dtype == D64 else 2e-6, "value when Jacobians are requested", rtol=1e-5)
    case.close(out3, out, 1e-12 if dtype == D64 else 2e-6, "value of the Jacobian variant", rtol=1e-5)
    case.check(len(J) == len(Js) and len(J3) == len(Js), f"number of Jacobians of {op}")
    if ok_all:
        for i, (a, b, w) in enumerate(zip(J, J3, Js)):
            case.check(a.dtype == dtype, "dtype of the Jacobian")
            _relerr(case, a, w, tj, f"jacobian {op}[{name} arg{i}]", 2)
            case.close(b, a, 1e-12 if dtype == D64 else 2e-6, "Jacobian variants agree", rtol=1e-5)
        case.event(f"jac {op} {name}")
    case.raises(ValueError, lambda: f(*args, jacobians=[torch.zeros(1)]), "non-empty Jacobian list")

    # LieTensor front end
    lt = LT[name]
    if op == "exp":
        o = lt.exp(args[0])
        _lt_same(case, o, out, lt, dtype)
        jj, o = lt.jexp(args[0])
        _lt_same(case, o, out, lt, dtype)
        case.close(jj[0], J[0], 1e-12 if dtype == D64 else 2e-6, "LieTensor jexp", rtol=1e-5)
    else:
        x = lt(args[0])
        rest = []
        if op == "compose":
            rest = [lt(args[1])]
        elif op in ("transform", "untransform"):
            rest = [args[1]]
        nm = FNAME.get(op, op)
        for o in (getattr(x, nm)(*rest), getattr(lie, nm)(x, *rest)):
            _lt_same(case, o, out, lt, dtype, kind)
        for jj, o in (getattr(x, "j" + nm)(*rest), getattr(lie, "j" + nm)(x, *rest)):
            _lt_same(case, o, out, lt, dtype, kind)
            for a, b in zip(jj, J):
                case.close(a, b, 1e-12 if dtype == D64 else 2e-6, "LieTensor Jacobians", rtol=1e-5)
        if op == "compose":
            _lt_same(case, x * rest[0], out, lt, dtype)
        if op == "transform":
            case.close(x @ rest[0], out, 1e-12 if dtype == D64 else 1e-6, "x @ point", rtol=1e-6)
        case.same(x._t, args[0], "LieTensor construction keeps the data")

    if not ok_all:
        return
    # autograd
    leaves = [a.clone().requires_grad_(True) for a in args]
    o = f(*leaves) if case.chance(0.6) else f(*leaves, jacobians=[])
    W = case.randn(*o.shape, dtype=dtype)
    gr = torch.autograd.grad(o, leaves, W)
    od = len(G.shape) if kind == "G" else 1
    for i, (g, a, k) in enumerate(zip(gr, args, kinds)):
        case.check(g.shape == a.shape, f"gradient shape of {op} arg{i}")
        dirs = lo.out_dirs(G, kind, val, Js[i])
        want = (dirs * W.double().unsqueeze(-1 - od)).flatten(-od).sum(-1)
        t = tj * float(1 + val.abs().max()) * (1 + float(W.abs().max()))
        if k == 1:
            got = (lo.in_dirs(G, margs[i]) * g.double().unsqueeze(-1 - len(G.shape))
                   ).flatten(-len(G.shape)).sum(-1)
        else:
            got = g.double()
        tgt = a.shape[: a.ndim - (len(G.shape) if k == 1 else 1)]
        want = _sum_lead(want, tgt, 1)
        t = _sum_lead(t.expand(lead).contiguous(), tgt, 0)
        _relerr(case, got, want, t, f"gradient {op}[{name} arg{i}]", 1)
    case.event(f"grad {op} {name}")


def _lt_same(case, o, want, lt, dtype, kind="G"):
    if kind == "G":
        case.check(isinstance(o, lie.LieTensor) and o.ltype == lt, "result is a LieTensor of its type")
        o = o._t
    case.check(not isinstance(o, lie.LieTensor), "plain tensor")
    case.close(o, want, 1e-12 if dtype == D64 else 2e-6, "LieTensor agrees with functional", rtol=1e-5)


def sc_linear(case):
    """adj, hat, vee, lift, project, left_act, left_project, normalize, quaternions."""
    name = case.choice(["SO3", "SE3"])
    G, fn, lt = ref.group(name), FN[name], LT[name]
    dtype = pick_dtype(case)
    sa, _ = _shapes(case)
    e = 1e-11 if dtype == D64 else 1e-5
    u = _tan(case, G, sa, big=True).to(dtype)
    x = G.tensor(G.exp(_tan(case, G, sa))).to(dtype)
    M = G.mat(x)
    sc = float(1 + M.abs().max())
    case.sig(name, u, x)
    case.describe(group=name, shape=list(sa), dtype=str(dtype))
    case.close(fn.adj(x), G.Ad(M), e * sc, f"adj[{name}]")
    case.close(lt(x).adj(), G.Ad(M), e * sc, f"LieTensor.adj[{name}]")
    case.close(fn.hat(u), G.hat(u), 0, f"hat[{name}]")
    case.close(lt.hat(u), G.hat(u), 0, f"ltype.hat[{name}]")
    case.close(fn.vee(fn.hat(u)), u, e, f"vee[{name}]", rtol=1e-6)
    case.close(lt.vee(lt.hat(u)), u, e, f"ltype.vee[{name}]", rtol=1e-6)
    # project is the adjoint of lift with respect to the Frobenius inner product
    L = fn.lift(u)
    case.check(L.shape == sa + G.shape, "lift shape")
    E = case.randn(*sa, *G.shape, dtype=dtype)
    P = fn.project(E)
    lhs = (L.double() * E.double()).flatten(-2).sum(-1)
    rhs = (u.double() * P.double()).sum(-1)
    case.close(lhs, rhs, e * 50 * float(1 + u.abs().max()), f"<lift(u), E> = <u, project(E)>[{name}]")
    if name == "SO3":
        case.close(L, G.hat(u), 0, "lift[SO3]")
    else:
        case.close(L, G.hat(u)[..., :3, :], 0, "lift[SE3]")
    # left_project(g, E)_i = <E, g hat(e_i)>, extra dims between batch and matrix allowed
    k = [case.randint(1, 3) for _ in range(case.choice([0, 1, 2]))]
    E = case.randn(*sa, *k, *G.shape, dtype=dtype)
    D = lo.in_dirs(G, M)
    Dk = D.view(*sa, *([1] * len(k)), G.dof, *G.shape)
    want = (Dk * E.double().unsqueeze(-3)).flatten(-2).sum(-1)
    got = fn.left_project(x, E) if case.chance(0.5) else fn.left_project(x, E, len(k))
    case.close(got, want, e * 20 * sc, f"left_project[{name}]")
    if not k:
        case.close(lt(x).left_project(E), want, e * 20 * sc, f"LieTensor.left_project[{name}]")
    m = case.randint(1, 4)
    A = case.randn(*sa, *k, 3, m, dtype=dtype)
    R = M[..., :3, :3].reshape(*sa, *([1] * len(k)), 3, 3)
    want = R @ A.double()
    got = fn.left_act(x, A) if case.chance(0.5) else fn.left_act(x, A, len(k))
    case.close(got, want, e * 10, f"left_act[{name}]")
    # gradients of the linear maps
    for opname, args in (("hat", (u,)), ("lift", (u,)), ("project", (E[..., :, :],)),
                         ("vee", (fn.hat(u),)), ("left_act", (x, A)), ("left_project", (x, E))):
        leaves = [a.clone().requires_grad_(True) for a in args]
        o = getattr(fn, opname)(*leaves)
        W = case.randn(*o.shape, dtype=dtype)
        gr = torch.autograd.grad(o, leaves, W, allow_unused=True)
        last = leaves[-1]
        # the map is linear in its last argument: <W, f(V)> = <grad, V>
        V = case.randn(*last.shape, dtype=dtype)
        if opname == "vee":
            V = fn.hat(case.randn(*sa, G.dof, dtype=dtype))
        fv = getattr(fn, opname)(*[a.detach() for a in leaves[:-1]], V)
        case.close((gr[-1].double() * V.double()).sum(), (W.double() * fv.double()).sum(),
                   e * 300 * sc, f"gradient {opname}[{name}]", rtol=1e-4 if dtype == D32 else 1e-9)
        if opname in ("left_act", "left_project"):
            i = case.randint(0, G.dof - 1)
            h = 1e-4
            ei = torch.zeros(G.dof, dtype=D64)
            ei[i] = 1
            fd = 0
            for s, c in ((1, 8 / 12), (2, -1 / 12)):
                for sg in (1, -1):
                    Xp = G.tensor(M @ G.exp(sg * s * h * ei))
                    fd = fd + sg * c * getattr(fn, opname)(Xp, args[1].double()) / h
            want = (W.double() * fd).sum()
            got = (D[..., i, :, :] * gr[0].double()).sum()
            case.close(got, want, (1e-6 if dtype == D64 else 1e-3) * sc * float(1 + want.abs()),
                       f"gradient {opname} group[{name}]")


def sc_make(case):
    """Random/identity/normalize/quaternion construction and validity checks."""
    name = case.choice(["SO3", "SE3"])
    G, fn, lt = ref.group(name), FN[name], LT[name]
    dtype = pick_dtype(case)
    sa, _ = _shapes(case)
    s = case.rng.getrandbits(30)
    e = 1e-9 if dtype == D64 else 1e-5

    def valid(t, what):
        R = t.double()[..., :3, :3]
        case.close(R @ R.transpose(-1, -2), torch.eye(3, dtype=D64).expand(R.shape), e, f"{what} orthogonal")
        case.close(torch.linalg.det(R), torch.ones(R.shape[:-2]), e, f"{what} det")

    for f in ("rand", "randn"):
        a = getattr(fn, f)(*sa, generator=torch.Generator().manual_seed(s), dtype=dtype)
        b = getattr(lt, f)(*sa, generator=torch.Generator().manual_seed(s), dtype=dtype)
        case.same(a, b._t, f"{f} functional vs LieTensor")
        case.check(tuple(a.shape) == sa + G.shape and a.dtype == dtype, f"{f} shape")
        valid(a, f)
        r = getattr(lt, f)(*sa, dtype=dtype, requires_grad=True)
        case.check(r.requires_grad and r.is_leaf, f"{f} requires_grad leaf")
    a = fn.identity(*sa, dtype=dtype)
    case.close(G.mat(a), torch.eye(G.n, dtype=D64).expand(*sa, G.n, G.n), 0, "identity")
    case.same(lt.identity(*sa, dtype=dtype)._t, a, "LieTensor identity")
    x = G.tensor(G.exp(_tan(case, G, sa)))
    noise = case.logu(1e-3, 5e-2)
    bad = (x + case.randn(*x.shape) * noise).to(dtype)
    case.sig(name, x, noise)
    n = fn.normalize(bad)
    valid(n, "normalize")
    S = n.double()[..., :3].transpose(-1, -2) @ bad.double()[..., :3]
    case.close(S - S.transpose(-1, -2), torch.zeros_like(S), 1e-8 if dtype == D64 else 1e-4,
               "normalize gives the nearest rotation")
    if name == "SE3":
        case.same(n[..., 3], bad[..., 3], "normalize keeps the translation")
    # gradient of normalize, finite differences on the implementation's reference
    if dtype == D64 and noise > 5e-3:
        leaf = bad.clone().requires_grad_(True)
        o = fn.normalize(leaf)
        W = case.randn(*o.shape)
        g, = torch.autograd.grad(o, leaf, W)
        V = case.randn(*bad.shape)

        def nearest(T):
            R = T[..., :3]
            U, _, Vh = torch.linalg.svd(R)
            d = torch.det(U @ Vh)
            Dg = torch.diag_embed(torch.stack([torch.ones_like(d), torch.ones_like(d), d], -1))
            N = U @ Dg @ Vh
            return torch.cat([N, T[..., 3:]], -1) if name == "SE3" else N
        h = 1e-5
        fd = (8 * (nearest(bad + h * V) - nearest(bad - h * V))
              - (nearest(bad + 2 * h * V) - nearest(bad - 2 * h * V))) / (12 * h)
        case.close((g * V).sum(), (W * fd).sum(), 1e-5, "gradient of normalize", rtol=1e-5)
    if name == "SO3":
        q = case.randn(*sa, 4)
        q = q * (case.logu(0.3, 3) if case.chance(0.3) else 1.0 / 1.0)
        q = q.to(dtype)
        qn = q.double() / q.double().norm(dim=-1, keepdim=True)
        Wm = G.hat(qn[..., 1:])
        want = torch.eye(3, dtype=D64) + 2 * (qn[..., :1, None] * Wm + Wm @ Wm)
        case.close(fn.quaternion_to_rotation(q), want, 1e-11 if dtype == D64 else 1e-5, "quaternion_to_rotation")
        V = case.randn(*sa, 3, 3)
        qg, qc = q.double().clone().requires_grad_(True), q.double().clone().requires_grad_(True)
        with torch.enable_grad():
            gq = torch.autograd.grad((V * fn.quaternion_to_rotation(qg)).sum(), qg)[0]
            pc = qc / qc.norm(dim=-1, keepdim=True)
            Wc = G.hat(pc[..., 1:])
            gc = torch.autograd.grad((V * (2 * (pc[..., :1, None] * Wc + Wc @ Wc))).sum(), qc)[0]
        case.close(gq, gc, 1e-8 * (1 + float(gc.abs().max())), "gradient of quaternion_to_rotation")
        Jq = fn.jquaternion_to_rotation(q)[0][0]
        if len(sa):
            cols = []
            for i in range(4):
                ei = torch.zeros(4, dtype=D64)
                ei[i] = 1
                acc = 0
                h = 1e-4
                for s_, c in ((1, 8 / 12), (2, -1 / 12)):
                    for sg in (1, -1):
                        p = q.double() + sg * s_ * h * ei
                        pn = p / p.norm(dim=-1, keepdim=True)
                        Wp = G.hat(pn[..., 1:])
                        Rp = torch.eye(3, dtype=D64) + 2 * (pn[..., :1, None] * Wp + Wp @ Wp)
                        acc = acc + sg * c * ref.rot_log(want.transpose(-1, -2) @ Rp) / h
                cols.append(acc)
            fd = torch.stack(cols, -1)
            # ambient Jacobian: tangent part of q only
            t = case.randn(*q.shape)
            t = t - (t * qn).sum(-1, keepdim=True) * qn
            got = (Jq.double() @ t.unsqueeze(-1)).squeeze(-1)
            want_d = (fd @ t.unsqueeze(-1)).squeeze(-1)
            unit = (q.double().norm(dim=-1) - 1).abs().max() < 1e-6
            if unit or True:
                case.close(got, want_d, 1e-6 if dtype == D64 else 1e-3,
                           "jacobian quaternion_to_rotation", rtol=1e-3 if dtype == D32 else 1e-6)
    # validity checks inside enable_checks, off outside
    with F.enable_checks():
        fn.check_group_tensor(x.to(dtype))
        case.raises(ValueError, lambda: fn.check_group_tensor((x * 1.3).to(dtype)),
                    "an invalid group tensor is rejected while checks are enabled")
        case.raises(ValueError, lambda: lt((x * 1.3).to(dtype)), "LieTensor construction is checked")
        H = fn.hat(_tan(case, G, sa).to(dtype))
        fn.check_hat_tensor(H)
        Hb = H.clone()
        Hb[..., 0, 1] += 1.0
        case.raises(ValueError, lambda: fn.check_hat_tensor(Hb), "an invalid hat matrix is rejected")
    fn.check_group_tensor((x * 1.3).to(dtype))
    case.event("checks on/off")


def sc_lietensor(case):
    """retract/local, in-place optimiser update, type discipline."""
    name = case.choice(["SO3", "SE3"])
    G, fn, lt = ref.group(name), FN[name], LT[name]
    other = LT["SE3" if name == "SO3" else "SO3"]
    dtype = pick_dtype(case)
    B = case.choice([1, 2, 3])
    u, d = _tan(case, G, (B,)), _tan(case, G, (B,))
    M = G.exp(u)
    x = lt(G.tensor(M).to(dtype))
    case.sig(name, u, d)
    M = G.mat(x._t)
    d = d.to(dtype)
    sc = float(1 + M.abs().max())
    Z = M @ G.exp(d)
    y = x.retract(d)
    tv = tol_value(G, ang(G, d.double()), lin_norm(G, d.double()), dtype, "exp") * sc
    _relerr(case, G.mat(y._t), Z, tv, f"LieTensor.retract[{name}]", 2)
    l = x.local(y)
    Y = G.inv(M) @ G.mat(y._t)
    tv = tol_value(G, G.angle(Y), lin_norm(G, l.double()), dtype, "log") * sc
    _relerr(case, G.exp(l), Y, tv, f"exp(LieTensor.local)[{name}]", 2)
    case.same(lie.local(x, y), l, "lie.local")
    case.raises((ValueError, TypeError), lambda: x.compose(other.rand(B, dtype=dtype)), "mixed types")
    case.raises((ValueError, TypeError), lambda: x.local(other.rand(B, dtype=dtype)), "mixed types")
    # SGD step with a leaf LieTensor: x exp(-lr * left_project(grad))
    leaf = lt(G.tensor(M).to(dtype))
    leaf.requires_grad_(True) if False else None
    leaf = lie.LieTensor(G.tensor(M).to(dtype), lt, requires_grad=True)
    tgt = lt(G.tensor(M @ G.exp(_tan(case, G, (B,)) * 0.3)).to(dtype))
    loss = (leaf.local(tgt) ** 2).sum()
    loss.backward()
    g = torch.Tensor(leaf.grad.detach().clone()) if False else leaf.grad.as_subclass(torch.Tensor).detach().clone()
    lr = case.logu(1e-3, 0.3)
    opt = torch.optim.SGD([leaf], lr=lr)
    opt.step()
    D = (lo.in_dirs(G, M) * g.double().unsqueeze(1)).flatten(2).sum(2)
    want = M @ G.exp(-lr * D)
    case.close(G.mat(leaf._t.detach()), want, (1e-3 if dtype == D32 else 1e-4) * sc *
               float(1 + D.abs().max()), f"LieTensor SGD step[{name}]")
    R = leaf._t.detach().double()[..., :3]
    case.close(R @ R.transpose(-1, -2), torch.eye(3, dtype=D64).expand(B, 3, 3),
               1e-8 if dtype == D64 else 1e-4, "leaf stays on the group")
    # euclidean context is restored, also after an exception
    case.raises(NotImplementedError, lambda: torch.sin(x), "torch function refused on LieTensor")
    try:
        with lie.as_euclidean():
            s = torch.sin(x)
            case.close(s, torch.sin(x._t), 0, "as_euclidean operates on raw data")
            raise KeyError
    except KeyError:
        pass
    case.check(not euclidean_enabled(), "as_euclidean is left on exit")
    case.raises(NotImplementedError, lambda: torch.sin(x), "torch function refused on LieTensor")
    # slicing, cat, clone, to
    i = case.randint(0, B - 1)
    s = x[i]
    case.check(isinstance(s, lie.LieTensor) and s.ltype == lt, "slice type")
    case.close(s._t.view(G.shape), x._t[i], 0, "slice")
    c = torch.cat([x, y])
    case.check(isinstance(c, lie.LieTensor) and c.ltype == lt, "cat type")
    case.close(c._t, torch.cat([x._t, y._t]), 0, "cat")
    z = x.to(torch.float64)
    case.check(isinstance(z, lie.LieTensor) and z.dtype == D64, "to")
    case.close(x.clone()._t, x._t, 0, "clone")


def _ptr(t):
    return t.untyped_storage().data_ptr() if not isinstance(t, lie.LieTensor) else t._t.untyped_storage().data_ptr()


def sc_construct(case):
    """Which constructors copy, keep the gradient's history, convert, or refuse; and the functions next to the methods."""
    name = case.choice(["SO3", "SE3"])
    G, fn, lt = ref.group(name), FN[name], LT[name]
    other = LT["SE3" if name == "SO3" else "SO3"]
    dtype = pick_dtype(case)
    B = case.choice([1, 2, 4])
    data = G.tensor(G.exp(_tan(case, G, (B,)))).to(dtype)
    need = case.chance(0.5)
    t = data.clone().requires_grad_(need)
    case.sig(name, data, need)
    case.describe(group=name, dtype=str(dtype), grad=need)

    def is_a(x, what, d=dtype):
        case.check(isinstance(x, lie.LieTensor) and x.ltype == lt and x.dtype == d and tuple(x.shape) == tuple(data.shape), f"type of {what}")

    base = lt(data)
    made = {"the type": lt(t), "LieTensor": lie.LieTensor(t, lt), "new_lietensor": base.new_lietensor(t)}
    for what, x in made.items():
        is_a(x, what)
        case.same(x._t, data, f"data of {what}")
        case.check(_ptr(x) != _ptr(t), f"{what} shares memory with the tensor it is made from")
        case.check(x.is_leaf and x.grad_fn is None, f"{what} is no leaf")
    share = {"from_tensor": lie.from_tensor(t, lt), "as_lietensor": lie.as_lietensor(t, lt, dtype=dtype),
             "cast": lie.cast(t, ltype=lt, dtype=dtype)}
    W = case.randn(*data.shape).to(dtype)
    for what, x in share.items():
        is_a(x, what)
        case.same(x._t, data, f"data of {what}")
        case.check(_ptr(x) == _ptr(t), f"{what} copies")
        case.check((x.grad_fn is not None) == need and x.requires_grad == need, f"gradient history of {what}")
        if need:
            g, = torch.autograd.grad((x._t * W).sum(), t)
            case.same(g, W, f"gradient through {what}")
    case.check(lie.as_lietensor(base, lt, dtype=dtype) is base, "as_lietensor of a LieTensor is another one")
    far = D32 if dtype == D64 else D64
    for what, x in (("as_lietensor", lie.as_lietensor(base, lt, dtype=far)), ("to", base.to(dtype=far)), ("to", base.to(far)),
                    ("as_lietensor of a tensor", lie.as_lietensor(t.detach(), lt, dtype=far)),
                    ("new_lietensor", base.new_lietensor(t.detach(), dtype=far))):
        is_a(x, what, far)
        case.same(x._t, data.to(far), f"converted data of {what}")
        case.check(_ptr(x) not in (_ptr(base), _ptr(t)), f"converting with {what} shares memory")
    c = base.clone()
    is_a(c, "clone")
    case.check(_ptr(c) != _ptr(base), "clone shares memory")
    x = base.new_lietensor(data.tolist())
    is_a(x, "new_lietensor of a list", torch.get_default_dtype())
    case.close(x._t, data, 1e-6, "data of new_lietensor of a list")
    with torch.no_grad():
        keep = data.clone()
        for x in made.values():
            x._t.zero_()
    case.same(t.detach(), keep, "editing a copy changes the tensor it is made from")
    # types
    case.raises((ValueError, TypeError), lambda: lie.as_lietensor(t), "a tensor without a type")
    with F.enable_checks():
        for f in (lambda: lie.from_tensor(data * 1.5, lt), lambda: lie.as_lietensor(data * 1.5, lt, dtype=dtype),
                  lambda: base.new_lietensor(data * 1.5), lambda: lt(data[..., :2])):
            case.raises(ValueError, f, "no element of the group")
    case.raises(ValueError, lambda: lt(data[..., :2]), "no element of the group")
    case.raises(NotImplementedError, lambda: base[0, 1], "an index past the batch")
    a = lie.LieTensor(data, lt)
    b = lt(G.tensor(G.exp(_tan(case, G, (B,)))).to(dtype))
    o = other.rand(B, dtype=dtype)
    case.raises(TypeError, lambda: a * data, "* with a plain tensor")
    case.raises(TypeError, lambda: a @ b, "@ with a LieTensor")
    case.raises((TypeError, ValueError), lambda: a * o, "* of two types")
    case.raises((TypeError, ValueError), lambda: torch.cat([a, o]), "cat of two types")
    case.raises(RuntimeError, lambda: a.add_(torch.zeros_like(data)), "add_ of a plain tensor")
    case.raises(RuntimeError, lambda: a.set_(o), "set_ of another type")
    case.raises(RuntimeError, lambda: a.set_(data), "set_ of a plain tensor")
    case.same(a._t, data, "a refused operation changes the tensor")
    # functions, methods, operators and the functional library
    p = case.randn(B, 3).to(dtype)
    d = _tan(case, G, (B,)).to(dtype)
    m, m4 = case.randn(B, 3, case.randint(1, 4)).to(dtype), case.randn(*data.shape).to(dtype)
    at, bt = a._t, b._t
    for what, fs, w in (
            ("log", (lambda: lie.log(a), a.log), fn.log(at)), ("adj", (lambda: lie.adj(a), a.adj), fn.adj(at)),
            ("inv", (lambda: lie.inv(a), a.inv), fn.inv(at)),
            ("compose", (lambda: lie.compose(a, b), lambda: a.compose(b), lambda: a * b), fn.compose(at, bt)),
            ("transform", (lambda: lie.transform(a, p), lambda: a.transform(p), lambda: a @ p), fn.transform(at, p)),
            ("untransform", (lambda: lie.untransform(a, p), lambda: a.untransform(p)), fn.untransform(at, p)),
            ("exp", (lambda: lt.exp(d),), fn.exp(d)),
            ("hat", (lambda: lt.hat(d),), fn.hat(d)),
            ("vee", (lambda: lt.vee(fn.hat(d)),), d),
            ("left_act", (lambda: lie.left_act(a, m), lambda: a.left_act(m)), fn.left_act(at, m)),
            ("left_project", (lambda: lie.left_project(a, m4), lambda: a.left_project(m4)), fn.left_project(at, m4)),
            ("lift", (lambda: lt.lift(d),), fn.lift(d)), ("project", (lambda: lt.project(m4),), fn.project(m4)),
            ("local", (lambda: lie.local(a, b), lambda: a.local(b)), fn.log(fn.compose(fn.inv(at), bt))),
            ("retract", (lambda: a.retract(d),), fn.compose(at, fn.exp(d)))):
        grp = what in ("inv", "compose", "exp", "retract")
        for f in fs:
            r = f()
            case.check(isinstance(r, lie.LieTensor) == grp, f"type of {what}")
            if grp:
                is_a(r, what)
            case.same(r._t if grp else r, w, f"{what} of LieTensors and of tensors")
    for what, fs, w in (
            ("jlog", (lambda: lie.jlog(a), a.jlog), fn.jlog(at)), ("jinv", (lambda: lie.jinv(a), a.jinv), fn.jinv(at)),
            ("jcompose", (lambda: lie.jcompose(a, b), lambda: a.jcompose(b)), fn.jcompose(at, bt)),
            ("jtransform", (lambda: lie.jtransform(a, p), lambda: a.jtransform(p)), fn.jtransform(at, p)),
            ("juntransform", (lambda: lie.juntransform(a, p), lambda: a.juntransform(p)), fn.juntransform(at, p)),
            ("jexp", (lambda: lt.jexp(d),), fn.jexp(d))):
        for f in fs:
            J, r = f()
            case.check(len(J) == len(w[0]), f"number of {what}'s Jacobians")
            for j, k in zip(J, w[0]):
                case.same(j, k, f"{what} of LieTensors and of tensors")
            case.same(r._t if isinstance(r, lie.LieTensor) else r, w[1], f"value of {what}")
    case.event(f"{name}/{'grad' if need else 'plain'}")


def sc_optim(case):
    """torch optimizers: the update they make to plain numbers, projected on the group at the current element."""
    name = case.choice(["SO3", "SE3"])
    G, lt = ref.group(name), LT[name]
    B = case.choice([1, 2, 3])
    lr = case.logu(1e-3, 0.1)
    kind = case.choice(["SGD", "momentum", "nesterov", "Adam", "RMSprop", "maximize"])

    def mk(ps):
        if kind in ("SGD", "maximize"):
            return torch.optim.SGD(ps, lr=lr, maximize=kind == "maximize")
        if kind in ("momentum", "nesterov"):
            return torch.optim.SGD(ps, lr=lr, momentum=mu, nesterov=kind == "nesterov")
        return (torch.optim.Adam if kind == "Adam" else torch.optim.RMSprop)(ps, lr=lr, eps=eps)
    mu, eps = float(case.rand((), lo=0.1, hi=0.95)), case.logu(1e-6, 1e-1)
    x = lie.LieTensor(G.tensor(G.exp(_tan(case, G, (B,)))), lt, requires_grad=True)
    p = torch.zeros(x.shape, dtype=D64, requires_grad=True)
    o1, o2 = mk([x]), mk([p])
    tgt = lt(G.tensor(G.mat(x._t.detach()) @ G.exp(case.randn(B, G.dof) * 0.4)))
    case.sig(name, kind, x._t.detach(), lr)
    case.describe(group=name, optimizer=kind, B=B)
    for k in range(case.randint(1, 4)):
        o1.zero_grad()
        loss = (x.local(tgt) ** 2).sum()
        loss.backward()
        g = x.grad.as_subclass(torch.Tensor).detach().clone()
        M = G.mat(x._t.detach().clone())
        old = p.detach().clone()
        p.grad = g.clone()
        o1.step()
        o2.step()
        U = p.detach() - old
        D = (lo.in_dirs(G, M) * U.unsqueeze(1)).flatten(2).sum(2)
        if float(D.norm(dim=1).max()) > 3:
            raise Skip()
        want = M @ G.exp(D)
        case.close(G.mat(x._t.detach()), want, 2e-6 * float(1 + M.abs().max()) * float(1 + D.abs().max()), f"step {k} of {kind} [{name}]")
        case.check(x.is_leaf and x.requires_grad and x.ltype == lt, "the parameter is no leaf any more")
    case.event(kind)


def sc_vmap(case):
    """vmap over the leading dimension equals the batched call."""
    name = case.choice(["SO3", "SE3"])
    G, fn = ref.group(name), FN[name]
    op = case.choice(["exp", "log", "compose", "inverse", "transform", "untransform"])
    B, K = case.randint(2, 4), case.randint(1, 3)
    mk = lambda: G.tensor(G.exp(_tan(case, G, (B, K))))  # noqa: E731
    args = {"exp": lambda: [_tan(case, G, (B, K))], "log": lambda: [mk()], "inverse": lambda: [mk()],
            "compose": lambda: [mk(), mk()], "transform": lambda: [mk(), case.randn(B, K, 3)],
            "untransform": lambda: [mk(), case.randn(B, K, 3)]}[op]()
    case.sig(name, op, *args)
    f = getattr(fn, FNAME.get(op, op))
    want = f(*args)
    got = torch.vmap(f)(*args)
    case.close(got, want, 1e-10, f"vmap {op}[{name}]", rtol=1e-9)
    if op in ("exp", "compose", "transform", "untransform"):
        W = case.randn(*want.shape[1:])

        def g(*a):
            return (f(*a) * W).sum()
        gr = torch.vmap(torch.func.grad(g))(*args)
        leaf = args[0].clone().requires_grad_(True)
        (f(leaf, *args[1:]) * W).sum().backward()
        case.close(gr, leaf.grad, 1e-9, f"vmap(grad {op})[{name}]", rtol=1e-8)


SCENARIOS = {
    "ops": Scenario(sc_ops, 1500, 15000),
    "linear": Scenario(sc_linear, 300, 3000),
    "make": Scenario(sc_make, 300, 3000),
    "lietensor": Scenario(sc_lietensor, 300, 3000),
    "construct": Scenario(sc_construct, 150, 1500),
    "optim": Scenario(sc_optim, 200, 2000),
    "vmap": Scenario(sc_vmap, 200, 1500),
}
