"""C18: every Lie group class implements its mathematical matrix group."""
import math

import torch

import theseus as th
from theseus.geometry import lie_group as lg

from .. import ref
from ..core import D32, D64, Scenario, Skip
from ..geo import (CLS, ang, close_b, lin_norm, make, pick_dtype, pick_group, tangents,
                   tol_value)

QUICK = 3  # so many times each scenario's quick cases
ID = "C18"
RULE = ("a case is one call sequence on random group elements (batch 1-5, both dtypes, each "
        "batch element in its own angle regime: 0, log-uniform small, generic, near pi, pi); "
        "distinct = different inputs, non-trivial = an oracle compared the result with the "
        "float64 matrix reference")
ASSUMPTIONS = ["inside the library's documented small-angle and near-pi thresholds only the "
               "accuracy of its approximation order is required"]


def _mixed(case, G, cls, dtype, B, **kw):
    u = tangents(case, G, B, **kw)
    t = G.tensor(G.exp(u)).to(dtype)
    return make(case, G, cls, t, dtype), u


def _eps(dtype):
    return 1e-10 if dtype == D64 else 2e-5


def _start(case, **kw):
    G, cls = pick_group(case, **kw)
    dtype = pick_dtype(case)
    B = case.choice([1, 1, 2, 3, 5])
    case.describe(group=G.name, dof=G.dof, dtype=str(dtype), batch=B)
    return G, cls, dtype, B


def sc_exp_log(case):
    G, cls, dtype, B = _start(case)
    u = tangents(case, G, B, big=True).to(dtype)
    case.sig(G.name, dtype, u)
    u64 = u.double()
    tol = tol_value(G, ang(G, u64), lin_norm(G, u64), dtype, "exp")
    before = u.clone()
    if G.name == "Vector":
        g = th.Vector.exp_map(u)
    else:
        g = cls.exp_map(u)
    case.check(type(g) is cls and g.dtype == dtype, f"exp_map[{G.name}] type/dtype")
    case.same(u, before, "exp_map must not change its input")
    close_b(case, G.mat(g.tensor), G.exp(u64), tol, f"exp[{G.name}]")
    # aliases agree
    case.same(lg.exp_map(g, u).tensor, g.tensor, "exp_map alias")

    # log of an exactly given element
    x, _ = _mixed(case, G, cls, dtype, B)
    M = G.mat(x.tensor)
    th_ = G.angle(M)
    l = x.log_map()
    case.check(l.dtype == dtype, "log dtype")
    lin = lin_norm(G, l.detach().double())
    tol = tol_value(G, th_, lin, dtype, "log")
    close_b(case, G.exp(l), M, tol, f"exp_ref(log)[{G.name}]")
    case.check((ang(G, l.double()) <= math.pi + (1e-5 if dtype == D32 else 1e-6)).all(),
               "log angle must be in [0, pi]")
    away = th_ < math.pi - (0.3 if dtype == D32 else 1e-2)
    if away.any():
        close_b(case, l[away], G.log(M)[away], tol[away], f"log[{G.name}]")
        case.event("log away from pi", int(away.sum()))
    case.event("log near pi", int((~away).sum()))
    case.same(lg.log_map(x), l, "log alias")
    # mixed batches do not interact: element b alone gives the same answer
    if B > 1:
        b = case.randint(0, B - 1)
        xb = make(case, G, cls, x.tensor[b:b + 1], dtype)
        close_b(case, xb.log_map(), l[b:b + 1], tol[b:b + 1] * 1e-3 + 1e-15 +
                (1e-6 if dtype == D32 else 0), "log of one element of the batch")


def sc_ops(case):
    G, cls, dtype, B = _start(case)
    b1 = B if case.chance(0.8) else 1
    x, ux = _mixed(case, G, cls, dtype, B)
    y, uy = _mixed(case, G, cls, dtype, b1)
    if b1 != B:  # broadcasting a batch of size one
        if G.name in ("SE2", "Vector", "Point2", "Point3") and False:
            raise Skip
    case.sig(G.name, dtype, ux, uy)
    X, Y = G.mat(x.tensor), G.mat(y.tensor)
    e = _eps(dtype)
    sc = float(1 + X.abs().max() + Y.abs().max()) ** 2
    keep = (x.tensor.clone(), y.tensor.clone())
    z = x.compose(y)
    case.check(type(z) is cls and z.dtype == dtype, "compose type")
    case.close(G.mat(z.tensor), X @ Y, e * sc, f"compose[{G.name}]")
    case.same(lg.compose(x, y).tensor, z.tensor, "compose alias")
    z = x.inverse()
    case.check(type(z) is cls and z.dtype == dtype, "inverse type")
    case.close(G.mat(z.tensor), G.inv(X), e * sc, f"inverse[{G.name}]")
    case.same(lg.inverse(x).tensor, z.tensor, "inverse alias")
    z = x.between(y)
    case.close(G.mat(z.tensor), G.inv(X) @ Y, e * sc, f"between[{G.name}]")
    case.same(lg.between(x, y).tensor, z.tensor, "between alias")
    case.close(x.adjoint(), G.Ad(X), e * sc, f"adjoint[{G.name}]")
    case.same(lg.adjoint(x), x.adjoint(), "adjoint alias")
    M = x.to_matrix()
    if G.ang_slice() is not None:
        case.close(M, X, 0.0, f"to_matrix[{G.name}]")
    # local / retract against the reference
    d = tangents(case, G, max(B, b1) if case.chance(0.7) else B)[:B].to(dtype)
    r = x.retract(d)
    tol = tol_value(G, ang(G, d.double()), lin_norm(G, d.double()), dtype, "exp") * sc
    close_b(case, G.mat(r.tensor), X @ G.exp(d), tol, f"retract[{G.name}]")
    case.same(th.retract(x, d).tensor, r.tensor, "retract alias")
    D = G.inv(X) @ Y
    l = x.local(y)
    t_ = G.angle(D)
    tol = tol_value(G, t_, lin_norm(G, l.double()), dtype, "log") * sc
    close_b(case, G.exp(l), D, tol, f"exp(local)[{G.name}]")
    case.same(th.local(x, y), l, "local alias")
    case.same(x.tensor, keep[0], "operations must not change their arguments")
    case.same(y.tensor, keep[1], "operations must not change their arguments")
    case.event("batch broadcast" if b1 != B else "equal batch")


def sc_random(case):
    """Random elements: valid, of the asked size, dtype and gradient, and decided by the generator."""
    G, cls, dtype, B = _start(case)
    need, how, seed = case.chance(0.5), case.choice(["rand", "randn"]), case.randint(0, 10 ** 6)
    size = (B, cls.rand(1, 2).dof()) if cls is th.Vector else (B,)
    case.sig(G.name, how, seed, B)
    make = lambda s, d, r: getattr(cls, how)(*size, generator=torch.Generator().manual_seed(s), dtype=d, requires_grad=r)  # noqa: E731
    x = make(seed, dtype, need)
    case.check(type(x) is cls and x.shape[0] == B and x.dtype == dtype, f"{cls.__name__}.{how}: class, batch size and dtype")
    case.check(x.tensor.requires_grad == need, f"{cls.__name__}.{how}: requires_grad")
    y = make(seed, dtype, not need)
    case.same(y.tensor.detach(), x.tensor.detach(), f"{cls.__name__}.{how}: same generator state, other element")
    z = make(seed + 1, dtype, need)
    case.check(not torch.equal(z.tensor.detach(), x.tensor.detach()), f"{cls.__name__}.{how}: the generator decides the element")
    if G.name in ("SO2", "SE2", "SO3", "SE3"):
        n = int(G.name[2])
        R = G.mat(x.tensor.detach())[:, :n, :n].double()
        case.close(R @ R.transpose(1, 2), torch.eye(n, dtype=D64).expand(B, n, n), 1e-9 if dtype == D64 else 1e-5, f"{cls.__name__}.{how}: a rotation")
        case.close(torch.linalg.det(R), torch.ones(B, dtype=D64), 1e-9 if dtype == D64 else 1e-5, f"{cls.__name__}.{how}: a rotation")
    case.raises(ValueError, lambda: getattr(cls, how)(B, B, B), f"{cls.__name__}.{how}: wrong size")


def sc_hat_vee(case):
    G, cls, dtype, B = _start(case, names=("SO2", "SE2", "SO3", "SE3"))
    u = tangents(case, G, B, big=True).to(dtype)
    case.sig(G.name, dtype, u)
    H = cls.hat(u)
    want = G.hat(u)
    case.close(H, want, 0.0, f"hat[{G.name}]")
    case.check(H.dtype == dtype, "hat dtype")
    v = cls.vee(H)
    case.close(v, u, 1e-6 if dtype == D32 else 1e-12, f"vee(hat)[{G.name}]", rtol=1e-6)
    bad = H.clone()
    k = case.randint(0, B - 1)
    i, j = case.choice([(0, 1), (1, 0), (0, 0), (1, 1)])
    bad[k, i, j] += case.choice([-1, 1]) * (0.5 + float(u.abs().max()) * 2)
    case.raises(ValueError, lambda: cls.vee(bad), f"{G.name}.vee of a matrix that is not in the algebra",
                f"unchecked-vee/{G.name}")


def sc_project(case):
    """project() maps a Euclidean gradient to the gradient along the tangent basis."""
    G, cls, dtype, B = _start(case)
    x, u = _mixed(case, G, cls, dtype, B, lin=1.0)
    M = G.mat(x.tensor)
    # d tensor / d tangent_i
    J = torch.stack([G.tensor(M @ G.basis[i]) for i in range(G.dof)], dim=1)
    if G.ang_slice() is None:
        J = torch.eye(G.dof, dtype=D64).expand(B, -1, -1)
    e = 1e-10 if dtype == D64 else 1e-4
    nd = len(G.shape)
    mode = case.choice(["plain", "lead", "sparse", "sparse_lead"])
    case.describe(mode=mode)
    if mode == "plain":
        E = case.randn(B, *G.shape, dtype=dtype)
        got = x.project(E)
        want = (J * E.double().unsqueeze(1)).flatten(2).sum(2)
    elif mode == "lead":
        k = case.randint(1, 4)
        E = case.randn(k, B, *G.shape, dtype=dtype)
        got = x.project(E)
        want = (J.unsqueeze(0) * E.double().unsqueeze(2)).flatten(3).sum(3)
    else:
        k = case.randint(1, 4)
        E = case.randn(B, k, *G.shape, dtype=dtype)
        got = x.project(E, is_sparse=True)
        want = (J.unsqueeze(1) * E.double().unsqueeze(2)).flatten(3).sum(3)
    case.sig(G.name, mode, u, E)
    case.close(got, want, e * float(1 + M.abs().max()), f"project[{G.name} {mode}]")


def sc_actions(case):
    G, cls, dtype, B = _start(case, names=("SO2", "SE2", "SO3", "SE3"))
    x, u = _mixed(case, G, cls, dtype, B)
    n = 2 if G.name in ("SO2", "SE2") else 3
    bp = B if case.chance(0.7) else 1
    if B == 1 and case.chance(0.4):
        bp = case.randint(2, 4)
    p = case.randn(bp, n, dtype=dtype, scale=case.choice([0.1, 1.0, 20.0]))
    P = {2: th.Point2, 3: th.Point3}[n](tensor=p) if case.chance(0.5) else p
    case.sig(G.name, u, p)
    M = G.mat(x.tensor)
    tol = (1e-11 if dtype == D64 else 3e-5) * float(1 + M.abs().max()) * float(1 + p.abs().max())
    Mi = G.inv(M)

    def act(A):
        if G.name in ("SO2", "SO3"):
            return (A @ p.double().unsqueeze(-1)).squeeze(-1)
        return (A[:, :n, :n] @ p.double().unsqueeze(-1)).squeeze(-1) + A[:, :n, n]

    f, b = ("rotate", "unrotate") if G.name in ("SO2", "SO3") else ("transform_from", "transform_to")
    r = getattr(x, f)(P)
    case.check(isinstance(r, th.Point2 if n == 2 else th.Point3), "result type")
    case.close(r.tensor, act(M), tol, f"{f}[{G.name}]")
    r = getattr(x, b)(P)
    case.close(r.tensor, act(Mi), tol, f"{b}[{G.name}]")


def sc_repr(case):
    """Accessors, alternative parametrisations and constructors describe one element."""
    G, cls, dtype, B = _start(case, names=("SO2", "SE2", "SO3", "SE3"))
    x, u = _mixed(case, G, cls, dtype, B)
    case.sig(G.name, u)
    M = G.mat(x.tensor)
    e = 1e-10 if dtype == D64 else 1e-5
    case.check(x.name in repr(x) and x.name in str(x) and G.name in repr(x), "repr without name or class")
    if G.name == "SO2":
        th_ = case.rand(B, 1, lo=-7, hi=7, dtype=dtype)
        case.close(G.mat(th.SO2(theta=th_).tensor), G.exp(th_), e, "SO2(theta)")
        y = th.SO2(dtype=dtype)
        y.update_from_angle(th_)
        case.close(G.mat(y.tensor), G.exp(th_), e, "update_from_angle")
        c, s = x.to_cos_sin()
        case.same(torch.stack([c, s], 1), x.tensor, "to_cos_sin")
        case.close(x.theta(), G.log(M), e, "SO2.theta")
    elif G.name == "SE2":
        xyt = case.randn(B, 3, scale=2.0, dtype=dtype)
        y = th.SE2(x_y_theta=xyt) if case.chance(0.5) else th.SE2(dtype=dtype)
        if case.chance(0.5):
            y.update_from_x_y_theta(xyt)
        else:
            y.update_from_rot_and_trans(th.SO2(theta=xyt[:, 2:]), th.Point2(tensor=xyt[:, :2]))
        want = torch.cat([xyt[:, :2].double(), xyt[:, 2:].double().cos(), xyt[:, 2:].double().sin()], 1)
        case.close(y.tensor, want, e, "SE2 from x,y,theta")
        case.close(th.SE2(x_y_theta=xyt).tensor, want, e, "SE2(x_y_theta)")
        case.close(x.rotation.tensor, x.tensor[:, 2:], 0, "SE2.rotation")
        case.close(x.translation.tensor, x.tensor[:, :2], 0, "SE2.translation")
        case.close(x.xy().tensor, x.tensor[:, :2], 0, "SE2.xy")
        case.close(x.theta(), ref.SO2.log(ref.SO2.mat(x.tensor[:, 2:])), e, "SE2.theta")
    else:
        R = M[:, :3, :3]
        if G.name == "SO3":
            q = x.to_quaternion()
        else:
            q7 = x.to_x_y_z_quaternion()
            case.close(q7[:, :3], M[:, :3, 3], 0, "quaternion translation part")
            q = q7[:, 3:]
            case.close(x.rotation().tensor, R, 0, "SE3.rotation")
            case.close(x.translation().tensor, M[:, :3, 3], 0, "SE3.translation")
        th_ = G.angle(M)
        tq = torch.where((math.pi - th_).abs() < (0.3 if dtype == D32 else 1e-2),
                         2e-3 if dtype == D32 else 3e-7, 1e-4 if dtype == D32 else 1e-9).double()
        qr = ref.rot_quat(R)
        sgn = torch.where((qr * q.double()).sum(1, keepdim=True) < 0, -1.0, 1.0)
        close_b(case, q, qr * sgn, tq, f"to_quaternion[{G.name}]")
        case.check((q[:, 0] >= -1e-3).all(), "scalar part of the quaternion is non-negative")
        # from quaternions
        q = case.randn(B, 4)
        q = (q / q.norm(dim=1, keepdim=True)).to(dtype)
        w, v = q[:, 0].double(), q[:, 1:].double()
        n = w * w + (v * v).sum(1)
        W = ref.SO3.hat(v)
        Rq = torch.eye(3, dtype=D64) + 2 * (w.view(-1, 1, 1) * W + W @ W) / n.view(-1, 1, 1)
        # gradients of elements made from quaternions (a step along the unit sphere and off it)
        t0, qg = case.randn(B, 3), q.double().clone().requires_grad_(True)
        V = case.randn(B, 3, 3)
        so3, se3 = G.name == "SO3", G.name == "SE3"
        with torch.enable_grad():
            if so3:
                z = case.choice([lambda: th.SO3(quaternion=qg), lambda: th.SO3.unit_quaternion_to_SO3(qg)])().tensor
            else:
                z = case.choice([lambda a: th.SE3(x_y_z_quaternion=a), lambda a: th.SE3.x_y_z_unit_quaternion_to_SE3(a)])(
                    torch.cat([t0, qg], 1)).tensor[:, :, :3]
            gq = torch.autograd.grad((V * z).sum(), qg)[0]

            def closed(p):
                p = p / p.norm(dim=1, keepdim=True)
                P = ref.SO3.hat(p[:, 1:])
                return torch.eye(3, dtype=D64) + 2 * (p[:, :1, None] * P + P @ P)
            wq = torch.autograd.grad((V * closed(qg)).sum(), qg)[0]
        case.close(gq, wq, 1e-5 * (1 + float(V.abs().max())) if dtype == D32 else 1e-9, "gradient of a quaternion's rotation")
        # a single quaternion is a batch of one
        if so3:
            one = case.choice([lambda: th.SO3(quaternion=q[0]), lambda: th.SO3.unit_quaternion_to_SO3(q[0])])()
        else:
            one = case.choice([lambda: th.SE3(x_y_z_quaternion=torch.cat([t0[0].to(dtype), q[0]])),
                               lambda: th.SE3.x_y_z_unit_quaternion_to_SE3(torch.cat([t0[0].to(dtype), q[0]]))])()
        case.check(one.shape[0] == 1 and one.dtype == dtype, "a single quaternion", shape=tuple(one.shape))
        case.close(one.tensor[..., :3], Rq[:1], e, "a single quaternion")
        bad = torch.ones(B, (4 if so3 else 7) + case.choice([-1, 1]), dtype=dtype)
        case.raises(ValueError, lambda: th.SO3.unit_quaternion_to_SO3(bad) if so3 else th.SE3.x_y_z_unit_quaternion_to_SE3(bad),
                    "a quaternion of the wrong length")
        if G.name == "SO3":
            for y in (th.SO3(quaternion=q), th.SO3.unit_quaternion_to_SO3(q)):
                case.close(y.tensor, Rq, e, "SO3 from quaternion")
            y = th.SO3(dtype=dtype)
            y.update_from_unit_quaternion(q)
            case.close(y.tensor, Rq, e, "SO3.update_from_unit_quaternion")
        else:
            t = case.randn(B, 3, scale=3.0, dtype=dtype)
            q7 = torch.cat([t, q], 1)
            want = torch.cat([Rq, t.double().unsqueeze(-1)], -1)
            for y in (th.SE3(x_y_z_quaternion=q7), th.SE3.x_y_z_unit_quaternion_to_SE3(q7)):
                case.close(y.tensor, want, e, "SE3 from quaternion")
            y = th.SE3(dtype=dtype)
            y.update_from_x_y_z_quaternion(q7)
            case.close(y.tensor, want, e, "SE3.update_from_x_y_z_quaternion")
            y = th.SE3(dtype=dtype)
            y.update_from_rot_and_trans(th.SO3(tensor=Rq.to(dtype), disable_checks=True),
                                        th.Point3(tensor=t))
            case.close(y.tensor, want, e, "SE3.update_from_rot_and_trans")


def sc_normalize(case):
    """Constructing or updating from a nearly valid tensor yields the nearby group
    element; random elements are valid and reproducible."""
    G, cls, dtype, B = _start(case, names=("SO2", "SE2", "SO3", "SE3"))
    x, u = _mixed(case, G, cls, dtype, B, lin=1.0)
    noise = case.logu(1e-8, 5e-2)
    bad = x.tensor + case.randn(*x.tensor.shape, dtype=dtype, scale=noise)
    case.sig(G.name, u, noise)
    case.describe(noise=noise)
    e = 1e-9 if dtype == D64 else 1e-5

    def valid(t, what):
        t = t.double()
        if G.name in ("SO2", "SE2"):
            r = t if G.name == "SO2" else t[:, 2:]
            case.close(r.norm(dim=1), torch.ones(t.shape[0]), e, f"{what} is a rotation")
        else:
            R = t[:, :, :3]
            case.close(R @ R.transpose(1, 2), torch.eye(3).expand(t.shape[0], 3, 3), e,
                       f"{what} is orthogonal")
            case.close(torch.linalg.det(R), torch.ones(t.shape[0]), e, f"{what} has det 1")

    def valid_loose(t, key):  # up to the documented validity thresholds
        M = G.mat(t)
        R = M[:, :-1, :-1] if G.name in ("SE2", "SE3") else M
        k = R.shape[-1]
        case.close(R @ R.transpose(1, 2), torch.eye(k).expand(B, k, k),
                   2e-3 if dtype == D32 else 4e-6, "checked construction gives a group element", key=key)

    n = cls.normalize(bad)
    valid(n, "normalized")
    case.close(n, bad, 10 * noise + e, "normalization stays close to its input")
    if G.name in ("SO2", "SE2"):  # a vector without a direction still gives a rotation
        z = bad.clone()
        z[0, -2:] = 0
        valid(cls.normalize(z), "normalized zero vector")
        case.event("zero vector")
    # optimality: the nearest rotation
    if G.name in ("SO3", "SE3"):
        R, N = bad.double()[:, :, :3], n.double()[:, :, :3]
        S = N.transpose(1, 2) @ R  # symmetric at the polar factor
        case.close(S - S.transpose(1, 2), torch.zeros_like(S), 1e-8 if dtype == D64 else 1e-4,
                   "normalization is the nearest rotation")
    else:
        r, q = (bad, n) if G.name == "SO2" else (bad[:, 2:], n[:, 2:])
        cr = r.double()[:, 0] * q.double()[:, 1] - r.double()[:, 1] * q.double()[:, 0]
        case.close(cr, torch.zeros(B), e, "normalization keeps the direction")
    if G.name in ("SE2", "SE3"):
        sl = (slice(None), slice(0, 2)) if G.name == "SE2" else (slice(None), slice(None), 3)
        case.same(n[sl], bad[sl], "normalization keeps the translation")
    case.close(cls.normalize(x.tensor), x.tensor, e, "normalize(valid) is the identity")
    with th.enable_lie_group_check():
        y = cls(tensor=bad)
        key = f"unchecked-construction/{G.name}"
        valid_loose(y.tensor, key)
        case.raises(ValueError, lambda: cls(tensor=x.tensor * 1.5, strict_checks=True),
                    "a tensor far from the group must be rejected under strict checks", key=key)
        y = cls(tensor=x.tensor, strict_checks=True)
        case.same(y.tensor, x.tensor, "a valid tensor is stored unchanged")
    # random elements
    s = case.rng.getrandbits(30)
    for f in ("rand", "randn"):
        a = getattr(cls, f)(B, generator=torch.Generator().manual_seed(s), dtype=dtype)
        b = getattr(cls, f)(B, generator=torch.Generator().manual_seed(s), dtype=dtype)
        case.same(a.tensor, b.tensor, f"{f} is a function of the generator")
        case.check(type(a) is cls and a.shape[0] == B and a.dtype == dtype, f"{f} type")
        valid(a.tensor, f)


def sc_vector(case):
    """Vector arithmetic is elementwise and keeps the concrete class."""
    G, cls, dtype, B = _start(case, names=("Vector", "Point2", "Point3"))
    a, b = case.randn(B, G.dof, dtype=dtype), case.randn(B, G.dof, dtype=dtype)
    b = torch.where(b.abs() < 0.1, torch.full_like(b, 0.5), b)
    x, y = make(case, G, cls, a, dtype), make(case, G, cls, b, dtype)
    case.sig(G.name, a, b)
    s = torch.tensor(case.rng.uniform(0.5, 2), dtype=dtype)
    for got, want in ((x + y, a + b), (x - y, a - b), (-x, -a), (x * y, a * b), (x / y, a / b),
                      (x * s, a * s), (x / s, a / s), (s * x if False else x * s, a * s),
                      (x.abs(), a.abs())):
        case.check(type(got) is cls, f"vector operator keeps the class, got {type(got).__name__}")
        case.close(got.tensor, want, 0, "vector operator")
    for other in (x, y):  # operators leave their operands alone and share nothing with them
        for r in (x + other, -x, x * other, x / other, x.abs(), x - other, x.cat(other), x * s):
            case.check(r.tensor.data_ptr() != x.tensor.data_ptr() and r.tensor.data_ptr() != y.tensor.data_ptr(),
                       "the result of a vector operator shares memory with an operand")
    case.same(x.tensor, a, "a vector operator changed its operand")
    case.same(y.tensor, b, "a vector operator changed its operand")
    full = case.randn(case.choice([1, B]), G.dof, dtype=dtype).abs() + 0.3
    case.close((x * full).tensor, a * full, 0, "vector times tensor")
    case.close((x / full).tensor, a / full, 0, "vector over tensor")
    case.raises(ValueError, lambda: x * "2", "vector times a string")
    case.raises(ValueError, lambda: x / 2.5 if case.chance(0.5) else x @ x, "vector over a number")
    for op in (lambda: x @ a, lambda: x.__rmatmul__(a)):
        case.raises(ValueError, op, "matrix product with a 2-D tensor")
    one = cls(tensor=a[0]) if G.name != "Vector" or case.chance(0.5) else th.Vector(tensor=a[0], dof=None)
    case.same(one.tensor, a[:1], "a vector from a 1-D tensor")
    case.check(x.name in repr(x) and x.name in str(x) and cls.__name__ in repr(x), "repr without name or class")
    case.close(x.dot(y), (a * b).sum(1), 1e-5 if dtype == D32 else 1e-12, "dot")
    case.close(x.outer(y), a.unsqueeze(2) * b.unsqueeze(1), 1e-6, "outer")
    m = case.choice([dict(dim=1), dict(p=1, dim=1), dict(dim=1, keepdim=True)])
    case.close(x.norm(**m), torch.norm(a, **m), 1e-6, "norm")
    W = case.randn(B, G.dof, G.dof, dtype=dtype)
    case.close(x @ W, (a.double().unsqueeze(1) @ W.double()).squeeze(1),
               1e-4 if dtype == D32 else 1e-11, "vector @ matrix")
    case.close(x.__rmatmul__(W), (W.double() @ a.double().unsqueeze(2)).squeeze(2),
               1e-4 if dtype == D32 else 1e-11, "matrix @ vector")
    if True:
        c = case.choice([lambda: x.cat((y, x)), lambda: x.cat([y, x]), lambda: x.cat(y)])()
        case.check(type(c) is th.Vector, "class of a concatenation")
        want = torch.cat([a, b, a] if c.dof() == 3 * G.dof else [a, b], 1)
        case.close(c.tensor, want, 0, "cat")
    case.check(x.allclose(x.copy()) and not x.allclose(x + _one(cls, G, B, dtype)), "allclose")
    if G.name != "Vector":
        comps = [x.x(), x.y()] + ([x.z()] if G.name == "Point3" else [])
        case.same(torch.stack(comps, 1), a, "coordinates")
    g = torch.Generator().manual_seed(case.rng.getrandbits(30))
    r = cls.rand(B, *([G.dof] if G.name == "Vector" else []), generator=g, dtype=dtype)
    case.check(type(r) is cls and tuple(r.shape) == (B, G.dof) and r.dtype == dtype, "rand")


def _one(cls, G, B, dtype):
    return cls(tensor=torch.full((B, G.dof), 5.0, dtype=dtype))


SCENARIOS = {
    "exp_log": Scenario(sc_exp_log, 1200, 12000),
    "ops": Scenario(sc_ops, 1000, 10000),
    "random": Scenario(sc_random, 200, 2000),
    "hat_vee": Scenario(sc_hat_vee, 300, 3000),
    "project": Scenario(sc_project, 500, 5000),
    "actions": Scenario(sc_actions, 500, 5000),
    "repr": Scenario(sc_repr, 700, 8000),
    "normalize": Scenario(sc_normalize, 400, 4000),
    "vector": Scenario(sc_vector, 150, 1500),
}
