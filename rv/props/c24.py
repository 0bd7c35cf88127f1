"""C24: signed distance fields."""
import math
from fractions import Fraction

import torch

import theseus as th
from theseus.utils import gather_from_rows_cols

from .. import gen, geo
from ..core import D32, D64, Scenario, Skip

QUICK = 3  # so many times each scenario's quick cases
ID = "C24"
RULE = ("a case is a random field (given, or computed from an occupancy map) with random origins, cell sizes and batch "
        "shapes, queried at points inside, outside and exactly on nodes and borders, compared with a per-point "
        "reference; or a random history of a collision cost whose field variables are replaced")
ASSUMPTIONS = ["derivatives are not checked exactly on cell edges, where the field has a kink",
               "points within rounding of the border may count as inside or outside"]


def bil(s, r, c):
    """Bilinear interpolation inside the grid, per point, differentiable."""
    H, W = s.shape
    r0 = min(max(int(math.floor(float(r))), 0), H - 1)
    c0 = min(max(int(math.floor(float(c))), 0), W - 1)
    r1, c1 = min(r0 + 1, H - 1), min(c0 + 1, W - 1)
    fr, fc = r - r0, c - c0
    return (1 - fr) * ((1 - fc) * s[r0, c0] + fc * s[r0, c1]) + fr * ((1 - fc) * s[r1, c0] + fc * s[r1, c1])


def field(case, dtype, B=None):
    H, W = case.randint(2, 8), case.randint(2, 8)
    B = B or case.randint(1, 4)
    b = lambda: case.choice([1, B])  # noqa: E731
    sdf = case.randn(b(), H, W)
    origin = case.randn(b(), 2)
    cell = case.rand(b(), 1, lo=0.1, hi=1.5)
    if case.chance(0.3):  # positions on the grid can be given exactly
        origin = torch.round(origin * 4) / 4
        cell = 2.0 ** torch.floor(torch.log2(cell))
    if dtype == D32:
        sdf, origin, cell = sdf.to(D32), origin.to(D32), cell.to(D32)
    return B, sdf, origin, cell


def forms(case, origin, cell, sdf):
    """The same data as a tensor, variable or number."""
    o = origin if case.chance(0.5) else th.Point2(tensor=origin)
    k = case.choice(["tensor", "variable", "float", "flat"])
    c = cell
    if k == "variable":
        c = th.Variable(cell)
    elif k == "flat":
        c = th.Variable(cell.view(-1)) if case.chance(0.5) else cell.view(-1)
    elif k == "float" and cell.shape[0] == 1:
        c = float(cell)
    s = sdf if case.chance(0.5) else th.Variable(sdf)
    return o, c, s


def points(case, B, n, origin, cell, H, W, dtype):
    """(B,2,n) points; which are near the border or an edge."""
    o, c = origin.double().expand(B, 2), cell.double().expand(B, 1)
    P = torch.zeros(B, 2, n, dtype=D64)
    for b in range(B):
        for i in range(n):
            for a, N in ((0, W), (1, H)):
                u = case.rng.random()
                if u < 0.6:
                    t = case.rng.uniform(0, N - 1)
                elif u < 0.75:
                    t = float(case.randint(0, N - 1))
                elif u < 0.85:
                    t = case.choice([-1e-3, N - 1 + 1e-3, -0.5, N - 0.5])
                else:
                    t = case.rng.uniform(-2, N + 2)
                P[b, a, i] = o[b, a] + t * c[b, 0]
    return P.to(dtype)


def exact(p, o, c, N):
    """Whether the cell of this coordinate, and the map's end, are computed without rounding."""
    p, o, c = (Fraction(float(t)) for t in (p, o, c))
    fits = lambda x, d: Fraction(float(torch.tensor(float(x), dtype=d))) == x  # noqa: E731
    return all(fits(x, D32) for x in (p - o, (p - o) / c, (N - 1) * c, o + (N - 1) * c))


def query(case, f, B, sdf, origin, cell, bound, dtype, what):
    H, W = sdf.shape[1:]
    n = case.randint(1, 6)
    P = points(case, B, n, origin, cell, H, W, dtype)
    P0 = P.clone()
    d, J = f.signed_distance(P)
    case.check(tuple(d.shape) == (B, n) and tuple(J.shape) == (B, n, 2), "shapes", got=(tuple(d.shape), tuple(J.shape)))
    case.same(P, P0, "the points are unchanged")
    eps = 1e-9 if dtype == D64 else 1e-4
    so, oo, co = sdf.double().expand(B, H, W), origin.double().expand(B, 2), cell.double().expand(B, 1)
    scale = 1 + float(sdf.abs().max())
    for b in range(B):
        for i in range(n):
            p = P[b, :, i].double().clone().requires_grad_(True)
            c, r = (p[0] - oo[b, 0]) / co[b, 0], (p[1] - oo[b, 1]) / co[b, 0]
            fc, fr = float(c), float(r)
            border = min(abs(fc), abs(fr), abs(fc - (W - 1)), abs(fr - (H - 1)))
            inside = 0 <= fc <= W - 1 and 0 <= fr <= H - 1
            got = d[b, i].double()
            v = bil(so[b], r, c)
            if border < 1e-4:
                if exact(P[b, 0, i], origin.expand(B, 2)[b, 0], cell.expand(B, 1)[b, 0], W) and \
                        exact(P[b, 1, i], origin.expand(B, 2)[b, 1], cell.expand(B, 1)[b, 0], H):
                    want = v if inside else torch.tensor(bound, dtype=D64)
                    case.close(got, want, eps * 10 * scale, f"distance exactly on the border ({what})")
                    case.event("exactly on the border")
                    continue
                near = max(-fc, -fr, fc - (W - 1), fr - (H - 1)) < 1e-4
                ok = abs(float(got - bound)) < 1e-6 or (near and abs(float(got - v)) < 1e-2 * scale)
                case.check(ok, f"distance on the border ({what})", got=float(got), want=(float(v), bound))
                case.event("border")
                continue
            if not inside:
                case.close(got, torch.tensor(bound, dtype=D64), 1e-6, f"distance outside ({what})")
                case.close(J[b, i], torch.zeros(2), 0.0, f"derivative outside ({what})")
                case.event("outside")
                continue
            case.close(got, v, eps * 10 * scale, f"distance inside ({what})")
            edge = min(abs(fc - round(fc)), abs(fr - round(fr)))
            if edge > 1e-4:
                g, = torch.autograd.grad(v, p)
                case.close(J[b, i], g, eps * 100 * scale / float(co[b, 0]), f"derivative inside ({what})")
                case.event("inside")
            else:
                case.event("edge")
    return P, d


def sc_query(case):
    """Queries of a field, before and after its data are replaced."""
    dtype = case.choice([D64, D64, D32])
    B, sdf, origin, cell = field(case, dtype)
    bound = case.choice([0.0, 0.0, -1.5, 7.25])
    o, c, s = forms(case, origin, cell, sdf)
    if isinstance(c, float):
        cell = torch.tensor([[c]]).to(dtype)  # as stored
    kw = {} if bound == 0.0 else dict(sdf_boundary_value=bound)
    f = th.eb.SignedDistanceField2D(o, c, s, **kw)
    case.sig(sdf, origin, cell, bound)
    case.describe(B=B, shape=tuple(sdf.shape), dtype=str(dtype), origin=tuple(origin.shape), cell=tuple(cell.shape))
    query(case, f, B, sdf, origin, cell, bound, dtype, "first")
    for _ in range(case.randint(0, 2)):
        k = case.choice(["update", "to", "inplace"])
        if k == "update":
            B, sdf, origin, cell = field(case, dtype)
            o, c, s = forms(case, origin, cell, sdf)
            f.update_data(o, s, c)
            if f.cell_size.dtype != dtype:
                cell = f.cell_size.tensor.view(-1, 1).to(dtype)
        elif k == "inplace":
            B = max(sdf.shape[0], origin.shape[0], cell.shape[0], B)
            sdf = case.randn(*sdf.shape).to(dtype)
            f.sdf_data.update(sdf)
        else:
            dtype = case.choice([D32, D64])
            f.to(dtype)
            sdf, origin, cell = sdf.to(dtype), origin.to(dtype), cell.to(dtype)
        case.event(k)
        query(case, f, B, sdf, origin, cell, bound, dtype, "after " + k)
    case.raises(ValueError, lambda: th.eb.SignedDistanceField2D(origin, cell), "no field")
    case.raises(ValueError, lambda: th.eb.SignedDistanceField2D(origin, cell, sdf, occupancy_map=sdf), "two fields")
    case.raises(ValueError, lambda: th.eb.SignedDistanceField2D(origin, cell, sdf[0]), "field without a batch dimension")


def sc_learn(case):
    """Gradients of the distance with respect to the field's data and the points."""
    B, sdf, origin, cell = field(case, D64)
    H, W = sdf.shape[1:]
    n = case.randint(1, 5)
    o, c = origin.expand(B, 2), cell.expand(B, 1)
    t = case.rand(B, 2, n, lo=0.1, hi=0.9)
    P = torch.zeros(B, 2, n, dtype=D64)
    for a, N in ((0, W), (1, H)):
        k = torch.tensor([[case.randint(0, N - 2) for _ in range(n)] for _ in range(B)], dtype=D64)
        P[:, a] = o[:, a:a + 1] + (k + t[:, a]) * c
    up, upj = case.randn(B, n), case.randn(B, n, 2)
    case.sig(sdf, origin, cell, P)
    leaves = [x.clone().requires_grad_(True) for x in (sdf, origin, cell, P)]
    f = th.eb.SignedDistanceField2D(leaves[1], leaves[2], leaves[0])
    d, J = f.signed_distance(leaves[3])
    with_j = case.chance(0.5)
    got = torch.autograd.grad((d * up).sum() + ((J * upj).sum() if with_j else 0.0), leaves)
    ref = [x.clone().requires_grad_(True) for x in (sdf, origin, cell, P)]
    S, O, C = ref[0].expand(B, H, W), ref[1].expand(B, 2), ref[2].expand(B, 1)
    total = 0.0
    for b in range(B):
        for i in range(n):
            p = ref[3][b, :, i]
            v = bil(S[b], (p[1] - O[b, 1]) / C[b, 0], (p[0] - O[b, 0]) / C[b, 0])
            total = total + up[b, i] * v
            if with_j:
                g, = torch.autograd.grad(v, p, create_graph=True)
                total = total + (g * upj[b, i]).sum()
    want = torch.autograd.grad(total, ref)
    for g, w, what in zip(got, want, ["field", "origin", "cell size", "points"]):
        case.close(g, w, 1e-8 * (1 + float(w.abs().max())), f"gradient with respect to the {what}")
    case.event("gradients")


def brute(occ, cell):
    """Distance to the nearest occupied cell, minus the distance to the nearest free one."""
    H, W = occ.shape
    idx = torch.stack(torch.meshgrid(torch.arange(H), torch.arange(W), indexing="ij"), -1).double().view(-1, 2)
    D = torch.cdist(idx, idx, compute_mode="donot_use_mm_for_euclid_dist")
    o = occ.reshape(-1)
    inf = torch.tensor(float("inf"), dtype=D64)
    to_occ = torch.where(o[None], D, inf).min(1).values
    to_free = torch.where(~o[None], D, inf).min(1).values
    return ((to_occ - to_free).view(H, W)) * cell


def sc_map(case):
    """A field computed from an occupancy map."""
    dtype = case.choice([D64, D32])
    B = case.randint(1, 4)
    H, W = case.randint(2, 9), case.randint(2, 9)
    m = case.rand(B, H, W, dtype=dtype)
    thr = case.choice([0.75, 0.5, 0.9])
    dense = case.chance(0.4)
    for b in range(B):
        if case.chance(0.25):
            m[b] = m[b] * 0.4  # nothing occupied
        elif not dense:
            m[b] = m[b] ** 3
        if bool((m[b] > thr).all()):
            m[b, 0, 0] = 0.0
    if case.chance(0.2):
        m[0, 0, 0] = thr  # the threshold itself is free
    cell = case.rand(case.choice([1, B]), 1, dtype=dtype, lo=0.05, hi=2.0)
    origin = case.randn(case.choice([1, B]), 2, dtype=dtype)
    case.sig(m, thr, cell)
    case.describe(B=B, H=H, W=W, thr=thr)
    m0 = m.clone()
    kw = {} if thr == 0.75 else dict(occupancy_threshold=thr)
    arg = m if case.chance(0.5) else th.Variable(m)
    f = th.eb.SignedDistanceField2D(origin, cell if case.chance(0.5) else th.Variable(cell), occupancy_map=arg, **kw)
    case.same(m, m0, "the map is unchanged")
    case.check(tuple(f.sdf_data.shape) == (B, H, W) and f.sdf_data.dtype == dtype, "shape and dtype of the field")
    c = cell.double().expand(B, 1)
    for b in range(B):
        occ = m[b] > thr
        if not bool(occ.any()):
            case.check(float(f.sdf_data.tensor[b].min()) >= float(c[b]) * max(H, W) * 0.999, "a free map is far from obstacles")
            case.event("free map")
            continue
        case.close(f.sdf_data.tensor[b], brute(occ, float(c[b])), 1e-5 if dtype == D32 else 1e-9, "distances of a map")
        case.event("map")
    query(case, f, B, f.sdf_data.tensor.clone(), origin, cell, 0.0, dtype, "of a map")


def sc_gather(case):
    """gather_from_rows_cols."""
    B, H, W, n = case.randint(1, 4), case.randint(1, 6), case.randint(1, 6), case.randint(1, 7)
    m = case.randn(case.choice([1, B]), H, W)
    r = torch.tensor([[case.randint(0, H - 1) for _ in range(n)] for _ in range(B)])
    c = torch.tensor([[case.randint(0, W - 1) for _ in range(n)] for _ in range(B)])
    case.sig(m, r, c)
    out = gather_from_rows_cols(m, r, c)
    want = torch.stack([torch.stack([m[b if m.shape[0] > 1 else 0, int(r[b, i]), int(c[b, i])] for i in range(n)]) for b in range(B)])
    case.same(out, want, "gathered entries")
    bad = r.clone()
    bad[-1, -1] = case.choice([-1, H])
    case.raises((AssertionError, IndexError), lambda: gather_from_rows_cols(m, bad, c), "a row outside the matrix")
    bad = c.clone()
    bad[0, 0] = case.choice([-1, W])
    case.raises((AssertionError, IndexError), lambda: gather_from_rows_cols(m, r, bad), "a column outside the matrix")


def sc_costs(case):
    """Collision costs follow their variables, also when these are replaced."""
    B, sdf, origin, cell = field(case, D64)
    contact = case.chance(0.4)
    w = th.ScaleCostWeight(torch.ones(1, 1, dtype=D64))
    eps = case.rand(1, 1, lo=0.1, hi=1.0)
    mid = origin + 0.5 * cell * torch.tensor([sdf.shape[2] - 1.0, sdf.shape[1] - 1.0], dtype=D64)

    def pose(kind):
        xy = (mid + cell * case.randn(B, 2)).expand(B, 2)
        if kind == "point":
            return th.Point2(tensor=xy.clone())
        return th.SE2(x_y_theta=torch.cat([xy, case.randn(B, 1)], 1))

    if contact:
        eff = pose("se2")
        ob = th.SE2(x_y_theta=case.randn(B, 3, scale=0.1))
        f = th.eb.EffectorObjectContactPlanar(ob, eff, th.Point2(tensor=origin, name="o"), th.Variable(sdf, name="s"),
                                              th.Variable(cell, name="c"), th.Variable(eps.clone(), name="e"), w)
    else:
        p = pose(case.choice(["point", "se2"]))
        f = th.eb.Collision2D(p, th.Point2(tensor=origin, name="o"), th.Variable(sdf, name="s"), th.Variable(cell, name="c"),
                              th.Variable(eps.clone(), name="e"), w)
    S = dict(o=origin, s=sdf, c=cell, e=eps)
    case.sig(contact, sdf, origin, cell)
    case.describe(contact=contact, B=B)

    def expect(f, S):
        if contact:
            X, E = f.obj, f.eff
            R = X.tensor[:, 2:]
            t = E.tensor[:, :2] - X.tensor[:, :2]
            xy = torch.stack([R[:, 0] * t[:, 0] + R[:, 1] * t[:, 1], -R[:, 1] * t[:, 0] + R[:, 0] * t[:, 1]], 1)
        else:
            xy = f.pose.tensor[:, :2]
        o, c, s = S["o"].expand(B, 2), S["c"].expand(B, 1), S["s"]
        H, W = s.shape[1:]
        s, out = s.expand(B, H, W), []
        for b in range(B):
            q, r = (xy[b, 0] - o[b, 0]) / c[b, 0], (xy[b, 1] - o[b, 1]) / c[b, 0]
            m = min(float(q), float(r), W - 1 - float(q), H - 1 - float(r))
            if abs(m) < 1e-6:
                raise Skip()
            d = bil(s[b], r, q) if m > 0 else torch.zeros((), dtype=D64)
            case.event("in the field" if m > 0 else "outside the field")
            out.append((d - S["e"][0, 0]).abs() if contact else (S["e"][0, 0] - d).clamp(min=0))
        return torch.stack(out).view(B, 1)

    copies = []
    for _ in range(case.randint(1, 5)):
        op = case.choice(["none", "replace", "update", "copy", "move"])
        if op == "replace":
            names = {v.name: i for i, v in enumerate(f.aux_vars)}
            k = case.choice([n for n in names if n in S])
            S = dict(S)
            if k == "s" and case.chance(0.5):  # a field of another size
                v = case.randn(S["s"].shape[0], case.randint(2, 9), case.randint(2, 9))
            elif k == "s":
                v = case.randn(*S["s"].shape)
            elif k == "o":
                v = case.randn(*S["o"].shape)
            elif k == "c":
                v = case.rand(*S["c"].shape, lo=0.1, hi=1.5)
            else:
                v = case.rand(1, 1, lo=0.1, hi=1.0)
            S[k] = v
            f.set_aux_var_at(names[k], th.Point2(tensor=v.clone(), name=k) if k == "o" else th.Variable(v.clone(), name=k))
        elif op == "update":
            S = dict(S)
            v = case.randn(*S["s"].shape)
            S["s"] = v
            f.sdf_data.update(v.clone())
        elif op == "copy":
            g = f.copy(keep_variable_names=True)
            copies.append((f, S))
            f = g
        elif op == "move":
            for v in f.optim_vars:
                v.update(v.retract(case.randn(B, v.dof(), scale=0.3)).tensor)
        case.event(op)
        J, e = f.jacobians()
        case.close(f.error(), expect(f, S), 1e-9, f"error after {op}")
        case.close(e, f.error().clone(), 0.0, "error next to the Jacobians")
        for x in J:
            case.check(x.shape[:2] == (B, 1), "shape of a Jacobian")
    for g, T in copies:
        case.close(g.error(), expect(g, T), 1e-9, "error of the original after its copy changed")


SCENARIOS = {
    "query": Scenario(sc_query, 2500, 40000),
    "learn": Scenario(sc_learn, 800, 10000),
    "map": Scenario(sc_map, 1000, 15000),
    "gather": Scenario(sc_gather, 300, 3000),
    "costs": Scenario(sc_costs, 1500, 25000),
}
