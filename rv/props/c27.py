"""C27: pose graph and bundle adjustment datasets: files, batches, generators."""
import math
import os
import random
import re
import tempfile

import numpy as np
import torch

import theseus as th
from theseus.utils.examples.bundle_adjustment.data import BundleAdjustmentDataset, Camera, Observation, ba_histogram
from theseus.utils.examples.bundle_adjustment.util import (random_s2, random_s3, random_small_quaternion,
                                                           soft_loss_cauchy, soft_loss_huber_like)
from theseus.utils.examples.pose_graph.dataset import (PoseGraphDataset, PoseGraphEdge, pg_histogram,
                                                       read_2D_g2o_file, read_3D_g2o_file)

from .. import ref
from ..core import D32, D64, Scenario, Skip

ID = "C27"
RULE = ("a case is a random g2o or BAL file written by the harness and read by the library (or the reverse) in a "
        "scratch directory, a random dataset cut in batches, or a generated dataset, each compared with an independent "
        "reading of the same data")
ASSUMPTIONS = ["histogram buckets are not compared if a value is within rounding of a bucket's limit",
               "generators may round their random draws to float32"]


# -- defects that are known (the gate allows no change to this folder: see DESIGN.md) ---
def crash(case, key, when, exc, text, fn):
    """fn(), where the one known exception is reported as the finding `key`, in the one situation that causes it."""
    try:
        return fn()
    except exc as e:
        if not (when and text in str(e)):
            raise
        case.fail(f"{type(e).__name__}: {e}", key)
        raise Skip()


# -- independent formulas ------------------------------------------------------------
def quat_mat(q):
    """Rotation matrix of a (w,x,y,z) quaternion of any norm."""
    w, x, y, z = (q / q.norm()).tolist()
    return torch.tensor([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                         [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                         [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]], dtype=D64)


def rodrigues(r):
    K = torch.tensor([[0, -r[2], r[1]], [r[2], 0, -r[0]], [-r[1], r[0], 0]], dtype=D64)
    return ref.expm(K[None])[0]


def angle(R):
    """Rotation angle of (..., 3, 3), accurate everywhere."""
    s = torch.stack([R[..., 2, 1] - R[..., 1, 2], R[..., 0, 2] - R[..., 2, 0], R[..., 1, 0] - R[..., 0, 1]], -1).norm(dim=-1)
    return torch.atan2(s, R[..., 0, 0] + R[..., 1, 1] + R[..., 2, 2] - 1)


def rand_quat(case):
    k = case.randint(0, 5)
    if k == 0:
        q = torch.tensor([1.0, 0, 0, 0], dtype=D64)
    elif k == 1:  # half turn
        v = case.randn(3)
        q = torch.cat([torch.zeros(1, dtype=D64), v / v.norm()])
    elif k == 2:  # nearly no rotation
        q = torch.cat([torch.ones(1, dtype=D64), case.randn(3) * case.logu(1e-9, 1e-3)])
    else:
        q = case.randn(4)
        while q.norm() < 0.1:
            q = case.randn(4)
    return q / q.norm() * (1.0 if case.chance(0.5) else (-1.0 if case.chance(0.5) else case.logu(0.3, 3)))


def num(case, x):
    """A number as files write them."""
    return case.choice([repr, lambda v: f"{v:.17e}", lambda v: f"{v:+.17g}"])(float(x))


def join(case, toks):
    sep = case.choice([" ", " ", "\t", "  "])
    return sep.join(toks) + case.choice(["", "", " "])


def noise_lines(case, lines, p=0.5):
    blank = case.chance(0.1)
    if case.chance(p):
        extra = (["", "   "] if blank else []) + ["FIX 0", "# a comment", "PARAMS_SE3OFFSET 0 0 0 0 0 0 0 1", "EDGE_SE3_PRIOR 0 1", "VERTEX_XY 7 0.5 1"]
        for _ in range(case.randint(1, 4)):
            lines.insert(case.randint(0, len(lines)), case.choice(extra))
    return "\n".join(lines) + case.choice(["\n", ""] + (["\n\n"] if blank else []))


def info_matrix(case, n):
    d = [case.logu(1e-2, 1e3) if case.chance(0.9) else 0.0 for _ in range(n)]
    full = case.chance(0.5)
    vals = []
    for i in range(n):
        for j in range(i, n):
            vals.append(d[i] if i == j else (float(case.randn(())) if full else 0.0))
    return d, vals


def _graph_ids(case):
    n = case.randint(1, 8)
    ids = list(range(n))
    if case.chance(0.3):
        ids = sorted(case.rng.sample(range(n + 6), n))
    order = ids[:]
    if case.chance(0.5):
        case.rng.shuffle(order)
    return ids, order


def _dtype(case):
    dt = case.choice([None, D64, D64, D32])
    return dt, dt or D64


def sc_g2o(case):
    """Reading: every vertex and edge, in file order resp. index order, with the file's numbers."""
    three = case.chance(0.6)
    ids, order = _graph_ids(case)
    dt, want_dt = _dtype(case)
    verts, edges, lines = {}, [], []
    novert = case.chance(0.15)
    for i in [] if novert else order:
        t = case.randn(3 if three else 2) * case.choice([1.0, 100.0])
        if three:
            q = rand_quat(case)
            verts[i] = (t, quat_mat(q))
            toks = ["VERTEX_SE3:QUAT", str(i)] + [num(case, v) for v in t.tolist() + [q[1], q[2], q[3], q[0]]]
        else:
            a = float(case.rand((), lo=-7, hi=7))
            verts[i] = (t, a)
            toks = ["VERTEX_SE2", str(i)] + [num(case, v) for v in t.tolist() + [a]]
        lines.append((join(case, toks), None))
    for _ in range(case.randint(1 if novert else 0, 8) if three or novert or case.chance(0.3) else 0):
        i, j = case.choice(ids), case.choice(ids)
        if case.chance(0.15):
            j = max(ids) + case.randint(1, 3)  # an edge to a vertex that isn't listed
        t = case.randn(3 if three else 2)
        d, vals = info_matrix(case, 6 if three else 3)
        if three:
            q = rand_quat(case)
            edges.append((i, j, t, quat_mat(q), d))
            pose = t.tolist() + [q[1], q[2], q[3], q[0]]
        else:
            a = float(case.rand((), lo=-7, hi=7))
            edges.append((i, j, t, a, d))
            pose = t.tolist() + [a]
        toks = ["EDGE_SE3:QUAT" if three else "EDGE_SE2", str(i), str(j)] + [num(case, v) for v in pose + vals]
        lines.insert(len(lines) if case.chance(0.5) else case.randint(0, len(lines)), (join(case, toks), edges[-1]))
    edges = [e for _, e in lines if e is not None]
    lines = [t for t, _ in lines]
    text = noise_lines(case, lines)
    case.sig(text, str(dt))
    case.describe(three=three, vertices=len(verts), edges=len(edges), dtype=str(dt))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "graph.g2o")
        with open(path, "w") as f:
            f.write(text)
        plain = case.chance(0.5)
        if plain:
            def read():
                return (read_3D_g2o_file if three else read_2D_g2o_file)(path, *([] if dt is None else [dt]))
        else:
            def read():
                load = PoseGraphDataset.load_3D_g2o_file if three else PoseGraphDataset.load_2D_g2o_file
                return load(None, path, dt)
        empty = any(not ln.strip() for ln in text.splitlines())
        got = crash(case, "g2o-blank-line", empty, IndexError, "list index out of range", lambda: crash(
            case, "g2o-2d-edge", edges and not three, TypeError, "array() given by name", read))
        if plain:
            n, poses, es = got
            idx = list(verts) + [e[0] for e in edges] + [e[1] for e in edges]
            case.check(n == max(idx) + 1, f"number of vertices {n}, largest index {max(idx)}")
        else:
            poses, es = got.poses, got.edges
    case.check(len(poses) == len(verts) and len(es) == len(edges), "number of poses and edges read")
    tol = 1e-12 if want_dt == D64 else 2e-6

    def pose_is(p, t, r, what):
        case.check(type(p) is (th.SE3 if three else th.SE2) and p.dtype == want_dt, f"type of a {what}")
        sc = 1 + float(t.abs().max())
        if three:
            case.close(p.tensor, torch.cat([r, t.view(3, 1)], 1)[None], tol * sc * 10, f"{what} 3D")
        else:
            case.close(p.tensor, torch.tensor([[*t.tolist(), math.cos(r), math.sin(r)]], dtype=D64), tol * sc * 10, f"{what} 2D")

    for p, i in zip(poses, sorted(verts)):
        pose_is(p, *verts[i], "vertex")
        case.check(p.name.endswith(f"__{i}"), f"name of vertex {i}: {p.name}")
    for e, (i, j, t, r, d) in zip(es, edges):
        case.check((e.i, e.j) == (i, j), "indices of an edge")
        pose_is(e.relative_pose, t, r, "edge")
        w = e.weight.diagonal.tensor
        case.check(w.dtype == want_dt, "type of a weight")
        case.close(w, torch.tensor(d, dtype=D64).sqrt()[None], tol * 100, "edge weight vs information matrix", rtol=tol * 10)
    names = [p.name for p in poses] + [e.relative_pose.name for e in es] + [e.weight.name for e in es]
    case.check(len(names) == len(set(names)), "names of the variables read are not unique")
    case.event("3D" if three else "2D")


# -- datasets -------------------------------------------------------------------------
def make_graph(case, kind, D, dtype=D64, weights=True, batched_w=None):
    n = case.randint(1, 6)

    def pose(name):
        if kind == "SE3":
            M = torch.stack([torch.cat([quat_mat(rand_quat(case)), case.randn(3, 1) * 3], 1) for _ in range(D)])
            return th.SE3(tensor=M.to(dtype), name=name, strict_checks=False)
        a = case.rand(D, lo=-7, hi=7)
        return th.SE2(tensor=torch.cat([case.randn(D, 2), a.cos()[:, None], a.sin()[:, None]], 1).to(dtype), name=name)

    poses = [pose(f"VERTEX_{kind}__{i}") for i in range(n)]
    dof = poses[0].dof()
    shared = None
    edges = []
    for k in range(case.randint(0, 8)):
        i, j = case.randint(0, n - 1), case.randint(0, n - 1)
        w = None
        if weights:
            b = batched_w if batched_w is not None else case.chance(0.4)
            if shared is not None and case.chance(0.3):
                w = shared
            else:
                w = th.DiagonalCostWeight(th.Variable(case.rand(D if b else 1, dof, lo=0.1, hi=9).to(dtype), name=f"w_{k}"),
                                          name=f"EDGE_WEIGHT__{k}")
                shared = w
        elif case.chance(0.3):
            w = th.DiagonalCostWeight(th.Variable(case.rand(1, dof, lo=0.1, hi=9).to(dtype)), name=f"EDGE_WEIGHT__{k}")
        edges.append(PoseGraphEdge(i, j, pose(f"EDGE_{kind}__{k}"), w))
    gt = [pose(f"VERTEX_GT__{i}") for i in range(n)] if case.chance(0.6) else None
    return poses, edges, gt


def sc_write(case):
    """write_3D_g2o then read: each dataset element gives a file with its own poses and weights."""
    D = case.choice([1, 1, 2, 3])
    dt = D64 if case.chance(0.8) else D32
    poses, edges, gt = make_graph(case, "SE3", D, dt)
    ds = PoseGraphDataset(poses, edges, gt, batch_size=case.randint(1, 3))
    case.sig(D, str(dt), *[p.tensor for p in poses], *[e.relative_pose.tensor for e in edges])
    case.describe(D=D, poses=len(poses), edges=len(edges))
    before = [p.tensor.clone() for p in poses]
    tol = 1e-7 if dt == D64 else 2e-3  # quaternions near a half turn lose half of the digits
    with tempfile.TemporaryDirectory() as tmp:
        stem = os.path.join(tmp, "out")
        ds.write_3D_g2o(stem)
        case.check(sorted(os.listdir(tmp)) == sorted(f"out_{n}.g2o" for n in range(D)), "files written")
        for n in range(D):
            _, ps, es = read_3D_g2o_file(f"{stem}_{n}.g2o", dt)
            case.check(len(ps) == len(poses) and len(es) == len(edges), "poses and edges after a round trip")
            for a, b in zip(ps, poses):
                case.close(a.tensor, b.tensor[n:n + 1], tol, "pose round trip")
            for a, b in zip(es, edges):
                case.check((a.i, a.j) == (b.i, b.j), "edge indices after a round trip")
                case.close(a.relative_pose.tensor, b.relative_pose.tensor[n:n + 1], tol, "edge round trip")
                w = b.weight.diagonal.tensor
                if w.shape[0] > 1 and n and torch.allclose(a.weight.diagonal.tensor.double(), w[:1].double()):
                    case.fail("an element's weight is written with the first element's number", "batched-weight")
                    continue
                w = w[n:n + 1] if w.shape[0] > 1 else w
                case.close(a.weight.diagonal.tensor, w, 1e-9 if dt == D64 else 1e-4, "weight round trip")
    for p, t in zip(poses, before):
        case.same(p.tensor, t, "writing changes a pose")
    case.event(f"D={D}")


def sc_batches(case):
    """Batches partition the dataset, own their data, and keep each edge's weight with its element."""
    kind = case.choice(["SE2", "SE3"])
    D = case.randint(1, 7)
    poses, edges, gt = make_graph(case, kind, D, weights=case.chance(0.95))
    bs = case.randint(1, 8)
    ds = crash(case, "edge-without-weight", any(e.weight is None for e in edges), AttributeError,
               "'NoneType' object has no attribute 'to'", lambda: PoseGraphDataset(poses, edges, gt, batch_size=bs))
    case.sig(kind, D, bs, *[p.tensor for p in poses])
    case.describe(kind=kind, D=D, batch=bs, edges=len(edges), gt=gt is not None)
    case.check(ds.dataset_size == D, "dataset size")
    case.check(ds.num_batches == math.ceil(D / bs), f"number of batches {ds.num_batches} for {D}/{bs}")
    keep = [p.tensor.clone() for p in poses] + [e.relative_pose.tensor.clone() for e in edges]
    got = []
    for k in range(ds.num_batches):
        b = ds.get_batch_dataset(k)
        whole = False
        lo, hi = k * bs, min(D, (k + 1) * bs)
        case.check(b.dataset_size == hi - lo and b.batch_size == bs, "size of a batch")
        case.check(len(b.poses) == len(poses) and len(b.edges) == len(edges), "contents of a batch")
        case.check((b.gt_poses is None) == (gt is None), "ground truth of a batch")
        for a, p in zip(b.poses, poses):
            case.same(a.tensor, p.tensor[lo:hi], "pose in a batch")
        for a, p in zip(b.gt_poses or [], gt or []):
            case.same(a.tensor, p.tensor[lo:hi], "ground truth pose in a batch")
        for a, e in zip(b.edges, edges):
            case.check((a.i, a.j) == (e.i, e.j), "edge indices in a batch")
            case.same(a.relative_pose.tensor, e.relative_pose.tensor[lo:hi], "edge in a batch")
            if e.weight is None:
                case.check(a.weight is None, "an edge without weight gets one")
            else:
                w = e.weight.diagonal.tensor
                if w.shape[0] > 1 and a.weight is e.weight:
                    case.fail("a batch's edge has the weights of the whole dataset", "batched-weight")
                    whole = True
                    continue
                case.same(a.weight.diagonal.tensor.expand(hi - lo, -1), (w if w.shape[0] == 1 else w[lo:hi]).expand(hi - lo, -1),
                          "edge weight in a batch")
        if k == 0 and edges and not whole and all(e.weight is not None for e in edges):
            obj = th.Objective(dtype=D64)
            for m, e in enumerate(b.edges):
                if e.i != e.j:
                    obj.add(th.Between(b.poses[e.i], b.poses[e.j], e.relative_pose, e.weight, name=f"c{m}"))
            if obj.size_cost_functions():
                obj.update()
                case.check(obj.error().shape[0] == hi - lo, "batch size of a batch's objective")
        got.append(b)
    names = {k: [p.name for p in b.poses] for k, b in enumerate(got)}
    case.check(all(v == names[0] for v in names.values()), "names differ between batches")
    for b in got:  # a batch owns its data
        for p in b.poses + [e.relative_pose for e in b.edges]:
            p.tensor.add_(1.0)
    for p, t in zip(poses + [e.relative_pose for e in edges], keep):
        case.same(p.tensor, t, "editing a batch changes the dataset")
    try:
        ds.get_batch_dataset(ds.num_batches)
        case.fail("a batch past the end is returned")
    except AssertionError:
        case.oracle_calls += 1
    if D > 1 and len(poses) > 1:
        bad = poses[:-1] + [type(poses[0])(tensor=poses[-1].tensor[:1], name="bad")]
        case.raises(ValueError, lambda: PoseGraphDataset(bad, edges, gt), "poses with different batch sizes")
    if all(e.weight is not None for e in edges):
        ds.to(dtype=D32)
        vs = poses + [e.relative_pose for e in edges] + [e.weight.diagonal for e in edges] + (gt or [])
        case.check(all(v.dtype == D32 for v in vs), "conversion leaves some data behind")
    case.event(f"{kind}/{'partial' if D % bs else 'even'}")


def parse_hist(case, s, n=11):
    rows = [re.fullmatch(r"(\S+): (#*) (\S+)", ln) for ln in s.strip("\n").split("\n")]
    if not case.check(len(rows) == n and all(rows), "form of a histogram"):
        return None
    case.check([r.group(1) for r in rows] == [f"{i}-{i+1}" for i in range(n - 1)] + [f"{n-1}+"], "labels of a histogram")
    counts = [float(r.group(3)) for r in rows]
    m = max(counts)
    for r, c in zip(rows, counts):
        case.check(abs(len(r.group(2)) - c * 80 / m) <= 0.5 + 1e-9, "length of a histogram's bar")
    return counts


def sc_pghist(case):
    kind = case.choice(["SE2", "SE3"])
    D = case.randint(1, 3)
    poses, edges, _ = make_graph(case, kind, D)
    if not edges:
        raise Skip()
    G = ref.of(poses[0])
    for e in edges:  # mostly consistent edges, so that all buckets occur
        if case.chance(0.8):
            d = case.randn(D, G.dof) * case.logu(1e-2, 0.5)
            t = poses[e.i].between(poses[e.j]).retract(d).tensor
            e.relative_pose.update(t.detach())
    counts = [0] * 11
    for e in edges:
        r = poses[e.j].local(poses[e.i].compose(e.relative_pose)).norm(dim=1) * 10
        if bool(((r - r.round()).abs() < 1e-6).any()):
            raise Skip()
        for v in r.tolist():
            counts[min(int(v), 10)] += 1
    case.sig(kind, D, *[e.relative_pose.tensor for e in edges])
    case.describe(kind=kind, edges=len(edges))
    got = parse_hist(case, pg_histogram(poses, edges))
    case.check(got == counts, f"histogram {got} of {counts}")
    case.event("pose graph")


def sc_synth3d(case):
    """A generated graph: consecutive and loop edges agree with the ground truth up to the noise asked for."""
    n, D = case.randint(1, 14), case.choice([1, 1, 2, 3])
    tn, rn = case.logu(1e-3, 0.2), case.logu(1e-3, 0.3)
    lr, out = case.choice([0.0, 0.3, 1.0]), case.choice([0.0, 0.0, 0.5, 1.0])
    dt = case.choice([D64, D64, D32])
    mx = case.randint(1, 6)
    gen = None
    if case.chance(0.5):
        gen = torch.Generator()
        gen.manual_seed(case.randint(0, 10 ** 6))
    np.random.seed(case.randint(0, 2 ** 31))
    ds, inliers = PoseGraphDataset.generate_synthetic_3D(
        n, translation_noise=tn, rotation_noise=rn, loop_closure_ratio=lr, loop_closure_outlier_ratio=out,
        max_num_loop_closures=mx, dataset_size=D, batch_size=case.randint(1, 3), generator=gen, dtype=dt)
    case.sig(n, D, tn, rn, lr, out, str(dt), case.seed)
    case.describe(n=n, D=D, edges=len(ds.edges), outliers=out)
    case.check(len(ds.poses) == n and len(ds.gt_poses) == n, "number of generated poses")
    case.check(len(inliers) == len(ds.edges), "one inlier flag per edge")
    tol = 1e-9 if dt == D64 else 3e-3
    G = ref.of(th.SE3())

    def rel(a, b):
        return torch.linalg.solve(H(a), H(b))

    def H(p):
        t = p.tensor.double() if hasattr(p, "tensor") else p.double()
        row = torch.tensor([0, 0, 0, 1.0], dtype=D64).expand(t.shape[0], 1, 4)
        return torch.cat([t, row], 1)

    def noise_of(M, what):
        xi = th.SE3(tensor=M[:, :3], strict_checks=False).log_map()
        sl = 1.0 + max(tn, rn)
        case.check(bool((xi[:, :3].abs() <= tn * (1 + 1e-6) + tol * sl).all()), f"translation noise of {what}: {xi[:, :3].abs().max():.4g} > {tn:.4g}")
        case.check(bool((xi[:, 3:].abs() <= rn * (1 + 1e-6) + tol * sl).all()), f"rotation noise of {what}: {xi[:, 3:].abs().max():.4g} > {rn:.4g}")

    seq = [(e.i, e.j) for e in ds.edges if e.j == e.i + 1]
    case.check(seq == [(k, k + 1) for k in range(n - 1)], f"consecutive edges: {seq}")
    last = 0
    seen = set()
    for e, ok in zip(ds.edges, inliers):
        case.check(0 <= e.i < e.j < n and e.j >= last, "order of generated edges")
        last = e.j
        case.check((e.i, e.j) not in seen, "repeated edge")
        seen.add((e.i, e.j))
        case.check(e.relative_pose.shape[0] == D and e.relative_pose.dtype == dt, "shape of a generated edge")
        g = rel(ds.gt_poses[e.i], ds.gt_poses[e.j])
        R = e.relative_pose.tensor[:, :, :3].double()
        case.close(R @ R.transpose(1, 2), torch.eye(3, dtype=D64).expand(D, 3, 3), tol * 10, "generated rotation is orthogonal")
        if e.j == e.i + 1:
            case.check(ok, "a consecutive edge is flagged as an outlier")
        if out == 0.0:
            case.check(ok, "an outlier although none were asked for")
        if out == 1.0 and e.j > e.i + 1:
            case.check(not ok, "an inlier although all loop closures should be outliers")
        if ok:
            noise_of(torch.linalg.solve(g, H(e.relative_pose)), "an edge")
        w = torch.tensor([[1 / tn] * 3 + [1 / rn] * 3], dtype=D64)
        case.close(e.weight.diagonal.tensor, w, 0.0, "generated weight", rtol=1e-5)
    if lr == 0.0:
        case.check(len(ds.edges) == n - 1, "loop closures although none were asked for")
    for a, b in zip(ds.poses, ds.gt_poses):
        case.check(a.shape[0] == D and b.dtype == dt, "shape of a generated pose")
        noise_of(rel(b, a), "a pose")
    names = [v.name for v in ds.poses + ds.gt_poses] + [e.relative_pose.name for e in ds.edges]
    case.check(len(set(names)) == len(names), "names in a generated graph")
    case.check(G.dof == 6, "SE3")
    case.event(f"loops={len(ds.edges) > n - 1}, outliers={not all(inliers)}")


# -- bundle adjustment -------------------------------------------------------------------
def project(R, t, f, k1, k2, p):
    q = R @ p + t
    u = -q[:2] / q[2]
    s = float(u @ u)
    return u * f * (1 + k1 * s + k2 * s * s)


def rand_bal(case):
    nc, npt = case.randint(1, 4), case.randint(1, 6)
    cams = []
    for _ in range(nc):
        v = case.randn(3)
        r = v / v.norm() * case.choice([0.0, case.logu(1e-9, 1e-3), float(case.rand((), lo=0, hi=3.0)), 3.1])
        cams.append((r, case.randn(3) * 2, float(case.rand((), lo=300, hi=1200)), float(case.randn(())) * 0.1, float(case.randn(())) * 0.05))
    pts = [case.randn(3) * 3 for _ in range(npt)]
    obs = [(case.randint(0, nc - 1), case.randint(0, npt - 1), case.randn(2) * 100) for _ in range(case.randint(0, 10))]
    return cams, pts, obs


def cam_is(case, cam, c, what, tol=1e-11):
    r, t, f, k1, k2 = c
    case.close(cam.pose.tensor, torch.cat([rodrigues(r), t.view(3, 1)], 1)[None], max(tol * 10, 1e-8) * (1 + float(t.abs().max())), f"pose of {what}")
    for v, w in ((cam.focal_length, f), (cam.calib_k1, k1), (cam.calib_k2, k2)):
        case.close(v.tensor, torch.tensor([[w]], dtype=D64), tol * (1 + abs(w)), f"intrinsics of {what}")


def ba_is(case, got, data, tol=1e-11, what="BAL"):
    cams, pts, obs = data
    gc, gp, go = got
    case.check((len(gc), len(gp), len(go)) == (len(cams), len(pts), len(obs)), f"{what}: numbers of cameras, points, observations")
    for a, b in zip(gc, cams):
        cam_is(case, a, b, f"a {what} camera", tol)
    for a, b in zip(gp, pts):
        case.close(a.tensor, b.view(1, 3), tol * 10, f"a {what} point")
    for a, b in zip(go, obs):
        case.check((a.camera_index, a.point_index) == (b[0], b[1]), f"indices of a {what} observation")
        case.close(a.image_feature_point.tensor, b[2].view(1, 2), tol * 1e3, f"a {what} observation")


def sc_bal(case):
    """Reading a BAL file, and writing what was read, with and without ground truth."""
    data, gt = rand_bal(case), None
    text = [f"{len(data[0])} {len(data[1])} {len(data[2])}"]
    for c, p, f in data[2]:
        text.append(case.choice([" ", "     ", "\t"]).join([str(c), str(p), num(case, f[0]), num(case, f[1])]))
    for r, t, f, k1, k2 in data[0]:
        text += [num(case, v) for v in r.tolist() + t.tolist() + [f, k1, k2]]
    for p in data[1]:
        text += [num(case, v) for v in p.tolist()]
    case.sig("\n".join(text))
    case.describe(cameras=len(data[0]), points=len(data[1]), obs=len(data[2]))
    with tempfile.TemporaryDirectory() as tmp:
        p1, p2, p3 = (os.path.join(tmp, k) for k in ("a.txt", "b.txt", "gt.txt"))
        with open(p1, "w") as f:
            f.write("\n".join(text) + "\n")
        ba_is(case, BundleAdjustmentDataset.load_bal_dataset(p1), data)
        ds = BundleAdjustmentDataset.load_from_file(p1)
        ba_is(case, (ds.cameras, ds.points, ds.observations), data)
        case.check(ds.gt_cameras is None and ds.gt_points is None, "ground truth that wasn't given")
        if case.chance(0.7):
            g = rand_bal(case)
            gt = ([case.choice(g[0]) for _ in data[0]], [case.choice(g[1]) for _ in data[1]])
            ds.gt_cameras = [Camera.from_params([*c[0].tolist(), *c[1].tolist(), *c[2:]], name=f"G{k}") for k, c in enumerate(gt[0])]
            ds.gt_points = [th.Point3(tensor=p.view(1, 3), name=f"GP{k}") for k, p in enumerate(gt[1])]
        ds.save_to_file(p2, p3 if gt else None)
        case.check(os.path.exists(p3) == bool(gt), "ground truth file")
        again = BundleAdjustmentDataset.load_from_file(p2, p3 if gt else None)
    ba_is(case, (again.cameras, again.points, again.observations), data, 1e-7, "saved")
    if gt:
        if all(isinstance(c, Camera) for c in again.gt_points) and not any(isinstance(c, Camera) for c in again.gt_cameras):
            case.fail("load_from_file swaps the ground truth cameras and points", "ground-truth-swapped")
            again.gt_cameras, again.gt_points = again.gt_points, again.gt_cameras
        ba_is(case, (again.gt_cameras, again.gt_points, again.observations), (gt[0], gt[1], data[2]), 1e-7, "saved ground truth")
    for o in range(min(3, len(data[2]))):
        c, p, _ = data[2][o]
        r, t, f, k1, k2 = data[0][c]
        z = rodrigues(r) @ data[1][p] + t
        if abs(float(z[2])) < 1e-2:
            continue
        w = project(rodrigues(r), t, f, k1, k2, data[1][p])
        got = ds.cameras[c].project_point(ds.points[p])
        case.close(got, w.view(1, 2), 1e-8 * (1 + float(w.abs().max())), "projection")
    case.event("with ground truth" if gt else "plain")


def sc_bahist(case):
    cams, pts, obs = rand_bal(case)
    if not obs:
        raise Skip()
    C = [Camera.from_params([*c[0].tolist(), *c[1].tolist(), *c[2:]], name=f"C{k}") for k, c in enumerate(cams)]
    P = [th.Point3(tensor=p.view(1, 3), name=f"P{k}") for k, p in enumerate(pts)]
    O, counts = [], [0] * 11
    for k, (c, p, _) in enumerate(obs):
        r, t, f, k1, k2 = cams[c]
        w = project(rodrigues(r), t, f, k1, k2, pts[p])
        if not bool(torch.isfinite(w).all()) or float(w.abs().max()) > 1e5:
            raise Skip()
        d = case.randn(2) * case.logu(0.1, 12)
        v = float(d.norm())
        if abs(v - round(v)) < 1e-4:
            raise Skip()
        counts[min(int(v), 10)] += 1
        O.append(Observation(c, p, th.Point2(tensor=(w + d).view(1, 2), name=f"F{k}")))
    case.sig(*[o.image_feature_point.tensor for o in O])
    got = parse_hist(case, ba_histogram(C, P, O))
    case.check(got == counts, f"histogram {got} of {counts}")
    case.event("bundle adjustment")


def angle_in(case, a, lo, hi, what, tol=1e-3):
    """The rotation angle a (degrees) lies between lo and hi; twice such an angle is the known finding."""
    twice = any(lo - tol <= t / 2 <= hi + tol for t in (a, 360 - a))
    case.check(lo - tol <= a <= hi + tol, f"{what}: rotation by {a:.4g} degrees, asked for {lo} to {hi:.4g}",
               "twice-the-angle" if twice else None)


def sc_synthba(case):
    nc, npt = case.randint(1, 5), case.randint(1, 25)
    tl, loc = case.randint(1, nc), case.choice([0.0, 0.1, 0.5, 1.0])
    feat, po, outl = case.logu(1e-2, 3), case.choice([0.0, 0.0, 0.3, 1.0]), case.logu(5, 100)
    ds = crash(case, "one-camera", nc == 1, ZeroDivisionError, "", lambda: BundleAdjustmentDataset.generate_synthetic(
        nc, npt, average_track_length=tl, track_locality=loc, feat_random=feat, prob_feat_is_outlier=po,
        outlier_feat_random=outl))
    case.sig(nc, npt, tl, loc, feat, po, case.seed)
    case.describe(cameras=nc, points=npt, obs=len(ds.observations))
    case.check(len(ds.cameras) == len(ds.gt_cameras) == nc and len(ds.points) == len(ds.gt_points) == npt, "sizes of a generated problem")
    want = tl * npt // nc
    per = {}
    for o in ds.observations:
        per.setdefault(int(o.camera_index), []).append(int(o.point_index))
        case.check(0 <= o.camera_index < nc and 0 <= o.point_index < npt, "indices of a generated observation")
        cam, p = ds.gt_cameras[o.camera_index], ds.gt_points[o.point_index]
        q = cam.pose.tensor[0, :, :3] @ p.tensor[0] + cam.pose.tensor[0, :, 3]
        w = project(cam.pose.tensor[0, :, :3], cam.pose.tensor[0, :, 3], float(cam.focal_length[0, 0]), float(cam.calib_k1[0, 0]),
                    float(cam.calib_k2[0, 0]), p.tensor[0])
        case.check(float(q[2]) < 0 or float(q[2]) > 0, "point in the camera plane")
        d = (o.image_feature_point.tensor[0] - w).abs().max()
        case.check(float(d) <= feat + (outl if po > 0 else 0) + 1e-4, f"feature is {float(d):.4g} pixels off")
    for k in range(nc):
        case.check(len(set(per.get(k, []))) == len(per.get(k, [])) == min(want, npt), "points seen by a camera")
    for a, b in zip(ds.cameras, ds.gt_cameras):
        angle_in(case, math.degrees(float(angle(b.pose.tensor[0, :, :3]))), 0, 20, "rotation of a generated camera", 6e-3)
        d = a.pose.compose(b.pose.inverse()).tensor[0]
        angle_in(case, math.degrees(float(angle(d[:, :3]))), 0, 0.1, "perturbed rotation", 6e-4)
        case.check(bool((d[:, 3].abs() <= 0.2 + 1e-4).all()), "perturbed translation")
        for x in ("focal_length", "calib_k1", "calib_k2"):
            case.same(getattr(a, x).tensor, getattr(b, x).tensor, "perturbed intrinsics")
        case.check(abs(float(b.focal_length[0, 0]) - 1000) <= 100 + 1e-3 and abs(float(b.calib_k1[0, 0])) <= 0.1 + 1e-6
                   and abs(float(b.calib_k2[0, 0])) <= 0.05 + 1e-6, "range of the intrinsics")
    for a, b in zip(ds.points, ds.gt_points):
        case.check(bool(((a.tensor - b.tensor).abs() <= 0.2 + 1e-6).all()), "perturbed point")
    if ds.observations:
        h = parse_hist(case, ds.histogram())
        case.check(h is not None and sum(h) == len(ds.observations), "histogram of a generated problem")
    case.event(f"outliers={po}")


def sc_random(case):
    """Random rotations stay within the angles asked for; losses' derivatives are those of their values."""
    for dt in (D64, D32):
        for f, n in ((random_s2, 3), (random_s3, 4)):
            v = f(dtype=dt)
            case.check(v.shape == (n,) and v.dtype == dt and abs(float(v.double().norm()) - 1) < 1e-5, f"{f.__name__} is not on the sphere")
    lo = case.choice([0, 0, 5, 30])
    hi = lo + float(case.rand((), lo=0, hi=120))
    q = torch.as_tensor(random_small_quaternion(max_degrees=hi, min_degrees=lo)).double()
    case.check(q.shape == (4,) and abs(float(q.norm()) - 1) < 1e-5, "norm of a small quaternion")
    a = math.degrees(float(angle(quat_mat(q))))
    angle_in(case, a, lo, hi, "random_small_quaternion")
    x = (case.rand(5, 3) * case.logu(1e-6, 1e4)).requires_grad_(True)
    r = torch.tensor(case.logu(1e-2, 1e2), dtype=D64)
    for f, g in ((soft_loss_cauchy, lambda x: r * torch.log1p(x / r)), (soft_loss_huber_like, lambda x: r * ((1 + x / r).sqrt() - 1))):
        v, d = f(x, r)
        w = g(x)
        case.close(v, w, 1e-9 * (1 + float(w.max())) + 1e-12 * float(r), f"{f.__name__} value")
        dw, = torch.autograd.grad(w.sum(), x)
        case.close(d, dw, 1e-9, f"{f.__name__} derivative")
        z, _ = f(torch.zeros(1, dtype=D64), r)
        case.close(z, torch.zeros(1, dtype=D64), 1e-12 * (1 + float(r)), f"{f.__name__} at zero")
    case.sig(case.seed)
    case.event("random")


def _seeded(fn):
    def run(case):
        s, t = np.random.get_state(), random.getstate()
        np.random.seed(case.randint(0, 2 ** 31))
        try:
            fn(case)
        finally:
            np.random.set_state(s)
            random.setstate(t)
    return run


SCENARIOS = {
    "g2o": Scenario(sc_g2o, 300, 4000),
    "write": Scenario(sc_write, 120, 1500),
    "batches": Scenario(sc_batches, 200, 3000),
    "pghist": Scenario(sc_pghist, 100, 1500),
    "synth3d": Scenario(_seeded(sc_synth3d), 100, 1500),
    "bal": Scenario(sc_bal, 150, 2000),
    "bahist": Scenario(sc_bahist, 100, 1500),
    "synthba": Scenario(_seeded(sc_synthba), 60, 800),
    "random": Scenario(_seeded(sc_random), 100, 1500),
}
