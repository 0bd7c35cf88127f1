"""C23: robots read from URDF move as the URDF says."""
import os
import tempfile
import warnings

import torch

import theseus as th
import torchkin
from torchkin import joint as tkj

from .. import gen, geo, ref
from ..core import D32, D64, Scenario, Skip

QUICK = 3  # so many times each scenario's quick cases
ID = "C23"
RULE = ("a case is a random URDF tree (joint types, axes, origins, chains of fixed joints, shuffled document order) with "
        "random joint values and a random selection of links, compared with a transform chain computed from the URDF's "
        "definition; or one joint object compared with its definition")
ASSUMPTIONS = ["joint axes are unit vectors, as URDF requires", "robot.joint_map gives each joint's coordinate"]


def rpy_mat(rpy):
    r, p, y = [torch.as_tensor(v, dtype=D64) for v in rpy]
    z, o = torch.zeros((), dtype=D64), torch.ones((), dtype=D64)
    Rx = torch.stack([o, z, z, z, r.cos(), -r.sin(), z, r.sin(), r.cos()]).view(3, 3)
    Ry = torch.stack([p.cos(), z, p.sin(), z, o, z, -p.sin(), z, p.cos()]).view(3, 3)
    Rz = torch.stack([y.cos(), -y.sin(), z, y.sin(), y.cos(), z, z, z, o]).view(3, 3)
    return Rz @ Ry @ Rx


def motion(kind, axis, q):
    """4x4 motion of a joint for values q (B,), differentiable."""
    B = q.shape[0]
    T = torch.eye(4, dtype=D64).expand(B, 4, 4)
    a = torch.as_tensor(axis, dtype=D64)
    if kind == "prismatic":
        t = torch.zeros(4, 4, dtype=D64)
        t[:3, 3] = a
        return T + q.view(-1, 1, 1) * t
    K = torch.zeros(4, 4, dtype=D64)
    K[0, 1], K[0, 2], K[1, 0], K[1, 2], K[2, 0], K[2, 1] = -a[2], a[1], a[2], -a[0], -a[1], a[0]
    return T + q.sin().view(-1, 1, 1) * K + (1 - q.cos()).view(-1, 1, 1) * (K @ K)


class Tree:
    """A random kinematic tree."""

    def __init__(self, case):
        n = case.randint(1, 9)
        names = [f"link{i}" for i in range(n)]
        case.rng.shuffle(names)
        self.root = names[0]
        self.joints = []
        p_fixed = case.choice([0.0, 0.3, 0.6, 0.9])
        chain = case.chance(0.4)
        for i in range(1, n):
            parent = names[i - 1] if chain else names[case.randint(max(0, i - 3) if case.chance(0.5) else 0, i - 1)]
            kind = "fixed" if case.chance(p_fixed) else case.choice(["revolute", "continuous", "prismatic"])
            xyz = case.randn(3).round(decimals=4).tolist() if case.chance(0.85) else None
            rpy = case.randn(3).round(decimals=4).tolist() if case.chance(0.7) else None
            if rpy is not None and case.chance(0.2):
                rpy[1] = case.choice([1.5707963267948966, -1.5707963267948966, 3.141592653589793, 0.0])
            u = case.rng.random()
            if u < 0.35:
                axis = [0.0, 0.0, 0.0]
                axis[case.randint(0, 2)] = case.choice([1.0, -1.0])
            elif u < 0.45:
                axis = None
            else:
                a = case.randn(3)
                axis = (a / a.norm()).tolist()
            self.joints.append(dict(name=f"j{case.rng.getrandbits(20)}_{i}", kind=kind, parent=parent, child=names[i], xyz=xyz,
                                    rpy=rpy, axis=axis, at_origin=xyz is None and rpy is None))
        self.links = list(names)
        case.rng.shuffle(self.links)
        self.doc = list(self.joints)
        case.rng.shuffle(self.doc)

    def xml(self):
        out = ['<robot name="rnd">'] + [f'<link name="{k}"/>' for k in self.links]
        for j in self.doc:
            out.append(f'<joint name="{j["name"]}" type="{j["kind"]}"><parent link="{j["parent"]}"/>'
                       f'<child link="{j["child"]}"/>')
            if not j["at_origin"]:
                at = ""
                if j["xyz"] is not None:
                    at += ' xyz="%s"' % " ".join(map(repr, j["xyz"]))
                if j["rpy"] is not None:
                    at += ' rpy="%s"' % " ".join(map(repr, j["rpy"]))
                out.append(f"<origin{at}/>")
            if j["kind"] != "fixed" and j["axis"] is not None:
                out.append('<axis xyz="%s"/>' % " ".join(map(repr, j["axis"])))
            if j["kind"] in ("revolute", "prismatic"):
                out.append('<limit lower="-9" upper="9" effort="1" velocity="1"/>')
            out.append("</joint>")
        return "\n".join(out + ["</robot>"])

    def load(self, dtype, device="cpu"):
        fd, path = tempfile.mkstemp(suffix=".urdf")
        try:
            with os.fdopen(fd, "w") as f:
                f.write(self.xml())
            kw = {} if dtype is None else dict(dtype=dtype)
            return torchkin.Robot.from_urdf_file(path, **kw)
        finally:
            os.unlink(path)

    def poses(self, q, column):
        """{link: (B,4,4)}, {joint: (B,4,4) joint frame}, from the URDF's definition."""
        B = q.shape[0]
        T = {self.root: torch.eye(4, dtype=D64).expand(B, 4, 4)}
        for j in self.joints:  # parents come first
            O = torch.eye(4, dtype=D64)
            if j["xyz"] is not None:
                O[:3, 3] = torch.tensor(j["xyz"], dtype=D64)
            if j["rpy"] is not None:
                O[:3, :3] = rpy_mat(j["rpy"])
            M = T[j["parent"]] @ O
            if j["kind"] != "fixed":
                M = M @ motion(j["kind"], j["axis"] or [1.0, 0.0, 0.0], q[:, column[j["name"]]])
            T[j["child"]] = M
        return T

    def path(self, link):
        """Moving joints between the root and a link."""
        up = {j["child"]: j for j in self.joints}
        out = []
        while link in up:
            if up[link]["kind"] != "fixed":
                out.append(up[link])
            link = up[link]["parent"]
        return out[::-1]

    def spatial(self, T, link, column, dof):
        B = next(iter(T.values())).shape[0]
        J = torch.zeros(B, 6, dof, dtype=D64)
        cols = {}
        for j in self.path(link):
            M = T[j["child"]]
            a = M[:, :3, :3] @ torch.tensor(j["axis"] or [1.0, 0.0, 0.0], dtype=D64)
            if j["kind"] == "prismatic":
                c = torch.cat([a, torch.zeros_like(a)], 1)
            else:
                c = torch.cat([torch.linalg.cross(M[:, :3, 3], a), a], 1)
            cols[column[j["name"]]] = c
        return torch.stack([cols.get(i, torch.zeros(B, 6, dtype=D64)) for i in range(dof)], 2) if dof else J


def values_for(case, B, dof):
    q = case.randn(B, dof, scale=case.choice([1e-3, 1.0, 1.0, 5.0]))
    if dof and case.chance(0.2):
        q[0, case.randint(0, dof - 1)] = case.choice([0.0, 3.141592653589793, -3.141592653589793])
    return q


def start(case):
    tree = Tree(case)
    dtype = case.choice([D64, D64, D32])
    if case.chance(0.1):
        dtype, robot = D32, tree.load(None)
    else:
        robot = tree.load(dtype)
    column = {j["name"]: robot.joint_map[j["name"]].id for j in tree.joints if j["kind"] != "fixed"}
    dof = len(column)
    B = case.randint(1, 5)
    q = values_for(case, B, dof).to(dtype)
    names = None
    if case.chance(0.8):
        names = case.rng.sample(tree.links, case.randint(1, len(tree.links)))
        if case.chance(0.15):
            names = names + [case.choice(names)]
    case.sig(tree.xml(), q)
    case.describe(links=len(tree.links), dof=dof, B=B, dtype=str(dtype), names=names)
    return tree, dtype, robot, column, dof, B, q, names


def sc_tree(case):
    """Forward kinematics and Jacobians."""
    tree, dtype, robot, column, dof, B, q, names = start(case)
    # structure
    case.check(robot.name == "rnd" and robot.dof == dof, "degrees of freedom", got=robot.dof, want=dof)
    case.check(sorted(column.values()) == list(range(dof)), "moving joints are numbered 0..dof-1")
    case.check(robot.num_links == len(tree.links) == len(robot.links), "number of links")
    case.check(robot.num_joints == len(tree.joints) == len(robot.joints), "number of joints")
    case.check(robot.dtype == dtype, "dtype")
    case.check(set(robot.link_map) == set(tree.links), "link names")
    for i, k in enumerate(robot.links):
        case.check(k.id == i and robot.link_map[k.name] is k, "link ids")
    for i, j in enumerate(robot.joints):
        case.check(j.id == i and robot.joint_map[j.name] is j, "joint ids")
    for k in tree.links:
        up = robot.link_map[k]
        case.check(sorted(up.ancestor_non_fixed_joint_ids) == sorted(column[j["name"]] for j in tree.path(k)),
                   "ancestor joints of a link", link=k)
    case.check([k.name for k in robot.get_links(names)] == (names if names is not None else [k.name for k in robot.links]),
               "get_links keeps the order")
    sel = names if names is not None else [k.name for k in robot.links]
    fk, jb, js = torchkin.get_forward_kinematics_fns(robot, names) if names is not None or case.chance(0.5) else \
        torchkin.get_forward_kinematics_fns(robot)
    q0 = q.clone()
    T = tree.poses(q.double(), column)
    e = (1e-8 if dtype == D64 else 2e-5) * (1 + max(float(t.abs().max()) for t in T.values())) * 3
    for rep in range(2):
        out = fk(q)
        case.check(len(out) == len(sel), "number of poses")
        for k, p in zip(sel, out):
            case.check(p.dtype == dtype, "dtype of a pose")
            case.close(p.expand(B, 3, 4) if k == tree.root else p, T[k][:, :3], e, f"pose of a link", link=k)
    SE3 = ref.group("SE3")
    Js, out_s = js(q)
    Jb, out_b = jb(q)
    case.check(len(Js) == len(Jb) == len(sel), "number of Jacobians")
    for i, k in enumerate(sel):
        want = tree.spatial(T, k, column, dof)
        case.close(Js[i].reshape(B, 6, dof), want, 5 * e, "spatial Jacobian", link=k)
        A = SE3.Ad(SE3.inv(T[k]))
        case.close(Jb[i].reshape(B, 6, dof), A @ want, 20 * e * (1 + float(A.abs().max())), "body Jacobian", link=k)
        case.close(out_s[i].expand(B, 3, 4), T[k][:, :3], e, "pose next to the spatial Jacobian")
        case.close(out_b[i].expand(B, 3, 4), T[k][:, :3], e, "pose next to the body Jacobian")
    case.same(q, q0, "joint values are unchanged")
    for bad in ([q[:, :-1]] if dof else []) + [torch.cat([q, q[:, :1] if dof else q.new_zeros(B, 1)], 1), q[0]]:
        case.raises(ValueError, lambda: fk(bad), "joint values of a wrong shape")
    case.event("links", len(sel))
    case.event("joints", len(tree.joints))
    for j in tree.joints:
        case.event("type:" + j["kind"])
    case.trivial = dof == 0


def sc_grad(case):
    """Derivatives through poses and Jacobians, to second order, and functorch transforms."""
    tree, dtype, robot, column, dof, B, q, names = start(case)
    if dof == 0:
        raise Skip()
    if dtype == D32:
        q = q.double().to(D64)
        robot = tree.load(D64)
        column = {j["name"]: robot.joint_map[j["name"]].id for j in tree.joints if j["kind"] != "fixed"}
    names = names or [k.name for k in robot.links]
    fk, jb, js = torchkin.get_forward_kinematics_fns(robot, names)
    used = [i for i in range(len(names)) if case.chance(0.7)] or [0]
    C = case.randn(len(names), B, 3, 4)
    D = case.randn(len(names), B, 6, dof)
    which = case.choice(["pose", "pose", "spatial", "body"])
    V = case.randn(B, dof)
    case.describe(which=which, used=len(used))

    def real(x):
        if which == "pose":
            o = fk(x)
            return sum((C[i] * o[i]).sum() + 0.5 * ((o[i] ** 2) * C[i]).sum() for i in used)
        J, o = (js if which == "spatial" else jb)(x)
        return sum((D[i] * J[i]).sum() + (C[i] * o[i]).sum() for i in used)

    def want(x):
        T = tree.poses(x, column)
        if which == "pose":
            return sum((C[i] * T[names[i]][:, :3]).sum() + 0.5 * ((T[names[i]][:, :3] ** 2) * C[i]).sum() for i in used)
        t = 0.0
        SE3 = ref.group("SE3")
        for i in used:
            J = tree.spatial(T, names[i], column, dof)
            if which == "body":
                M = T[names[i]]
                R, p = M[:, :3, :3].transpose(1, 2), M[:, :3, 3:]
                w = R @ J[:, 3:]
                v = R @ (J[:, :3] - torch.linalg.cross(p.expand(-1, -1, dof), J[:, 3:], dim=1))
                J = torch.cat([v, w], 1)
            t = t + (D[i] * J).sum() + (C[i] * T[names[i]][:, :3]).sum()
        return t

    outs = []
    for f in (real, want):
        x = q.clone().requires_grad_(True)
        y = f(x)
        if not y.requires_grad:
            outs.append((y.detach(), torch.zeros_like(q), torch.zeros_like(q)))
            continue
        order = case.chance(0.5) if f is real else False
        if order:  # a plain backward first
            torch.autograd.grad(y, x, retain_graph=True)
        g, = torch.autograd.grad(y, x, create_graph=True)
        if g.requires_grad:
            h, = torch.autograd.grad((g * V).sum(), x, allow_unused=True)
            h = torch.zeros_like(q) if h is None else h
        else:
            h = torch.zeros_like(q)
        outs.append((y.detach(), g.detach(), h))
    s = 1 + max(float(t.abs().max()) for o in outs[1:] for t in o)
    # series are used for small rotations: their derivatives lose accuracy
    tol2 = 1e-7 if float(q.abs().min()) > 2e-2 else 1e-4
    for a, b, what, t in zip(outs[0], outs[1], ["value", "gradient", "second derivative"], [1e-8, 1e-7, tol2]):
        case.close(a, b, t * s, f"{what} through {which}")
    case.event("grad:" + which)
    # transforms
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        k = case.choice(used)
        f1 = lambda x: fk(x[None])[k][0]  # noqa: E731
        T = tree.poses(q, column)[names[k]][:, :3]
        if case.chance(0.6):
            case.close(torch.vmap(f1)(q), T, 1e-9 * s, "vmap of forward kinematics")
        if case.chance(0.6):
            J = torch.vmap(torch.func.jacrev(f1))(q)
            W = torch.func.jacrev(lambda x: tree.poses(x, column)[names[k]][:, :3].sum(0))(q).permute(2, 0, 1, 3)
            case.close(J, W, 1e-8 * s, "vmap of jacrev of forward kinematics")
            case.event("jacrev")


def sc_joints(case):
    """Joint objects."""
    dtype = case.choice([D64, D64, D32])
    B = case.randint(1, 5)
    kind = case.choice(["revolute", "prismatic", "fixed", "rx", "ry", "rz", "px", "py", "pz"])
    e = 1e-8 if dtype == D64 else 3e-5
    O = torch.eye(4, dtype=D64)
    has_origin = case.chance(0.8)
    if has_origin:
        O[:3, :3] = rpy_mat(case.randn(3))
        O[:3, 3] = case.randn(3)
    kw = dict(origin=O[None, :3].to(dtype)) if has_origin else dict(dtype=dtype)
    q = case.randn(B, scale=case.choice([0.01, 1.0, 4.0]))
    axis = case.randn(3)
    axis = axis / axis.norm()
    case.sig(kind, O, q, axis)
    case.describe(kind=kind, dtype=str(dtype), origin=has_origin)
    if kind == "fixed":
        j = tkj.FixedJoint("j", **kw)
        case.close(j.relative_pose(), O[None, :3], e, "fixed joint")
        case.check(j.dof == 0 and j.axis.shape == (6, 0), "dof")
        case.raises(ValueError, lambda: j.relative_pose(q.to(dtype)), "a fixed joint takes no value")
    else:
        if kind in ("revolute", "prismatic"):
            cls = tkj.RevoluteJoint if kind == "revolute" else tkj.PrismaticJoint
            ax = axis.to(dtype)
            j = cls("j", ax if case.chance(0.5) else ax.view(3, 1), **kw)
            case.raises(ValueError, lambda: cls("j", ax[:2], **kw), "an axis with two elements")
            case.raises(ValueError, lambda: cls("j", ax.to(D32 if dtype == D64 else D64), **kw), "an axis of another dtype")
        else:
            cls = getattr(tkj, {"r": "RevoluteJoint", "p": "PrismaticJoint"}[kind[0]] + kind[1].upper())
            j = cls("j", **kw)
            axis = torch.zeros(3, dtype=D64)
            axis["xyz".index(kind[1])] = 1
        m = "prismatic" if kind[0] == "p" else "revolute"
        want = (O @ motion(m, axis.tolist(), q))[:, :3]
        x = q.to(dtype)
        case.close(j.relative_pose(x), want, e * 5, "relative pose")
        case.close(j.relative_pose(x.view(-1, 1)), want, e * 5, "relative pose of a column")
        w = torch.zeros(6, 1, dtype=D64)
        w[(slice(0, 3) if m == "prismatic" else slice(3, 6)), 0] = axis
        case.close(j.axis, w, e, "axis")
        case.check(j.dof == 1, "dof")
        case.raises(ValueError, lambda: j.relative_pose(), "no value given")
        case.raises(ValueError, lambda: j.relative_pose(torch.zeros(2, 2, dtype=dtype)), "a matrix as the joint's value")
        rel = j.rotation(x) if m == "revolute" else j.translation(x)
        M = motion(m, axis.tolist(), q)
        case.close(rel, M[:, :3, :3] if m == "revolute" else M[:, :3, 3], 5 * e, "rotation/translation")
        case.same(x, q.to(dtype), "the value is unchanged")
    case.check(j.dtype == dtype and j.origin.dtype == dtype and j.name == "j", "attributes")
    case.event("joint:" + kind)


def sc_model(case):
    """theseus' UrdfRobotModel is the same robot; unsupported joints are refused."""
    tree, dtype, robot, column, dof, B, q, names = start(case)
    fd, path = tempfile.mkstemp(suffix=".urdf")
    with os.fdopen(fd, "w") as f:
        f.write(tree.xml())
    if names is not None:
        names = list(dict.fromkeys(names))
    try:
        m = th.eb.UrdfRobotModel(path, dtype=dtype, **({} if names is None else dict(link_names=names)))
        if tree.joints and case.chance(0.3):
            j = case.choice(tree.joints)
            old, j["kind"] = j["kind"], case.choice(["floating", "planar"])
            with open(path, "w") as f:
                f.write(tree.xml())
            case.raises(ValueError, lambda: th.eb.UrdfRobotModel(path, dtype=dtype), "unsupported joint type")
            j["kind"] = old
    finally:
        os.unlink(path)
    T = tree.poses(q.double(), column)
    e = (1e-8 if dtype == D64 else 2e-5) * (1 + max(float(t.abs().max()) for t in T.values())) * 3
    x = q if case.chance(0.5) or dof == 0 else th.Vector(tensor=q)
    sel = names if names is not None else tree.links
    SE3 = ref.group("SE3")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = m.forward_kinematics(x)
        Jb, Js = {}, {}
        pb = m.forward_kinematics(x, jacobians=Jb)
        ps = m.forward_kinematics(x, jacobians=Js, use_body_jacobians=False)
        if dof:
            case.raises(ValueError, lambda: m.forward_kinematics(x, jacobians=Jb), "a filled dictionary of Jacobians")
            case.raises(ValueError, lambda: m.forward_kinematics(q[:, 1:]), "wrong number of joint values")
    for d in (p, pb, ps, Jb, Js):
        case.check(set(d) == set(sel), "links in the answer", got=sorted(d), want=sorted(sel))
    for k in sel:
        W = tree.spatial(T, k, column, dof)
        A = SE3.Ad(SE3.inv(T[k]))
        for d in (p, pb, ps):
            case.check(isinstance(d[k], th.SE3), "type of a pose")
            case.close(d[k].tensor.expand(B, 3, 4), T[k][:, :3], e, "pose")
        case.close(Js[k].reshape(B, 6, dof), W, 5 * e, "spatial Jacobian")
        case.close(Jb[k].reshape(B, 6, dof), A @ W, 20 * e * (1 + float(A.abs().max())), "body Jacobian")
    case.event("model")


SCENARIOS = {
    "tree": Scenario(sc_tree, 900, 15000),
    "grad": Scenario(sc_grad, 500, 8000),
    "joints": Scenario(sc_joints, 600, 6000),
    "model": Scenario(sc_model, 200, 3000),
}
