"""C28: the motion planner's problem, trajectories, models and dataset."""
import json
import math
import os
import random
import tempfile

import numpy as np
import torch

import theseus as th
import theseus.utils.examples as theg
from theseus.optimizer import DenseLinearization

from .. import gen, ref
from ..core import D32, D64, Scenario, Skip
from .c27 import crash

ID = "C28"
RULE = ("a case is a random planner (pose type, horizon, weights, precision, optional costs) with a random field, end points and "
        "trajectory, whose objective is compared cost by cost with independent formulas, and whose trajectory conversions, copies, "
        "solutions, initial-trajectory model and dataset are compared with independent constructions")
ASSUMPTIONS = ["points within rounding of a kink of the collision cost are not compared",
               "InitialTrajectoryModel is used, like in its example, with float64 as torch's default"]


def spd(case, n):
    A = case.randn(n, n)
    return A @ A.T / n + torch.eye(n, dtype=D64)


class Setup:
    def __init__(self, case, linear=False, se2=None, opt=None):
        c = case
        self.case = c
        self.se2 = (c.chance(0.45) if se2 is None else se2) and not linear
        self.dof = 3 if self.se2 else 2
        self.N = c.randint(1, 5)
        self.map = c.randint(3, 7)
        self.T = float(c.rand((), lo=0.5, hi=4))
        self.dt = D64 if linear or c.chance(0.7) else D32
        self.w = float(c.logu(0.1, 30))
        self.eps = float(c.rand((), lo=0.05, hi=1))
        self.Q = spd(c, self.dof)
        self.single = c.chance(0.6)
        extra = 0.5 if self.dt == D32 else 0.15  # with float64 the extra costs are a known finding
        self.nh = float(c.logu(0.1, 10)) if self.se2 and c.chance(extra) else 0.0
        self.pv = float(c.logu(0.1, 10)) if self.se2 and c.chance(extra) else 0.0
        self.opt = opt or ("LevenbergMarquardt", {"max_iterations": 3})
        self.kw = dict(map_size=self.map, epsilon_dist=self.eps, total_time=self.T, collision_weight=self.w,
                       Qc_inv=self.Q.tolist() if c.chance(0.5) else self.Q.clone(), num_time_steps=self.N,
                       use_single_collision_weight=self.single, pose_type=th.SE2 if self.se2 else th.Point2,
                       dtype=self.dt, nonholonomic_w=self.nh, positive_vel_w=self.pv)
        self.planner = crash(c, "float64-velocity-costs", (self.nh or self.pv) and self.dt == D64, ValueError, "float32",
                             self.build)

    def build(self):
        if self.case.chance(0.3):
            return theg.MotionPlanner(self.opt, objective=theg.MotionPlannerObjective(**self.kw), dtype=self.dt)
        return theg.MotionPlanner(self.opt, **self.kw)

    def trajectory(self, *a, **kw):
        """planner.get_trajectory(), and the type it should have kept."""
        t = self.planner.get_trajectory(*a, **kw)
        if self.dt == D64 and t.dtype == D32:
            self.case.fail("get_trajectory() truncates float64 to float32", "trajectory-float32")
        else:
            self.case.check(t.dtype == self.dt, "type of a trajectory")
        return t

    def poses(self, B):
        c = self.case
        if self.se2:
            a = c.rand(B, lo=-7, hi=7)
            return torch.cat([c.randn(B, 2), a.cos()[:, None], a.sin()[:, None]], 1).to(self.dt)
        return c.randn(B, 2).to(self.dt)

    def inputs(self, B, traj=True, far=False):
        c = self.case
        b = lambda: c.choice([1, B])  # noqa: E731
        sdf = c.randn(b(), self.map, self.map)
        d = {"start": self.poses(b()), "goal": c.randn(b(), 2), "sdf_origin": c.randn(b(), 2) - 1.5,
             "sdf_data": sdf.abs() + 50 if far else sdf, "cell_size": c.rand(b(), 1, lo=0.2, hi=1.2)}
        if far:  # a field that covers everything
            d["sdf_origin"] = torch.full((1, 2), -50.0, dtype=D64)
            d["cell_size"] = torch.full((1, 1), 200.0 / (self.map - 1), dtype=D64)
        if c.chance(0.4):
            d["cost_eps"] = c.rand(b(), 1, lo=0.05, hi=1)
        if c.chance(0.4):
            d["dt"] = c.rand(b(), 1, lo=0.1, hi=1)
        if c.chance(0.4):
            for n in ["collision_w"] if self.single else [f"collision_w_{i}" for i in range(1, self.N + 1)]:
                d[n] = c.rand(b(), 1, lo=0.1, hi=9)
        if traj:
            for i in range(self.N + 1):
                d[f"pose_{i}"] = self.poses(B)
                d[f"vel_{i}"] = c.randn(B, self.dof)
        return {k: v.to(self.dt) for k, v in d.items()}

    # -- the documented problem -------------------------------------------------------
    def spec(self, inp, w=None, nh=None, pv=None):
        s = gen.Spec(1)
        w = self.w if w is None else w

        def var(name, kind, value, dof=None):
            v = gen.VarSpec(name, kind, dof if dof else (value.shape[1] if kind == "Vector" else None), None, None)
            v.value = value.double()
            s.vars[name] = v

        pk = "SE2" if self.se2 else "Point2"
        one = lambda x: torch.full((1, 1), float(torch.tensor(x, dtype=self.dt)), dtype=D64)  # noqa: E731
        var("start", pk, inp["start"])
        for n in ("goal", "sdf_origin"):
            var(n, "Point2", inp[n])
        for n in ("sdf_data", "cell_size"):
            var(n, "raw", inp[n])
        var("cost_eps", "raw", inp.get("cost_eps", one(self.eps)))
        var("dt", "raw", inp.get("dt", one(self.T / self.N)))
        var("Q", "raw", self.Q.to(self.dt)[None])
        var("hundred", "raw", one(100.0))
        var("vzero", "Vector", torch.zeros(1, self.dof, dtype=D64), self.dof)
        s.weights["bw"] = gen.WeightSpec("bw", "scale", ["hundred"])
        s.weights["gp"] = gen.WeightSpec("gp", "gp", ["Q", "dt"])
        for i in range(1, self.N + 1):
            n = "collision_w" if self.single else f"collision_w_{i}"
            var(f"cw{i}", "raw", inp.get(n, one(w)))
            s.weights[f"cw{i}"] = gen.WeightSpec(f"cw{i}", "scale", [f"cw{i}"])
        for i in range(self.N + 1):
            var(f"pose_{i}", pk, inp[f"pose_{i}"])
            var(f"vel_{i}", "Vector", inp[f"vel_{i}"], self.dof)

        def cost(name, kind, opt, aux, weight, dim):
            c = gen.CostSpec(name, kind, opt, aux, weight)
            c.dim = dim
            s.costs.append(c)

        N = self.N
        cost("pose_0", "diff", ["pose_0"], ["start"], "bw", self.dof)
        cost("vel_0", "diff", ["vel_0"], ["vzero"], "bw", self.dof)
        if self.se2:
            var("xy", "Point2", inp[f"pose_{N}"][:, :2])
        cost("pose_N", "diff", ["xy" if self.se2 else f"pose_{N}"], ["goal"], "bw", 2)
        cost("vel_N", "diff", [f"vel_{N}"], ["vzero"], "bw", self.dof)
        nh, pv = self.nh if nh is None else nh, self.pv if pv is None else pv
        if nh:
            var("nhw", "raw", one(nh))
            s.weights["nhw"] = gen.WeightSpec("nhw", "scale", ["nhw"])
        if pv:
            var("pvw", "raw", one(pv))
            s.weights["pvw"] = gen.WeightSpec("pvw", "scale", ["pvw"])
            inf = math.inf
            var("lo", "raw", torch.tensor([[0.0, -inf, -inf]], dtype=D64))
            var("hi", "raw", torch.tensor([[inf, inf, inf]], dtype=D64))
            var("thr", "raw", torch.ones(1, 3, dtype=D64))
        for i in range(1, N + 1):
            cost(f"collision_{i}", "coll", [f"pose_{i}"], ["sdf_origin", "sdf_data", "cell_size", "cost_eps"], f"cw{i}", 1)
            cost(f"gp_{i}", "gp", [f"pose_{i-1}", f"vel_{i-1}", f"pose_{i}", f"vel_{i}"], ["dt"], "gp", 2 * self.dof)
            if nh:
                cost(f"nonholonomic_{i}", "nonhol", [f"pose_{i}", f"vel_{i}"], [], "nhw", 1)
            if pv:
                cost(f"positive_vel_{i}", "hinge", [f"vel_{i-1}"], ["lo", "hi", "thr"], "pvw", 3)
        return s

    def verify(self, planner, inp, what, **kw):
        """Each cost of the planner equals its formula; returns the reference error (B, dim) in the order of names."""
        case = self.case
        s = self.spec(inp, **kw)
        vals = {n: v.value for n, v in s.vars.items()}
        obj = planner.objective
        case.check(sorted(obj.cost_functions) == sorted(c.name for c in s.costs), f"cost functions {what}: {sorted(obj.cost_functions)}")
        case.check(set(obj.optim_vars) == {f"{k}_{i}" for k in ("pose", "vel") for i in range(self.N + 1)}, f"optimization variables {what}")
        B = obj.batch_size
        tot = {}
        for cs in s.costs:
            w = gen.ref_weighted(s, cs, vals)
            tot[cs.name] = w.expand(B, -1)
            cf = obj.get_cost_function(cs.name)
            got = cf.weighted_error()
            tol = (1e-8 if self.dt == D64 else 3e-3) * (1 + float(w.abs().max()))
            if cs.kind == "coll" and self.borderline(vals, cs):
                continue
            n = max(w.shape[0], got.shape[0])
            case.close(got.expand(n, -1), w.expand(n, -1), tol, f"{cs.name.split('_')[0]} cost {what}")
        order = [c for c in obj.cost_functions]
        return torch.cat([tot[n] for n in order], 1)

    def borderline(self, vals, cs):
        """Near the border of the map, where rounding decides."""
        o, sdf, cell, _ = (vals[a] for a in cs.aux)
        p = vals[cs.opt[0]][:, :2]
        rc = (p - o) / cell
        H, W = sdf.shape[1:]
        lim = torch.tensor([W - 1.0, H - 1.0], dtype=D64)
        return bool(((rc.abs() < 1e-4) | ((rc - lim).abs() < 1e-4)).any())


def sc_problem(case):
    st = Setup(case)
    p = st.planner
    B = case.randint(1, 3)
    inp = st.inputs(B)
    case.sig(st.se2, st.N, st.nh, st.pv, st.single, str(st.dt), *inp.values())
    case.describe(se2=st.se2, N=st.N, B=B, nonholonomic=st.nh, positive=st.pv, single=st.single, dtype=str(st.dt))
    p.objective.update(inp)
    e = st.verify(p, inp, "")
    low = st.dt == D32
    s = st.spec(inp)
    vals = {n: v.value for n, v in s.vars.items()}
    ok = not any(c.kind == "coll" and st.borderline(vals, c) for c in s.costs)
    if ok:
        case.close(p.objective.error(), e, (2e-2 if low else 1e-8) * (1 + float(e.abs().max())), "error of the objective")
        mse = float(((e ** 2).sum(1) / 2).mean())
        case.check(abs(p.error() - mse) <= (2e-2 if low else 1e-7) * (1 + mse), f"planner.error() {p.error()}, formula {mse}")
        gp, col = p.get_total_squared_errors()
        r = [gen.ref_error(s, c, vals) for c in s.costs if c.kind == "gp"]
        k = [gen.ref_error(s, c, vals) for c in s.costs if c.kind == "coll"]
        for a, q, n in ((gp, r, "gp"), (col, k, "collision")):
            w = float(sum((t ** 2).mean() for t in q))
            case.check(abs(float(a) - w) <= (2e-2 if low else 1e-7) * (1 + w), f"total squared {n} error {float(a)}, formula {w}")
    w = case.choice([None, 0.0, 2.5])
    q = p.copy(**({} if w is None and case.chance(0.5) else {"collision_weight": w}))
    case.check(q.objective is not p.objective and not set(map(id, q.objective.optim_vars.values())) & set(map(id, p.objective.optim_vars.values())),
               "a copy shares variables")
    kept = {}
    if w == 0.0 and all(float(v.tensor.abs().max()) > 0 for k, v in q.objective.aux_vars.items() if k.startswith("collision_w")):
        case.fail("copy(collision_weight=0) keeps the planner's weight", "copy-zero-collision-weight")
        w = None
    if (st.nh or st.pv) and not any(n.startswith(("nonholonomic", "positive_vel")) for n in q.objective.cost_functions):
        case.fail("copy() has no nonholonomic and positive velocity costs", "copy-drops-velocity-costs")
        kept = {"nh": 0.0, "pv": 0.0}
    inp2 = {k: v for k, v in st.inputs(case.randint(1, 2)).items() if not k.startswith("collision_w")}
    q.objective.update(inp2)
    st.verify(q, inp2, "of a copy", w=w, **kept)
    p.objective.update()
    st.verify(p, inp, "after copying")
    case.event(("SE2" if st.se2 else "Point2") + ("/nh" if st.nh else "") + ("/pv" if st.pv else ""))


def sc_traj(case):
    """Trajectory conversions are exact inverses; straight lines and random trajectories have the documented form."""
    st = Setup(case)
    p, N, dt = st.planner, st.N, st.dt
    B = case.randint(1, 3)
    pn = 4 if st.se2 else 2
    inp = st.inputs(B)
    p.objective.update(inp)
    case.sig(st.se2, N, str(dt), *inp.values())
    case.describe(se2=st.se2, N=N, B=B, dtype=str(dt))
    t = st.trajectory()
    td = t.dtype
    case.check(t.shape == (B, pn + st.dof, N + 1), f"shape of a trajectory {tuple(t.shape)}")
    for i in range(N + 1):
        case.same(t[:, :pn, i], p.objective.optim_vars[f"pose_{i}"].tensor.to(td), "pose in a trajectory")
        case.same(t[:, pn:, i], p.objective.optim_vars[f"vel_{i}"].tensor.to(td), "velocity in a trajectory")
    d = p.get_variable_values_from_trajectory(t)
    case.check(set(d) == set(p.objective.optim_vars), "variables of a trajectory")
    for k, v in d.items():
        case.same(v, p.objective.optim_vars[k].tensor.to(td), "variable from a trajectory")
    d = {k: v.tensor.clone() for k, v in p.objective.optim_vars.items()}
    other = {k: torch.randn_like(v).requires_grad_(True) for k, v in d.items() if k.startswith("pose") or case.chance(0.7)}
    det = case.chance(0.5)
    u = st.trajectory(other, detach=det)
    case.check(u.requires_grad != det, "detach")
    for i in range(N + 1):
        case.same(u[:, :pn, i], other[f"pose_{i}"].to(td), "pose of given values")
        w = other.get(f"vel_{i}", torch.zeros(B, st.dof, dtype=dt))
        case.same(u[:, pn:, i], w.to(td), "velocity of given values")
    for k, v in d.items():
        case.same(p.objective.optim_vars[k].tensor, v, "conversion changes the planner")
    bad = torch.zeros(B, pn + st.dof, N + 2, dtype=dt)
    case.raises(AssertionError, lambda: p.get_variable_values_from_trajectory(bad), "a trajectory of another length")
    s, g = st.poses(B), case.randn(B, 2).to(dt)
    g = torch.cat([g, s[:, 2:]], 1) if st.se2 else g
    L = p.get_variable_values_from_straight_line(s, g)
    case.check(set(L) == set(p.objective.optim_vars), "variables of a straight line")
    tol = 1e-12 if dt == D64 else 1e-5
    for i in range(N + 1):
        w = s[:, :2].double() + (g[:, :2].double() - s[:, :2].double()) * i / N
        case.close(L[f"pose_{i}"][:, :2], w, tol * 10, "straight line position")
        if st.se2:
            case.same(L[f"pose_{i}"][:, 2:], s[:, 2:], "straight line angle")
        v = (g[:, :2].double() - s[:, :2].double()) / st.T
        case.close(L[f"vel_{i}"], torch.cat([v, torch.zeros(B, 1, dtype=D64)], 1) if st.se2 else v, tol * 20, "straight line velocity")
    p.objective.update(L)
    R = p.get_randn_trajectory_like(s)
    case.check(set(R) == set(p.objective.optim_vars) and all(v.shape == L[k].shape and v.dtype == dt for k, v in R.items()), "random trajectory")
    case.event("SE2" if st.se2 else "Point2")


def sc_solve(case):
    """Without obstacles a Point2 problem is linear: one Gauss-Newton step gives its minimum.  With obstacles the planner's
    outputs are its variables' values, and the inputs it isn't given keep their values."""
    lin = case.chance(0.5)
    st = Setup(case, linear=lin, opt=("GaussNewton", {"max_iterations": case.randint(1, 3)}) if lin else
               (case.choice(["LevenbergMarquardt", "Dogleg"]), {"max_iterations": case.randint(1, 4)}))
    p = st.planner
    B = case.randint(1, 3)
    inp = st.inputs(B, far=lin)
    case.sig(lin, st.se2, st.N, str(st.dt), *inp.values())
    case.describe(linear=lin, se2=st.se2, N=st.N, B=B, opt=st.opt[0])
    if lin:
        out, info = p.forward(inp)
        names = sorted(out)
        x = torch.cat([out[n].double() for n in names], 1).requires_grad_(True)
        parts, k = {}, 0
        for n in names:
            parts[n] = x[:, k:k + 2]
            k += 2
        s = st.spec({**inp, **{n: v.detach() for n, v in parts.items()}})
        vals = {n: v.value for n, v in s.vars.items()}
        vals.update(parts)
        f = sum((gen.ref_weighted(s, c, vals).expand(B, -1) ** 2).sum() for c in s.costs if c.kind != "coll")
        g, = torch.autograd.grad(f, x)
        case.check(float(g.abs().max()) <= 1e-5 * (1 + float(f)) * 1e2, f"gradient {float(g.abs().max()):.3g} at the planner's solution of a linear problem")
    else:
        with torch.no_grad():
            try:
                out, info = p.forward(inp, {"track_err_history": True})
            except RuntimeError:
                raise Skip()
    case.check(set(out) == set(p.objective.optim_vars), "outputs of the planner")
    for k, v in out.items():
        case.same(v, p.objective.optim_vars[k].tensor, "output vs variable")
    t = st.trajectory()
    case.same(st.trajectory(out), t, "trajectory of the outputs")
    for k, v in inp.items():
        if k not in out:
            case.same(p.objective.aux_vars[k].tensor, v, "an input after the planner ran")
    st.verify(p, {**inp, **out}, "after planning")
    case.event("linear" if lin else st.opt[0])


def sc_initial(case):
    """The initial trajectory: parabola through both ends, plus the factor of the planner's covariance times u."""
    old = torch.get_default_dtype()
    torch.set_default_dtype(D64)
    try:
        st = Setup(case, linear=True, opt=("GaussNewton", {"max_iterations": 1}))
        zero = case.chance(0.4)
        N, B, K = st.N, case.randint(1, 3), case.randint(1, 4)
        m = theg.InitialTrajectoryModel(st.planner, max_num_images=K, hid_size=4).double()
        if zero:
            m.layers_u[-1].weight.data.zero_()
            m.layers_u[-1].bias.data.zero_()
        traj = case.randn(B, 4, N + 1)
        ids = [(case.choice(["tarpit", "forest"]), case.randint(0, K - 1)) for _ in range(B)]
        inp = st.inputs(B, traj=False, far=True)  # copy() with a zero weight is a known finding
        batch = {"expert_trajectory": traj, "file_id": [f"{a}_{b}" for a, b in ids],
                 "sdf_origin": inp["sdf_origin"].expand(B, -1), "cell_size": inp["cell_size"].expand(B, -1),
                 "sdf_data": inp["sdf_data"].expand(B, -1, -1)}
        case.sig(N, B, traj, *[p for p in m.parameters()])
        case.describe(N=N, B=B, zero=zero)
        out = m(batch)
        case.check(set(out) == {f"{k}_{i}" for k in ("pose", "vel") for i in range(N + 1)}, "variables of the initial trajectory")
        one = torch.zeros(B, 2 * K)
        for b, (a, k) in enumerate(ids):
            one[b, k + (K if a == "forest" else 0)] = 1
        s, g = traj[:, :2, 0], traj[:, :2, -1]
        d = g - s
        bend = m.bend_factor(one)
        nrm = torch.stack([-d[:, 1], d[:, 0]], 1) / d.norm(dim=1, keepdim=True)
        mean = []
        for i in range(N + 1):
            f = i / N
            h = (2 * f - 1) ** 2 - 1
            mean.append(s + d * f + nrm * 2 * bend * h)
        vel = [torch.zeros(B, 2)] + [(mean[i] - mean[i - 1]) / (st.T / N) for i in range(1, N + 1)]
        x = torch.stack([torch.cat([a, b], 1) for a, b in zip(mean, vel)], 1).reshape(B, -1)
        got = torch.cat([torch.cat([out[f"pose_{i}"], out[f"vel_{i}"]], 1) for i in range(N + 1)], 1)
        if zero:
            case.close(got, x, 1e-8 * (1 + float(x.abs().max())), "initial trajectory without a sample")
            case.close(out["pose_0"], s, 1e-8, "start of the initial trajectory")
            case.close(out[f"pose_{N}"], g, 1e-8 * (1 + float(g.abs().max())), "end of the initial trajectory")
        else:
            # u = L^-1 (got - mean); L L^T is the inverse of the information matrix without obstacles
            names = [f"{k}_{i}" for i in range(N + 1) for k in ("pose", "vel")]
            for b in range(B):
                aux = {k: batch[k][b:b + 1] for k in ("sdf_origin", "cell_size", "sdf_data")}
                aux.update(start=s[b:b + 1], goal=g[b:b + 1])
                v = {f"pose_{i}": mean[i][b:b + 1].detach() for i in range(N + 1)}
                v.update({f"vel_{i}": vel[i][b:b + 1].detach() for i in range(N + 1)})
                sp = st.spec({**aux, **v}, w=0.0)

                def err(z):
                    vals = {n: q.value for n, q in sp.vars.items()}
                    for k, n in enumerate(names):
                        vals[n] = z[2 * k:2 * k + 2][None]
                    return torch.cat([gen.ref_weighted(sp, c, vals)[0] for c in sp.costs if c.kind != "coll"])
                J = torch.autograd.functional.jacobian(err, x[b].detach())
                A = J.T @ J
                e = (got - x)[b].detach()
                u = m.layers_u(one)[b].detach()
                cols = {n: k for k, n in enumerate(names)}
                perm = torch.tensor([2 * cols[n] + k for n in st.planner.objective.optim_vars for k in (0, 1)])
                mixed = torch.linalg.cholesky(torch.inverse(A[perm][:, perm])) @ u
                if not torch.equal(perm, perm.sort().values) and float((e - mixed).abs().max()) <= 1e-6 * (1 + float(mixed.abs().max())):
                    case.fail("the factor of the covariance is in the linearization's variable order", "covariance-order")
                    continue
                q1, q2 = float(e @ A @ e), float(u @ u)
                case.check(abs(q1 - q2) <= 1e-5 * (1 + q2),
                           f"Mahalanobis length of the offset {q1:.6g}, |u|^2 {q2:.6g}")
                L = torch.linalg.cholesky(torch.inverse(A))
                sc = float(L.abs().max()) * (1 + float(u.abs().max()))
                case.close(e, L @ u, 1e-6 * (1 + sc), "offset of the initial trajectory")
        case.event("mean" if zero else "sample")
    finally:
        torch.set_default_dtype(old)


def sc_models(case):
    """Learned weights stay in their documented ranges, and are usable by the planner."""
    st = Setup(case, se2=False)
    r = float(case.rand((), lo=0.1, hi=1))
    a, b = theg.ScalarCollisionWeightModel(), theg.ScalarCollisionWeightAndCostEpstModel(r)
    for m in (a, b):
        for q in m.parameters():
            q.data.mul_(case.logu(0.1, 30))
    oa, ob = a({}), b({})
    case.sig(st.N, *[q for q in a.parameters()])
    case.check(set(oa) == {"collision_w"} and set(ob) == {"collision_w", "cost_eps"}, "outputs of the weight models")
    for o in (oa, ob):
        w = o["collision_w"]
        case.check(w.shape == (1, 1) and 1 - 1e-4 <= float(w) <= 1e4 * (1 + 1e-4), f"collision weight {w}")
        case.check(w.requires_grad, "the collision weight has no gradient")
    case.check(ob["cost_eps"].shape == (1, 1) and r - 1e-5 <= float(ob["cost_eps"]) <= r + 1 + 1e-5, "cost epsilon")
    case.event("models")


def sc_dataset(case):
    """TrajectoryDataset: which files it selects, and their contents."""
    import matplotlib.pyplot as plt
    n, im = case.randint(1, 5), case.randint(3, 6)
    types = case.choice([["tarpit"], ["tarpit", "forest"]])
    lim = sorted(case.randn(2).tolist())
    ylim = sorted(case.randn(2).tolist())
    skip = {f"{t}_{k}" for t in types for k in range(n) if case.chance(0.2)}
    val = case.choice([0, 0.2, 0.5, 1.0])
    gray = case.chance(0.1)
    data = {}
    case.sig(n, im, types, sorted(skip), val, gray, lim)
    case.describe(envs=n, types=types, skipped=len(skip), val=val, gray=gray)
    with tempfile.TemporaryDirectory() as tmp:
        with open(os.path.join(tmp, "meta.yaml"), "w") as f:
            json.dump({"num_envs": n, "map_types": types, "im_size": im, "env_params": {"x_lims": lim, "y_lims": ylim}}, f)
        for t in types:
            os.makedirs(os.path.join(tmp, "im_sdf", t))
            os.makedirs(os.path.join(tmp, "opt_trajs_gpmp2", t))
            for k in range(n):
                img = (case.rand(im, im) > 0.5).numpy().astype(np.float32)
                sdf, tr = case.randn(im, im).numpy(), case.randn(4, 4).numpy()
                path = os.path.join(tmp, "im_sdf", t, f"{k}_im.png")
                if gray:
                    from PIL import Image
                    Image.fromarray((img * 255).astype(np.uint8), mode="L").save(path)
                else:
                    plt.imsave(path, np.stack([img] * 3, -1))
                np.save(os.path.join(tmp, "im_sdf", t, f"{k}_sdf.npy"), sdf)
                np.savez(os.path.join(tmp, "opt_trajs_gpmp2", t, f"env_{k}_prob_0.npz"), th_opt=tr)
                data[f"{t}_{k}"] = (img, sdf, tr)
        if skip or case.chance(0.5):
            with open(os.path.join(tmp, "collision_maps.txt"), "w") as f:
                f.write("\n".join(sorted(skip)))
        filt = case.chance(0.8)
        kind = case.choice(types + ["mixed"])
        seed = case.randint(0, 10 ** 6)
        st = random.getstate()
        try:
            random.seed(seed)
            tr = theg.TrajectoryDataset(True, 1000, tmp, kind, val, filt)
            va = theg.TrajectoryDataset(False, 1000, tmp, kind, val, filt)
            few = theg.TrajectoryDataset(True, 2, tmp, kind, val, filt)
        finally:
            random.setstate(st)
        ids = [f[3] for f in tr.files], [f[3] for f in va.files]
        want = {k for k in data if (kind == "mixed" or k.split("_")[0] == kind) and not (filt and k in skip)}
        case.check(set(ids[0]) | set(ids[1]) == want, f"maps selected: {sorted(set(ids[0]) | set(ids[1]))}, of {sorted(want)}")
        case.check(len(ids[0]) + len(ids[1]) == len(want), "training and validation maps overlap")
        case.check(len(ids[0]) <= int((1 - val) * n) * len(types), "size of the training set")
        case.check(len(few) == min(2, len(tr)) and len(tr) == len(tr.files), "number of images asked for")
        for ds in (tr, va):
            for k in range(len(ds)):
                it = crash(case, "grayscale-map", gray, UnboundLocalError, "the_map", lambda: ds[k])
                img, sdf, t4 = data[it["file_id"]]
                case.close(torch.as_tensor(np.array(it["map_tensor"])), torch.from_numpy(img), 1e-2, "map of an item")
                case.close(it["sdf_data"], torch.from_numpy(sdf), 0.0, "field of an item")
                e = torch.from_numpy(t4).T.clone()
                e[1] *= -1
                e[3] *= -1
                case.close(it["expert_trajectory"], e, 0.0, "trajectory of an item")
                case.close(it["cell_size"], torch.tensor([(lim[1] - lim[0]) / im]), 1e-6, "cell size of an item", rtol=1e-6)
                case.close(it["sdf_origin"], torch.tensor([lim[0], ylim[0]]), 1e-6, "origin of an item")
                case.check(all(it[q].dtype == D64 for q in ("sdf_data", "expert_trajectory", "cell_size", "sdf_origin")), "precision of an item")
    case.event(kind)


SCENARIOS = {
    "problem": Scenario(sc_problem, 100, 1500),
    "traj": Scenario(sc_traj, 100, 1500),
    "solve": Scenario(sc_solve, 80, 1000),
    "initial": Scenario(sc_initial, 80, 1000),
    "models": Scenario(sc_models, 40, 400),
    "dataset": Scenario(sc_dataset, 50, 500),
}
