"""C29: tactile pose estimation: episodes, measurements, objective and poses."""
import contextlib
import io
import json
import math
import os
import pathlib
import tempfile

import numpy as np
import omegaconf
import torch

import theseus as th
import theseus.utils.examples as theg
import theseus.utils.examples.tactile_pose_estimation as tac
from theseus.utils.examples.tactile_pose_estimation import models as tacm

from .. import gen, ref
from ..core import D64, Scenario, Skip
from .c27 import crash

ID = "C29"
RULE = ("a case is a random recording (episodes of random lengths, field, features) with random windows, weights and batch sizes, "
        "whose episodes, batches, measurements, objective, solution and poses are compared with independent constructions")
ASSUMPTIONS = ["the estimator is used, like in its example, with float64 as torch's default",
               "queries within rounding of the field's cell borders are not compared"]


@contextlib.contextmanager
def double():
    old = torch.get_default_dtype()
    torch.set_default_dtype(D64)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        torch.set_default_dtype(old)


class Rec:
    """A recording and the files that hold it."""

    def __init__(self, case, L, feats=4, smooth=False, min_ok=1):
        c = case
        self.L, self.feats = L, feats
        ne = c.randint(min_ok, 6)
        ids = c.rng.sample(range(0, 50), ne)
        lens = [c.randint(L, 3 * L + 1) if k < min_ok or c.chance(0.7) else c.randint(1, L) for k in range(ne)]
        if c.chance(0.8):  # single-step episodes are a known finding
            lens = [max(n, 2) for n in lens]
        self.single = 1 in lens
        c.rng.shuffle(lens)
        self.rows = []
        for e, n in zip(ids, lens):
            for _ in range(n):
                self.rows.append(dict(obj_poses_2d=self.pose(c), ee_poses_2d=self.pose(c),
                                      img_feats=c.randn(feats).tolist(), contact_episode=e, contact_flag=c.randint(0, 1)))
        if c.chance(0.3):  # steps of different episodes interleaved, each episode in order
            order = [r["contact_episode"] for r in self.rows]
            c.rng.shuffle(order)
            its = {e: iter([r for r in self.rows if r["contact_episode"] == e]) for e in ids}
            self.rows = [next(its[e]) for e in order]
        self.H, self.W = c.randint(3, 6), c.randint(3, 6)
        self.grid = c.randn(self.H, self.W)
        self.res = float(c.rand((), lo=0.2, hi=1.5))
        self.org = c.randn(2).tolist()

    @staticmethod
    def pose(c):
        return c.randn(2).tolist() + [float(c.rand((), lo=-4, hi=4))]

    def write(self, d):
        keys = ("obj_poses_2d", "ee_poses_2d", "img_feats", "contact_episode", "contact_flag")
        with open(os.path.join(d, "d.json"), "w") as f:
            json.dump({k: [r[k] for r in self.rows] for k in keys}, f)
        with open(os.path.join(d, "s.json"), "w") as f:
            json.dump(dict(grid_data=self.grid.tolist(), grid_size_x=self.W, grid_size_y=self.H, grid_res=self.res,
                           grid_origin_x=self.org[0], grid_origin_y=self.org[1]), f)
        return os.path.join(d, "d.json"), os.path.join(d, "s.json")

    def episodes(self, maximum, split):
        out = []
        for e in sorted({r["contact_episode"] for r in self.rows}):
            if len(out) >= maximum:
                break
            rows = [r for r in self.rows if r["contact_episode"] == e]
            if len(rows) < self.L:
                continue
            n = len(rows) // self.L if split else 1
            out += [rows[k * self.L:(k + 1) * self.L] for k in range(n)]
        return out


NAMES = {"obj_poses": "obj_poses_2d", "eff_poses": "ee_poses_2d", "img_feats": "img_feats",
         "contact_episode": "contact_episode", "contact_flag": "contact_flag"}


def sc_dataset(case):
    """Episodes, splits and batches of a recording."""
    with double(), tempfile.TemporaryDirectory() as d:
        L = case.randint(1, 5)
        rec = Rec(case, L)
        fn, sf = rec.write(d)
        maxe, bs, steps = case.randint(1, 8), case.randint(1, 4), case.randint(1, L + 2)
        split, ratio, seed = case.chance(0.5), float(case.rand((), lo=0.05, hi=0.9)), case.randint(0, 999)
        case.sig(L, maxe, bs, steps, split, rec.grid, len(rec.rows))
        case.describe(L=L, max_episodes=maxe, batch=bs, steps=steps, split=split, rows=len(rec.rows))
        want = rec.episodes(maxe, split)
        mk = lambda mode: crash(case, "single-step-episode", rec.single, TypeError, "len() of a 0-d tensor",  # noqa: E731
                                lambda: theg.TactilePushingDataset(fn, sf, L, bs, maxe, steps, "cpu", split, mode, ratio, seed))
        al = mk("all")
        T = min(L, steps)
        key = lambda ds, k: tuple(ds.obj_poses[k].flatten().tolist())  # noqa: E731
        case.check(al.dataset_size == len(want) and al.time_steps == T, f"{al.dataset_size} episodes, of {len(want)}")
        table = {}
        for k, ep in enumerate(want):
            for a, b in NAMES.items():
                case.close(getattr(al, a)[k].double(), torch.tensor([r[b] for r in ep], dtype=D64), 0.0, f"{a} of an episode")
            table[key(al, k)] = ep
        case.check(len(table) == len(want), "episodes of the recording repeat")
        tr, va = mk("train"), mk("val")
        keys = [[key(ds, k) for k in range(ds.dataset_size)] for ds in (tr, va)]
        case.check(sorted(keys[0] + keys[1]) == sorted(table), "training and validation episodes don't partition the recording")
        nv = min(len(want), max(math.ceil(len(want) * ratio), 2))
        case.check(len(keys[1]) == nv, f"{len(keys[1])} validation episodes, not {nv}")
        case.check([key(mk("val"), k) for k in range(nv)] == keys[1], "a seed doesn't repeat the split")
        for ds in (al, tr, va):
            case.close(ds.sdf_data_tensor, rec.grid[None], 0.0, "field")
            case.close(ds.sdf_cell_size, torch.tensor([[rec.res]]), 0.0, "cell size")
            case.close(ds.sdf_origin, torch.tensor([rec.org]), 0.0, "origin")
            seen = 0
            per = min(bs, maxe)
            case.check(ds.num_batches == math.ceil(ds.dataset_size / per), "number of batches")
            for b in range(ds.num_batches):
                bt = ds.get_batch(b)
                n = bt["obj_poses"].shape[0]
                case.check(n == min(per, ds.dataset_size - seen), "size of a batch")
                for k in range(n):
                    ep = table[key(ds, seen + k)][:T]
                    o = torch.tensor([r["obj_poses_2d"] for r in ep], dtype=D64)
                    e = torch.tensor([r["ee_poses_2d"] for r in ep], dtype=D64)
                    f = torch.tensor([r["img_feats"] for r in ep], dtype=D64)
                    for nm, w in (("obj_poses", o), ("obj_poses_gt", o), ("eff_poses", e), ("eff_poses_gt", e),
                                  ("img_feats", f), ("obj_start_pose", o[0])):
                        case.close(bt[nm][k], w, 0.0, f"{nm} of a batch")
                    for t in range(T):
                        case.close(bt[f"motion_capture_{t}"][k], e[t], 0.0, "motion capture of a batch")
                seen += n
            case.check(seen == ds.dataset_size, "batches don't cover the dataset")
        bt = al.get_batch(0)
        old = bt["obj_poses"].clone()
        bt["obj_poses_gt"].zero_()
        bt["eff_poses_gt"].zero_()
        case.close(bt["obj_poses"], old, 0.0, "ground truth of a batch shares memory with its poses")
        case.event("split" if split else "whole")


G = ref.group("SE2")


def mat(xyt):
    c, s = xyt[..., 2].cos(), xyt[..., 2].sin()
    o, z = torch.ones_like(c), torch.zeros_like(c)
    return torch.stack([torch.stack([c, -s, xyt[..., 0]], -1), torch.stack([s, c, xyt[..., 1]], -1),
                        torch.stack([z, z, o], -1)], -2)


def coords(M):
    return torch.stack([M[..., 0, 2], M[..., 1, 2], M[..., 0, 0], M[..., 1, 0]], -1)


def windows(T, lo, hi, step):
    return [(i - k, i) for i in range(lo, T) for k in range(lo, min(i, hi), step)]


def rand_window(case, need=True):
    for _ in range(50):
        T = case.randint(2, 7)
        lo, hi, step = case.randint(1, 3), case.randint(2, 8), case.randint(1, 3)
        if windows(T, lo, hi, step) or not need:
            return T, lo, hi, step
    raise Skip()


def relative(obj, eff, i, j):
    """The effector's pose in the object's frame at step j, seen from that at step i."""
    a = G.inv(mat(obj[:, i])) @ mat(eff[:, i])
    b = G.inv(mat(obj[:, j])) @ mat(eff[:, j])
    return coords(G.inv(a) @ b)


def measured(case, got, wants, tol=1e-9):
    """The measurements of each pair and element.  The known finding: with more than one pair and element, the list of all
    of them (pairs first) is split as if elements came first; got is then corrected."""
    network = any(w.requires_grad for w in wants.values())
    flat = torch.cat(list(wants.values()), 0).detach()
    n, B = len(wants), len(flat) // len(wants)
    split = flat.reshape(-1, len(flat) if network else n, 4)
    if B > 1 and (network or n > 1):
        if all(got[k].shape == split[:, i].shape and torch.allclose(got[k].detach(), split[:, i], rtol=0, atol=tol)
               for i, k in enumerate(wants)):
            case.fail("measurements go to the wrong batch elements", "mixed-measurements")
            got.update({k: w.detach() for k, w in wants.items()})
            return
    for k, w in wants.items():
        case.close(got[k], w, tol, f"measurement {'of the network' if network else 'of ground truth'}")


def sc_inputs(case):
    """Measurements, captures, initial values and pose conversions, per batch element."""
    with double():
        T, lo, hi, step = rand_window(case)
        B, F, C = case.randint(1, 4), case.randint(1, 4), case.randint(1, 4)
        obj, eff = [torch.cat([case.randn(B, T, 2), case.rand(B, T, 1, lo=-9, hi=9)], 2) for _ in range(2)]
        batch = {"obj_poses": obj, "eff_poses": eff, "img_feats": case.randn(B, T, F)}
        if case.chance(0.5):
            model = tac.TactileMeasModel(2 * F * C, 4)
        else:
            model = None
        cl = case.randint(0, C - 1)
        case.sig(obj, eff, T, lo, hi, step, model is None)
        case.describe(B=B, T=T, window=(lo, hi, step), model=model is not None)
        keep = {k: v.clone() for k, v in batch.items()}
        out = tacm.get_tactile_nn_measurements_inputs(batch, "cpu", cl, C, lo, hi, step, T, model)
        ws = windows(T, lo, hi, step)
        case.check(set(out) == {f"nn_measurement_{i}_{j}" for i, j in ws}, "pairs measured")
        wants = {}
        for i, j in ws:
            if model is None:
                want = relative(obj, eff, i, j)
            else:
                W, b = model.fc1.weight, model.fc1.bias
                x = torch.cat([batch["img_feats"][:, i], batch["img_feats"][:, j]], 1)
                # the weights of the class at hand, for each entry of the features
                want = x @ W[:, [k * C + cl for k in range(2 * F)]].T + b
            wants[f"nn_measurement_{i}_{j}"] = want.detach() if model is None else want
        measured(case, out, wants)
        cap = tacm.get_tactile_motion_capture_inputs(batch, "cpu", T)
        case.check(set(cap) == {f"motion_capture_{t}" for t in range(T)}, "captures")
        ini = tacm.get_tactile_initial_optim_vars(batch, "cpu", T)
        case.check(set(ini) == {f"{k}_pose_{t}" for t in range(T) for k in ("obj", "eff")}, "initial variables")
        for t in range(T):
            case.close(cap[f"motion_capture_{t}"], coords(mat(eff[:, t])), 1e-12, "motion capture input")
            case.close(ini[f"obj_pose_{t}"], coords(mat(obj[:, 0])), 1e-12, "initial object pose")
            case.close(ini[f"eff_pose_{t}"], coords(mat(eff[:, 0])), 1e-12, "initial effector pose")
        ptrs = [v.data_ptr() for v in ini.values()]
        case.check(len(set(ptrs)) == len(ptrs), "initial variables share memory")
        for k in batch:
            case.close(batch[k], keep[k], 0.0, f"{k} of the batch changed")
        vals = {f"{k}_pose_{t}": coords(mat(p[:, t])).requires_grad_() for t in range(T) for k, p in (("obj", obj), ("eff", eff))}
        go, ge = tacm.get_tactile_poses_from_values(vals, T)
        for g, p, nm in ((go, obj, "object"), (ge, eff, "effector")):
            case.check(g.shape == p.shape and g.dtype == p.dtype, f"shape or precision of {nm} poses")
            case.close(coords(mat(g)), coords(mat(p)), 1e-9, f"{nm} poses of the values")
            case.check(bool((g[..., 2].abs() <= math.pi + 1e-9).all()), "angle range")
        gr = torch.autograd.grad((go[..., 2] * 3 + ge[..., 0]).sum(), list(vals.values()))
        for (n, v), g in zip(vals.items(), gr):
            v = v.detach()
            w = torch.zeros_like(v)
            if n.startswith("obj"):
                w[:, 2], w[:, 3] = -3 * v[:, 3], 3 * v[:, 2]
            else:
                w[:, 0] = 1
            case.close(g, w, 1e-9, "gradient through the poses")
        # weight models
        dim = case.randint(1, 4)
        w0 = case.randn(1, dim)
        wm = tac.TactileWeightModel("cpu", wt_init=w0.clone())
        o = wm()
        case.close(o, w0, 0.0, "weight model")
        o.sum().backward()
        case.close(wm.param.grad, torch.ones(1, dim), 0.0, "gradient of the weight model")
        o.data.zero_()
        case.close(wm.param.data, w0, 0.0, "weight model's parameter shares memory with its output")
        case.event("model" if model else "oracle")


class FakeData:
    def __init__(self, T, sdf, cell, org):
        self.time_steps, self.sdf_data_tensor, self.sdf_cell_size, self.sdf_origin = T, sdf, cell, org


def problem_spec(vals, T, ws, c2, reg):
    """The documented factor graph for tensors `vals`."""
    s = gen.Spec(1)
    for n, v in vals.items():
        kind = "SE2" if ("pose" in n or "capture" in n or "measurement" in n or n == "identity") else (
            "Point2" if n == "sdf_origin" else "raw")
        q = gen.VarSpec(n, kind, None, None, None)
        q.value = v
        s.vars[n] = q
    for n, kind in (("qsp", "diag"), ("mf_between", "diag"), ("mc", "diag"), ("intersect", "scale")):
        s.weights[n] = gen.WeightSpec(n, kind, [n + "_weight"])

    def cost(name, kind, opt, aux, w, dim):
        c = gen.CostSpec(name, kind, opt, aux, w)
        c.dim = dim
        s.costs.append(c)

    o, e = [f"obj_pose_{t}" for t in range(T)], [f"eff_pose_{t}" for t in range(T)]
    cost("obj_priors_0", "diff", [o[0]], ["obj_start_pose"], "mc", 3)
    for t in range(T):
        if t < T - 1:
            cost(f"qsp_{t}", "qsp", [o[t], o[t + 1], e[t], e[t + 1]], ["c2"], "qsp", 3)
        cost(f"intersect_{t}", "effobj", [o[t], e[t]], ["sdf_origin", "sdf_data", "sdf_cell_size", "eff_radius"], "intersect", 1)
        cost(f"eff_priors_{t}", "diff", [e[t]], [f"motion_capture_{t}"], "mc", 3)
    for i, j in ws:
        cost(f"mf_between_{i}_{j}", "mfb", [o[i], o[j], e[i], e[j]], [f"nn_measurement_{i}_{j}"], "mf_between", 3)
    if reg > 0:
        s.weights["reg"] = gen.WeightSpec("reg", "scale", ["reg_weight"])
        for n in o + e:
            cost(f"reg_{n}", "diff", [n], ["identity"], "reg", 3)
    return s


def border(spec, vals):
    for c in spec.costs:
        if c.kind != "effobj":
            continue
        M = G.inv(gen._mat(spec, c.opt[0], vals))
        p = vals[c.opt[1]][:, :2]
        q = (M[..., :2, :2] @ p.unsqueeze(-1)).squeeze(-1) + M[..., :2, 2]
        rc = (q - vals["sdf_origin"]) / vals["sdf_cell_size"]
        if ((rc - rc.round()).abs() < 1e-5).any():
            return True
    return False


def sc_problem(case):
    """The estimator's objective, cost by cost, against the documented factor graph; and its solution's record."""
    with double():
        T, lo, hi, step = rand_window(case, need=case.chance(0.8))
        B = case.randint(1, 3)
        H, W = case.randint(3, 5), case.randint(3, 5)
        sdf, cell, org = case.randn(1, H, W), case.rand(1, 1, lo=0.5, hi=2), case.randn(1, 2) - 2
        w, h = case.rand(2, lo=0.05, hi=1.5).tolist()
        reg = case.choice([0.0, float(case.logu(0.01, 20))])
        cls = case.choice([th.GaussNewton, th.LevenbergMarquardt])
        iters, ss = case.randint(0, 3), float(case.rand((), lo=0.05, hi=1))
        est = theg.TactilePoseEstimator(FakeData(T, sdf, cell, org), lo, hi, step, (w, h), "cpu", cls, iters, ss, reg,
                                        force := case.chance(0.5))
        case.check(type(est.theseus_layer.optimizer) is cls, "class of the optimizer")
        case.check(est.theseus_layer.optimizer.params.step_size == ss, "step size of the optimizer")
        ws = windows(T, lo, hi, step)
        obj = est.theseus_layer.objective

        def poses(b):
            a = case.rand(b, lo=-4, hi=4)
            return torch.stack([*case.randn(2, b), a.cos(), a.sin()], 1)

        b = lambda: case.choice([1, B])  # noqa: E731
        inp = {f"{k}_pose_{t}": poses(B) for t in range(T) for k in ("obj", "eff")}
        inp.update({f"motion_capture_{t}": poses(b()) for t in range(T)})
        inp.update({f"nn_measurement_{i}_{j}": poses(b()) for i, j in ws})
        inp["obj_start_pose"] = poses(b())
        for n, d in (("qsp_weight", 3), ("mf_between_weight", 3), ("mc_weight", 3), ("intersect_weight", 1)):
            if case.chance(0.6):
                inp[n] = case.rand(b(), d, lo=0.1, hi=4)
        for n, v in (("sdf_data", case.randn(b(), H, W)), ("sdf_cell_size", case.rand(b(), 1, lo=0.5, hi=2)),
                     ("sdf_origin", case.randn(b(), 2) - 2), ("eff_radius", case.rand(b(), 1))):
            if case.chance(0.4):
                inp[n] = v
        case.sig(*[inp[k] for k in sorted(inp)], lo, hi, step, reg)
        case.describe(B=B, T=T, window=(lo, hi, step), reg=reg, cls=cls.__name__, iters=iters)
        vals = {"sdf_data": sdf, "sdf_cell_size": cell, "sdf_origin": org, "eff_radius": torch.zeros(1, 1),
                "qsp_weight": torch.ones(1, 3), "mf_between_weight": torch.ones(1, 3), "mc_weight": torch.ones(1, 3),
                "intersect_weight": torch.ones(1, 1), "c2": torch.full((1, 1), w * w + h * h),
                "identity": torch.tensor([[0.0, 0, 1, 0]]), "reg_weight": torch.full((1, 1), math.sqrt(reg))}
        vals.update(inp)
        spec = problem_spec(vals, T, ws, w * w + h * h, reg)
        if border(spec, vals):
            raise Skip()
        obj.update(inp)
        case.check(sorted(obj.cost_functions) == sorted(c.name for c in spec.costs), f"cost functions {sorted(obj.cost_functions)}")
        case.check(set(obj.optim_vars) == {f"{k}_pose_{t}" for t in range(T) for k in ("obj", "eff")}, "optimization variables")

        def total(v):
            out = 0
            for c in spec.costs:
                out = out + (gen.ref_weighted(spec, c, v) ** 2).sum(1).expand(B)
            return out

        for c in spec.costs:
            want = gen.ref_weighted(spec, c, vals)
            got = obj.get_cost_function(c.name).weighted_error()
            n = max(want.shape[0], got.shape[0])
            case.close(got.expand(n, -1), want.expand(n, -1), 1e-8 * (1 + float(want.abs().max())), f"cost {c.name.rsplit('_', 1)[0].split('_')[0]}")
        if iters and case.chance(0.6):
            vals0 = {k: v.clone() for k, v in inp.items()}
            try:
                out, info = est.forward(inp, optimizer_kwargs={"track_err_history": True, "track_best_solution": True})
            except Exception as e:  # singular without enough costs
                if "cholesky" in str(e).lower() or "singular" in str(e).lower():
                    raise Skip()
                raise
            for k in inp:
                case.close(inp[k], vals0[k], 0.0, "an input changed")
            final = dict(vals)
            final.update({k: v for k, v in out.items()})
            case.check(info.err_history.shape[1] == iters + 1, "number of iterations asked for")
            if force:
                case.check(not bool(torch.isinf(info.err_history).any()), "iterations are forced")
            e0, e1 = total(vals) / 2, total(final) / 2
            case.close(info.err_history[:, 0], e0, 1e-7 * (1 + float(e0.max())), "initial objective")
            if not border(spec, final):
                last = torch.stack([info.err_history[k][torch.isfinite(info.err_history[k])][-1] for k in range(B)])
                case.close(last, e1, 1e-6 * (1 + float(e1.max())), "objective of the solution")
            po, pe = tacm.get_tactile_poses_from_values(out, T)
            for t in range(T):
                case.close(coords(mat(po[:, t])), out[f"obj_pose_{t}"], 1e-7, "poses of the solution")
                case.close(coords(mat(pe[:, t])), out[f"eff_pose_{t}"], 1e-7, "poses of the solution")
        case.event(cls.__name__)


def sc_trainer(case):
    """From the recording to the objective: at the truth, priors and measurements have no error, whatever the batch."""
    with double(), tempfile.TemporaryDirectory() as d:
        T, lo, hi, step = rand_window(case)
        rec = Rec(case, T, feats=2, min_ok=4)
        path = pathlib.Path(d)
        (path / "datasets").mkdir()
        (path / "sdfs").mkdir()
        fn, sf = rec.write(d)
        os.rename(fn, path / "datasets" / "rec.json")
        os.rename(sf, path / "sdfs" / "field.json")
        mode = case.choice(["weights_only", "weights_and_measurement_nn"])
        w, h = case.rand(2, lo=0.05, hi=1.5).tolist()
        cl = case.randint(0, 3)
        cfg = omegaconf.OmegaConf.create(dict(
            dataset_name="rec", sdf_name="field", episode_length=T, max_episodes=case.randint(4, 9), max_steps=T + case.randint(0, 2),
            split_episodes=case.chance(0.5), seed=case.randint(0, 99), class_label=cl, num_classes=4,
            train=dict(batch_size=case.randint(1, 3), val_ratio=0.3, mode=mode, lr=1e-3),
            tactile_cost=dict(min_win_mf=lo, max_win_mf=hi, step_win_mf=step, init_pretrained_model=False),
            shape=dict(rect_len_x=w, rect_len_y=h),
            inner_optim=dict(optimizer="GaussNewton", max_iters=2, step_size=0.5, reg_w=0.0, force_max_iters=True)))
        case.sig(T, lo, hi, step, mode, rec.grid, len(rec.rows))
        case.describe(T=T, window=(lo, hi, step), mode=mode)
        tr = crash(case, "single-step-episode", rec.single, TypeError, "len() of a 0-d tensor",
                   lambda: tac.TactilePushingTrainer(cfg, path, "cpu"))
        ws = windows(T, lo, hi, step)
        wq, wm = (50.0, [0.0, 0.0, 10.0]) if mode == "weights_only" else (5.0, [0.0, 0.0, 5.0])
        learn = [id(p) for g in tr.outer_optim.param_groups for p in g["params"]]
        want = [tr.qsp_model.param, tr.mf_between_model.param] + (
            [] if tr.measurements_model is None else list(tr.measurements_model.parameters()))
        case.check((tr.measurements_model is None) == (mode == "weights_only"), "measurement model")
        case.check(sorted(learn) == sorted(id(p) for p in want), "parameters that are learned")
        for ds in (tr.dataset_train, tr.dataset_val):
            for b in range(ds.num_batches):
                bt = ds.get_batch(b)
                inp, og, eg = tr.get_batch_data(bt, ds, "cpu")
                B = og.shape[0]
                case.close(og, bt["obj_poses"], 0.0, "ground truth of the objects")
                case.close(eg, bt["eff_poses"], 0.0, "ground truth of the effectors")
                case.close(inp["qsp_weight"], torch.full((1, 3), wq), 0.0, "dynamics weight")
                case.close(inp["mf_between_weight"], torch.tensor([wm]), 0.0, "measurement weight")
                for t in range(T):
                    inp[f"obj_pose_{t}"] = coords(mat(og[:, t]))
                    inp[f"eff_pose_{t}"] = coords(mat(eg[:, t]))
                if tr.measurements_model is None:
                    wants = {f"nn_measurement_{i}_{j}": relative(og, eg, i, j).detach() for i, j in ws}
                else:
                    m = tr.measurements_model.fc1
                    wants = {f"nn_measurement_{i}_{j}": torch.cat([bt["img_feats"][:, i], bt["img_feats"][:, j]], 1)
                             @ m.weight[:, [k * 4 + cl for k in range(4)]].T + m.bias for i, j in ws}
                measured(case, inp, wants)
                obj = tr.pose_estimator.theseus_layer.objective
                inp["mf_between_weight"] = torch.ones(1, 3)
                with torch.no_grad():
                    obj.update({k: v.detach() for k, v in inp.items()})
                    for n, cf in obj.cost_functions.items():
                        if "priors" in n or (n.startswith("mf_between") and tr.measurements_model is None):
                            e = cf.error()
                            case.check(float(e.abs().max()) < 1e-6, f"{n.split('_')[0]} cost at the truth: {float(e.abs().max()):.3g}")
                vals = {k: v.detach() for k, v in inp.items()}
                vals.update({"eff_radius": torch.zeros(1, 1), "intersect_weight": torch.ones(1, 1), "mc_weight": torch.ones(1, 3),
                             "c2": torch.full((1, 1), w * w + h * h)})
                spec = problem_spec(vals, T, ws, None, 0.0)
                for c in spec.costs:
                    if c.kind == "mfb" and tr.measurements_model is not None:
                        continue  # the network's outputs are no rotations
                    if c.kind == "effobj" and border(spec, vals):
                        continue
                    r = gen.ref_weighted(spec, c, vals)
                    g = obj.get_cost_function(c.name).weighted_error()
                    case.close(g.expand(B, -1), r.expand(B, -1), 1e-6 * (1 + float(r.abs().max())), f"cost {c.kind} of a batch")
        case.event(mode)


SCENARIOS = {
    "dataset": Scenario(sc_dataset, 120, 1500),
    "inputs": Scenario(sc_inputs, 150, 2000),
    "problem": Scenario(sc_problem, 120, 1500),
    "trainer": Scenario(sc_trainer, 40, 400),
}
