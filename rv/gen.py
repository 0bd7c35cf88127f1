"""Random optimisation problems as plain data ("specs"), and builders for them.

A spec holds float64 values for every variable, the cost functions (in addition order),
their weights and their wiring.  `build(spec)` makes a fresh theseus objective from it (any
dtype, any subset of the batch), so that twins, per-batch-element problems and independent
references all come from the same data.
"""
import contextlib
import copy as _copy
import math
import random
import zlib
from collections import OrderedDict

import torch

import theseus as th

from . import geo, ref
from .core import D64

LOSSES = {"welsch": th.WelschLoss, "huber": th.HuberLoss, "geman": th.GemanMcClureLoss,
          "hinge": th.HingeLoss}


# --------------------------------------------------------------------------------------
# user-level functions (module level, so that several cost functions share one function)
def ef_vec(optim_vars, aux_vars):
    x, (a,) = optim_vars[0].tensor, aux_vars
    return torch.sin(x) * a.tensor + 0.5 * x * x


def ef_vec_pair(optim_vars, aux_vars):
    x, y = optim_vars[0].tensor, optim_vars[1].tensor
    (t,) = aux_vars
    s = (x * x).sum(dim=1, keepdim=True)
    p = (y * t.tensor).sum(dim=1, keepdim=True)
    return torch.cat([s - p, torch.tanh(p) + 0.3 * s], dim=1)


def ef_vec_noaux(optim_vars, aux_vars):
    x = optim_vars[0].tensor
    return torch.cat([x[:, :1] * x[:, -1:], x.sum(dim=1, keepdim=True).cos()], dim=1)


def ef_local(optim_vars, aux_vars):
    return aux_vars[0].local(optim_vars[0])


def ef_between(optim_vars, aux_vars):
    return aux_vars[0].local(optim_vars[0].between(optim_vars[1]))


def ef_bearing(optim_vars, aux_vars):
    p = optim_vars[0].transform_to(optim_vars[1]).tensor
    return p * aux_vars[0].tensor - 1.0


def ef_se2_coords(optim_vars, aux_vars):
    """A deliberately non-linear function of the raw pose."""
    x = optim_vars[0]
    p, s = x.xy().tensor * aux_vars[0].tensor, x.theta().sin()
    return torch.cat([p, s.expand(p.shape[0], 1)], dim=1)


class ProductCost(th.CostFunction):
    """A user-defined analytic cost: err = x * y - t (elementwise)."""

    def __init__(self, x, y, t, cost_weight, name=None):
        super().__init__(cost_weight, name=name)
        self.x, self.y, self.t = x, y, t
        self.register_optim_vars(["x", "y"])
        self.register_aux_vars(["t"])

    def error(self):
        return self.x.tensor * self.y.tensor - self.t.tensor

    def jacobians(self):
        B = max(self.x.shape[0], self.y.shape[0])
        jx = torch.diag_embed(self.y.tensor.expand(B, -1))
        jy = torch.diag_embed(self.x.tensor.expand(B, -1))
        return [jx, jy], self.error()

    def dim(self):
        return self.x.dof()

    def _copy_impl(self, new_name=None):
        return ProductCost(self.x.copy(), self.y.copy(), self.t.copy(), self.weight.copy(),
                           name=new_name)


class SquareWeight(th.CostWeight):
    """A user-defined weight (multiplies by s^2) which does not implement is_zero."""

    def __init__(self, s, name=None):
        super().__init__(name=name)
        self.s = s
        self.register_aux_vars(["s"])

    def is_zero(self):
        raise NotImplementedError

    def weight_error(self, error):
        return error * self.s.tensor ** 2

    def weight_jacobians_and_error(self, jacobians, error):
        w = self.s.tensor ** 2
        return [j * w.unsqueeze(2) for j in jacobians], error * w

    def _copy_impl(self, new_name=None):
        return SquareWeight(self.s.copy(), name=new_name)


ERR_FNS = {"ef_vec": ef_vec, "ef_vec_pair": ef_vec_pair, "ef_vec_noaux": ef_vec_noaux,
           "ef_local": ef_local, "ef_between": ef_between, "ef_bearing": ef_bearing,
           "ef_se2_coords": ef_se2_coords}

GROUPS = ("SO2", "SE2", "SO3", "SE3", "Point2", "Point3", "Vector")


# --------------------------------------------------------------------------------------
class VarSpec:
    """kind: a group name, or 'raw' (plain Variable).  draw: how values are sampled."""

    def __init__(self, name, kind, dof, draw, role):
        self.name, self.kind, self.dof, self.draw, self.role = name, kind, dof, draw, role
        self.value = None  # float64 (b, ...)

    @property
    def G(self):
        return ref.group(self.kind, self.dof)


class WeightSpec:
    def __init__(self, name, kind, aux):
        self.name, self.kind, self.aux = name, kind, aux


class CostSpec:
    def __init__(self, name, kind, opt, aux, weight, opts=None, robust=None):
        self.name, self.kind, self.opt, self.aux = name, kind, opt, aux
        self.weight, self.opts, self.robust = weight, opts or {}, robust

    def all_aux(self):
        a = list(self.aux)
        if self.robust:
            a += [self.robust["radius"]]
            if self.robust.get("mu"):
                a += [self.robust["mu"]]
        return a


class Spec:
    def __init__(self, B):
        self.B = B
        self.vars = OrderedDict()
        self.weights = OrderedDict()
        self.costs = []

    def clone(self):
        return _copy.deepcopy(self)

    def optim_names(self):
        """In the order in which the costs introduce them."""
        out = []
        for c in self.costs:
            for n in c.opt:
                if n not in out:
                    out.append(n)
        return out

    def aux_names(self):
        out = []
        for c in self.costs:
            for n in c.all_aux() + self.weights[c.weight].aux:
                if n not in out:
                    out.append(n)
        return out

    def signature(self):
        return (self.B,
                tuple((v.name, v.kind, v.dof, v.role, v.value.shape[0]) for v in self.vars.values()),
                tuple((c.kind, tuple(c.opt), tuple(c.all_aux()), c.weight, repr(c.robust),
                       self.weights[c.weight].kind) for c in self.costs))


# --------------------------------------------------------------------------------------
def draw_value(case, vs, b, spec=None):
    """A fresh float64 value with batch size b."""
    d = vs.draw
    if d == "group":
        G = vs.G
        scale = 0.6 if vs.kind in ("SO2", "SE2", "SO3", "SE3") else 1.0
        ang = None
        if vs.kind in ("SO2", "SE2", "SO3", "SE3"):
            ang = case.rand(b, lo=0.02, hi=0.9)
        return G.random(case, b, angle=ang, scale=scale)
    if d == "cam":  # looks roughly at the points around the origin from z ~ -6
        t = ref.SE3.random(case, b, angle=case.rand(b, lo=0.02, hi=0.35), scale=0.3)
        t[:, 2, 3] -= 6.0
        return t
    if d == "pos":
        return case.rand(b, vs.dof, lo=0.3, hi=1.8)
    if d == "scale":
        v = case.rand(b, vs.dof, lo=0.2, hi=2.5)
        return v * torch.where(case.rand(b, vs.dof) < 0.15, -1.0, 1.0)
    if d == "zscale":  # weights that switch some costs off
        v = case.rand(b, vs.dof, lo=0.2, hi=2.5)
        keep = case.rand(b, 1) > 0.5
        v = v * keep
        if vs.dof > 1 and case.chance(0.5):
            v = v * (case.rand(b, vs.dof) > 0.3)
        if case.chance(0.15):
            v = v * 0.0
        return v
    if d == "randn":
        return case.randn(b, vs.dof)
    if d == "feat":
        return case.randn(b, 2) * 0.5
    if d == "focal":
        return case.rand(b, 1, lo=0.8, hi=3.0)
    if d == "calib":
        return case.randn(b, 1) * 0.05
    if d == "Qc":
        A = case.randn(b, vs.dof, vs.dof)
        return A @ A.transpose(1, 2) * 0.3 + torch.eye(vs.dof, dtype=D64)
    if d == "sdf":
        H, W = vs.dof
        y = torch.arange(H, dtype=D64).view(1, H, 1)
        x = torch.arange(W, dtype=D64).view(1, 1, W)
        c = case.rand(b, 4, lo=0.2, hi=1.2).unsqueeze(-1).unsqueeze(-1)
        return 0.6 * torch.sin(c[:, 0] * x + c[:, 1]) * torch.cos(c[:, 2] * y) + 0.3 * c[:, 3]
    if d == "cell":
        return case.rand(b, 1, lo=0.7, hi=1.0)
    if d == "origin":
        return case.rand(b, 2, lo=-4.2, hi=-3.5)
    if d == "lo":
        return case.rand(b, vs.dof, lo=-1.6, hi=-0.9)
    if d == "hi":
        return case.rand(b, vs.dof, lo=0.9, hi=1.6)
    if d == "thr":
        return case.rand(b, vs.dof, lo=0.0, hi=0.4)
    if d == "logr":
        return case.rand(b, 1, lo=-1.5, hi=1.5)
    if d == "mu":
        return case.rand(b, 1, lo=1.0, hi=4.0)
    raise KeyError(d)


def _wname(i):
    return f"w{i}"


class Gen:
    """Random spec generator.  All options are probabilities or sizes."""

    def __init__(self, case, B=None, kinds=None, families=None, n_costs=None,
                 robust_p=0.25, zero_p=0.15, batch1_p=0.3, prior=False, ad_p=0.35,
                 share_weight_p=0.5, share_aux_p=0.35, custom_p=0.15, kinks=True,
                 gp=True, robust_losses=("welsch", "huber", "geman", "hinge"),
                 max_vars=4, ad_modes=("vmap",), flatten_p=0.3, all_costs_batched=True,
                 prior_p=0.0, reproj_defaults=False, mfb=True, tiny=False):
        self.case = case
        self.__dict__.update({k: v for k, v in locals().items() if k not in ("self", "case")})
        self.B = B if B is not None else case.choice([1, 2, 2, 3, 4, 5])
        self.spec = Spec(self.B)
        self.n = 0

    # -- variables -------------------------------------------------------------------
    def _name(self, p):
        # names unlike creation order, so that orders by name, by creation and by addition differ
        self.n += 1
        return f"{self.case.choice('abcxyz')}{p}{self.n}"

    def new(self, kind, dof, draw, role, b=None, prefix=None):
        v = VarSpec(self._name(prefix or ("v" if role == "opt" else "u")), kind, dof, draw, role)
        if b is None:
            b = self.B
            if role == "aux" and self.case.chance(self.batch1_p):
                b = 1
        v.value = draw_value(self.case, v, b)
        self.spec.vars[v.name] = v
        return v.name

    def aux(self, kind, dof, draw, prefix="u"):
        """A new auxiliary variable, or an existing one of the same description."""
        if self.case.chance(self.share_aux_p):
            same = [v.name for v in self.spec.vars.values()
                    if v.role == "aux" and (v.kind, v.dof, v.draw) == (kind, dof, draw)]
            if same:
                return self.case.choice(same)
        return self.new(kind, dof, draw, "aux", prefix=prefix)

    def opt(self, kind, dof, draw="group", other=()):
        same = [v.name for v in self.spec.vars.values()
                if v.role == "opt" and v.kind == kind and v.dof == dof and v.draw == draw
                and v.name not in other]
        cap = self.max_vars
        if same and (len(same) >= cap or self.case.chance(0.6)):
            return self.case.choice(same)
        return self.new(kind, dof, draw, "opt")

    # -- weights ----------------------------------------------------------------------
    def weight(self, dim, gp=None):
        c, s = self.case, self.spec
        if gp is not None:
            q = self.aux("raw", gp[0], "Qc", "q")
            for w in s.weights.values():
                if w.kind == "gp" and w.aux == [q, gp[1]]:
                    return w.name
            name = self._name("wg")
            s.weights[name] = WeightSpec(name, "gp", [q, gp[1]])
            return name
        kind = c.choice(["scale", "scale", "diag"])
        if c.chance(self.custom_p):
            kind = "square"
        d = dim if kind == "diag" else 1
        if c.chance(self.share_weight_p):
            same = [w.name for w in s.weights.values()
                    if w.kind == kind and s.vars[w.aux[0]].dof == d]
            if same:
                return c.choice(same)
        draw = "zscale" if c.chance(self.zero_p) else "scale"
        a = self.aux("raw" if c.chance(0.5) or kind == "square" else "Vector", d, draw, "s")
        name = self._name("wt")
        s.weights[name] = WeightSpec(name, kind, [a])
        return name

    # -- costs -------------------------------------------------------------------------
    def add(self, kind, opt, aux, dim, opts=None, gp=None, weight=None):
        c = self.case
        w = weight or self.weight(dim, gp=gp)
        robust = None
        if c.chance(self.robust_p):
            loss = c.choice(self.robust_losses)
            robust = {"loss": loss, "flatten": c.chance(self.flatten_p),
                      "radius": self.aux("raw", 1, "logr", "r"), "mu": None}
            if loss == "geman":
                robust["mu"] = self.aux("raw", 1, "mu", "m")
        cs = CostSpec(self._name("c"), kind, list(opt), list(aux), w, opts, robust)
        cs.dim = dim
        if self.all_costs_batched and self.B > 1:
            names = cs.opt + cs.all_aux() + self.spec.weights[w].aux
            if not any(self.spec.vars[n].value.shape[0] == self.B for n in names):
                n = cs.opt[0]
                self.spec.vars[n].value = draw_value(c, self.spec.vars[n], self.B)
        self.spec.costs.append(cs)
        return cs

    def one(self, kind, like=None):
        """Adds one cost of the given kind."""
        c = self.case
        rot = ("SO2", "SE2", "SO3", "SE3")
        if kind in ("diff", "between", "mfb"):
            g = (like or {}).get("g") or c.choice(("SE2", "SO3", "SE3", "SO2", "Vector", "Point2", "Point3"))
            d = ref.group(g, 2).dof if g != "Vector" else (like or {}).get("d") or c.randint(1, 3)
            if kind == "diff":
                return self.add(kind, [self.opt(g, d)], [self.aux(g, d, "group")], d)
            k = 2 if kind == "between" else 4
            vs = []
            for _ in range(k):
                vs.append(self.opt(g, d, other=vs))
            if len(set(vs)) < k:
                return None
            return self.add(kind, vs, [self.aux(g, d, "group")], d)
        if kind == "vec":
            d = c.randint(1, 3)
            fn = c.choice(["ef_vec", "ef_vec_pair", "ef_vec_noaux"])
            x = self.opt("Vector", d)
            mode = c.choice(self.ad_modes)
            if fn == "ef_vec":
                return self.add("ad", [x], [self.aux("Vector", d, "group")], d,
                                {"fn": fn, "mode": mode})
            if fn == "ef_vec_noaux":
                return self.add("ad", [x], [], 2, {"fn": fn, "mode": mode})
            y = self.opt("Vector", d, other=[x])
            if y == x:
                return None
            return self.add("ad", [x, y], [self.aux("Vector", d, "group")], 2,
                            {"fn": fn, "mode": mode})
        if kind == "adgroup":
            g = c.choice(rot)
            d = ref.group(g).dof
            mode = c.choice(self.ad_modes)
            fn = c.choice(["ef_local", "ef_between", "ef_bearing", "ef_se2_coords"])
            if fn == "ef_local":
                return self.add("ad", [self.opt(g, d)], [self.aux(g, d, "group")], d,
                                {"fn": fn, "mode": mode})
            if fn == "ef_between":
                x = self.opt(g, d)
                y = self.opt(g, d, other=[x])
                if x == y:
                    return None
                return self.add("ad", [x, y], [self.aux(g, d, "group")], d,
                                {"fn": fn, "mode": mode})
            if fn == "ef_bearing":
                g = c.choice(["SE2", "SE3"])
                p = 2 if g == "SE2" else 3
                return self.add("ad", [self.opt(g, 3 if p == 2 else 6), self.opt(f"Point{p}", p)],
                                [self.aux("raw", p, "pos")], p, {"fn": fn, "mode": mode})
            return self.add("ad", [self.opt("SE2", 3)], [self.aux("raw", 1, "pos")], 3,
                            {"fn": fn, "mode": mode})
        if kind == "product":
            d = c.randint(1, 3)
            x = self.opt("Vector", d)
            y = self.opt("Vector", d, other=[x])
            if x == y:
                return None
            return self.add("product", [x, y], [self.aux("raw", d, "randn")], d)
        if kind == "reproj":
            aux = [self.aux("Vector", 1, "focal"), self.aux("Point2", 2, "feat"),
                   self.aux("Vector", 1, "calib"), self.aux("Vector", 1, "calib")]
            return self.add(kind, [self.opt("SE3", 6, "cam"), self.opt("Point3", 3)], aux, 2)
        if kind in ("coll", "effobj"):
            H, W = 10, 11
            if kind == "coll":
                ov = [c.choice([("Point2", 2), ("SE2", 3)])]
                ov = [self.opt(*ov[0])]
            else:
                x = self.opt("SE2", 3)
                y = self.opt("SE2", 3, other=[x])
                if x == y:
                    return None
                ov = [x, y]
            aux = [self.aux("Point2", 2, "origin"), self.aux("raw", (H, W), "sdf"),
                   self.aux("raw", 1, "cell"), self.aux("raw", 1, "pos")]
            return self.add(kind, ov, aux, 1)
        if kind in ("dint", "gp"):
            g = c.choice(["Vector", "Point2", "SE2", "SE3", "SO2"])
            d = ref.group(g, 2).dof
            p1 = self.opt(g, d)
            p2 = self.opt(g, d, other=[p1])
            v1 = self.opt("Vector", d, other=[p1, p2])
            v2 = self.opt("Vector", d, other=[v1, p1, p2])
            if len({p1, p2, v1, v2}) < 4:
                return None
            dt = self.aux("raw", 1, "pos")
            if kind == "gp":
                return self.add(kind, [p1, v1, p2, v2], [dt], 2 * d, gp=(d, dt))
            return self.add(kind, [p1, v1, p2, v2], [dt], 2 * d)
        if kind == "qsp":
            vs = []
            for _ in range(4):
                vs.append(self.opt("SE2", 3, other=vs))
            if len(set(vs)) < 4:
                return None
            return self.add(kind, vs, [self.aux("raw", 1, "pos")], 3)
        if kind == "hinge":
            d = c.randint(1, 3)
            return self.add(kind, [self.opt("Vector", d)],
                            [self.aux("raw", d, "lo"), self.aux("raw", d, "hi"),
                             self.aux("raw", d, "thr")], d)
        if kind == "nonhol":
            g = c.choice([("SE2", 3), ("Vector", 3)])
            p = self.opt(*g)
            v = self.opt("Vector", 3, other=[p])
            if p == v:
                return None
            return self.add(kind, [p, v], [], 1)
        raise KeyError(kind)

    ALL = ("diff", "diff", "between", "between", "mfb", "vec", "vec", "adgroup", "product",
           "reproj", "coll", "effobj", "dint", "gp", "qsp", "hinge", "nonhol")

    def make(self):
        c = self.case
        kinds = list(self.kinds or self.ALL)
        if not self.mfb and "mfb" in kinds:
            kinds = [k for k in kinds if k != "mfb"]
        # a few kinds, each used several times: cost functions of one shape interleave
        pool = [c.choice(kinds) for _ in range(c.randint(1, 4))]
        n = self.n_costs or c.randint(2, 8)
        tries = 0
        if self.tiny:  # a single variable with one degree of freedom
            g = c.choice(["Vector", "SO2"])
            for _ in range(max(1, min(n, 3))):
                mode = c.choice(self.ad_modes)
                if c.chance(0.4):
                    self.add("diff", [self.opt(g, 1)] if not self.spec.costs else list(self.spec.costs[0].opt),
                             [self.aux(g, 1, "group")], 1)
                    continue
                x = list(self.spec.costs[0].opt) if self.spec.costs else [self.opt(g, 1)]
                if g == "SO2":
                    self.add("ad", x, [self.aux(g, 1, "group")], 1, {"fn": "ef_local", "mode": mode})
                elif c.chance(0.5):
                    self.add("ad", x, [self.aux("Vector", 1, "group")], 1, {"fn": "ef_vec", "mode": mode})
                else:
                    self.add("ad", x, [], 2, {"fn": "ef_vec_noaux", "mode": mode})
            n = 0
        while len(self.spec.costs) < n and tries < 60:
            tries += 1
            self.one(c.choice(pool))
        if not self.spec.costs:
            self.one("diff")
        if self.prior:
            for name in list(self.spec.optim_names()):
                v = self.spec.vars[name]
                self.add_prior(name)
        if c.chance(0.5):
            c.rng.shuffle(self.spec.costs)
        # drop unused variables
        used = set(self.spec.optim_names()) | set(self.spec.aux_names())
        for k in [k for k in self.spec.vars if k not in used]:
            del self.spec.vars[k]
        for k in [k for k in self.spec.weights if k not in {x.weight for x in self.spec.costs}]:
            del self.spec.weights[k]
        return self.spec

    def add_prior(self, name):
        v = self.spec.vars[name]
        keep = self.robust_p
        self.robust_p = 0.0
        a = self.new("raw", 1, "pos", "aux", prefix="s")
        wn = self._name("wp")
        self.spec.weights[wn] = WeightSpec(wn, "scale", [a])
        t = self.new(v.kind, v.dof, v.draw, "aux")
        cs = self.add("diff", [name], [t], v.G.dof, weight=wn)
        self.robust_p = keep
        return cs


def make_spec(case, **kw):
    return Gen(case, **kw).make()


# --------------------------------------------------------------------------------------
class Built:
    def __init__(self):
        self.vars, self.weights, self.costs = {}, {}, OrderedDict()
        self.objective = None


def to_var(vs, value, dtype, name=None, requires_grad=False):
    t = value.to(dtype).clone()
    if requires_grad:
        t.requires_grad_(True)
    name = name or vs.name
    if vs.kind == "raw":
        return th.Variable(t, name=name)
    cls = geo.CLS[vs.kind]
    if vs.kind in ("Vector", "Point2", "Point3"):
        return cls(tensor=t, name=name)
    return cls(tensor=t, name=name, strict_checks=False)


def slice_value(spec, value, sel):
    if sel is None or value.shape[0] == 1:
        return value
    return value[sel]


def build_cost(cs, V, W):
    o, a, w, nm = [V[n] for n in cs.opt], [V[n] for n in cs.aux], W[cs.weight], cs.name
    inner = f"{nm}__inner" if cs.robust else nm
    k = cs.kind
    if k == "diff":
        f = th.Difference(o[0], a[0], w, name=inner)
    elif k == "between":
        f = th.Between(o[0], o[1], a[0], w, name=inner)
    elif k == "mfb":
        f = th.eb.MovingFrameBetween(*o, a[0], w, name=inner)
    elif k == "ad":
        f = th.AutoDiffCostFunction(o, ERR_FNS[cs.opts["fn"]], cs.dim, cost_weight=w,
                                    aux_vars=a, name=inner, autograd_mode=cs.opts["mode"])
    elif k == "product":
        f = ProductCost(o[0], o[1], a[0], w, name=inner)
    elif k == "reproj":
        f = th.eb.Reprojection(o[0], o[1], a[1], a[0], calib_k1=a[2], calib_k2=a[3], weight=w,
                               name=inner)
    elif k == "coll":
        f = th.eb.Collision2D(o[0], a[0], a[1], a[2], a[3], w, name=inner)
    elif k == "effobj":
        f = th.eb.EffectorObjectContactPlanar(o[0], o[1], a[0], a[1], a[2], a[3], w, name=inner)
    elif k == "dint":
        f = th.eb.DoubleIntegrator(*o, a[0], w, name=inner)
    elif k == "gp":
        f = th.eb.GPMotionModel(*o, a[0], w, name=inner)
    elif k == "qsp":
        f = th.eb.QuasiStaticPushingPlanar(*o, a[0], w, name=inner)
    elif k == "hinge":
        f = th.eb.HingeCost(o[0], a[0], a[1], a[2], w, name=inner)
    elif k == "nonhol":
        f = th.eb.Nonholonomic(o[0], o[1], w, name=inner)
    else:
        raise KeyError(k)
    if cs.robust:
        r = cs.robust
        if r["mu"]:
            f = th.GNCRobustCostFunction(f, LOSSES[r["loss"]], V[r["radius"]], V[r["mu"]],
                                         flatten_dims=r["flatten"], name=nm)
        else:
            f = th.RobustCostFunction(f, LOSSES[r["loss"]], V[r["radius"]],
                                      flatten_dims=r["flatten"], name=nm)
    return f


def build_weight(ws, V):
    a = [V[n] for n in ws.aux]
    if ws.kind == "scale":
        return th.ScaleCostWeight(a[0], name=ws.name)
    if ws.kind == "diag":
        return th.DiagonalCostWeight(a[0], name=ws.name)
    if ws.kind == "square":
        return SquareWeight(a[0], name=ws.name)
    return th.eb.GPCostWeight(a[0], a[1], name=ws.name)


def build_parts(spec, dtype=D64, sel=None, grad=(), values=None):
    b = Built()
    for n, vs in spec.vars.items():
        v = (values or {}).get(n, vs.value)
        b.vars[n] = to_var(vs, slice_value(spec, v, sel), dtype, requires_grad=n in grad)
    for n, ws in spec.weights.items():
        b.weights[n] = build_weight(ws, b.vars)
    for cs in spec.costs:
        b.costs[cs.name] = build_cost(cs, b.vars, b.weights)
    return b


def build(spec, dtype=D64, sel=None, grad=(), values=None, error_metric_fn=None, add=True,
          **kw):
    b = build_parts(spec, dtype, sel, grad, values)
    b.objective = th.Objective(dtype=dtype, error_metric_fn=error_metric_fn, **kw)
    if add:
        past = None if kw else history(spec, b, dtype)
        if past is not None:
            b.objective.add(past)
        for f in b.costs.values():
            b.objective.add(f)
        if past is not None:
            b.objective.erase(past.name)
    return b


def history(spec, b, dtype):
    """For some problems, a cost that the objective had once, so that the variables are known to it in another order
    than the one in which its costs use them."""
    names = [n for n in spec.optim_names() if n not in set(spec.aux_names())]
    h = zlib.crc32(repr(spec.signature()).encode())
    if len(names) < 2 or h % 3:
        return None
    rng = random.Random(h)
    rng.shuffle(names)
    w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=dtype), name="past_weight_scale"), name="past_weight")
    return th.AutoDiffCostFunction([b.vars[n] for n in names], _past_error, 1, cost_weight=w, name="past_cost")


def _past_error(optim_vars, aux_vars):
    return optim_vars[0].tensor.flatten(1)[:, :1]


@contextlib.contextmanager
def quiet():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


# --------------------------------------------------------------------------------------
# Independent reference values
def _mat(spec, name, vals):
    return spec.vars[name].G.mat(vals[name])


def _bil(sdf, origin, cell, p):
    """Bilinear interpolation of the field; 0 outside the grid (per-batch loop)."""
    B = max(sdf.shape[0], p.shape[0], origin.shape[0], cell.shape[0])
    e = lambda t: t.expand(B, *t.shape[1:])  # noqa: E731
    sdf, origin, cell, p = e(sdf), e(origin), e(cell), e(p)
    out = []
    H, W = sdf.shape[1:]
    for b in range(B):
        c = (p[b, 0] - origin[b, 0]) / cell[b, 0]
        r = (p[b, 1] - origin[b, 1]) / cell[b, 0]
        if not (0 <= float(c) <= W - 1 and 0 <= float(r) <= H - 1):
            out.append(torch.zeros((), dtype=D64))
            continue
        r0, c0 = int(math.floor(float(r))), int(math.floor(float(c)))
        r1, c1 = min(r0 + 1, H - 1), min(c0 + 1, W - 1)
        fr, fc = r - r0, c - c0
        s = sdf[b]
        out.append((1 - fr) * ((1 - fc) * s[r0, c0] + fc * s[r0, c1])
                   + fr * ((1 - fc) * s[r1, c0] + fc * s[r1, c1]))
    return torch.stack(out).view(B, 1)


def ref_error(spec, cs, vals):
    """Unweighted error of a cost from its documented formula; float64 (b, dim)."""
    k = cs.kind
    o, a = cs.opt, cs.aux
    G = spec.vars[o[0]].G
    if k == "diff":
        return G.log(G.inv(_mat(spec, a[0], vals)) @ _mat(spec, o[0], vals))
    if k == "between":
        d = G.inv(_mat(spec, o[0], vals)) @ _mat(spec, o[1], vals)
        return G.log(G.inv(_mat(spec, a[0], vals)) @ d)
    if k == "mfb":
        f1, f2, p1, p2 = [_mat(spec, n, vals) for n in o]
        d = G.inv(G.inv(f1) @ p1) @ (G.inv(f2) @ p2)
        return G.log(G.inv(_mat(spec, a[0], vals)) @ d)
    if k == "ad":
        fn = cs.opts["fn"]
        if fn == "ef_local":
            return G.log(G.inv(_mat(spec, a[0], vals)) @ _mat(spec, o[0], vals))
        if fn == "ef_between":
            d = G.inv(_mat(spec, o[0], vals)) @ _mat(spec, o[1], vals)
            return G.log(G.inv(_mat(spec, a[0], vals)) @ d)
        if fn == "ef_bearing":
            M = G.inv(_mat(spec, o[0], vals))
            n = vals[o[1]].shape[1]
            q = (M[..., :n, :n] @ vals[o[1]].unsqueeze(-1)).squeeze(-1) + M[..., :n, n]
            return q * vals[a[0]] - 1.0
        if fn == "ef_se2_coords":
            t = vals[o[0]]
            return torch.cat(torch.broadcast_tensors(
                t[:, :1] * vals[a[0]], t[:, 1:2] * vals[a[0]], t[:, 3:4]), dim=1)
        ov = [_T(vals[n]) for n in o]
        av = [_T(vals[n]) for n in a]
        return ERR_FNS[fn](ov, av)
    if k == "product":
        return vals[o[0]] * vals[o[1]] - vals[a[0]]
    if k == "reproj":
        M = _mat(spec, o[0], vals)
        q = (M[..., :3, :3] @ vals[o[1]].unsqueeze(-1)).squeeze(-1) + M[..., :3, 3]
        u = -q[:, :2] / q[:, 2:3]
        r2 = (u * u).sum(1, keepdim=True)
        return u * vals[a[0]] * (1 + vals[a[2]] * r2 + vals[a[3]] * r2 * r2) - vals[a[1]]
    if k == "coll":
        p = vals[o[0]][:, :2]
        d = _bil(vals[a[1]], vals[a[0]], vals[a[2]], p)
        return (vals[a[3]] - d).clamp(min=0)
    if k == "effobj":
        M = G.inv(_mat(spec, o[0], vals))
        p = vals[o[1]][:, :2]
        q = (M[..., :2, :2] @ p.unsqueeze(-1)).squeeze(-1) + M[..., :2, 2]
        return (_bil(vals[a[1]], vals[a[0]], vals[a[2]], q) - vals[a[3]]).abs()
    if k in ("dint", "gp"):
        p1, v1, p2, v2 = o
        d = G.log(G.inv(_mat(spec, p1, vals)) @ _mat(spec, p2, vals))
        e1 = d - vals[a[0]] * vals[v1]
        e2 = vals[v2] - vals[v1]
        B = max(e1.shape[0], e2.shape[0])
        return torch.cat([e1.expand(B, -1), e2.expand(B, -1)], 1)
    if k == "qsp":
        o1, o2, e1, e2 = [vals[n] for n in o]
        c2, s2 = o2[:, 2], o2[:, 3]
        R2t = torch.stack([torch.stack([c2, s2], -1), torch.stack([-s2, c2], -1)], -2)
        un = lambda x: (R2t @ x.unsqueeze(-1)).squeeze(-1)  # noqa: E731
        v = un(o2[:, :2] - o1[:, :2])
        vp = un(e2[:, :2] - e1[:, :2])
        p = un(e2[:, :2] - o2[:, :2])
        M1, M2 = _mat(spec, o[0], vals), _mat(spec, o[1], vals)
        om = G.angle(G.inv(M1) @ M2)
        rel = G.inv(M1) @ M2
        om = torch.atan2(rel[..., 1, 0], rel[..., 0, 0])
        vx, vy = v[:, 0], v[:, 1]
        px, py = p[:, 0], p[:, 1]
        cs_ = vals[a[0]].view(-1)
        rows = [vx - py * om - vp[:, 0], vy + px * om - vp[:, 1],
                -py * vx + px * vy - cs_ * om]
        return torch.stack(torch.broadcast_tensors(*rows), 1)
    if k == "hinge":
        x, th_ = vals[o[0]], vals[a[2]]
        lo, hi = vals[a[0]] + th_, vals[a[1]] - th_
        return (lo - x).clamp(min=0) + (x - hi).clamp(min=0)
    if k == "nonhol":
        v = vals[o[1]]
        if spec.vars[o[0]].kind == "SE2":
            return v[:, 1:2] + 0.0 * vals[o[0]][:, :1]
        t = vals[o[0]][:, 2:3]
        return v[:, 1:2] * t.cos() - v[:, :1] * t.sin()
    raise KeyError(k)


class _T:
    def __init__(self, t):
        self.tensor = t


def ref_weight_matrix(spec, cs, vals):
    """(b, dim, dim) square-root information matrix."""
    ws = spec.weights[cs.weight]
    a = vals[ws.aux[0]]
    if ws.kind == "scale":
        return torch.diag_embed(a.expand(a.shape[0], cs.dim))
    if ws.kind == "square":
        return torch.diag_embed((a * a).expand(a.shape[0], cs.dim))
    if ws.kind == "diag":
        return torch.diag_embed(a)
    dt = vals[ws.aux[1]].view(-1, 1, 1)
    Q = torch.cat([torch.cat(torch.broadcast_tensors(12 / dt ** 3 * a, -6 / dt ** 2 * a), 2),
                   torch.cat(torch.broadcast_tensors(-6 / dt ** 2 * a, 4 / dt * a), 2)], 1)
    return torch.linalg.cholesky(Q).transpose(1, 2)


def ref_weighted(spec, cs, vals, B=None):
    """Weighted (pre-loss) error, float64 (b, dim)."""
    e = ref_error(spec, cs, vals)
    return (ref_weight_matrix(spec, cs, vals) @ e.unsqueeze(-1)).squeeze(-1)


def rho(robust, x, vals):
    """Documented robust losses: (rho(x), rho'(x)) of the squared norm."""
    r = vals[robust["radius"]].exp()
    if robust["loss"] == "welsch":
        return r - r * torch.exp(-x / r), torch.exp(-x / r)
    if robust["loss"] == "huber":
        big = x > r
        return (torch.where(big, 2 * (r * torch.maximum(x, r)).sqrt() - r, x),
                torch.where(big, (r / torch.maximum(x, r)).sqrt(), torch.ones_like(x * r)))
    if robust["loss"] == "hinge":
        big = x > r
        sx = torch.maximum(x, r).sqrt()
        return (torch.where(big, sx - r.sqrt(), torch.zeros_like(sx)),
                torch.where(big, 0.5 / sx, torch.zeros_like(sx)))
    m = vals[robust["mu"]]
    return m * r * x / (m * r + x), (m * r) ** 2 / (m * r + x) ** 2


def ref_reported(spec, cs, vals):
    """What the objective's error vector holds for this cost."""
    e = ref_weighted(spec, cs, vals)
    if not cs.robust:
        return e
    if cs.robust["flatten"]:
        x = e * e
        v, _ = rho(cs.robust, x, vals)
        return (v.clamp(min=0)).sqrt()
    x = (e * e).sum(1, keepdim=True)
    v, _ = rho(cs.robust, x, vals)
    return (v.clamp(min=0) / cs.dim).sqrt().expand(-1, cs.dim)


def values(spec):
    return {n: v.value for n, v in spec.vars.items()}


def ref_error_vector(spec, vals, order=None):
    parts = [ref_reported(spec, c, vals) for c in (order or spec.costs)]
    B = max([p.shape[0] for p in parts] + [v.shape[0] for v in vals.values()])
    return torch.cat([p.expand(B, -1) for p in parts], 1)
