"""C01: vectorization never changes what an objective computes (twins under histories)."""
import torch

import theseus as th
from theseus.optimizer import DenseLinearization

from .. import gen
from ..core import D32, D64, Scenario, Skip

ID = "C01"
RULE = ("a case is a random problem (several cost functions sharing shapes, variables and weights) "
        "built twice, one twin vectorized, and a random history of operations applied to both; after "
        "every operation errors, Jacobians, linear systems, variable values and input gradients of "
        "the twins are compared with each other, and the error with an independent formula; "
        "distinct = different problem/history, non-trivial = at least two costs share a schema or an "
        "operation changed the state")
ASSUMPTIONS = ["custom cost functions keep all their parameters in registered variables, and follow "
               "the documented batch broadcasting rules",
               "cost functions stay differentiable at the sampled values (kinks are avoided almost surely)"]


def _lin(obj):
    lin = DenseLinearization(obj)
    lin.linearize()
    return lin.A, lin.b


class Twins:
    def __init__(self, case, spec, grad=(), dtype=D64):
        self.case, self.spec, self.dtype = case, spec, dtype
        self.grad = tuple(grad)
        self.state = {n: v.value.clone() for n, v in spec.vars.items()}
        self.a = gen.build(spec, dtype=dtype, grad=grad)
        self.b = gen.build(spec, dtype=dtype, grad=grad)
        self.oa, self.ob = self.a.objective, self.b.objective
        th.Vectorize(self.oa)
        for o in (self.oa, self.ob):
            o.update()
        self.costs = list(spec.costs)
        self.tol = 1e-8 if dtype == D64 else 5e-3
        self.rounded = dtype == D32  # the reference no longer applies at 1e-8

    def names(self, o):
        return set(o.optim_vars) | set(o.aux_vars)

    def compare(self, what, jac=True):
        case, oa, ob = self.case, self.oa, self.ob
        case.check(oa.batch_size == ob.batch_size, f"batch size [{what}]")
        if not self.costs:
            return
        va = {**oa.optim_vars, **oa.aux_vars}
        vb = {**ob.optim_vars, **ob.aux_vars}
        case.check(list(va) == list(vb), f"registered variables [{what}]")
        for n in va:
            case.close(va[n].tensor, vb[n].tensor, self.tol * 1e-2, f"variable value[{what}]", rtol=1e-7)
        ea, eb = oa.error(), ob.error()
        sc = 1.0 + float(eb.detach().abs().max())
        case.close(ea, eb, self.tol * sc, f"error[{what}]")
        case.close(oa.error_metric(), ob.error_metric(), self.tol * sc * sc * 10, f"error metric[{what}]")
        if not self.rounded:
            vals = {n: self.state[n] for n in self.state}
            want = gen.ref_error_vector(self.spec, vals, order=self.costs)
            B = oa.batch_size
            if B > 0 and want.shape[0] != B:
                want = want[:B]
            case.close(eb, want.expand(eb.shape[0], -1), 1e-6 * sc, f"error vs formula[{what}]")
        if jac:
            Aa, ba = _lin(oa)
            Ab, bb = _lin(ob)
            s = 1.0 + float(Ab.detach().abs().max())
            case.close(Aa, Ab, self.tol * s, f"jacobians[{what}]")
            case.close(ba, bb, self.tol * sc, f"linearized error[{what}]")
            if self.grad and torch.is_grad_enabled():
                self.compare_grads(what, (ea, Aa, ba), (eb, Ab, bb))
        case.event(f"compared after {what}")

    def compare_grads(self, what, ta, tb):
        case = self.case
        which = case.choice(["error", "A", "b"])
        i = {"error": 0, "A": 1, "b": 2}[which]
        xa, xb = ta[i], tb[i]
        ra = xa.requires_grad
        # Zero weights may be masked out: the terms which they switch off then carry no gradient
        # with respect to the weight itself (it could not reach the normal equations anyway).
        zero = {n for n, v in self.state.items()
                if self.spec.vars[n].draw in ("scale", "zscale") and bool((v == 0).any())}
        rb = xb.requires_grad
        if not (ra or rb):
            return
        R = case.randn(*xb.shape).to(xb.dtype)
        la = [self.leafa[n] for n in self.grad]
        lb = [self.leafb[n] for n in self.grad]
        # variables which are processed together may carry a (zero) gradient of one another
        none = [None] * len(la)
        ga = torch.autograd.grad((xa * R).sum(), la, allow_unused=True, retain_graph=True) if ra else none
        gb = torch.autograd.grad((xb * R).sum(), lb, allow_unused=True, retain_graph=True) if rb else none
        for n, x, y in zip(self.grad, ga, gb):
            if n in zero and which != "error":
                continue
            z = torch.zeros_like(self.leafb[n])
            x, y = (z if x is None else x), (z if y is None else y)
            s = 1.0 + float(y.abs().max())
            if not torch.isfinite(y).all():
                case.event("non-finite gradient in the plain twin")
                continue
            case.close(x, y, self.tol * 10 * s, f"gradient of {which}[{what}]")
            case.event("gradients compared")

    def leaves(self):
        self.leafa = {n: self.a.vars[n].tensor for n in self.grad}
        self.leafb = {n: self.b.vars[n].tensor for n in self.grad}

    def feed(self, fn, values, **kw):
        """Same input tensors for both twins (separate leaves)."""
        out = []
        for o, leaf in ((self.oa, "leafa"), (self.ob, "leafb")):
            d = {}
            for n, v in values.items():
                t = v.to(self.dtype).clone()
                if n in self.grad:
                    t.requires_grad_(True)
                    if kw.get("persist", True):
                        getattr(self, leaf)[n] = t
                d[n] = t
            out.append(fn(o, d))
        return out


def _mask(case, B):
    m = case.rand(B) < 0.5
    k = case.randint(0, 5)
    if k == 0:
        m[:] = True
    elif k == 1:
        m[:] = False
    return m


def _B(state):
    return max(v.shape[0] for v in state.values())


def sc_history(case):
    with_grad = case.chance(0.5)
    spec = gen.make_spec(case, zero_p=0.3, n_costs=case.randint(2, 7),
                         ad_modes=("vmap", "vmap", "dense"))
    case.sig(spec.signature(), *[v.value for v in spec.vars.values()])
    grad = []
    if with_grad:
        names = [n for n, v in spec.vars.items() if v.draw not in ("Qc",)]
        grad = case.rng.sample(names, min(len(names), case.randint(1, 3)))
    tw = Twins(case, spec, grad)
    tw.leaves()
    case.describe(B=spec.B, costs=[c.kind for c in spec.costs], grad=len(grad))
    if len({c.kind for c in spec.costs}) == len(spec.costs):
        case.event("no two costs of one kind")
    if case.chance(0.7):
        tw.compare("start", jac=case.chance(0.7))
    ops = ["update", "update", "batch", "mask", "direct", "retract", "retract", "peek", "peek_also",
           "revec", "nograd", "add", "erase", "zero", "toggle", "setitem", "copy", "to", "same", "from"]
    hist = []
    for _ in range(case.randint(2, 7)):
        op = case.choice(ops)
        hist.append(op)
        st = tw.state
        B = _B(st)
        live = [n for n in st if n in tw.names(tw.ob)]
        if not live:
            break
        draw = lambda n, b: gen.draw_value(case, spec.vars[n], b)  # noqa: E731
        jac = case.chance(0.75)
        if op in ("update", "peek", "peek_also", "zero"):
            if op == "zero":
                ns = [n for n in live if spec.vars[n].draw in ("zscale", "scale")]
            else:
                ns = case.rng.sample(live, case.randint(1, len(live)))
            vals = {}
            for n in ns:
                b = st[n].shape[0]
                vals[n] = draw(n, b)
                if op == "zero":
                    vals[n] = vals[n] * (case.rand(b, 1) > 0.5)
            if not vals:
                continue
            if op in ("update", "zero"):
                tw.feed(lambda o, d: o.update(d), vals)
                st.update(vals)
            else:
                also = op == "peek_also"
                ea, eb = tw.feed(lambda o, d: o.error(d, also_update=also), vals, persist=also)
                case.close(ea, eb, tw.tol * (1 + float(eb.detach().abs().max())), "error(inputs)")
                if also:
                    st.update(vals)
        elif op == "same":  # an update which gives the tensors that are already there
            ns = case.rng.sample(live, case.randint(1, len(live)))
            for o in (tw.oa, tw.ob):
                vs = {**o.optim_vars, **o.aux_vars}
                o.update({n: vs[n].tensor for n in ns})
        elif op == "batch":
            nb = case.choice([1, 2, 3, 4, 6])
            vals = {}
            for n in st:
                if B == 1:
                    big = spec.vars[n].role == "opt" or case.chance(0.5)
                else:
                    big = st[n].shape[0] == B
                if big:
                    vals[n] = draw(n, nb)
            # variables which are not in the objective right now are set directly
            tw.feed(lambda o, d: [t.a.vars[n].update(d[n]) if o is t.oa else t.b.vars[n].update(d[n])
                                  for t in [tw] for n in d if n not in live] and None, vals)
            st.update(vals)
            vals = {n: v for n, v in vals.items() if n in live}
            tw.feed(lambda o, d: o.update(d), vals)
        elif op == "mask":
            m = _mask(case, B)
            ns = [n for n in live if st[n].shape[0] == B and n not in grad]
            if B == 1 or not ns:
                continue
            ns = case.rng.sample(ns, case.randint(1, len(ns)))
            vals = {n: draw(n, B) for n in ns}
            tw.feed(lambda o, d: o.update(d, batch_ignore_mask=m), vals)
            for n in ns:
                mm = m.view(-1, *([1] * (vals[n].ndim - 1)))
                st[n] = torch.where(mm, st[n], vals[n])
        elif op == "direct":  # the user updates a variable without going through the objective
            n = case.choice(live)
            v = draw(n, st[n].shape[0])
            tw.feed(lambda o, d: (tw.a if o is tw.oa else tw.b).vars[n].update(d[n]), {n: v})
            st[n] = v
        elif op == "setitem":
            ns = [n for n in live if n not in grad and not tw.a.vars[n].tensor.requires_grad]
            if not ns:
                continue
            n = case.choice(ns)
            i = case.randint(0, st[n].shape[0] - 1)
            v = draw(n, 1)
            with torch.no_grad():
                for t in (tw.a, tw.b):
                    var = t.vars[n]
                    var.update(var.tensor.clone())
            if jac:
                tw.compare("refresh")
            with torch.no_grad():
                for t in (tw.a, tw.b):
                    t.vars[n][i] = v[0].to(tw.dtype)
            st[n] = st[n].clone()
            st[n][i] = v[0]
        elif op == "from":  # setters of the group classes
            ns = [n for n in live if spec.vars[n].kind in ("SE2", "SO2", "SO3", "SE3") and n not in grad]
            if not ns:
                continue
            n = case.choice(ns)
            k = spec.vars[n].kind
            v = draw(n, st[n].shape[0])
            if jac:
                tw.compare("before setter")
            for t in (tw.a, tw.b):
                x = t.vars[n]
                w = v.to(tw.dtype)
                if k == "SE2":
                    if case.seed % 2:
                        x.update_from_x_y_theta(torch.cat(
                            [w[:, :2], torch.atan2(w[:, 3:], w[:, 2:3])], 1))
                    else:
                        x.update_from_rot_and_trans(th.SO2(tensor=w[:, 2:]), th.Point2(tensor=w[:, :2]))
                elif k == "SO2":
                    x.update_from_angle(torch.atan2(w[:, 1:], w[:, :1]))
                elif k == "SO3":
                    x.update_from_unit_quaternion(th.SO3(tensor=w, strict_checks=False).to_quaternion())
                else:
                    x.update_from_rot_and_trans(th.SO3(tensor=w[..., :3], strict_checks=False),
                                                th.Point3(tensor=w[..., 3]))
            st[n] = v
        elif op == "retract":
            ov = list(tw.ob.optim_vars)
            case.rng.shuffle(ov)
            ov = ov[: case.randint(1, len(ov))]
            if any(n in grad for n in ov) and case.chance(0.7):
                ov = [n for n in ov if n not in grad]
            if not ov:
                continue
            bs = {st[n].shape[0] for n in ov}
            nb = max(bs)
            if B > 1 and nb == 1:
                nb = B
            d = case.randn(nb, sum(spec.vars[n].G.dof for n in ov)).mul(0.3)
            m = _mask(case, nb) if case.chance(0.6) else None
            if m is not None and len(bs | {nb}) > 1:
                m = None
            force = case.chance(0.3)
            for t in (tw.a, tw.b):
                t.objective.retract_vars_sequence(
                    d.to(tw.dtype), [t.objective.optim_vars[n] for n in ov], ignore_mask=m,
                    force_update=force)
            i = 0
            for n in ov:
                G = spec.vars[n].G
                new = G.tensor(G.mat(st[n]) @ G.exp(d[:, i:i + G.dof]))
                i += G.dof
                if m is not None and not force:
                    mm = m.view(-1, *([1] * (new.ndim - 1)))
                    new = torch.where(mm, st[n], new)
                st[n] = new
        elif op == "revec":
            th.Vectorize(tw.oa)
        elif op == "toggle":
            tw.oa.disable_vectorization()
            case.check(not tw.oa.vectorized, "disable_vectorization")
            if case.chance(0.7):
                tw.compare("disabled", jac=jac)
                th.Vectorize(tw.oa)
        elif op == "nograd":
            with torch.no_grad():
                n = case.choice(live)
                if n not in grad:
                    v = draw(n, st[n].shape[0])
                    tw.feed(lambda o, d: o.update(d), {n: v})
                    st[n] = v
                tw.compare("no_grad", jac=True)
            tw.compare("grad again", jac=True)
        elif op == "add":
            gone = [c for c in spec.costs if c not in tw.costs]
            if not gone:
                continue
            c = case.choice(gone)
            for t in (tw.a, tw.b):
                t.objective.add(t.costs[c.name])
            tw.costs.append(c)
            if case.chance(0.7):
                th.Vectorize(tw.oa)
            for o in (tw.oa, tw.ob):
                o.update()
        elif op == "erase":
            if len(tw.costs) < 2:
                continue
            c = case.choice(tw.costs)
            rest = [x for x in tw.costs if x is not c]
            # the remaining costs must still span the batch
            used = set()
            for x in rest:
                used |= set(x.opt) | set(x.all_aux()) | set(spec.weights[x.weight].aux)
            for t in (tw.a, tw.b):
                t.objective.erase(c.name)
            tw.costs = rest
            if case.chance(0.7):
                th.Vectorize(tw.oa)
            for o in (tw.oa, tw.ob):
                o.update()
        elif op == "to":
            if grad:
                continue
            tw.rounded = True
            tw.tol = 1e-4
            for d in (D32, D64):
                for o in (tw.oa, tw.ob):
                    o.to(dtype=d)
                tw.dtype = d
                if case.chance(0.5):
                    keep, tw.tol = tw.tol, 5e-3
                    tw.compare(f"to {d}", jac=jac)
                    tw.tol = keep
            tw.tol = 1e-8
        elif op == "copy":
            if grad:
                continue
            for t in (tw.a, tw.b):
                new = t.objective.copy()
                for n in list(t.vars):
                    if n in new.optim_vars:
                        t.vars[n] = new.optim_vars[n]
                    elif n in new.aux_vars:
                        t.vars[n] = new.aux_vars[n]
                for n in list(t.costs):
                    if n in new.cost_functions:
                        t.costs[n] = new.cost_functions[n]
                t.objective = new
                new.update()
            tw.oa, tw.ob = tw.a.objective, tw.b.objective
            th.Vectorize(tw.oa)
            # erased costs still hold the old variables: they cannot come back
            tw.spec = spec = _without(spec, tw.costs)
        tw.compare(op, jac=jac)
        case.event(f"op {op}")
    case.describe(history=hist)


def _without(spec, costs):
    s = spec.clone()
    names = {c.name for c in costs}
    s.costs = [c for c in s.costs if c.name in names]
    # keep identity of the cost objects used for membership tests
    s.costs = list(costs)
    return s


# ---------------------------------------------------------------------------------------
def sc_optimize(case):
    """A whole optimization, and its gradients, through a vectorized and a plain layer."""
    spec = gen.make_spec(case, prior=True, n_costs=case.randint(2, 6), robust_p=0.2,
                         kinds=("diff", "between", "vec", "adgroup", "product", "gp", "dint"))
    case.sig(spec.signature(), *[v.value for v in spec.vars.values()])
    aux = [n for n in spec.aux_names() if spec.vars[n].draw not in ("Qc",)]
    g = case.rng.sample(aux, min(2, len(aux)))
    opt = case.choice([th.GaussNewton, th.LevenbergMarquardt, th.Dogleg])
    solver = case.choice([th.CholeskyDenseSolver, th.CholeskyDenseSolver, th.LUDenseSolver,
                          th.CholmodSparseSolver])
    n_it = case.randint(1, 4)
    kw = {}
    if opt is th.LevenbergMarquardt:
        kw["damping"] = case.choice([0.01, 0.1, 1.0])
        kw["ellipsoidal_damping"] = case.chance(0.5)
        kw["adaptive_damping"] = case.chance(0.5)
    step = case.choice([1.0, 0.5])
    bwd = case.choice(["unroll", "implicit", "truncated"])
    if bwd == "truncated":
        kw["backward_num_iterations"] = case.randint(1, 3)
    case.describe(B=spec.B, costs=[c.kind for c in spec.costs], opt=opt.__name__, bwd=bwd,
                  solver=solver.__name__)
    res = []
    for vec in (True, False):
        b = gen.build(spec, grad=g)
        layer = th.TheseusLayer(opt(b.objective, linear_solver_cls=solver, max_iterations=n_it,
                                    step_size=step, abs_err_tolerance=0.0, rel_err_tolerance=0.0),
                                vectorize=vec)
        case.check(b.objective.vectorized == vec, "vectorize flag")
        vals = {n: spec.vars[n].value.clone() for n in spec.optim_names()}
        leaves = [b.vars[n].tensor for n in g]
        try:
            sol, info = layer.forward(vals, optimizer_kwargs={"backward_mode": bwd, **kw})
        except RuntimeError as e:
            res.append(("error", type(e).__name__))
            continue
        R = torch.Generator().manual_seed(case.seed)
        loss = sum((s * torch.randn(s.shape, generator=R, dtype=D64)).sum() for s in sol.values())
        gr = torch.autograd.grad(loss, leaves, allow_unused=True) if loss.requires_grad else None
        res.append(("ok", {k: v.detach() for k, v in sol.items()}, gr, leaves,
                    info.best_err, info.converged_iter))
    a, b = res
    case.check(a[0] == b[0], f"one of the twins fails: {a[0]} vs {b[0]}")
    if a[0] != "ok":
        case.event("both fail")
        raise Skip()
    big = max(float(v.abs().max()) for v in b[1].values())
    if not big < 1e3:
        raise Skip()
    stol = 1e-6 if solver is not th.CholmodSparseSolver else 2e-3
    for k in b[1]:
        case.close(a[1][k], b[1][k], stol * (1 + big), "solution")
    case.check((a[2] is None) == (b[2] is None), "gradient presence")
    if b[2] is not None:
        for x, y, leaf in zip(a[2], b[2], b[3]):
            z = torch.zeros_like(leaf)
            x, y = (z if x is None else x), (z if y is None else y)
            s = 1 + float(y.abs().max())
            if s < 1e4 and torch.isfinite(y).all():
                case.close(x, y, stol * 100 * s, "gradient of the solution")
    case.event(f"{opt.__name__}/{bwd}")


SCENARIOS = {
    "history": Scenario(sc_history, 350, 6000),
    "optimize": Scenario(sc_optimize, 60, 900),
}
