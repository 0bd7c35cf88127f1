"""C02: querying the error is pure, ordered, and matches the documented value."""
import torch

import theseus as th
from theseus.optimizer import DenseLinearization

from .. import gen
from ..core import D32, D64, Scenario, Skip

QUICK = 3  # so many times each scenario's quick cases
ID = "C02"
RULE = ("a case is a random objective (vectorized or not) after a random add/erase history, queried "
        "with random input dictionaries (subsets, new batch sizes, unknown names, failing user code); "
        "the oracle is an independent formula per cost function, and a snapshot of all observable state")
ASSUMPTIONS = ["a query that raises must also leave the variables as they were"]


class Boom(Exception):
    pass


def _snapshot(obj, jac=True):
    s = {n: v.tensor for n, v in {**obj.optim_vars, **obj.aux_vars}.items()}
    c = {n: t.clone() for n, t in s.items()}
    L = None
    if jac:
        lin = DenseLinearization(obj)
        lin.linearize()
        L = (lin.A.clone(), lin.b.clone())
    return s, c, L, obj.batch_size, obj.current_version, list(obj.cost_functions)


def _unchanged(case, obj, snap, what, jac=True):
    s, c, L, B, ver, cfs = snap
    now = {**obj.optim_vars, **obj.aux_vars}
    case.check(list(now) == list(s), f"variable set after {what}")
    for n, v in now.items():
        case.same(v.tensor, c[n], f"variable value after {what}")
    case.check(obj.batch_size == B, f"batch size after {what}")
    case.check(obj.current_version == ver and list(obj.cost_functions) == cfs, f"structure after {what}")
    if jac and L is not None:
        lin = DenseLinearization(obj)
        lin.linearize()
        case.close(lin.A, L[0], 1e-10, f"jacobians after {what}", rtol=1e-10)
        case.close(lin.b, L[1], 1e-10, f"linearized error after {what}", rtol=1e-10)


def _history(case, spec, b):
    """Adds cost functions in random order, erasing and adding again; returns the order."""
    obj = b.objective
    order = []
    cs = list(spec.costs)
    if case.chance(0.5):
        case.rng.shuffle(cs)
    for c in cs:
        obj.add(b.costs[c.name])
        order.append(c)
        if case.chance(0.25):
            x = case.choice(order)
            obj.erase(x.name)
            order.remove(x)
            if case.chance(0.7) or not order:
                obj.add(b.costs[x.name])
                order.append(x)
    return order


def sc_query(case):
    spec = gen.make_spec(case, all_costs_batched=False)
    metric = case.choice([None, None, "abs", "max"])
    fn = {None: None, "abs": lambda e: e.abs().sum(dim=1), "max": lambda e: (e * e).max(dim=1).values}[metric]
    b = gen.build(spec, error_metric_fn=fn, add=False)
    obj = b.objective
    order = _history(case, spec, b)
    vec = case.chance(0.6)
    if vec:
        th.Vectorize(obj)
    state = {n: v.value for n, v in spec.vars.items()}
    live = set(obj.optim_vars) | set(obj.aux_vars)
    # the objective's batch size comes from its own variables
    obj.update()
    case.sig(spec.signature(), *state.values())
    case.describe(B=spec.B, n=len(order), vectorized=vec, metric=metric)
    jac = case.chance(0.6)

    def expected(vals):
        v = {n: vals[n] for n in live}
        return gen.ref_error_vector(spec, v, order=order)

    def metric_of(e):
        if metric is None:
            return 0.5 * (e * e).sum(1)
        return fn(e)

    def observe(got, want, what):
        s = 1 + float(want.abs().max())
        if what.startswith("metric"):
            case.close(got, metric_of(want), 1e-6 * s * s, what)
        else:
            case.close(got, want, 1e-6 * s, what)

    def query(d=None, **kw):
        if case.chance(0.5):
            return obj.error(d, **kw), "error"
        return obj.error_metric(d, **kw), "metric"

    snap = _snapshot(obj, jac)
    for _ in range(case.randint(1, 4)):
        kind = case.choice(["none", "temp", "temp", "temp_batch", "also", "fail", "unknown", "empty"])
        if kind in ("none", "empty"):
            got, w = query(None if kind == "none" else {})
            observe(got, expected(state), f"{w}")
        elif kind in ("temp", "temp_batch", "unknown", "also"):
            names = case.rng.sample(sorted(live), case.randint(1, len(live)))
            B = max(state[n].shape[0] for n in live)
            vals = {n: gen.draw_value(case, spec.vars[n], state[n].shape[0]) for n in names}
            if kind == "temp_batch":
                nb = case.choice([1, 2, 3, 5])
                vals = {}
                for n in sorted(live):
                    v = spec.vars[n]
                    if state[n].shape[0] == B and (B > 1 or v.role == "opt" or case.chance(0.3)):
                        vals[n] = gen.draw_value(case, v, nb)
            new = {**state, **vals}
            d = {n: t.clone() for n, t in vals.items()}
            if kind == "unknown":
                d["no_such_variable"] = torch.ones(1, 1, dtype=D64)
            keys, keep = list(d), {n: t.clone() for n, t in d.items()}
            if case.chance(0.3):
                keys_shuffled = list(d)
                case.rng.shuffle(keys_shuffled)
                d = {k: d[k] for k in keys_shuffled}
            also = kind == "also"
            no_grad = case.chance(0.3)
            with torch.set_grad_enabled(not no_grad):
                got, w = query(d, also_update=also)
            observe(got, expected(new), f"{w}({kind})")
            case.check(set(d) == set(keys), "the input dictionary was changed")
            for n in d:
                case.same(d[n], keep[n], "an input tensor was changed")
            if also:
                state = new
                now = {**obj.optim_vars, **obj.aux_vars}
                for n in live:
                    case.same(now[n].tensor, state[n], "value after error(also_update)")
                got, w = query()
                observe(got, expected(state), f"{w} after also_update")
                snap = _snapshot(obj, jac)
        else:
            # an invalid input among valid ones
            names = case.rng.sample(sorted(live), case.randint(1, len(live)))
            d = {n: gen.draw_value(case, spec.vars[n], state[n].shape[0]) for n in names}
            bad = case.choice(names)
            k = case.choice(["dtype", "shape", "batch", "ndim"])
            if k == "dtype":
                d[bad] = d[bad].to(D32)
            elif k == "shape":
                d[bad] = torch.cat([d[bad], d[bad]], dim=-1)
            elif k == "ndim":
                d[bad] = d[bad].reshape(-1)
            else:
                d[bad] = torch.cat([d[bad]] * 7)
                B = max(state[n].shape[0] for n in live if n != bad) if len(live) > 1 else 1
                if B == 1:
                    continue
            case.raises(ValueError, lambda: query(d), f"error() with a bad {k}")
        _unchanged(case, obj, snap, f"error query [{kind}]", jac)
        case.event(f"query {kind}")
    case.event("objective queried" + (" vectorized" if vec else ""))


def sc_raise(case):
    """User code fails during the evaluation."""
    flag = {"on": False}

    def err(optim_vars, aux_vars):
        if flag["on"]:
            raise Boom()
        return optim_vars[0].tensor * aux_vars[0].tensor

    B = case.randint(1, 4)
    n = case.randint(1, 3)
    mode = case.choice(["vmap", "dense", "loop_batch"])
    obj = th.Objective(dtype=D64)
    xs, ts = [], []
    for i in range(n):
        x = th.Vector(tensor=case.randn(B, 2), name=f"x{i}")
        t = th.Vector(tensor=case.randn(case.choice([1, B]), 2), name=f"t{i}")
        w = th.ScaleCostWeight(th.Variable(case.rand(1, 1, lo=0.5, hi=2), name=f"w{i}"))
        obj.add(th.AutoDiffCostFunction([x], err, 2, cost_weight=w, aux_vars=[t], name=f"c{i}",
                                        autograd_mode=mode))
        xs.append(x)
        ts.append(t)
    obj.update()
    vec = case.chance(0.5)
    if vec:
        th.Vectorize(obj)
    case.sig(B, n, mode, vec, *[v.tensor for v in xs])
    case.describe(B=B, n=n, mode=mode, vectorized=vec)
    obj.error()
    snap = _snapshot(obj)
    x = case.choice(xs)
    flag["on"] = True
    case.raises(Boom, lambda: obj.error({x.name: case.randn(B, 2)}), "user exception")
    flag["on"] = False
    _unchanged(case, obj, snap, "error query [user exception]")
    if case.chance(0.5):  # failing while Jacobians are evaluated
        flag["on"] = True
        lin = DenseLinearization(obj)
        if vec:
            case.raises(Boom, lambda: obj.update({x.name: x.tensor.clone()}), "user exception in update")
        else:
            case.raises(Boom, lambda: lin.linearize(), "user exception in linearize")
        flag["on"] = False
        got = DenseLinearization(obj)
        obj.update({x.name: x.tensor.clone()})
        got.linearize()
        case.close(got.A, snap[2][0], 1e-10, "jacobians after a failed evaluation")
        case.close(got.b, snap[2][1], 1e-10, "errors after a failed evaluation")
        case.event("exception in jacobians")


SCENARIOS = {
    "query": Scenario(sc_query, 500, 8000),
    "raise": Scenario(sc_raise, 150, 2000),
}
