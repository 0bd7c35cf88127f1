"""C05: updating variables does exactly what was asked, or refuses."""
import warnings

import torch

import theseus as th

from .. import gen, geo
from ..core import D32, D64, Scenario, Skip

QUICK = 3  # so many times each scenario's quick cases
ID = "C05"
RULE = ("a case is a random objective and a random history of updates (full, partial, masked, new batch "
        "sizes, invalid ones) and retractions (any order, masked, forced, broadcast), compared after "
        "every step with a model that holds one tensor per variable")
ASSUMPTIONS = ["after an update that was refused, only the refused variables are required to keep their "
               "value (the others of the same call may or may not have been updated)"]


def _vars(obj):
    return {**obj.optim_vars, **obj.aux_vars}


def _batch(state):
    return max(t.shape[0] for t in state.values())


def _mask(case, B):
    k = case.randint(0, 5)
    m = case.rand(B) < 0.5
    if k == 0:
        m[:] = True
    if k == 1:
        m[:] = False
    return m


def _where(m, old, new):
    return torch.where(m.view(-1, *([1] * (new.ndim - 1))), old, new)


def _compare(case, obj, state, what):
    now = _vars(obj)
    for n, t in state.items():
        case.close(now[n].tensor, t, 1e-9, f"value after {what}", rtol=1e-9)
        case.check(now[n].tensor.dtype == D64, f"dtype after {what}")
    case.check(obj.batch_size == _batch(state), f"batch size after {what}", got=obj.batch_size)


def sc_history(case):
    spec = gen.make_spec(case, zero_p=0.1, batch1_p=0.4)
    b = gen.build(spec)
    obj = b.objective
    case.sig(spec.signature(), *[v.value for v in spec.vars.values()])
    case.describe(B=spec.B, vars=len(spec.vars))
    obj.update()
    vec = case.chance(0.5)
    if vec:
        th.Vectorize(obj)
    live = sorted(_vars(obj))
    state = {n: spec.vars[n].value.clone() for n in live}
    ids = {n: id(v) for n, v in _vars(obj).items()}
    _compare(case, obj, state, "construction")
    held = []  # tensors the caller passed in or read, with what they contained

    def hold(t):
        held.append((t, t.detach().clone()))
        return t
    for _ in range(case.randint(2, 8)):
        B = _batch(state)
        op = case.choice(["update", "update", "mask", "batch", "retract", "retract", "bad", "unknown",
                          "variable", "none"])
        names = case.rng.sample(live, case.randint(1, len(live)))
        new = {n: gen.draw_value(case, spec.vars[n], state[n].shape[0]) for n in names}
        d = {n: hold(t.clone()) for n, t in new.items()}
        n = case.choice(live)
        hold(_vars(obj)[n].tensor)
        torch.set_grad_enabled(case.chance(0.6))
        if op == "update":
            if case.chance(0.3):
                obj.update(d, batch_ignore_mask=torch.zeros(B, dtype=torch.bool))
            else:
                obj.update(d)
            state.update(new)
        elif op == "none":
            obj.update() if case.chance(0.5) else obj.update({})
            d, new = {}, {}
        elif op == "mask":
            m = _mask(case, B)
            d = {n: t for n, t in d.items() if t.shape[0] == B}
            if not d:
                continue
            obj.update(d, batch_ignore_mask=m)
            for n in d:
                state[n] = _where(m, state[n], new[n])
        elif op == "batch":
            nb = case.choice([1, 2, 3, 5])
            d, new = {}, {}
            for n in live:
                big = state[n].shape[0] == B if B > 1 else spec.vars[n].role == "opt"
                if big:
                    new[n] = gen.draw_value(case, spec.vars[n], nb)
                    d[n] = hold(new[n].clone())
            obj.update(d)
            state.update(new)
        elif op == "variable":  # directly, with a tensor or another variable
            n = case.choice(names)
            v = _vars(obj)[n]
            other = v.copy()
            other.update(new[n])
            m = _mask(case, B) if new[n].shape[0] == B and case.chance(0.4) else None
            hold(other.tensor)
            v.update(other if case.chance(0.5) else hold(new[n].clone()), batch_ignore_mask=m)
            state[n] = new[n] if m is None else _where(m, state[n], new[n])
            d, new = {}, {}
        elif op == "retract":
            ov = list(obj.optim_vars)
            case.rng.shuffle(ov)
            ov = ov[: case.randint(1, len(ov))]
            sizes = {state[n].shape[0] for n in ov}
            nb = B if case.chance(0.8) else (1 if sizes == {B} else B)
            delta = case.randn(nb, sum(spec.vars[n].G.dof for n in ov)).mul(0.5)
            keep = delta.clone()
            m = _mask(case, B) if sizes == {B} and nb == B and case.chance(0.6) else None
            force = case.chance(0.3)
            order = [obj.optim_vars[n] for n in ov]
            obj.retract_vars_sequence(delta, iter(order) if case.chance(0.3) else order, ignore_mask=m,
                                      force_update=force)
            case.same(delta, keep, "the step tensor was changed by the retraction")
            i = 0
            for n in ov:
                G = spec.vars[n].G
                y = G.tensor(G.mat(state[n]) @ G.exp(delta[:, i:i + G.dof]))
                i += G.dof
                state[n] = y if m is None or force else _where(m, state[n], y)
            obj.update()
            d, new = {}, {}
        elif op == "unknown":
            d["nobody"] = torch.ones(B, 3, dtype=D64)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                obj.update(d)
            case.check(len(w) > 0, "no warning for an unknown variable")
            state.update(new)
            del d["nobody"]
        else:
            n = case.choice(live)
            good = gen.draw_value(case, spec.vars[n], state[n].shape[0])
            k = case.choice(["dtype", "shape", "ndim", "extra_dim", "batch"])
            if k == "dtype":
                bad = good.to(D32)
            elif k == "shape":
                bad = torch.cat([good, good], dim=-1)
            elif k == "ndim":
                bad = good.reshape(-1)
            elif k == "extra_dim":
                bad = good.unsqueeze(-1)
            else:
                if len([x for x in live if x != n and state[x].shape[0] > 1]) == 0:
                    continue
                bad = torch.cat([good] * 9)[: 9]
                if bad.shape[0] == B:
                    continue
            case.raises(ValueError, lambda: obj.update({n: bad}), f"update with a bad {k}")
            if k == "batch":
                obj.update({n: state[n].clone()})
            d, new = {}, {}
        for n in d:
            case.same(d[n], new[n], "an input tensor was changed")
        for t, was in held:
            case.same(t, was, f"a tensor held by the caller was changed by {op}")
        _compare(case, obj, state, op)
        case.check({n: id(v) for n, v in _vars(obj).items()} == ids, "a variable object was replaced")
        if case.chance(0.4):
            want = gen.ref_error_vector(spec, state)
            case.close(obj.error(), want[: obj.batch_size].expand(obj.batch_size, -1),
                       1e-6 * (1 + float(want.abs().max())), "error")
        case.event(f"op {op}")


def sc_no_alias(case):
    """Tensors given by the user never change, whatever the library does afterwards."""
    spec = gen.make_spec(case, prior=True, kinds=("diff", "between", "vec", "product", "mfb"))
    b = gen.build(spec)
    case.sig(spec.signature(), *[v.value for v in spec.vars.values()])
    vec = case.chance(0.5)
    opt = case.choice([th.GaussNewton, th.LevenbergMarquardt, th.Dogleg])
    layer = th.TheseusLayer(opt(b.objective, max_iterations=case.randint(1, 4)), vectorize=vec)
    inp = {n: v.value.clone() for n, v in spec.vars.items()
           if v.role == "opt" or case.chance(0.5)}
    keep = {n: t.clone() for n, t in inp.items()}
    names = list(inp)
    try:
        sol, info = layer.forward(inp, optimizer_kwargs={
            "track_best_solution": case.chance(0.5), "track_err_history": True})
    except RuntimeError:
        raise Skip()
    case.describe(opt=opt.__name__, vectorized=vec)
    case.check(list(inp) == names, "the input dictionary was changed")
    for n in inp:
        case.same(inp[n], keep[n], "an input tensor was changed by the optimization")
    got = {n: t.clone() for n, t in sol.items()}
    layer.forward({n: gen.draw_value(case, spec.vars[n], spec.vars[n].value.shape[0])
                   for n in spec.optim_names()})
    for n in sol:
        case.same(sol[n], got[n], "a returned solution was changed by the next call")
    for n in inp:
        case.same(inp[n], keep[n], "an input tensor was changed by the next call")
    case.event("inputs intact")


def sc_group_update(case):
    """Checked updates of group variables, and their tangent-space retraction."""
    G, cls = geo.pick_group(case)
    B = case.randint(1, 4)
    t = lambda b=B: G.tensor(G.exp(geo.tangents(case, G, b)))  # noqa: E731
    x = geo.make(case, G, cls, t(), D64)
    case.sig(G.name, x.tensor)
    case.describe(group=G.name, B=B)
    keep = x.tensor.clone()
    d = geo.tangents(case, G, case.choice([1, B]))
    y = x.retract(d)
    case.same(x.tensor, keep, "retract() changes its variable")
    case.check(type(y) is cls and y is not x, "class of retract()")
    tol = geo.tol_value(G, geo.ang(G, d), geo.lin_norm(G, d), D64).expand(B)
    geo.close_b(case, G.mat(y.tensor), G.mat(keep) @ G.exp(d), tol, "retract")
    for bad, k in ((t().to(D32), "dtype"), (torch.cat([t(), t()], -1), "shape"), (t()[0], "ndim")):
        case.raises(ValueError, lambda: x.update(bad), f"update with a bad {k}")
        case.same(x.tensor, keep, "a refused update changed the variable")
    nb = case.randint(1, 6)
    new = t(nb)
    x.update(new)
    case.same(x.tensor, new, "update")
    case.check(x.shape == new.shape and x.dof() == G.dof, "shape after update")
    case.event("group update")


SCENARIOS = {
    "history": Scenario(sc_history, 400, 6000),
    "no_alias": Scenario(sc_no_alias, 100, 1500),
    "group_update": Scenario(sc_group_update, 200, 2000),
}
