"""C04: copies are equivalent and independent."""
import copy
import pickle
import warnings

import torch

import theseus as th
from theseus.optimizer import DenseLinearization, VariableOrdering

from .. import gen, geo, optim
from ..core import D32, D64, Scenario, Skip

QUICK = 3  # so many times each scenario's quick cases
ID = "C04"
RULE = ("a case copies a random objective / cost function / weight / variable (any built-in kind, robust "
        "or not, before or after a random history), checks that the copy computes the same and has the "
        "same sharing structure, then changes one side in a random way and checks the other side")
ASSUMPTIONS = ["custom cost functions implement the documented copy protocol"]


def _lin(obj):
    order = VariableOrdering(obj, default_order=False)
    for n in sorted(obj.optim_vars):
        order.append(obj.optim_vars[n])
    lin = DenseLinearization(obj, ordering=order)
    lin.linearize()
    return lin.A.clone(), lin.b.clone()


def _state(obj):
    return {n: v.tensor.clone() for n, v in {**obj.optim_vars, **obj.aux_vars}.items()}


def _wiring(f):
    return ([v.name for v in f.optim_vars], [v.name for v in f.aux_vars])


def _fresh(case, spec, state, names=None):
    return {n: gen.draw_value(case, spec.vars[n], state[n].shape[0]) for n in (names or state)}


def _same_state(case, obj, before, what):
    now = {**obj.optim_vars, **obj.aux_vars}
    case.check(set(now) == set(before), f"variables of the other side after {what}")
    for n, v in now.items():
        case.same(v.tensor, before[n], f"value on the other side after {what}")


def sc_objective(case):
    spec = gen.make_spec(case, share_aux_p=0.5, share_weight_p=0.6, ad_modes=("vmap", "dense", "loop_batch"))
    metric = (lambda e: e.abs().sum(dim=1)) if case.chance(0.3) else None
    grad = [n for n in spec.aux_names() if spec.vars[n].draw == "pos"][:1] if case.chance(0.2) else []
    b = gen.build(spec, error_metric_fn=metric, grad=grad)
    obj = b.objective
    case.sig(spec.signature(), *[v.value for v in spec.vars.values()])
    case.describe(B=spec.B, costs=[c.kind for c in spec.costs])
    obj.update()
    order = list(spec.costs)
    if case.chance(0.4):  # some history first
        c = case.choice(order)
        if len(order) > 1:
            obj.erase(c.name)
            order.remove(c)
            if case.chance(0.5):
                obj.add(b.costs[c.name])
                order.append(c)
    vec = case.chance(0.4)
    if vec:
        th.Vectorize(obj)
        obj.update()
    before = _state(obj)
    new = copy.deepcopy(obj) if case.chance(0.3) else obj.copy()
    if case.chance(0.2):
        new = new.copy()
    _same_state(case, obj, before, "copy()")
    new.update()
    # ---- equivalence
    case.check(list(new.cost_functions) == [c.name for c in order], "order of cost functions of the copy")
    case.check(set(new.optim_vars) == set(obj.optim_vars), "optimization variables of the copy")
    case.check(set(new.aux_vars) == set(obj.aux_vars), "auxiliary variables of the copy",
               got=sorted(new.aux_vars), want=sorted(obj.aux_vars))
    case.check(new.dtype == obj.dtype and new.dim() == obj.dim() and new.size() == obj.size(),
               "dtype / dim / size of the copy")
    case.check(new.batch_size == obj.batch_size, "batch size of the copy")
    ov = {**obj.optim_vars, **obj.aux_vars}
    nv = {**new.optim_vars, **new.aux_vars}
    for n in ov:
        case.check(type(nv[n]) is type(ov[n]), "variable class of the copy")
        case.check(nv[n] is not ov[n], "the copy shares a variable with the original")
        case.same(nv[n].tensor, ov[n].tensor, "variable value of the copy")
        case.check(nv[n].tensor.data_ptr() != ov[n].tensor.data_ptr(),
                   "the copy shares memory with the original")
    wmap = {}
    for name in new.cost_functions:
        f, g = obj.cost_functions[name], new.cost_functions[name]
        case.check(f is not g and type(f) is type(g), f"class of a copied cost function "
                   f"({type(f).__name__} -> {type(g).__name__})")
        case.check(_wiring(f) == _wiring(g), "wiring of a copied cost function")
        case.check(_wiring(f.weight) == _wiring(g.weight) and type(f.weight) is type(g.weight)
                   and f.weight is not g.weight, "wiring of a copied cost weight")
        case.check(wmap.setdefault(id(f.weight), id(g.weight)) == id(g.weight), "weight sharing of the copy")
        for v in list(g.optim_vars) + list(g.aux_vars) + list(g.weight.aux_vars):
            case.check(v is nv[v.name], "a copied cost function is not connected to the copy's variable")
    e = obj.error()
    case.close(new.error(), e, 1e-12, "error of the copy", rtol=1e-10)
    case.close(new.error_metric(), obj.error_metric(), 1e-12, "error metric of the copy", rtol=1e-10)
    A, bb = _lin(obj)
    A2, b2 = _lin(new)
    case.close(A2, A, 1e-11, "jacobians of the copy", rtol=1e-9)
    case.close(b2, bb, 1e-11, "linearization of the copy", rtol=1e-9)
    case.event("copied")
    # ---- independence: a history on either side
    rounded = False
    for _ in range(case.randint(1, 3)):
        side = case.choice(["copy", "original"])
        mod, other = (new, obj) if side == "copy" else (obj, new)
        ostate, oerr = _state(other), other.error().detach().clone()
        oA, ob = _lin(other)
        ocosts = list(other.cost_functions)
        over = other.current_version
        st = _state(mod)
        op = case.choice(["update", "update", "inplace", "retract", "erase", "vectorize", "to", "batch"])
        if grad and op in ("inplace", "to"):
            op = "update"
        names = [c.name for c in order if c.name in mod.cost_functions]
        if op == "update":
            mod.update(_fresh(case, spec, st, case.rng.sample(sorted(st), case.randint(1, len(st)))))
        elif op == "batch":
            B = max(t.shape[0] for t in st.values())
            nb = case.randint(1, 5)
            mod.update({n: gen.draw_value(case, spec.vars[n], nb) for n in st
                        if (st[n].shape[0] == B and B > 1) or (B == 1 and spec.vars[n].role == "opt")})
        elif op == "inplace":
            n = case.choice(sorted(st))
            v = {**mod.optim_vars, **mod.aux_vars}[n]
            v[0] = gen.draw_value(case, spec.vars[n], 1)[0].to(v.dtype)
        elif op == "retract":
            d = case.randn(max(t.shape[0] for t in st.values()), sum(v.dof() for v in mod.optim_vars.values()))
            mod.retract_vars_sequence(0.2 * d, list(mod.optim_vars.values()))
        elif op == "erase":
            if len(names) < 2:
                continue
            mod.erase(case.choice(names))
        elif op == "to":
            mod.to(dtype=D32)
        else:
            th.Vectorize(mod)
        _same_state(case, other, ostate, f"{op} on the {side}")
        case.check(list(other.cost_functions) == ocosts and other.current_version == over,
                   f"structure of the other side after {op} on the {side}")
        case.same(other.error().detach(), oerr, f"error on the other side after {op} on the {side}")
        A3, b3 = _lin(other)
        case.close(A3, oA, 1e-12, f"jacobians on the other side after {op} on the {side}", rtol=1e-10)
        case.close(b3, ob, 1e-12, f"linearization on the other side after {op} on the {side}", rtol=1e-10)
        if op == "to":
            mod.to(dtype=D64)
            rounded = True  # values went through float32
        # and the changed side computes what its own variables say
        mod.update()
        want = gen.ref_error_vector(spec, {n: t.double() for n, t in _state(mod).items()},
                                    order=[c for nm in mod.cost_functions for c in order if c.name == nm])
        tol = (1e-3 if rounded else 1e-6) * (1 + float(want.abs().max()))
        case.close(mod.error(), want, tol, f"error of the {side} after {op}")
        case.event(f"{op} on the {side}")


def sc_cost(case):
    """Copies of single cost functions and weights."""
    spec = gen.make_spec(case, n_costs=1, robust_p=0.5, ad_modes=("vmap", "dense", "loop_batch"))
    b = gen.build(spec, add=False)
    cs = spec.costs[0]
    f = b.costs[cs.name]
    case.sig(spec.signature(), *[v.value for v in spec.vars.values()])
    case.describe(kind=cs.kind, robust=bool(cs.robust), B=spec.B)
    how = case.choice(["copy", "named", "keep", "deepcopy"])
    if how == "copy":
        g = f.copy()
    elif how == "named":
        g = f.copy(new_name="other")
        case.check(g.name == "other", "name of the copy")
    elif how == "keep":
        g = f.copy(new_name=f.name, keep_variable_names=True)
        case.check(g.name == f.name, "name of the copy")
        case.check(_wiring(f) == _wiring(g), "variable names of the copy")
    else:
        g = copy.deepcopy(f)
    case.check(type(f) is type(g), "class of the copy")
    case.check(g.dim() == f.dim() == cs.dim, "dim of the copy")
    fv = list(f.optim_vars) + list(f.aux_vars)
    gv = list(g.optim_vars) + list(g.aux_vars)
    case.check(len(fv) == len(gv), "number of variables of the copy")
    case.check(not ({id(v) for v in fv} & {id(v) for v in gv}), "the copy shares a variable")
    case.check(f.weight is not g.weight, "the copy shares its weight")
    for x, y in zip(fv + list(f.weight.aux_vars), gv + list(g.weight.aux_vars)):
        case.check(type(x) is type(y) and x is not y, "variable class of the copy")
        case.same(y.tensor, x.tensor, "variable value of the copy")
        case.check(x.tensor.data_ptr() != y.tensor.data_ptr(), "the copy shares memory")

    def vals(h):
        J, e = h.weighted_jacobians_error()
        return h.weighted_error(), J, e

    def same(p, q, what):
        case.close(p[0], q[0], 1e-12, f"error {what}", rtol=1e-10)
        case.close(p[2], q[2], 1e-12, f"linearized error {what}", rtol=1e-10)
        for a, c in zip(p[1], q[1]):
            case.close(a, c, 1e-11, f"jacobian {what}", rtol=1e-9)

    v0 = vals(f)
    same(vals(g), v0, "of the copy")
    # change the copy's variables: it must follow them, and the original must not
    new = {}
    for side, (h, other) in (("copy", (g, f)), ("original", (f, g))):
        ov = vals(other)
        hv = list(h.optim_vars) + list(h.aux_vars) + list(h.weight.aux_vars)
        names = [v.name for v in list(f.optim_vars) + list(f.aux_vars) + list(f.weight.aux_vars)]
        assigned = {}
        for n, v in zip(names, hv):
            if n not in assigned:
                assigned[n] = gen.draw_value(case, spec.vars[n], spec.vars[n].value.shape[0])
            v.update(assigned[n].clone())
        want = gen.ref_reported(spec, cs, assigned)
        got = h.weighted_error()
        s = 1 + float(want.abs().max())
        case.close(got, want.expand(got.shape[0], -1), 1e-6 * s, f"error of the {side} after its variables changed")
        same(vals(other), ov, f"of the other side after the {side} changed")
        case.event(f"{side} changed")


def sc_variable(case):
    G, cls = geo.pick_group(case)
    dtype = geo.pick_dtype(case)
    B = case.randint(1, 4)
    t = G.tensor(G.exp(geo.tangents(case, G, B))).to(dtype)
    x = geo.make(case, G, cls, t, dtype) if case.chance(0.8) else th.Variable(t, name="raw")
    case.sig(G.name, t)
    case.describe(group=G.name, B=B)
    old_name = x.name
    how = case.choice(["copy", "named", "deepcopy"])
    y = x.copy() if how == "copy" else x.copy(new_name="other") if how == "named" else copy.deepcopy(x)
    case.check(type(y) is type(x) and y is not x, "class of the copy")
    case.check(y.name == {"named": "other"}.get(how, f"{old_name}_copy"), "name of the copy")
    case.check(x.name == old_name, "name of the original")
    case.same(y.tensor, x.tensor, "value of the copy")
    case.check(y.tensor.data_ptr() != x.tensor.data_ptr(), "the copy shares memory")
    if case.chance(0.5):  # copied along with what holds it: one object stays one object
        w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=dtype)))
        held = {"a": [x, x], "w": (w, w), "b": x}
        if isinstance(x, th.Manifold):
            cf = th.Difference(x, x.copy(), w) if isinstance(x, th.LieGroup) else w
            held["c"] = [cf, cf]
            g = th.ManifoldGaussian([x])
            held["g"] = (g, g)
        dup = copy.deepcopy(held)
        p, q = dup["a"]
        case.check(p is q and p is dup["b"] and p is not x, "a variable held twice is copied twice")
        case.same(p.tensor, x.tensor, "value of a variable copied with its holder")
        for k in ("w", "c", "g"):
            if k in held:
                p, q = dup[k]
                case.check(p is q and p is not held[k][0] and type(p) is type(held[k][0]), f"held twice, copied twice ({k})")
        case.event("copied with its holder")
    keep = x.tensor.clone()
    z = G.tensor(G.exp(geo.tangents(case, G, B))).to(dtype)
    if case.chance(0.5):
        y.update(z)
    else:
        y[0] = z[0]
    case.same(x.tensor, keep, "the original changed with its copy")
    ky = y.tensor.clone()
    x[0] = z[-1]
    case.same(y.tensor, ky, "the copy changed with the original")


def sc_layer(case):
    """Deep copies of a whole layer or optimizer solve the same problems, each on its own variables."""
    spec = gen.make_spec(case, B=case.randint(1, 3), max_vars=3, n_costs=case.randint(1, 3), batch1_p=0.2, prior=True, zero_p=0.0)
    kind, cls, solver, kw = optim.pick_optimizer(case)
    vec, how = case.chance(0.6), case.choice(["layer", "optimizer", "pickle"])
    P = dict(max_iterations=case.randint(1, 4), abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    case.describe(opt=kind, solver=solver.__name__, vec=vec, how=how, costs=[c.kind for c in spec.costs])
    case.sig(spec.signature(), kind, solver.__name__, vec, how)

    def make():
        b = optim.build(spec)
        opt = cls(b.objective, linear_solver_cls=solver, **P)
        return th.TheseusLayer(opt, vectorize=vec)
    first, control = make(), make()

    def inputs():
        return {n: gen.draw_value(case, v, v.value.shape[0]) for n, v in spec.vars.items() if case.chance(0.8)}

    def run(layer, inp):
        with torch.no_grad(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out, _ = layer.forward({k: t.clone() for k, t in inp.items()}, optimizer_kwargs=dict(kw))
        return {k: t.clone() for k, t in out.items()}

    def attempt(layer, inp):
        try:
            return run(layer, inp)
        except RuntimeError as e:
            return str(e)[:40]
    if case.chance(0.5):
        inp = inputs()
        a, b = attempt(first, inp), attempt(control, inp)
        if isinstance(a, str) or isinstance(b, str):
            raise Skip()
    try:
        if how == "pickle":
            dup = pickle.loads(pickle.dumps(first))
        elif how == "optimizer":
            dup = th.TheseusLayer(copy.deepcopy(first.optimizer), vectorize=vec)
        else:
            dup = copy.deepcopy(first)
    except (TypeError, AttributeError, pickle.PicklingError) as e:
        no_factor = solver is th.CholmodSparseSolver and "pickling" in str(e)
        local_fn = how == "pickle" and "pickle" in str(e) and "<l" in str(e)
        case.check(no_factor or local_fn, f"{how} raised: {e}")
        case.event("refused")
        return
    case.check(dup.objective is not first.objective, "deepcopy shares the objective")
    case.check(dup.optimizer.objective is dup.objective, "the copied layer and its optimizer have different objectives")
    mine = {id(v) for o in (first.objective,) for v in [*o.optim_vars.values(), *o.aux_vars.values()]}
    for v in [*dup.objective.optim_vars.values(), *dup.objective.aux_vars.values()]:
        case.check(id(v) not in mine, f"deepcopy shares variable {v.name}")
    for _ in range(case.randint(1, 3)):
        inp = inputs()
        want = attempt(control, inp)
        before = _state(first.objective)
        got = attempt(dup, inp)
        _same_state(case, first.objective, before, "running a copied layer changed the original")
        case.check(isinstance(want, str) == isinstance(got, str), "only one of a layer and its copy raised", info=(str(want)[:80], str(got)[:80]))
        if isinstance(want, str):
            break
        for k in want:
            case.close(got[k], want[k], 1e-6 * (1 + float(want[k].abs().max())), f"copied layer: {k}")
        case.event(f"layer:{kind}:{how}")
        # and the original still works on its own
        if case.chance(0.5):
            b = attempt(first, {**{n: t for n, t in before.items()}, **inp})
            if not isinstance(b, str):
                c = attempt(control, {**{n: t for n, t in before.items()}, **inp})
                for k in b:
                    case.close(b[k], c[k], 1e-6 * (1 + float(b[k].abs().max())), f"original layer after its copy ran: {k}")
            # put the three in the same state again
            st = _state(control.objective)
            dup.objective.update({k: t.clone() for k, t in st.items()})
            first.objective.update({k: t.clone() for k, t in st.items()})


SCENARIOS = {
    "layer": Scenario(sc_layer, 60, 1200, 30),
    "objective": Scenario(sc_objective, 250, 4000),
    "cost": Scenario(sc_cost, 400, 6000),
    "variable": Scenario(sc_variable, 150, 1500),
}
