"""C03: an objective's bookkeeping is exact after any add/erase history."""
import warnings
from collections import OrderedDict

import torch

import theseus as th

from .. import gen
from ..core import D32, D64, Scenario, Skip

QUICK = 3  # so many times each scenario's quick cases
ID = "C03"
RULE = ("a case is a random pool of cost functions (sharing variables and weights) and a random "
        "history of add, repeated add, erase, erase of unknown names and invalid adds; after every "
        "operation all public queries of the objective are compared with a small model")
ASSUMPTIONS = []


class Book:
    def __init__(self, spec):
        self.spec = spec
        self.costs = []             # names in addition order
        self.optim = OrderedDict()  # var name -> list of functions
        self.aux = OrderedDict()
        self.weights = {}           # weight name -> list of costs

    def _in(self, table, names, fn):
        for n in names:
            table.setdefault(n, []).append(fn)

    def _out(self, table, names, fn):
        for n in names:
            table[n].remove(fn)
            if not table[n]:
                del table[n]

    def cost(self, name):
        return next(c for c in self.spec.costs if c.name == name)

    def add(self, c):
        self.costs.append(c.name)
        self._in(self.optim, c.opt, c.name)
        self._in(self.aux, c.all_aux(), c.name)
        if c.weight not in self.weights:
            self.weights[c.weight] = []
            self._in(self.aux, self.spec.weights[c.weight].aux, c.weight)
        self.weights[c.weight].append(c.name)

    def erase(self, c):
        self._out(self.optim, c.opt, c.name)
        self._out(self.aux, c.all_aux(), c.name)
        self.weights[c.weight].remove(c.name)
        if not self.weights[c.weight]:
            del self.weights[c.weight]
            self._out(self.aux, self.spec.weights[c.weight].aux, c.weight)
        self.costs.remove(c.name)


def _compare(case, obj, book, b, what):
    case.check(list(obj.cost_functions) == book.costs, f"cost functions after {what}",
               got=list(obj.cost_functions), want=book.costs)
    case.check([f.name for f in obj] == book.costs, f"iteration order after {what}")
    case.check(set(obj.optim_vars) == set(book.optim), f"optimization variables after {what}",
               got=sorted(obj.optim_vars), want=sorted(book.optim))
    case.check(set(obj.aux_vars) == set(book.aux), f"auxiliary variables after {what}",
               got=sorted(obj.aux_vars), want=sorted(book.aux))
    case.check(list(obj.optim_vars) == list(book.optim), f"order of optimization variables after {what}")
    case.check(list(obj.aux_vars) == list(book.aux), f"order of auxiliary variables after {what}")
    case.check(obj.size() == (len(book.costs), len(book.optim)), f"size() after {what}")
    case.check(obj.size_cost_functions() == len(book.costs)
               and obj.size_variables() == len(book.optim)
               and obj.size_aux_vars() == len(book.aux), f"sizes after {what}")
    case.check(obj.dim() == sum(book.cost(n).dim for n in book.costs), f"dim() after {what}")
    for n in b.costs:
        case.check(obj.has_cost_function(n) == (n in book.costs), f"has_cost_function after {what}")
        got = obj.get_cost_function(n)
        case.check(got is (b.costs[n] if n in book.costs else None), f"get_cost_function after {what}")
    for n, v in b.vars.items():
        case.check(obj.has_optim_var(n) == (n in book.optim), f"has_optim_var after {what}")
        case.check(obj.has_aux_var(n) == (n in book.aux), f"has_aux_var after {what}")
        case.check(obj.get_optim_var(n) is (v if n in book.optim else None), f"get_optim_var after {what}")
        case.check(obj.get_aux_var(n) is (v if n in book.aux else None), f"get_aux_var after {what}")
        for table, get in ((book.optim, obj.get_functions_connected_to_optim_var),
                           (book.aux, obj.get_functions_connected_to_aux_var)):
            arg = v if case.chance(0.5) else n
            if n in table:
                case.check(sorted(f.name for f in get(arg)) == sorted(table[n]),
                           f"connected functions after {what}",
                           got=[f.name for f in get(arg)], want=table[n])
            else:
                case.raises(ValueError, lambda: get(arg), f"connected functions of an absent variable after {what}")


def sc_history(case):
    spec = gen.make_spec(case, n_costs=case.randint(2, 9), share_weight_p=0.6, share_aux_p=0.6,
                         max_vars=3)
    case.sig(spec.signature(), case.seed)
    b = gen.build(spec, add=False)
    obj = b.objective
    book = Book(spec)
    case.describe(n=len(spec.costs), B=spec.B)
    vec = case.chance(0.3)
    n_ops = 0
    for _ in range(case.randint(3, 14)):
        out = [c for c in spec.costs if c.name not in book.costs]
        op = case.choice(["add", "add", "add", "erase", "erase", "again", "unknown", "solve"])
        ver = obj.current_version
        if op == "add":
            if not out:
                continue
            c = case.choice(out)
            obj.add(b.costs[c.name])
            book.add(c)
            case.check(obj.current_version != ver, "add() does not change the version")
        elif op == "erase":
            if not book.costs:
                continue
            c = book.cost(case.choice(book.costs))
            obj.erase(c.name)
            book.erase(c)
            case.check(obj.current_version != ver, "erase() does not change the version")
        elif op == "again":
            if not book.costs:
                continue
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                obj.add(b.costs[case.choice(book.costs)])
            case.check(len(w) > 0, "no warning when a cost function is added twice")
        elif op == "unknown":
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                obj.erase(case.choice([c.name for c in out] or ["nobody"]))
            case.check(len(w) > 0, "no warning when an unknown cost function is erased")
        else:
            if not book.costs:
                continue
            obj.update()
            if vec and not obj.vectorized:
                th.Vectorize(obj)
            want = gen.ref_error_vector(spec, {n: spec.vars[n].value for n in
                                               list(book.optim) + list(book.aux)},
                                        order=[book.cost(n) for n in book.costs])
            case.close(obj.error(), want, 1e-6 * (1 + float(want.abs().max())), "error")
        _compare(case, obj, book, b, op)
        case.event(f"op {op}")
        n_ops += 1
    if case.chance(0.5):  # take everything out again
        names = list(book.costs)
        case.rng.shuffle(names)
        for n in names:
            obj.erase(n)
            book.erase(book.cost(n))
        _compare(case, obj, book, b, "erasing everything")
        case.check(not obj.cost_functions_for_weights, "weights left behind")
    if n_ops == 0:
        case.trivial = True


def sc_invalid(case):
    """Adds which must be refused."""
    spec = gen.make_spec(case, kinds=("diff", "between", "product", "vec"), n_costs=3, robust_p=0.0)
    b = gen.build(spec)
    obj = b.objective
    kind = case.choice(["cost_name", "var_name", "dtype", "both_roles", "both_roles2", "weight_name",
                        "weight_optim"])
    case.sig(spec.signature(), kind, case.seed)
    case.describe(kind=kind)
    w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=D64), name="one"))
    x = case.choice(list(obj.optim_vars.values()))
    a = case.choice([v for v in obj.aux_vars.values()])
    new = lambda nm, dt=D64, d=2: th.Vector(tensor=case.randn(1, d, dtype=dt), name=nm)  # noqa: E731
    exc = ValueError
    if kind == "cost_name":
        f = th.Difference(new("fresh"), new("fresh_t"), w, name=case.choice(list(obj.cost_functions)))
    elif kind == "var_name":
        same = case.choice([x.name, a.name])
        f = th.Difference(new(same), new("fresh_t"), w, name="fresh_c")
    elif kind == "dtype":
        f = th.Difference(new("fresh", D32), new("fresh_t", D32), w, name="fresh_c")
    elif kind == "weight_name":
        w2 = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=D64), name=case.choice([x.name, a.name])))
        f = th.Difference(new("fresh"), new("fresh_t"), w2, name="fresh_c")
    elif kind == "both_roles":  # an optimization variable as somebody's target
        v = new("fresh", d=3)
        obj.add(th.Difference(v, new("fresh_t", d=3), w, name="fresh_c"))
        f = th.Difference(new("fresh2", d=3), v, w, name="fresh_c2")
    elif kind == "both_roles2":
        t = new("fresh_t", d=3)
        obj.add(th.Difference(new("fresh", d=3), t, w, name="fresh_c"))
        f = th.Difference(t, new("fresh_t2", d=3), w, name="fresh_c2")
    else:
        class OW(th.CostWeight):
            def __init__(self, v, name=None):
                super().__init__(name=name)
                self.v = v
                self.register_optim_vars(["v"])

            def is_zero(self):
                return self.v.tensor[:, 0] == 0

            def weight_error(self, error):
                return error * self.v.tensor[:, :1]

            def weight_jacobians_and_error(self, jacobians, error):
                return jacobians, error

            def _copy_impl(self, new_name=None):
                return OW(self.v.copy(), name=new_name)

        f = th.Difference(new("fresh"), new("fresh_t"), OW(new("wv")), name="fresh_c")
        exc = RuntimeError
    case.raises(exc, lambda: obj.add(f), f"add() of an invalid cost function [{kind}]")
    case.event(f"refused {kind}")


def sc_guard(case):
    """Optimizers and layers refuse to run on an objective which changed since they were made."""
    spec = gen.make_spec(case, kinds=("diff", "between", "product", "vec"), n_costs=case.randint(2, 5),
                         prior=True, robust_p=0.1)
    b = gen.build(spec)
    obj = b.objective
    extra = [c for c in spec.costs if c.name in obj.cost_functions]
    opt_cls = case.choice([th.GaussNewton, th.LevenbergMarquardt, th.Dogleg])
    case.sig(spec.signature(), opt_cls.__name__, case.seed)
    layer_first = case.chance(0.5)
    vec = case.chance(0.5)
    optimizer = opt_cls(obj, max_iterations=1)
    layer = th.TheseusLayer(optimizer, vectorize=vec)
    vals = {n: spec.vars[n].value.clone() for n in spec.optim_names()}
    if layer_first:
        layer.forward(dict(vals), optimizer_kwargs={"damping": 0.1} if opt_cls is th.LevenbergMarquardt else None)
    n_before = len(obj.cost_functions)
    how = case.choice(["erase", "add", "both"])
    c = case.choice(extra)
    v = th.Vector(tensor=torch.zeros(1, 1, dtype=D64), name="fresh_v")
    t = th.Vector(tensor=torch.ones(1, 1, dtype=D64), name="fresh_t")
    f = th.Difference(v, t, th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=D64), name="fresh_w")),
                      name="fresh_c")
    if how == "erase":
        if n_before < 2:
            raise Skip()
        obj.erase(c.name)
    elif how == "add":
        obj.add(f)
    else:  # the same cost functions as before, after all
        obj.add(f)
        obj.erase(f.name)
    case.describe(how=how, opt=opt_cls.__name__, vectorized=vec)
    case.raises(RuntimeError, lambda: layer.forward(dict(vals)), "layer after the objective changed")
    case.raises(RuntimeError, lambda: optimizer.optimize(), "optimizer after the objective changed")
    # a new optimizer on the changed objective works
    if how == "add":
        vals["fresh_v"] = torch.zeros(spec.B, 1, dtype=D64)
    live = {n: x for n, x in vals.items() if n in obj.optim_vars}
    new = th.TheseusLayer(opt_cls(obj, max_iterations=2), vectorize=vec)
    try:
        sol, _ = new.forward(live)
    except RuntimeError as e:
        # erasing a prior may leave a singular problem
        case.check(how == "erase", f"a new layer fails: {e}")
        raise Skip()
    case.check(set(sol) == set(obj.optim_vars), "variables of the new layer's solution")
    case.event(f"guard {how}")


SCENARIOS = {
    "history": Scenario(sc_history, 500, 8000),
    "invalid": Scenario(sc_invalid, 200, 2000),
    "guard": Scenario(sc_guard, 120, 1500),
}
