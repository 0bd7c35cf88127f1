"""C09: linearizations assemble exactly the per-cost Jacobians, in the variable order."""
import numpy as np
import torch

import theseus as th
from theseus.optimizer import DenseLinearization, SparseLinearization, VariableOrdering

from .. import gen
from ..core import D32, D64, Scenario, Skip

QUICK = 3  # so many times each scenario's quick cases
ID = "C09"
RULE = ("a case is a random objective (shared and repeated variables, robust and zero-weight costs, "
        "vectorized or not) with a random variable ordering, linearized repeatedly over a history of "
        "updates, batch-size changes, dtype conversions and lazy queries; dense and sparse results are "
        "compared with a block assembly of the costs' own Jacobians on an unvectorized twin")
ASSUMPTIONS = ["per-cost Jacobians and weights are decided by C06-C08"]


def add_repeated(case, spec):
    """Costs that use the same optimization variable in two slots."""
    opts = [v for v in spec.vars.values() if v.role == "opt" and v.kind in ("Vector", "Point2", "Point3")
            and v.draw == "group"]
    g = gen.Gen(case, B=spec.B)
    g.spec, g.n, g.robust_p = spec, 9000, 0.0
    if not opts or case.chance(0.3):
        d = case.choice([2, 3])
        n = g.new("Vector", d, "group", "opt")
        opts = [spec.vars[n]]
    v = case.choice(opts)
    poses = [v for v in spec.vars.values() if v.role == "opt" and v.kind in ("SE2", "SE3", "SO3")]
    if poses and case.chance(0.5):
        v = case.choice(poses)
        c = g.add("between", [v.name, v.name], [g.new(v.kind, v.dof, "group", "aux")], v.G.dof)
    else:
        c = g.add("product", [v.name, v.name], [g.new(v.kind, v.dof, "randn", "aux")], v.dof)
    spec.costs.remove(c)
    spec.costs.insert(case.randint(0, len(spec.costs)), c)
    return v.name


def ordering(case, obj):
    """(ordering or None, names in order) built through a random append/extend/remove history."""
    names = list(obj.optim_vars)
    if case.chance(0.3):
        return None, names
    perm = list(names)
    case.rng.shuffle(perm)
    o = VariableOrdering(obj, default_order=case.chance(0.4))
    start = [v.name for v in o]
    if start:
        case.check(start == names, "default ordering is not the objective's order")
    for n in list(start):
        if case.chance(0.6):
            o.remove(obj.optim_vars[n])
            start.remove(n)
            case.check(not o.complete, "an ordering with a missing variable says it is complete")
    rest = [n for n in perm if n not in start]
    if rest and case.chance(0.5):
        k = case.randint(0, len(rest))
        o.extend([obj.optim_vars[n] for n in rest[:k]])
        for n in rest[k:]:
            o.append(obj.optim_vars[n])
    else:
        for n in rest:
            o.append(obj.optim_vars[n])
    want = start + rest
    if want and case.chance(0.4):  # take one from the middle, and put it at the end
        n = case.choice(want)
        o.remove(obj.optim_vars[n])
        o.append(obj.optim_vars[n])
        want.remove(n)
        want.append(n)
    case.check([v.name for v in o] == want, "ordering order")
    case.check([o.index_of(n) for n in want] == list(range(len(want))), "ordering index_of")
    case.check(all(o[i] is obj.optim_vars[n] for i, n in enumerate(want)), "ordering items")
    case.check(o.complete, "a full ordering says it is incomplete")
    case.raises(ValueError, lambda: o.append(obj.optim_vars[want[0]]), "appending a variable twice")
    return o, want


def assemble(obj_plain, names):
    """Independent assembly from each cost's weighted Jacobians (float64 A, b)."""
    V = obj_plain.optim_vars
    start, n = {}, 0
    for k in names:
        start[k] = n
        n += V[k].dof()
    B, m = obj_plain.batch_size, sum(c.dim() for c in obj_plain.cost_functions.values())
    A, b = torch.zeros(B, m, n, dtype=D64), torch.zeros(B, m, dtype=D64)
    r = 0
    for c in obj_plain.cost_functions.values():
        J, e = c.weighted_jacobians_error()
        d = c.dim()
        for v, j in zip(c.optim_vars, J):
            s = start[v.name]
            A[:, r:r + d, s:s + v.dof()] += j.detach().double()
        b[:, r:r + d] -= e.detach().double()
        r += d
    return A, b


def csr_to_dense(lin, val):
    B = val.shape[0]
    A = torch.zeros(B, lin.num_rows, lin.num_cols, dtype=D64)
    for r in range(lin.num_rows):
        for i in range(int(lin.A_row_ptr[r]), int(lin.A_row_ptr[r + 1])):
            A[:, r, int(lin.A_col_ind[i])] += val[:, i].detach().double()
    return A


def query(case, lin, kind, A, b, dtype, tol):
    At = A.transpose(1, 2)
    sc = 1 + float(A.abs().max()) ** 2 * A.shape[1] if A.numel() else 1.0
    q = case.choice(["A", "Atb", "Atb", "Av", "Av", "diag", "diag", "AtA"])
    case.event("query:" + kind + ":" + q)
    if q == "A":
        got = lin.A if kind == "dense" else csr_to_dense(lin, lin.A_val)
        case.check((lin.A if kind == "dense" else lin.A_val).dtype == dtype, f"{kind}: dtype of A")
        case.close(got, A, tol * (1 + float(A.abs().max())), f"{kind}: A")
        case.close(lin.b, b, tol * (1 + float(b.abs().max())), f"{kind}: b")
        case.check(lin.num_cols == A.shape[2] and lin.num_rows == A.shape[1], f"{kind}: size")
        if kind == "sparse":
            st = lin.structure()
            for i in range(min(2, A.shape[0])):
                case.close(torch.as_tensor(st.csr_straight(lin.A_val[i].detach()).toarray()), A[i],
                           tol * (1 + float(A.abs().max())), "sparse: csr matrix")
                case.close(torch.as_tensor(st.csc_transpose(lin.A_val[i].detach()).toarray()), A[i].T,
                           tol * (1 + float(A.abs().max())), "sparse: csc transpose")
    elif q == "Atb":
        w = At @ b.unsqueeze(2)
        case.check(lin.Atb.dtype == dtype, f"{kind}: dtype of Atb")
        case.close(lin.Atb, w, tol * (sc + float(b.abs().max()) * sc), f"{kind}: Atb")
    elif q == "Av":
        v = case.randn(A.shape[0], A.shape[2]).to(dtype)
        got = lin.Av(v)
        case.check(got.dtype == dtype, f"{kind}: dtype of Av")
        case.close(got, (A @ v.double().unsqueeze(2)).squeeze(2), tol * sc * 4, f"{kind}: Av")
    elif q == "diag":
        v = case.randn(A.shape[0], A.shape[2]).to(dtype)
        got = lin.diagonal_scaling(v)
        case.check(got.dtype == dtype, f"{kind}: dtype of diagonal_scaling")
        case.close(got, (A * A).sum(1) * v.double(), tol * sc * 4, f"{kind}: diagonal_scaling")
    elif kind == "dense":
        case.close(lin.AtA, At @ A, tol * sc * 4, "dense: AtA")
        case.close(lin.hessian_approx(), At @ A, tol * sc * 4, "dense: hessian")
    else:
        case.raises(NotImplementedError, lambda: lin.AtA, "sparse: AtA")


def change(case, spec, objs, dtype):
    """Applies one random mutation to all objectives alike."""
    op = case.choice(["update", "update", "batch", "direct", "inplace"])
    case.event("change:" + op)
    names = [n for n in list(objs[0].optim_vars) + list(objs[0].aux_vars)]
    if op == "batch":
        spec.B = case.choice([1, 2, 3, 4])
        if all(v.value.shape[0] == 1 for v in spec.vars.values()):
            spec.B = 1
        new = {}
        for n in names:
            v = spec.vars[n]
            if v.value.shape[0] > 1 or v.role == "opt":
                new[n] = gen.draw_value(case, v, spec.B)
    else:
        new = {}
        for n in case.rng.sample(names, case.randint(1, len(names))):
            v = spec.vars[n]
            new[n] = gen.draw_value(case, v, v.value.shape[0])
    for n, t in new.items():
        spec.vars[n].value = t
    for o in objs:
        allv = {**o.optim_vars, **o.aux_vars}
        if op in ("update", "batch"):
            o.update({n: t.to(dtype).clone() for n, t in new.items()})
        elif op == "direct":
            for n, t in new.items():
                allv[n].update(t.to(dtype).clone())
            if o.vectorized:
                o.update_vectorization_if_needed()
        else:
            for n, t in new.items():
                for i in range(t.shape[0]):
                    allv[n][i] = t[i].to(dtype)
            o.update()


def sc_assemble(case):
    spec = gen.make_spec(case, all_costs_batched=case.chance(0.7), ad_modes=("vmap", "dense"))
    rep = add_repeated(case, spec) if case.chance(0.35) else None
    dtype = D32 if case.chance(0.25) else D64
    tol = 3e-4 if dtype == D32 else 1e-10
    a, p = gen.build(spec, dtype).objective, gen.build(spec, dtype).objective
    vec = case.chance(0.5)
    if vec:
        th.Vectorize(a)
    a.update()
    p.update()
    o1, n1 = ordering(case, a)
    o2, n2 = ordering(case, a)
    dense, sparse = DenseLinearization(a, o1), SparseLinearization(a, o2)
    case.describe(costs=[c.kind for c in spec.costs], vec=vec, rep=rep, B=spec.B, order=[n1, n2], dtype=str(dtype))
    case.sig(spec.signature(), n1, n2, vec, dtype)
    case.event("repeated", rep is not None)
    for rnd in range(case.randint(1, 4)):
        if rnd:
            if case.chance(0.12):
                dtype = D32 if dtype == D64 else D64
                tol = 3e-4
                a.to(dtype=dtype)
                p.to(dtype=dtype)
                case.event("change:dtype")
                if dtype == D64:
                    for n in spec.vars:
                        spec.vars[n].value = spec.vars[n].value.float().double()
            else:
                change(case, spec, [a, p], dtype)
        which = case.choice(["both", "both", "dense", "sparse"])
        if which != "sparse":
            dense.linearize()
        if which != "dense":
            sparse.linearize()
        p.update()
        for kind, lin, names in (("dense", dense, n1), ("sparse", sparse, n2)):
            if which not in ("both", kind):
                continue
            A, b = assemble(p, names)
            for _ in range(case.randint(3, 6)):
                query(case, lin, kind, A, b, dtype, tol)


def sc_contracts(case):
    """Incomplete and foreign orderings are refused; orderings don't disturb the objective."""
    spec = gen.make_spec(case, n_costs=case.randint(2, 5))
    obj = gen.build(spec).objective
    obj.update()
    names = list(obj.optim_vars)
    cls = case.choice([DenseLinearization, SparseLinearization])
    o = VariableOrdering(obj, default_order=False)
    keep = case.rng.sample(names, case.randint(0, len(names) - 1))
    for n in keep:
        o.append(obj.optim_vars[n])
    case.sig(spec.signature(), keep, cls.__name__)
    case.check(not o.complete, "incomplete ordering says it is complete")
    case.raises(ValueError, lambda: cls(obj, o), "linearization with an incomplete ordering")
    stranger = th.Vector(2, name="not_in_the_objective")
    case.raises(ValueError, lambda: o.append(stranger), "ordering a variable of no cost")
    if obj.aux_vars:
        n = case.choice(list(obj.aux_vars))
        case.raises(ValueError, lambda: o.append(obj.aux_vars[n]), "ordering an auxiliary variable")
    for n in names:
        if n not in keep:
            o.append(obj.optim_vars[n])
    lin = cls(obj, o)
    n = case.choice(names)
    o.remove(obj.optim_vars[n])
    case.raises(RuntimeError, lin.linearize, "linearizing after the ordering became incomplete")
    case.check(list(obj.optim_vars) == names, "ordering changed the objective")
    cols = {}
    c = 0
    lin2 = cls(obj)
    for v in lin2.ordering:
        cols[v.name] = c
        c += v.dof()
    case.check(lin2.num_cols == c and lin2.num_rows == obj.dim(), "size of the linear system")
    case.check(list(lin2.var_start_cols) == list(cols.values()) and
               list(lin2.var_dims) == [v.dof() for v in lin2.ordering], "column layout")


SCENARIOS = {
    "assemble": Scenario(sc_assemble, quick=260, thorough=6000, floor=150),
    "contracts": Scenario(sc_contracts, quick=60, thorough=600, floor=40),
}
