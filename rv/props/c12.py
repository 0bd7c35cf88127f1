"""C12: the record an optimizer returns is what happened."""
import contextlib
import io
import math
import re
import warnings

import torch

import theseus as th
from theseus.optimizer.nonlinear import NonlinearOptimizerStatus as S

from .. import gen, optim
from ..core import D32, D64, Scenario, Skip

QUICK = 3  # so many times each scenario's quick cases
ID = "C12"
RULE = ("a case is a run of a random optimizer, solver, backward mode and tolerance setting on a random "
        "problem; the histories, best solution, status, iteration counts and callbacks it reports are "
        "replayed against errors evaluated on an independent twin and the documented stopping rule")
ASSUMPTIONS = ["error evaluations are decided by C02"]


def _conv(e0, e1, at, rt, dtype):
    """(certainly, possibly) converged by the documented rule, per element."""
    u = (1e-13 if dtype == D64 else 1e-5) * (e0.abs() + e1.abs())  # rounding of the two errors
    d = (e0 - e1).abs()
    lo = (d + u < at) | ((d + u) / e0.abs() < rt)
    hi = ((d - u < at) & (at > 0)) | (((d - u) / e0.abs() < rt) & (rt > 0))
    return lo, hi


# kinds that accept batch-1 variables next to batch-B ones (others refuse loudly, see DESIGN.md)
BATCH1_SAFE = ("diff", "between", "vec", "product", "adgroup")


def sc_record(case):
    dtype = D32 if case.chance(0.15) else D64
    shared = case.chance(0.2)  # an optimization variable shared by the whole batch at the start
    spec = optim.smooth_spec(case, batch1_p=0.3, **(dict(kinds=BATCH1_SAFE) if shared else {}))
    optim.scatter(spec, case.choice([0.1, 0.4, 0.8]), case)
    if shared and spec.B > 1:
        n = case.choice(spec.optim_names())
        spec.vars[n].value = spec.vars[n].value[:1]
        if all(v.value.shape[0] == 1 for v in spec.vars.values()):
            raise Skip()
    kind, cls, solver, kw = optim.pick_optimizer(case)
    mode = case.choice(["unroll", "unroll", "implicit", "truncated", None])
    b = gen.build(spec, dtype)
    obj = b.objective
    maxit = case.randint(1, 14)
    at = case.choice([0.0, 1e-10, 1e-4])
    rt = case.choice([0.0, 1e-8, 1e-3, 1e-2])
    step = case.choice([1.0, 1.0, case.rng.uniform(0.3, 1.0)]) if kind in ("gn", "lm") else 1.0
    opt = optim.make_optimizer(case, obj, cls, solver, max_iterations=maxit, abs_err_tolerance=at,
                               rel_err_tolerance=rt, step_size=step, vectorize=case.chance(0.3))
    if case.chance(0.3):  # set later instead
        maxit, at = case.randint(1, 14), case.choice([0.0, 1e-6])
        opt.set_params(max_iterations=maxit, abs_err_tolerance=at)
    kw = dict(kw)
    if mode:
        kw["backward_mode"] = case.choice([mode, mode.upper(), th.BackwardMode[mode.upper()]])
    nb = maxit
    if mode == "truncated":
        nb = case.randint(1, maxit)
        kw["backward_num_iterations"] = nb
    if mode == "implicit":
        nb = 1
    tr = [case.chance(0.8) for _ in range(3)]
    kw.update(track_best_solution=tr[0], track_err_history=tr[1], track_state_history=tr[2])
    use_layer = case.chance(0.6)
    layer = th.TheseusLayer(opt, vectorize=case.chance(0.5)) if use_layer else None
    if not use_layer and mode and case.chance(0.0):
        pass
    verbose = case.chance(0.25)
    if verbose:
        kw["verbose"] = True
    grad = case.chance(0.6)
    case.describe(costs=[c.kind for c in spec.costs], opt=kind, solver=solver.__name__, mode=mode, B=spec.B,
                  maxit=maxit, at=at, rt=rt, step=step, dtype=str(dtype), tracked=tr)
    case.sig(spec.signature(), kind, solver.__name__, mode, maxit, at, rt, tr)
    names = list(obj.optim_vars)
    twin = optim.plain(spec, D64)
    for run in range(case.choice([1, 1, 2])):
        rec = []

        def cb(o, info, delta, it):
            case.check(o is opt, "callback: optimizer")
            rec.append((it, {n: v.tensor.detach().clone() for n, v in o.objective.optim_vars.items()},
                        info.last_err.detach().clone(), tuple(delta.shape),
                        [s for s in info.status]))
        if run:
            new = {}
            for n, v in spec.vars.items():
                if case.chance(0.5):
                    v.value = gen.draw_value(case, v, v.value.shape[0])
                if v.value.shape[0] == 1 and n in names:
                    v.value = v.value.expand(spec.B, *v.value.shape[1:]).clone()
                new[n] = v.value.to(dtype).clone()
            obj.update(new)
        else:
            obj.update()
        B = obj.batch_size
        start = {n: obj.optim_vars[n].tensor.detach().clone().expand(B, *obj.optim_vars[n].shape[1:]) for n in names}
        aux = {n: v.tensor for n, v in obj.aux_vars.items()}
        with torch.set_grad_enabled(grad), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            said = io.StringIO()
            with contextlib.redirect_stdout(said):
                if use_layer:
                    vals, info = layer.forward(None, optimizer_kwargs={**kw, "end_iter_callback": cb})
                else:
                    info = opt.optimize(**kw, end_iter_callback=cb)
                    vals = {n: v.tensor for n, v in obj.optim_vars.items()}
        for n, t in aux.items():
            case.check(obj.aux_vars[n].tensor is t, "optimization replaced an auxiliary variable's tensor")
        twin.objective.update({n: t.double() for n, t in aux.items()})
        final = {n: obj.optim_vars[n].tensor.detach() for n in names}
        case.check(list(vals) == names, "layer values: names and order")
        for n in names:
            case.same(vals[n].detach(), final[n], "layer values")
        # -- the states that were visited, from the callbacks
        its = [r[0] for r in rec]
        K = len(rec)
        n1 = its.index(0, 1) if 0 in its[1:] else K  # second loop restarts at 0
        if verbose:  # the run's log: one line per iteration, with the mean error
            lines = [re.match(r".*Iteration: (\d+)\. Error: (\S+)", x) for x in said.getvalue().splitlines() if "Iteration:" in x]
            case.check(all(lines) and [int(m[1]) for m in lines] == [0] + [k + 1 for k in its], "the verbose run's lines",
                       its=its, said=said.getvalue()[:300])
        two = mode in ("implicit", "truncated") and nb <= maxit
        cap1 = maxit - nb if two else maxit
        if two and cap1 == 0:
            n1 = 0
        case.check(its == list(range(n1)) + list(range(K - n1)), "callback iteration numbers", its=its)
        case.check(n1 <= cap1 and (K - n1) <= (nb if two else 0), "more iterations than allowed", its=its)
        case.event(f"run:{kind}:{mode}")
        case.event("iterations", K)
        states = [start] + [r[1] for r in rec]
        errs = [optim.error_at(twin, {n: t.double() for n, t in s.items()}) for s in states]
        tol = 1e-9 if dtype == D64 else 2e-4
        E = torch.stack(errs, 1)
        big = 1 + float(E.abs().max())
        if verbose:
            case.event("verbose run")
            for m, e in zip(lines[:1] if kind in ("alm", "dog") else lines, errs):  # (a rejected step's error isn't a state's)
                case.close(torch.tensor(float(m[2]), dtype=D64), e.mean(), 10 * tol * big, "the error a verbose run prints")
        case.check(bool(torch.isfinite(E).all()), "non-finite errors") if kind in ("alm", "dog") else None
        if not torch.isfinite(E).all() or big > 1e8:
            raise Skip()
        for n in names:
            case.same(states[-1][n], final[n], "final state is the last iteration's")
        for k, r in enumerate(rec):
            case.check(r[3] == (B, sum(obj.optim_vars[n].dof() for n in names)), "delta shape")
            case.close(r[2], errs[k + 1], tol * big, "callback last_err")
        # -- histories
        if tr[1]:
            H = info.err_history
            case.check(tuple(H.shape) == (B, maxit + 1) and H.dtype == dtype, "err_history shape/dtype")
            case.close(H[:, :K + 1], E, tol * big, "err_history")
            case.check(bool(torch.isinf(H[:, K + 1:]).all()), "err_history after the last iteration is not inf")
        else:
            case.check(info.err_history is None, "err_history was not asked for")
        if tr[2]:
            case.check(set(info.state_history) == set(names), "state_history names")
            for n in names:
                H = info.state_history[n]
                case.check(tuple(H.shape) == (B, *final[n].shape[1:], maxit + 1) and H.dtype == dtype,
                           "state_history shape/dtype")
                for k in range(K + 1):
                    case.same(H[..., k], states[k][n], "state_history")
                case.check(bool(torch.isinf(H[..., K + 1:]).all()), "state_history padding")
        else:
            case.check(info.state_history is None, "state_history was not asked for")
        # -- last and best
        case.close(info.last_err, E[:, -1], tol * big, "last_err")
        if tr[0]:
            be = E.min(dim=1).values
            case.close(info.best_err, be, tol * big, "best_err")
            case.check(set(info.best_solution) == set(names), "best_solution names")
            sol = {n: info.best_solution[n].double() for n in names}
            case.close(optim.error_at(twin, sol), be, tol * big, "error at best_solution")
            for i in range(B):
                bi = int(info.best_iter[i])
                ok = abs(float(E[i, min(bi + 1, K)] - be[i])) <= 2 * tol * big
                if bi == 0:
                    ok = ok or abs(float(E[i, 0] - be[i])) <= 2 * tol * big
                case.check(0 <= bi < max(K, 1) and ok, "best_iter is not an iteration with the best error",
                           best_iter=bi, errs=E[i].tolist())
                hit = [k for k in range(K + 1) if all(torch.equal(info.best_solution[n][i], states[k][n][i]) for n in names)]
                case.check(bool(hit), "best_solution is not a visited state")
        else:
            case.check(info.best_err is None and info.best_solution is None, "best solution was not asked for")
        # -- stopping rule, replayed
        case.check(len(info.status) == B and tuple(info.converged_iter.shape) == (B,), "status shape")
        exact = kind in ("gn", "lm")
        done = [None] * B  # 'possibly converged' bookkeeping
        loops = [(0, n1)] + ([(n1, K)] if two else [])
        conv_at = torch.zeros(B, dtype=torch.long)
        amb = torch.zeros(B, dtype=torch.bool)
        status = [None] * B
        for li, (a0, a1) in enumerate(loops):
            conv = torch.zeros(B, dtype=torch.bool)
            for k in range(a0 + 1, a1 + 1):
                lo, hi = _conv(E[:, k - 1], E[:, k], at, rt, dtype)
                m = float(E[:, k].abs().mean())
                allc = m < at * (1 - 1e-6)
                maybe_all = m < at * (1 + 1e-6) + 1e-300
                same = torch.ones(B, dtype=torch.bool)
                for n in names:
                    same &= (states[k][n] == states[k - 1][n]).flatten(1).all(1)
                for i in range(B):
                    if conv[i] and not amb[i]:
                        case.check(bool(same[i]), "a converged element was changed", k=k)
                    # rejected steps leave the state: they may or may not count as convergence
                    unsure = (bool(lo[i]) != bool(hi[i])) or (allc != maybe_all)
                    if not exact and bool(same[i]) and not conv[i]:
                        unsure = True
                    if unsure:
                        amb[i] = True
                    if (bool(lo[i]) or allc) and not conv[i] and not unsure:
                        conv[i] = True
                        if status[i] is None:
                            conv_at[i] = k
                            status[i] = "CONVERGED"
                        case.event("converged")
            if not bool(amb.any()):
                full = (a1 - a0) == (cap1 if li == 0 else nb)
                case.check(full or bool(conv.all()), "stopped before the maximum without convergence")
                if bool(conv.all()) and a1 - a0 > 0:
                    # ... and not later than that
                    lastc = max((int(conv_at[i]) for i in range(B)), default=0)
                    if li == 0:
                        case.check(a1 == lastc, "kept iterating after every element had converged")
        for i in range(B):
            st = info.status[i]
            case.check(st in (S.CONVERGED, S.MAX_ITERATIONS), "status")
            ci = int(info.converged_iter[i])
            if amb[i]:
                case.event("ambiguous")
                if st == S.MAX_ITERATIONS:
                    case.check(ci == -1, "converged_iter of an element that did not converge")
                continue
            want = S.CONVERGED if status[i] else S.MAX_ITERATIONS
            case.check(st == want, "status does not follow from the error history", got=st.name, errs=E[i].tolist())
            if want == S.CONVERGED:
                case.check(ci == int(conv_at[i]), "converged_iter", got=ci, want=int(conv_at[i]), errs=E[i].tolist())
            else:
                case.check(ci == -1, "converged_iter of an element that did not converge", got=ci)
            case.event("status:" + st.name)
        if kind in ("alm", "dog"):
            inc = E[:, 1:] - E[:, :-1]
            if mode == "implicit":
                inc = inc[:, :max(K - 1, 0)]
            if inc.numel():
                case.check(float(inc.max()) <= tol * big, "an accepted step increased the error", inc=float(inc.max()))


def sc_contracts(case):
    """Invalid parameters are refused."""
    spec = optim.smooth_spec(case, n_costs=2)
    obj = gen.build(spec).objective
    kind, cls, solver, kw = optim.pick_optimizer(case)
    opt = optim.make_optimizer(case, obj, cls, solver)
    what = case.choice(["param", "mode", "trunc", "metric", "cholmod", "trust", "modified", "order"])
    case.sig(what, kind, solver.__name__, spec.signature())
    obj.update()
    if what == "param":
        case.raises(ValueError, lambda: opt.set_params(not_a_parameter=1), "unknown parameter")
    elif what == "mode":
        case.raises(ValueError, lambda: opt.optimize(backward_mode="sideways", **kw), "unknown backward mode")
        case.raises(ValueError, lambda: opt.optimize(backward_mode=3, **kw), "backward mode of a wrong type")
    elif what == "trunc":
        case.raises(ValueError, lambda: opt.optimize(backward_mode="truncated", **kw), "truncated without its number")
    elif what == "metric":
        o2 = gen.build(spec, error_metric_fn=lambda e: e.abs().sum(dim=1)).objective
        case.raises(ValueError, lambda: cls(o2), "least squares with another metric")
    elif what == "cholmod":
        o2 = th.LevenbergMarquardt(obj, linear_solver_cls=th.CholmodSparseSolver)
        case.raises(RuntimeError, lambda: o2.optimize(adaptive_damping=True), "adaptive damping with CHOLMOD")
        case.raises(RuntimeError, lambda: o2.optimize(ellipsoidal_damping=True), "ellipsoidal damping with CHOLMOD")
    elif what == "trust":
        o2 = th.Dogleg(obj)
        bad = case.choice([dict(shrink_ratio=0.0), dict(shrink_ratio=1.5), dict(expand_ratio=0.5),
                           dict(shrink_threshold=0.8, expand_threshold=0.7), dict(accept_threshold=0.3)])
        case.raises(ValueError, lambda: o2.optimize(**bad), "inconsistent trust region parameters")
    elif what == "modified":
        layer = th.TheseusLayer(opt)
        x = th.Vector(1, name="extra_var", dtype=D64)
        t = th.Vector(1, name="extra_tgt", dtype=D64)
        obj.add(th.Difference(x, t, th.ScaleCostWeight(torch.ones(1, 1, dtype=D64)), name="extra_cost"))
        case.raises(RuntimeError, layer.forward, "forward() of a layer whose objective was modified")
    else:
        v = case.choice(list(obj.optim_vars.values()))
        opt.ordering.remove(v)
        case.raises((ValueError, RuntimeError), lambda: opt.optimize(**kw), "optimizing with an incomplete ordering")


SCENARIOS = {
    "record": Scenario(sc_record, quick=220, thorough=5000, floor=140),
    "contracts": Scenario(sc_contracts, quick=60, thorough=500, floor=40),
}
