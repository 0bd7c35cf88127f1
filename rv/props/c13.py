"""C13: every accepted step is the step the method defines."""
import warnings

import torch

import theseus as th
from theseus.optimizer.nonlinear import NonlinearOptimizerStatus as S

from .. import gen, optim
from ..core import D32, D64, Scenario, Skip
from . import c09, c10

ID = "C13"
RULE = ("a case is one optimizer run; every transition between visited states is compared, per batch element, "
        "with a reference that rebuilds the normal equations at that state, computes the Gauss-Newton / damped / "
        "dogleg step, applies the accept rule and radius or damping updates, and retracts")
ASSUMPTIONS = ["cost Jacobians are decided by C03 and C06, retraction by C19"]
RHO_GAP = 2e-3


class Lin:
    """Normal equations and errors on an independent twin objective."""

    def __init__(self, spec, order):
        self.twin = optim.plain(spec)
        self.order = order
        self.spec = spec

    def at(self, state):
        self.twin.objective.update(dict(state))
        with torch.no_grad():
            A, b = c09.assemble(self.twin.objective, self.order)
            err = self.twin.objective.error_metric()
        return A, b, err

    def err(self, state):
        return optim.error_at(self.twin, state)

    def retract(self, state, delta):
        out, k = {}, 0
        for n in self.order:
            v = self.spec.vars[n]
            out[n] = v.G.retract(state[n], delta[:, k:k + v.G.dof])
            k += v.G.dof
        return out


def dist(spec, s1, s2, i):
    return max(float((s1[n][i] - s2[n][i]).abs().max()) for n in s1)


def moved(s1, s2, i):
    return any(not torch.equal(s1[n][i], s2[n][i]) for n in s1)


def prepare(case, dtype, kinds, **skw):
    spec = optim.smooth_spec(case, **skw)
    optim.scatter(spec, case.choice([0.05, 0.3, 0.8, 1.5]), case)
    for _ in range(50):
        kind, cls, solver, kw = optim.pick_optimizer(case)
        if kind in kinds:
            break
    else:
        raise Skip()
    b = gen.build(spec, dtype)
    maxit = case.randint(1, 12)
    step = case.choice([1.0, 1.0, 0.5, case.rng.uniform(0.2, 1.0)]) if kind in ("gn", "lm") else 1.0
    tol = case.choice([0.0, 0.0, 1e-6])
    opt = optim.make_optimizer(case, b.objective, cls, solver, max_iterations=maxit, abs_err_tolerance=0.0,
                               rel_err_tolerance=tol, step_size=step, vectorize=case.chance(0.4))
    return spec, b, kind, solver, kw, opt, maxit, step


def run(case, b, opt, kw, names, B):
    rec = []

    def cb(o, info, delta, it):
        rec.append(({n: v.tensor.detach().clone() for n, v in o.objective.optim_vars.items()}, delta.detach().clone()))
    b.objective.update()
    start = {n: b.objective.optim_vars[n].tensor.detach().clone() for n in names}
    start = {n: t.expand(B, *t.shape[1:]).clone() for n, t in start.items()}
    with torch.set_grad_enabled(case.chance(0.5)), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        info = opt.optimize(**kw, end_iter_callback=cb)
    return start, rec, info


def sc_fixed(case):
    """Gauss-Newton and fixed-damping LM: one transition per iteration."""
    dtype = D64
    spec, b, kind, solver, kw, opt, maxit, step = prepare(case, dtype, ("gn", "lm"))
    mode = case.choice(["unroll", "unroll", "implicit", "truncated"])
    kw = dict(kw, backward_mode=mode)
    if mode == "truncated":
        kw["backward_num_iterations"] = case.randint(1, maxit)
    if kind == "lm" and case.chance(0.1):
        kw.pop("damping")
    names = [v.name for v in opt.ordering]
    case.sig(spec.signature(), kind, solver.__name__, mode, maxit, step, sorted(kw))
    start, rec, info = run(case, b, opt, kw, names, spec.B)
    L = Lin(spec, names)
    states = [{n: t.double() for n, t in start.items()}] + [{n: r[0][n].double() for n in names} for r in rec]
    case.describe(opt=kind, solver=solver.__name__, mode=mode, iters=len(rec), costs=[c.kind for c in spec.costs])
    K = len(rec)
    base = 2e-16 if dtype == D64 else 1.2e-7
    for k in range(K):
        cur, nxt, delta = states[k], states[k + 1], rec[k][1].double()
        forced = mode == "implicit" and k == K - 1
        A, bb, err = L.at(cur)
        if not torch.isfinite(A).all() or float(A.abs().max()) > 1e5:
            break
        per, ell, eps = None, False, 0.0
        if kind == "lm" and not forced:
            per = torch.full((spec.B,), kw.get("damping", 1e-3), dtype=D64)
            ell = kw.get("ellipsoidal_damping", False)
            eps = kw.get("damping_eps", 1e-8) if ell else 0.0
        N, g = c10.normal(A, bb, per, ell, eps)
        cond = torch.linalg.cond(N)
        d = torch.linalg.solve(N, g)
        s = 1.0 if forced else step
        want = L.retract(cur, d * s)
        for i in range(spec.B):
            if not moved(cur, nxt, i) and not forced:
                case.check(k > 0 or float(d[i].norm()) < 1e-6 * (1 if dtype == D64 else 1e3),
                           "the first step was not taken", norm=float(d[i].norm()))
                continue
            if float(cond[i]) * base > 1e-6 * (1 if dtype == D64 else 100) or float(d[i].norm()) > 30:
                case.event("ill-conditioned")
                continue
            lim = (1e3 * base * float(cond[i]) + (1e-9 if dtype == D64 else 1e-5)) * (1 + float(d[i].norm()))
            # rounding of the right-hand side
            lim += 100 * base * float(torch.linalg.matrix_norm(torch.linalg.inv(N[i]), 2) * A[i].norm() * bb[i].norm())
            lim *= 1 + max(float(t[i].abs().max()) for t in cur.values())
            if lim > 1e-2:
                continue
            case.event(f"step:{kind}:{'forced' if forced else 'regular'}")
            case.check(float((delta[i] - d[i]).abs().max()) <= lim, "callback delta is not the step", k=k, lim=lim,
                       got=delta[i].tolist(), want=d[i].tolist())
            case.check(dist(spec, nxt, want, i) <= 10 * lim + 1e-6, "transition is not retract(x, step * delta)", k=k,
                       lim=lim, dev=dist(spec, nxt, want, i), norm=float(d[i].norm()))


def accept_lm(L, cur, i, lam, kw):
    """One attempt at damping lam for element i: (new state, rho)."""
    A, b, e = L.at(cur)
    ell = kw.get("ellipsoidal_damping", False)
    eps = kw.get("damping_eps", 1e-8) if ell else 0.0
    N, g = c10.normal(A, b, lam, ell, eps)
    d = torch.linalg.solve(N, g)
    new = L.retract(cur, d)
    e1 = L.err(new)
    D = lam.view(-1, 1) * ((A * A).sum(dim=1) if ell else torch.ones_like(d))
    den = (d * (D * d + g)).sum(dim=1) / 2
    return new, (e - e1) / den, d, torch.linalg.cond(N), e, e1


def dogleg_step(A, b, R):
    """Reference dogleg (Nocedal & Wright, ch. 4) for one element."""
    g = A.t() @ b
    gn = torch.linalg.solve(A.t() @ A, g)
    if float(gn.norm()) <= R:
        return gn, "gn"
    c = g * (g @ g) / ((A @ g) @ (A @ g))
    nc = float(c.norm())
    if nc >= R:
        return c * (R / nc), "cauchy"
    df = gn - c
    a, bb, cc = float(df @ df), 2 * float(c @ df), nc * nc - R * R
    tau = (-bb + (bb * bb - 4 * a * cc) ** 0.5) / (2 * a)
    return c + tau * df, "leg"


def sc_adaptive(case):
    """Adaptive LM: per-element accept rule and damping updates."""
    spec, b, kind, solver, kw, opt, maxit, step = prepare(case, D64, ("alm",))
    mode = case.choice(["unroll", "unroll", "truncated"])
    kw = dict(kw, backward_mode=mode)
    if mode == "truncated":
        kw["backward_num_iterations"] = case.randint(1, maxit)
    names = [v.name for v in opt.ordering]
    B = spec.B
    case.sig(spec.signature(), kind, solver.__name__, mode, maxit, sorted(kw.items(), key=str))
    start, rec, info = run(case, b, opt, kw, names, B)
    L = Lin(spec, names)
    states = [start] + [r[0] for r in rec]
    case.describe(opt=kind, solver=solver.__name__, mode=mode, iters=len(rec), costs=[c.kind for c in spec.costs])
    up, down = kw.get("up_damping_ratio", 11.0), kw.get("down_damping_ratio", 9.0)
    acc = kw.get("damping_accept", 0.1)
    for i in range(B):
        path = [states[0]] + [states[k] for k in range(1, len(states)) if moved(states[k - 1], states[k], i)]
        lam = kw["damping"]
        rejected_in_a_row = 0
        ok = True
        for cur, nxt in zip(path, path[1:] + [None]):
            attempts = 0
            rejected_in_a_row = 0
            while ok:
                new, rho, d, cond, e, e1 = accept_lm(L, cur, i, torch.full((B,), lam, dtype=D64), kw)
                r = float(rho[i])
                noise = 1e-13 * float(e[i] + e1[i]) / max(abs(float((e[i] - e1[i]) / (rho[i] or 1.0))), 1e-300)
                if not (abs(r - acc) > RHO_GAP + noise) or float(cond[i]) > 1e9 or r != r or float(e[i]) < 1e-18:
                    case.event("near-threshold")
                    ok = False
                    break
                if r <= acc:
                    lam = min(max(lam * up, 1e-7), 1e7)
                    rejected_in_a_row += 1
                    case.event("rejected")
                    attempts += 1
                    if nxt is None and attempts > 4:
                        break
                    if attempts > 25:
                        ok = False
                    continue
                break
            if not ok:
                break
            if nxt is None:
                st = info.status[i]
                if rejected_in_a_row < 3 and st == S.CONVERGED and mode == "unroll":
                    # converged although an acceptable step was available: only by the tolerance rule
                    if len(path) == 1:
                        case.fail("element stopped without a single step although a step is acceptable", rho=r,
                                  lam=lam)
                    eb, ea = float(L.err(path[-2])[i]), float(L.err(path[-1])[i])
                    rt = opt.params.rel_err_tolerance
                    case.check(abs(eb - ea) <= rt * abs(eb) * (1 + 1e-6) + 1e-14 * eb or ea == 0.0,
                               "element stopped although an acceptable step was available", before=eb, after=ea)
                break
            case.event("accepted")
            lam = min(max(lam / down, 1e-7), 1e7)
            lim = (1e-12 * float(cond[i]) + 1e-9) * (1 + float(d[i].norm()))
            lim *= 1 + max(float(t[i].abs().max()) for t in cur.values())
            if float(d[i].norm()) > 30 or lim > 1e-3:
                ok = False
                break
            case.check(dist(spec, nxt, new, i) <= 10 * lim + 1e-6, "accepted state is not the damped step's", lim=lim,
                       dev=dist(spec, nxt, new, i), lam=lam, rho=r)
            case.check(float(e1[i]) < float(e[i]), "accepted a step that increases the error")


def sc_dogleg(case):
    spec, b, kind, solver, kw, opt, maxit, step = prepare(case, D64, ("dog",))
    mode = case.choice(["unroll", "unroll", "truncated"])
    kw = dict(kw, backward_mode=mode)
    if mode == "truncated":
        kw["backward_num_iterations"] = case.randint(1, maxit)
    names = [v.name for v in opt.ordering]
    B = spec.B
    case.sig(spec.signature(), kind, solver.__name__, mode, maxit, sorted(kw.items(), key=str))
    start, rec, info = run(case, b, opt, kw, names, B)
    L = Lin(spec, names)
    states = [start] + [r[0] for r in rec]
    case.describe(opt=kind, solver=solver.__name__, mode=mode, iters=len(rec), costs=[c.kind for c in spec.costs])
    acc = kw.get("accept_threshold", 0.0)
    shr, exp = kw.get("shrink_threshold", 0.25), kw.get("expand_threshold", 0.75)
    rs, re = kw.get("shrink_ratio", 0.25), kw.get("expand_ratio", 2.0)
    for i in range(B):
        path = [states[0]] + [states[k] for k in range(1, len(states)) if moved(states[k - 1], states[k], i)]
        R = kw["trust_region_init"]
        ok = True
        for cur, nxt in zip(path, path[1:] + [None]):
            A, bb, e = L.at(cur)
            Ai, bi = A[i], bb[i]
            N = Ai.t() @ Ai
            g = Ai.t() @ bi
            if float(torch.linalg.cond(N)) > 1e8 or float(e[i]) < 1e-7 or float((Ai @ g).norm()) ** 2 < 1e-3:
                break
            attempts = 0
            while ok:
                if R < 0.01 or attempts > 25:
                    ok = False
                    break
                d, where = dogleg_step(Ai, bi, R)
                D = torch.zeros(B, d.numel(), dtype=D64)
                D[i] = d
                new = L.retract(cur, D)
                e1 = float(L.err(new)[i])
                pred = float(g @ d - 0.5 * (Ai @ d) @ (Ai @ d))
                r = (float(e[i]) - e1) / pred
                if min(abs(r - t) for t in (acc, shr, exp)) < 5e-3 + 2e-4 / max(pred, 1e-9) * 1e-3 or r != r:
                    case.event("near-threshold")
                    ok = False
                    break
                R0 = R
                if r < shr:
                    R *= rs
                if r > exp:
                    R *= re
                R = min(max(R, 1e-5), 1e5)
                if r < acc:
                    attempts += 1
                    case.event("rejected")
                    if nxt is None and attempts > 4:
                        break
                    continue
                break
            if not ok:
                break
            if nxt is None:
                if attempts < 3 and info.status[i] == S.CONVERGED and mode == "unroll":
                    if len(path) == 1:
                        case.fail("element stopped without a single step although a step is acceptable", rho=r)
                    eb, ea = float(L.err(path[-2])[i]), float(L.err(path[-1])[i])
                    rt = opt.params.rel_err_tolerance
                    case.check(abs(eb - ea) <= rt * abs(eb) * (1 + 1e-6) + 1e-14 * eb or ea == 0.0,
                               "element stopped although an acceptable step was available", before=eb, after=ea)
                break
            case.event("accepted:" + where)
            lim = 3e-5 * (1 + float(d.norm())) + 1e-9
            lim *= 1 + max(float(t[i].abs().max()) for t in cur.values())
            if float(d.norm()) > 30 or lim > 3e-3:
                ok = False
                break
            case.check(dist(spec, nxt, new, i) <= 10 * lim + 1e-6, "accepted state is not the dogleg step's", lim=lim,
                       dev=dist(spec, nxt, new, i), where=where, R=R0, rho=r)
            case.check(e1 < float(e[i]) + 1e-9, "accepted a step that increases the error")


SCENARIOS = {
    "fixed": Scenario(sc_fixed, quick=160, thorough=3500, floor=80),
    "adaptive": Scenario(sc_adaptive, quick=120, thorough=2500, floor=80),
    "dogleg": Scenario(sc_dogleg, quick=120, thorough=2500, floor=80),
}
