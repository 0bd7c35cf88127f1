"""C21: checks, contexts and options are scoped to where they were asked for."""
import contextlib
import io
import threading
import warnings

import torch

import theseus as th
import torchlie as lie
import torchlie.functional as lieF

from .. import gen, geo
from ..core import D32, D64, Scenario, Skip

ID = "C21"
RULE = ("a case is a random program of nested check and Euclidean contexts, library calls and exceptions, and what "
        "the library does with invalid tensors is compared after every step with a stack model, per thread")
ASSUMPTIONS = ["warnings are only observed in single-threaded programs (Python's recorder is process-wide)"]


INIT = threading.Lock()


class Boom(Exception):
    pass


class Model:
    """What the innermost contexts say."""

    def __init__(self):
        self.check, self.silent, self.internal = True, False, False
        self.lie, self.eucl = False, False

    def get(self):
        return (self.check, self.silent, self.internal, self.lie, self.eucl)

    def put(self, s):
        self.check, self.silent, self.internal, self.lie, self.eucl = s


BAD2 = torch.tensor([[0.9, 0.5]], dtype=D64)
BAD3 = torch.eye(3, dtype=D64).unsqueeze(0) * 1.1


def seen(fn, listen=True):
    """(result or exception, warnings by class)."""
    if not listen:
        try:
            return fn(), []
        except Exception as e:
            return e, []
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r = fn()
        except Exception as e:
            r = e
    return r, [w for w in ws]


def probe(case, m, where, listen=True):
    """The library's behaviour agrees with the model's state."""
    st = dict(state=m.get(), where=where)
    v = BAD2.clone()
    r, ws = seen(lambda: th.SO2(tensor=v), listen)
    case.check(isinstance(r, th.SO2), "construction failed", got=repr(r), **st)
    if m.check:
        case.close(r.tensor.norm(dim=1), torch.ones(1), 1e-9, "checks are enabled but did not normalize", **st)
        if listen:
            case.check(bool(ws) == (not m.internal), "normalization warning", got=[str(w.message) for w in ws], **st)
    else:
        case.same(r.tensor, BAD2, "checks are disabled but changed the tensor", **st)
        if listen:
            case.check(bool(ws) == (not m.silent), "warning about disabled checks",
                       got=[str(w.message) for w in ws], **st)
    case.same(v, BAD2, "the caller's tensor was changed")
    r, _ = seen(lambda: th.SO2(tensor=v, strict_checks=True), listen)
    case.check(isinstance(r, ValueError) if m.check else isinstance(r, th.SO2), "strict construction", got=repr(r), **st)
    r, ws = seen(lambda: th.SO2(tensor=v, disable_checks=True), listen)
    case.check(isinstance(r, th.SO2) and not ws and torch.equal(r.tensor, BAD2), "disable_checks", got=repr(r), **st)
    H = torch.tensor([[[0.0, -0.4], [0.7, 0.0]]], dtype=D64)
    r, ws = seen(lambda: th.SO2.vee(H), listen)
    case.check(isinstance(r, ValueError) if m.check else isinstance(r, torch.Tensor), "hat check", got=repr(r), **st)
    if listen and not m.check:
        case.check(bool(ws) == (not m.silent), "warning about unchecked hat matrix", **st)
    # torchlie
    r, _ = seen(lambda: lieF.SO3.inv(BAD3.clone()), listen)
    r2, _ = seen(lambda: lie.SO3(BAD3.clone()), listen) if not m.eucl else (r, 0)
    for x in (r, r2):
        case.check(isinstance(x, ValueError) == m.lie, "torchlie group check", got=repr(x)[:200], **st)
    q = torch.tensor([[1.0, 0.3, 0, 0]], dtype=D64)
    r, _ = seen(lambda: lieF.SO3.quaternion_to_rotation(q), listen)
    case.check(isinstance(r, ValueError) == m.lie, "torchlie quaternion check", got=repr(r)[:200], **st)
    if m.lie:  # then theseus' 3D checks are effective as well (without: see C18's finding)
        r, _ = seen(lambda: th.SO3(tensor=BAD3.clone()), listen)
        ok = isinstance(r, th.SO3) or isinstance(r, ValueError)
        case.check(ok, "SO3 construction", got=repr(r)[:200], **st)
        if isinstance(r, th.SO3):
            R = r.tensor
            dev = float((R @ R.transpose(1, 2) - torch.eye(3)).abs().max())
            case.check((dev < 1e-6) == m.check, "SO3 construction normalizes", dev=dev, **st)
    g = GOOD
    r, _ = seen(lambda: g + g, listen)
    if m.eucl:
        case.check(type(r) is torch.Tensor and torch.allclose(r, 2 * RAW), "as_euclidean arithmetic", got=repr(r), **st)
    else:
        case.check(isinstance(r, NotImplementedError), "Euclidean arithmetic outside as_euclidean", got=repr(r), **st)
    case.check(lie.euclidean_enabled() == m.eucl if hasattr(lie, "euclidean_enabled") else True, "euclidean_enabled")
    case.event("probe")
    case.event(f"state:{m.get()}")


RAW = torch.eye(3, dtype=D64).unsqueeze(0).repeat(2, 1, 1)
GOOD = lie.SO3(RAW.clone())

CTX = ["set", "enable", "no", "silence", "lie", "eucl"]


def context(case, m, kind):
    """(context manager, state inside)."""
    c, s, i, l, e = m.get()
    if kind == "silence":
        from theseus.geometry.lie_group_check import silence_internal_warnings
        return silence_internal_warnings(), (c, s, True, l, e)
    if kind == "lie":
        return lieF.enable_checks(), (c, s, i, True, e)
    if kind == "eucl":
        return lie.as_euclidean(), (c, s, i, l, True)
    s2, i2 = case.chance(0.5), case.chance(0.5)
    kw = {}
    if s2 or case.chance(0.5):
        kw["silent"] = s2
    if i2 or case.chance(0.5):
        kw["silence_internal_warnings"] = i2
    if kind == "set":
        mode = case.chance(0.5)
        return th.set_lie_group_check_enabled(mode, **kw), (mode, s2, i2, l, e)
    f = th.enable_lie_group_check if kind == "enable" else th.no_lie_group_check
    return f(**kw), (kind == "enable", s2, i2, l, e)


def unit():
    return th.ScaleCostWeight(torch.ones(1, 1, dtype=D64))


def ad_cost(fails, vectorize_vmap, B):
    def err(optim_vars, aux_vars):
        if fails[0]:
            raise Boom("injected")
        return optim_vars[0].log_map() - aux_vars[0].tensor
    x = th.SO2(theta=torch.full((B, 1), 0.3, dtype=D64), name="x")
    t = th.Vector(tensor=torch.zeros(B, 1, dtype=D64), name="t")
    return th.AutoDiffCostFunction([x], err, 1, aux_vars=[t],
                                   autograd_mode="vmap" if vectorize_vmap else "dense", cost_weight=unit())


def call(case, m):
    """Library code that enters contexts of its own, and may be interrupted."""
    if m.eucl:
        return "nothing"
    kind = case.choice(["ad", "adfail", "opt", "optfail", "se2", "cost"])
    quiet = warnings.catch_warnings()
    with quiet:
        warnings.simplefilter("ignore")
        if m.lie and kind in ("ad", "adfail"):
            return "nothing"
        if kind in ("ad", "adfail"):
            fails = [False]
            cf = ad_cost(fails, case.chance(0.7), case.randint(1, 3))
            fails[0] = kind == "adfail"
            try:
                cf.jacobians()
                case.check(kind == "ad", "the failure of err_fn was swallowed")
            except Boom:
                case.check(kind == "adfail", "err_fn failed?")
        elif kind in ("opt", "optfail"):
            fails = [False]
            o = th.Objective(dtype=D64)
            n = [0]

            def err(optim_vars, aux_vars):
                n[0] += 1
                if kind == "optfail" and n[0] > stop:
                    raise Boom("injected")
                return optim_vars[0].log_map() - 0.1
            stop = case.randint(2, 7)
            x = th.SO2(theta=torch.full((2, 1), 0.3, dtype=D64), name="x")
            o.add(th.AutoDiffCostFunction([x], err, 1, autograd_mode="dense", cost_weight=unit()))
            opt = th.LevenbergMarquardt(o, max_iterations=4, step_size=0.5)
            try:
                th.TheseusLayer(opt, vectorize=False).forward({"x": x.tensor.clone()})
            except Boom:
                pass
        elif kind == "se2":
            a = th.SE2.exp_map(torch.randn(2, 3, dtype=D64))
            a.compose(a.inverse()).log_map()
        else:
            a = th.SE3.exp_map(torch.randn(2, 6, dtype=D64))
            w = th.ScaleCostWeight(torch.ones(1, 1, dtype=D64))
            th.Between(a, a.copy(), th.SE3(dtype=D64), w).weighted_jacobians_error()
    return kind


def program(case, m, depth, listen, log, step=lambda: None):
    for _ in range(case.randint(1, 3)):
        step()
        k = case.rng.random()
        if k < 0.25:
            log.append(call(case, m))
            case.event(f"call:{log[-1]}")
            probe(case, m, "call:" + log[-1], listen)
        elif depth > 0:
            kind = case.choice(CTX)
            before = m.get()
            boom = case.chance(0.35)
            if kind == "eucl" and case.chance(0.3):
                lie.as_euclidean()  # an object that is never entered does nothing
                probe(case, m, "unused as_euclidean", listen)
            log.append((kind, boom))
            case.event(f"context:{kind}" + (":exception" if boom else ""))
            try:
                ctx, inside = context(case, m, kind)
                probe(case, m, "constructed, not entered", listen)
                times = 2 if kind in ("eucl", "lie") and case.chance(0.3) else 1
                for _ in range(times):
                    with ctx:
                        m.put(inside)
                        probe(case, m, "inside " + kind, listen)
                        program(case, m, depth - 1, listen, log, step)
                        probe(case, m, "end of " + kind, listen)
                        if boom:
                            raise Boom("injected")
                    m.put(before)
                    probe(case, m, "between uses", listen)
            except Boom:
                pass
            m.put(before)
            probe(case, m, "after " + kind + (" (exception)" if boom else ""), listen)


def sc_contexts(case):
    """One thread."""
    log = []
    m = Model()
    with contextlib.redirect_stdout(io.StringIO()):
        probe(case, m, "start")
        program(case, m, case.randint(1, 4), True, log)
        case.check(m.get() == Model().get(), "model")
        probe(case, m, "end")
    case.sig(log)
    case.trivial = len(log) < 2


def sc_threads(case):
    """Several threads with programs of their own; nobody sees the others' contexts."""
    n = case.randint(2, 4)
    errors, seeds = [], [case.rng.getrandbits(32) for _ in range(n)]
    import random
    import time
    from ..core import Case
    subs = []
    for s in seeds:
        c = Case(case.prop, case.scenario, s, "quick", case.known)
        subs.append(c)
    gate = threading.Barrier(n)

    def run(c):
        try:
            pause = random.Random(c.seed)
            m = Model()
            with INIT:  # PyTorch's own per-thread set-up is racy ("Invalid thread pool!")
                torch.get_num_threads()
            gate.wait(60)
            probe(c, m, "thread start", False)
            program(c, m, 3, False, [], lambda: time.sleep(pause.choice([0, 0, 1e-4, 1e-3])))
            probe(c, m, "thread end", False)
        except BaseException as e:
            errors.append(e)

    outer = case.choice([None, "no", "lie", "eucl", "silence"])
    m = Model()
    ctx, inside = context(case, m, outer) if outer else (contextlib.nullcontext(), m.get())
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with ctx:
            m.put(inside)
            ts = [threading.Thread(target=run, args=(c,)) for c in subs]
            for t in ts:
                t.start()
            for _ in range(3):
                probe(case, m, "main thread", False)
            for t in ts:
                t.join()
            probe(case, m, "main thread at the end", False)
    for c in subs:
        case.events.update(c.events)
        case.oracle_calls += c.oracle_calls
    case.sig(seeds)
    case.event("threads", n)
    if errors:
        raise errors[0]


def sc_options(case):
    """Performance options do not change results; options can be set and reset."""
    gname = case.choice(["SO3", "SE3"])
    dof = 3 if gname == "SO3" else 6
    F = getattr(lieF, gname)
    dtype = case.choice([D64, D64, D32])
    B = case.randint(1, 5)
    t = case.randn(B, dof, dtype=dtype, scale=case.choice([1e-4, 0.1, 0.7]))
    X0 = F.exp(t)
    fast, passthrough, approx = case.chance(0.6), case.chance(0.6), case.chance(0.5)
    up = case.randn(B, dof, dtype=dtype)
    case.sig(gname, t, fast, passthrough, approx)
    case.describe(group=gname, dtype=str(dtype), fast=fast, passthrough=passthrough, approx=approx)

    def run():
        X = X0.clone().requires_grad_(True)
        J = []
        v = F.log(X, jacobians=J)
        g, = torch.autograd.grad((v * up).sum(), X)
        Y = X0.clone().requires_grad_(True)
        w = F.log(Y)
        h, = torch.autograd.grad((w * up).sum(), Y)
        return v.detach(), J[0].detach(), F.left_project(X0, g), w.detach(), F.left_project(X0, h)

    a = run()
    defaults = options()
    try:
        lie.set_global_params({"_faster_log_maps": fast, "_allow_passthrough_ops": passthrough})
        b = run()
        th_local(case, gname, dtype, B, approx)
        # a tolerance is used from the moment it is set until the reset
        eps = {"so3_matrix_eps_float64": 0.5, "so3_quat_eps_float64": 0.5}
        with lieF.enable_checks():
            case.raises(ValueError, lambda: lieF.SO3.inv(BAD3), "group check at the default tolerance")
            lie.set_global_params(eps)
            lieF.SO3.inv(BAD3)
            lieF.SO3.quaternion_to_rotation(torch.tensor([[1.0, 0.3, 0, 0]], dtype=D64))
        case.raises(ValueError, lambda: lie.set_global_params({"so3_matrix_epsilon": 1.0}), "unknown torchlie option")
        case.raises(ValueError, lambda: th.set_global_params({"no_such_option": 1.0}), "unknown theseus option")
        case.raises(RuntimeError, lambda: th.set_global_params({"so3_near_zero_eps_float64": 1.0}),
                    "torchlie's options are not theseus'")
    finally:
        lie.reset_global_params()
        th.set_global_params({"fast_approx_local_jacobians": False})
    with lieF.enable_checks():
        case.raises(ValueError, lambda: lieF.SO3.inv(BAD3), "group check after the reset")
        case.raises(ValueError, lambda: lieF.SO3.quaternion_to_rotation(torch.tensor([[1.0, 0.3, 0, 0]], dtype=D64)),
                    "quaternion check after the reset")
    case.check(options() == defaults, "reset_global_params restores the defaults", got=options(), want=defaults)
    c = run()
    e = 1e-7 if dtype == D64 else 2e-3
    for x, y, z, what in zip(a, b, c, ["log", "Jacobian", "gradient with Jacobian", "log alone", "gradient"]):
        case.close(y, x, e * (1 + float(x.abs().max())), f"options change {what}")
        case.same(z, x, f"{what} after the reset")
    case.close(a[2], a[4], e * (1 + float(a[4].abs().max())), "gradient with and without Jacobians")
    case.event(f"options:{fast}:{passthrough}")


def options():
    from torchlie import global_params as gp
    p = getattr(gp, "_TORCHLIE_GLOBAL_PARAMS", None)
    return {k: v for k, v in vars(p).items()} if p is not None else None


def th_local(case, gname, dtype, B, approx):
    """fast_approx_local_jacobians: same error, identity Jacobian, any batch size."""
    cls = getattr(th, case.choice(["SO2", "SE2", "SO3", "SE3", "Vector"]))
    if cls is th.Vector:
        mk = lambda b: th.Vector(tensor=case.randn(b, 3, dtype=dtype))  # noqa: E731
    else:
        d = {"SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6}[cls.__name__]
        mk = lambda b: cls.exp_map(case.randn(b, d, dtype=dtype, scale=0.5))  # noqa: E731
    x, t = mk(B), mk(B)
    cf = th.Difference(x, t, th.ScaleCostWeight(torch.ones(1, 1, dtype=dtype)))
    for _ in range(3):
        th.set_global_params({"fast_approx_local_jacobians": False})
        J0, e0 = cf.jacobians()
        th.set_global_params({"fast_approx_local_jacobians": approx})
        J, e = cf.jacobians()
        case.same(e, e0, "error with approximate Jacobians")
        case.same(cf.error(), e0, "error()")
        want = torch.eye(cf.dim(), dtype=dtype).expand(x.shape[0], -1, -1) if approx else J0[0]
        case.same(J[0], want, "approximate Jacobian")
        b = case.randint(1, 4)
        x.update(mk(b).tensor)
        t.update(mk(b).tensor)
    case.event(f"local:{approx}")


SCENARIOS = {
    "contexts": Scenario(sc_contexts, 500, 6000),
    "threads": Scenario(sc_threads, 120, 1500),
    "options": Scenario(sc_options, 300, 4000),
}
