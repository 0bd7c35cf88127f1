"""Shared generation of geometry inputs and regime-dependent tolerances."""
import math

import torch

import theseus as th

from . import ref
from .core import D32, D64

CLS = {"SO2": th.SO2, "SE2": th.SE2, "SO3": th.SO3, "SE3": th.SE3,
       "Point2": th.Point2, "Point3": th.Point3, "Vector": th.Vector}


def pick_group(case, names=("SO2", "SE2", "SO3", "SE3", "Vector", "Point2", "Point3"),
               weights=(3, 4, 4, 4, 1, 1, 1)):
    w = [weights[("SO2", "SE2", "SO3", "SE3", "Vector", "Point2", "Point3").index(n)]
         for n in names]
    n = case.rng.choices(list(names), w)[0]
    return ref.group(n, case.randint(1, 6)), CLS[n]


def pick_dtype(case, p32=0.35):
    return D32 if case.chance(p32) else D64


def angle_of(case, lo_only=False):
    """One rotation angle from the regimes where the code switches formulas."""
    r = case.rng.random()
    if r < 0.08:
        return 0.0
    if r < 0.35:
        return case.logu(1e-9, 0.3)
    if r < 0.45:
        return case.logu(1e-16, 1e-6)
    if r < 0.75 or lo_only:
        return case.rng.uniform(0.0, 3.1)
    if r < 0.95:
        return math.pi - case.logu(1e-9, 0.2)
    return math.pi


def tangents(case, G, B, big=False, lin=None):
    """(B, dof) float64 tangent vectors; elements fall in different angle regimes."""
    scale = lin if lin is not None else case.choice([0.1, 1.0, 1.0, 10.0])
    u = case.randn(B, G.dof) * scale
    w = G.ang_slice()
    if w is not None:
        for b in range(B):
            a = u[b, w]
            if case.chance(0.2):  # axis-aligned rotation
                k = case.randint(0, a.numel() - 1)
                a = torch.zeros_like(a)
                a[k] = case.choice([-1.0, 1.0])
            n = float(a.norm()) or 1.0
            t = angle_of(case)
            if big and case.chance(0.25):
                t = case.rng.uniform(math.pi, 6.1)
            u[b, w] = a / n * t
            if case.chance(0.05):
                sl = [i for i in range(G.dof) if not (w.start <= i < w.stop)]
                u[b, sl] = 0.0
    return u


def make(case, G, cls, t, dtype, name=None):
    """theseus variable holding the float64 group tensor `t` (already orthonormal)."""
    t = t.to(dtype)
    if G.name == "Vector":
        return th.Vector(tensor=t, name=name)
    if G.name in ("Point2", "Point3"):
        return cls(tensor=t, name=name)
    return cls(tensor=t, name=name, disable_checks=True)


def ang(G, u):
    w = G.ang_slice()
    return u[..., w].norm(dim=-1) if w is not None else torch.zeros(u.shape[:-1], dtype=D64)


def lin_norm(G, u):
    w = G.ang_slice()
    if w is None:
        return u.norm(dim=-1)
    k = [i for i in range(G.dof) if not (w.start <= i < w.stop)]
    return u[..., k].norm(dim=-1) if k else torch.zeros(u.shape[:-1], dtype=D64)


def tol_value(G, theta, lin, dtype, op=None):
    """Per-element tolerance for exp/log values (a 1-D tensor).  The library documents
    small-angle/near-pi approximation thresholds; inside them the achievable accuracy is
    what the approximation order gives, elsewhere it is rounding."""
    near_pi = (math.pi - theta).abs()
    if op in ("exp", "log"):
        if dtype == D64:
            base = torch.where(near_pi < 1e-2, 1e-9, torch.full_like(theta, 1e-11))
            if G.name == "SE3":
                base = base + (torch.where(theta < 5.1e-3, 0.25 * theta ** 2, 0.0) if op == "exp" else torch.where(theta < 0.3, 5e-9, 0.0))
            elif G.name == "SO3" and op == "exp":
                base = base + torch.where(theta < 5.1e-3, 0.25 * theta ** 3, 0.0)
            elif G.name == "SE2":
                base = base + torch.where(theta < 1.1e-6, 2e-9, 2e-15 / theta.clamp(min=1e-6))
        else:
            base = torch.where(near_pi < 0.2, 5e-5, torch.full_like(theta, 5e-6))
            if G.name == "SE2":
                base = base + 5e-7 / theta.clamp(min=3e-2)
            if G.name == "SE3":
                base = base + (torch.where(theta < 1.1e-2, 0.25 * theta ** 2, 4e-10 / theta.clamp(min=1e-2) ** 2) if op == "exp" else
                               torch.where(theta < 9.9e-3, 0.0, 2e-6 / theta.clamp(min=9e-3) ** 2))
        return base * (1.0 + lin)
    if dtype == D64:
        base = torch.full_like(theta, 1e-9)
        if G.name in ("SO3", "SE3"):
            base = torch.where(theta < 6e-3, 3e-5 if G.name == "SE3" else 1e-7, base)
            base = torch.where(near_pi < 1e-2, 1e-8, base)
        if G.name == "SE2":
            base = torch.where(theta < 2e-6, 1e-8, base)
            base = torch.where(near_pi < 1e-5, 1e-8, base)
    else:
        base = torch.full_like(theta, 1e-5)
        if G.name in ("SO3", "SE3"):
            base = torch.full_like(theta, 1e-4)
            if G.name == "SE3":  # cancellation in (1 - cos) / theta^2
                base = base + 2e-6 / theta.clamp(min=1e-2) ** 2
                base = torch.where(theta < 1.5e-2, 2e-2, base)
            base = torch.where(near_pi < 0.2, 5e-4, base)
        if G.name == "SE2":
            base = torch.where(theta < 4e-2, 1e-3, base)
            base = torch.where(near_pi < 1e-2, 1e-4, base)
    return base * (1.0 + lin)


def tol_jac(G, theta, lin, dtype, op=None):
    """About ten times what the formulas' orders and cancellations leave, by regime of the angle."""
    if op in ("exp", "log", "local") and G.name in ("SE2", "SO3", "SE3"):
        inv = op != "exp"
        if G.name == "SE2":
            if dtype == D64:
                near = (theta < 0.99e-3, 2e-9) if inv else (theta < 1.01e-3, 5e-5)
                base = torch.where(near[0], near[1], 2e-9 + 6e-14 / theta.clamp(min=9e-4) ** 3)
            else:
                near = (theta < 0.099, 1e-5) if inv else (theta < 0.101, 1e-4)
                base = torch.where(near[0], near[1], 1e-5 + 5e-7 / theta.clamp(min=0.09) ** 3)
        elif dtype == D64:
            near = torch.where(theta < 0.05, 5e-7, 1e-9) if inv else torch.where(theta < 5.1e-3, 5e-5, 1e-10)
            base = torch.where(theta < 0.3, near, torch.full_like(theta, 1e-10))
        else:
            base = torch.where(theta < 0.25, 1.5e-3, torch.full_like(theta, 1e-4))
        return base * (1.0 + lin)
    near_pi = (math.pi - theta).abs()
    if dtype == D64:
        base = torch.full_like(theta, 1e-8)
        if G.name in ("SO3", "SE3"):
            base = torch.where(theta < 1.2e-2, 5e-5, base)
            base = torch.where(near_pi < 1e-2, 1e-5, base)
        if G.name == "SE2":
            base = torch.where(theta < 1.2e-3, 1e-4, base + 6e-14 / theta.clamp(min=1e-3) ** 3)
            base = torch.where(near_pi < 1e-5, 1e-7, base)
    else:
        base = torch.full_like(theta, 5e-5)
        if G.name in ("SO3", "SE3"):
            base = torch.full_like(theta, 5e-4)
            base = torch.where(theta < 0.25, 3e-3, base)
            base = torch.where(near_pi < 0.2, 1e-2, base)
        if G.name == "SE2":
            base = torch.where(theta < 0.12, 2e-3, base)
            base = torch.where(near_pi < 1e-2, 1e-3, base)
    return base * (1.0 + lin)


def close_b(case, got, want, tol, msg, key=None):
    """Batched comparison with a per-batch-element tolerance."""
    case.oracle_calls += 1
    g, w = got.detach(), want.detach()
    if tuple(g.shape) != tuple(w.shape):
        case.fail(f"{msg}: shape {tuple(g.shape)} != expected {tuple(w.shape)}", key)
        return False
    g, w = g.double(), w.double()
    if not torch.isfinite(g).all():
        case.fail(f"{msg}: non-finite result", key)
        return False
    d = (g - w).abs().flatten(1).max(dim=1).values if g.numel() else torch.zeros(0)
    ratio = float((d / tol).max()) if d.numel() else 0.0
    kind = msg.split("[")[0] + " (ratio to tolerance)"
    case.max_dev[kind] = max(ratio, case.max_dev.get(kind, -1.0))
    if not ratio <= 1.0:
        b = int((d / tol).argmax())
        case.fail(f"{msg}: batch element {b}: |diff| {float(d[b]):.3e} > {float(tol[b]):.1e}",
                  key)
        return False
    return True
