"""Operation table with closed-form right-perturbation Jacobians (reference side)."""
import torch

from . import ref
from .core import D64


def bt(J, shape):
    return J.expand(*shape, *J.shape[-2:])


def eye(n, shape):
    return torch.eye(n, dtype=D64).expand(*shape, n, n)


def act(G, M, p):
    """M . p for points (row vectors in the last dim)."""
    n = p.shape[-1]
    r = (M[..., :n, :n] @ p.unsqueeze(-1)).squeeze(-1)
    return r if G.n == n else r + M[..., :n, n]


def act_jac(G, M, p):
    n = p.shape[-1]
    ph = p if G.n == n else torch.cat([p, torch.ones_like(p[..., :1])], -1)
    cols = [((M @ G.basis[i]) @ ph.unsqueeze(-1)).squeeze(-1)[..., :n] for i in range(G.dof)]
    return torch.stack(cols, -1), M[..., :n, :n]


def unact_jac(G, M, p):
    n = p.shape[-1]
    q = act(G, G.inv(M), p)
    qh = q if G.n == n else torch.cat([q, torch.ones_like(q[..., :1])], -1)
    cols = [-(G.basis[i] @ qh.unsqueeze(-1)).squeeze(-1)[..., :n] for i in range(G.dof)]
    return torch.stack(cols, -1), G.inv(M)[..., :n, :n]


def value_and_jacs(G, op, args):
    """args: group arguments as matrices, the rest as plain tensors (float64).  Returns
    (kind, value, [jacobians]): kind 'G' (matrix) or 'V' (vector)."""
    if op == "exp":
        return "G", G.exp(args[0]), [G.jexp(args[0])]
    if op == "log":
        u = G.log(args[0])
        return "V", u, [G.jlog(u)]
    if op == "compose":
        X, Y = args
        Z = X @ Y
        s = Z.shape[:-2]
        return "G", Z, [bt(G.Ad(G.inv(Y)), s), eye(G.dof, s)]
    if op == "inverse":
        return "G", G.inv(args[0]), [-G.Ad(args[0])]
    if op == "between":
        X, Y = args
        Z = G.inv(X) @ Y
        s = Z.shape[:-2]
        return "G", Z, [bt(-G.Ad(G.inv(Z)), s), eye(G.dof, s)]
    if op == "local":
        X, Y = args
        Z = G.inv(X) @ Y
        u = G.log(Z)
        J = G.jlog(u)
        return "V", u, [-J @ G.Ad(G.inv(Z)), J]
    if op == "retract":
        X, d = args
        return "G", X @ G.exp(d), [bt(G.Ad(G.inv(G.exp(d))), X.shape[:-2]), G.jexp(d)]
    if op == "transform":
        X, p = args
        v = act(G, X, p)
        Jg, Jp = act_jac(G, X, p)
        s = v.shape[:-1]
        return "V", v, [bt(Jg, s), bt(Jp, s)]
    if op == "untransform":
        X, p = args
        v = act(G, G.inv(X), p)
        Jg, Jp = unact_jac(G, X, p)
        s = v.shape[:-1]
        return "V", v, [bt(Jg, s), bt(Jp, s)]
    raise KeyError(op)


def group_args(op):
    return {"exp": [0], "log": [1], "compose": [1, 1], "inverse": [1], "between": [1, 1],
            "local": [1, 1], "retract": [1, 0], "transform": [1, 2], "untransform": [1, 2]}[op]


def out_dirs(G, kind, value, J):
    """Derivative of the output *tensor* along each input tangent direction:
    (..., dof_in, *out_shape)."""
    if kind == "V":
        return J.transpose(-1, -2)
    outs = []
    for i in range(J.shape[-1]):
        T = value @ G.hat(J[..., i])
        outs.append(tangent_tensor(G, T))
    k = len(G.shape)
    return torch.stack(outs, dim=-1 - k)


def tangent_tensor(G, T):
    return G.tensor(T)


def in_dirs(G, M):
    """d(tensor)/d(tangent_i): (..., dof, *shape)."""
    return torch.stack([G.tensor(M @ G.basis[i]) for i in range(G.dof)], dim=-1 - len(G.shape))


def sum_to(x, lead):
    """Sum the leading dims of x down to `lead` (undo broadcasting)."""
    k = x.ndim - len(lead)
    return x, k
