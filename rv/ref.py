"""Independent references: textbook matrix Lie groups in float64.

Everything here is computed from matrix representations with a scaling-and-squaring
matrix exponential and plain linear algebra; no code of theseus/torchlie is used.  A group is described by
its basis of matrix generators, in theseus' tangent order.
"""
import math
from typing import List

import torch

D64 = torch.float64


def expm(A):
    """Scaling and squaring with a degree-16 Taylor polynomial (torch's own matrix_exp is
    only good to 1e-10 for small arguments)."""
    A = A.to(D64)
    nrm = float(A.abs().sum(-1).max()) if A.numel() else 0.0
    s = max(0, math.ceil(math.log2(nrm / 0.25))) if nrm > 0.25 else 0
    X = A / 2.0 ** s
    eye = torch.eye(A.shape[-1], dtype=D64)
    E = eye + X / 16.0
    for k in range(15, 0, -1):
        E = eye + (X @ E) / k
    for _ in range(s):
        E = E @ E
    return E


def _basis_trans(n):
    B = torch.zeros(n, n + 1, n + 1, dtype=D64)
    for i in range(n):
        B[i, i, n] = 1.0
    return B


def _basis_so3(n=3):
    B = torch.zeros(3, n, n, dtype=D64)
    for i, (a, b) in enumerate([(2, 1), (0, 2), (1, 0)]):
        B[i, a, b] = 1.0
        B[i, b, a] = -1.0
    return B


class RefGroup:
    """name, dof, shape of the theseus tensor, matrix size, generators."""

    def __init__(self, name, shape, basis):
        self.name, self.shape, self.basis = name, tuple(shape), basis
        self.dof, self.n = basis.shape[0], basis.shape[1]

    # tensor <-> matrix --------------------------------------------------------
    def mat(self, t):
        t = t.to(D64)
        s = t.shape[: t.ndim - len(self.shape)]
        nm = self.name
        if nm == "SO2":
            c, s_ = t[..., 0], t[..., 1]
            return torch.stack([torch.stack([c, -s_], -1), torch.stack([s_, c], -1)], -2)
        if nm == "SE2":
            M = torch.zeros(*s, 3, 3, dtype=D64)
            c, s_ = t[..., 2], t[..., 3]
            M[..., 0, 0], M[..., 0, 1], M[..., 1, 0], M[..., 1, 1] = c, -s_, s_, c
            M[..., 0, 2], M[..., 1, 2], M[..., 2, 2] = t[..., 0], t[..., 1], 1.0
            return M
        if nm == "SO3":
            return t.clone()
        if nm == "SE3":
            M = torch.zeros(*s, 4, 4, dtype=D64)
            M[..., :3, :] = t
            M[..., 3, 3] = 1.0
            return M
        n = self.dof
        M = torch.eye(n + 1, dtype=D64).expand(*s, n + 1, n + 1).clone()
        M[..., :n, n] = t
        return M

    def tensor(self, M):
        nm = self.name
        if nm == "SO2":
            return torch.stack([M[..., 0, 0], M[..., 1, 0]], -1)
        if nm == "SE2":
            return torch.stack([M[..., 0, 2], M[..., 1, 2], M[..., 0, 0], M[..., 1, 0]], -1)
        if nm == "SO3":
            return M.clone()
        if nm == "SE3":
            return M[..., :3, :].clone()
        return M[..., : self.dof, self.dof].clone()

    # algebra --------------------------------------------------------------------
    def hat(self, u):
        return torch.einsum("...i,ijk->...jk", u.to(D64), self.basis)

    def vee(self, X):
        B = self.basis.reshape(self.dof, -1)
        return X.reshape(*X.shape[:-2], -1) @ B.T @ torch.linalg.inv(B @ B.T)

    def exp(self, u):
        return expm(self.hat(u))

    def inv(self, M):
        return torch.linalg.inv(M)

    def Ad(self, M):
        Mi = torch.linalg.inv(M)
        cols = [self.vee(M @ self.basis[i] @ Mi) for i in range(self.dof)]
        return torch.stack(cols, -1)

    def ad(self, u):
        X = self.hat(u)
        cols = [self.vee(X @ self.basis[i] - self.basis[i] @ X) for i in range(self.dof)]
        return torch.stack(cols, -1)

    def jexp(self, u):
        """Right Jacobian of exp: exp(u + d) ~ exp(u) exp(J d)."""
        return phi1(-self.ad(u))

    def jlog(self, u):
        return torch.linalg.inv(self.jexp(u))

    def log(self, M):
        nm = self.name
        if nm == "SO2":
            return torch.atan2(M[..., 1, 0], M[..., 0, 0])[..., None]
        if nm == "SO3":
            return rot_log(M)
        if nm == "SE2":
            th = torch.atan2(M[..., 1, 0], M[..., 0, 0])
            W = torch.zeros(*th.shape, 2, 2, dtype=D64)
            W[..., 0, 1], W[..., 1, 0] = -th, th
            v = torch.linalg.solve(phi1(W), M[..., :2, 2:3])[..., 0]
            return torch.cat([v, th[..., None]], -1)
        if nm == "SE3":
            w = rot_log(M[..., :3, :3])
            V = phi1(torch.einsum("...i,ijk->...jk", w, _basis_so3()))
            v = torch.linalg.solve(V, M[..., :3, 3:4])[..., 0]
            return torch.cat([v, w], -1)
        return M[..., : self.dof, self.dof].clone()

    def angle(self, M):
        """Rotation angle in [0, pi] (0 for translations)."""
        nm = self.name
        if nm in ("SO2", "SE2"):
            return torch.atan2(M[..., 1, 0], M[..., 0, 0]).abs()
        if nm in ("SO3", "SE3"):
            return rot_log(M[..., :3, :3]).norm(dim=-1)
        return torch.zeros(M.shape[:-2], dtype=D64)

    def retract(self, t, delta):
        return self.tensor(self.mat(t) @ self.exp(delta))

    def random(self, case, batch, angle=None, scale=1.0):
        """Random element (float64 tensor), with the given rotation angle if asked."""
        u = case.randn(batch, self.dof) * scale
        w = self.ang_slice()
        if w is not None:
            ang = u[:, w]
            n = ang.norm(dim=1, keepdim=True)
            n = torch.where(n < 1e-9, torch.ones_like(n), n)
            if angle is None:
                a = case.rand(batch, 1, lo=-1.0, hi=1.0) * 3.0
            else:
                a = torch.as_tensor(angle, dtype=D64).reshape(-1, 1).expand(batch, 1)
            u[:, w] = ang / n * a
        return self.tensor(self.exp(u))

    def ang_slice(self):
        return {"SO2": slice(0, 1), "SE2": slice(2, 3), "SO3": slice(0, 3),
                "SE3": slice(3, 6)}.get(self.name)


def phi1(A):
    """sum_k A^k / (k+1)!, read off the exponential of an augmented matrix."""
    n = A.shape[-1]
    Z = torch.zeros(*A.shape[:-2], 2 * n, 2 * n, dtype=D64)
    Z[..., :n, :n] = A
    Z[..., :n, n:] = torch.eye(n, dtype=D64)
    return expm(Z)[..., :n, n:]


def rot_log(R):
    """Rotation vector through the largest-component quaternion (stable everywhere)."""
    q = rot_quat(R)
    w, v = q[..., :1], q[..., 1:]
    s = torch.where(w < 0, -1.0, 1.0).to(D64)
    w, v = w * s, v * s
    n = v.norm(dim=-1, keepdim=True)
    ang = 2 * torch.atan2(n, w)
    k = torch.where(n > 1e-12, ang / n.clamp(min=1e-300), torch.full_like(n, 2.0))
    return v * k


def rot_quat(R):
    m = lambda i, j: R[..., i, j]  # noqa: E731
    tr = m(0, 0) + m(1, 1) + m(2, 2)
    K = torch.zeros(*R.shape[:-2], 4, 4, dtype=D64)
    K[..., 0, 0] = tr
    K[..., 1, 1] = m(0, 0) - m(1, 1) - m(2, 2)
    K[..., 2, 2] = m(1, 1) - m(0, 0) - m(2, 2)
    K[..., 3, 3] = m(2, 2) - m(0, 0) - m(1, 1)
    for a, b, v in [(0, 1, m(2, 1) - m(1, 2)), (0, 2, m(0, 2) - m(2, 0)),
                    (0, 3, m(1, 0) - m(0, 1)), (1, 2, m(0, 1) + m(1, 0)),
                    (1, 3, m(0, 2) + m(2, 0)), (2, 3, m(1, 2) + m(2, 1))]:
        K[..., a, b] = v
        K[..., b, a] = v
    _, V = torch.linalg.eigh(K / 3.0)
    return V[..., :, -1]


_SE3 = torch.zeros(6, 4, 4, dtype=D64)
_SE3[:3] = _basis_trans(3)
_SE3[3:, :3, :3] = _basis_so3()
_SO2 = torch.tensor([[[0.0, -1.0], [1.0, 0.0]]], dtype=D64)
_SE2 = torch.zeros(3, 3, 3, dtype=D64)
_SE2[:2] = _basis_trans(2)
_SE2[2, :2, :2] = _SO2[0]

SO2 = RefGroup("SO2", (2,), _SO2)
SE2 = RefGroup("SE2", (4,), _SE2)
SO3 = RefGroup("SO3", (3, 3), _basis_so3())
SE3 = RefGroup("SE3", (3, 4), _SE3)


def trans(name, n):
    return RefGroup(name, (n,), _basis_trans(n))


Point2, Point3 = trans("Point2", 2), trans("Point3", 3)


def group(name, dof=None):
    if name == "Vector":
        return trans("Vector", dof)
    return {"SO2": SO2, "SE2": SE2, "SO3": SO3, "SE3": SE3, "Point2": Point2,
            "Point3": Point3}[name]


def of(var):
    """Reference group of a theseus manifold variable."""
    return group(type(var).__name__, var.dof())


def fd_jacobian(f, dofs: List[int], h=1e-3):
    """6th-order central differences.  f(list of deltas (dof,)) -> (B, m) float64;
    returns a list of (B, m, dof)."""
    w = {1: 3.0 / 4, 2: -3.0 / 20, 3: 1.0 / 60}
    out = []
    for i, d in enumerate(dofs):
        cols = []
        for k in range(d):
            acc = 0.0
            for s, c in w.items():
                dp = [torch.zeros(x, dtype=D64) for x in dofs]
                dm = [torch.zeros(x, dtype=D64) for x in dofs]
                dp[i][k], dm[i][k] = s * h, -s * h
                acc = acc + c * (f(dp).to(D64) - f(dm).to(D64))
            cols.append(acc / h)
        out.append(torch.stack(cols, -1))
    return out
