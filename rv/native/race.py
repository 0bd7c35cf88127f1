"""Runs the kernels with several threads at a time; prints what was run (see props/c30.py: sc_race)."""
import os
import sys

import torch

torch.set_num_threads(1)
from rv.core import D64, Case, Violation  # noqa: E402
from rv.native import load  # noqa: E402


def main():
    mods = load.modules()
    case = Case("C30", "race", int(sys.argv[1]), "quick", {})
    M, S = mods["mat_mult"], mods["baspacho_solver"].SymbolicDecomposition
    from rv.native.mats import csr, dense
    for _ in range(6):
        m, n, B = case.randint(2, 9), case.randint(2, 6), case.choice([2, 5, 17])
        rp, ci, mask = csr(case, m, n)
        val = case.randn(B, len(ci))
        A = dense(val, rp, ci, n)
        v, u = case.randn(B, n), case.randn(B, m)
        it = torch.int32
        case.close(M.mat_vec(B, n, rp.to(it), ci.to(it), val, v), (A @ v.unsqueeze(2)).squeeze(2), 1e-9, "mat_vec")
        case.close(M.tmat_vec(B, n, rp, ci, val, u), (A.transpose(1, 2) @ u.unsqueeze(2)).squeeze(2), 1e-9, "tmat_vec")
        N = A.transpose(1, 2) @ A
        rp2, ci2 = torch.arange(0, n * n + 1, n), torch.arange(n).repeat(n)
        P = M.mult_MtM(B, rp.to(it), ci.to(it), val, rp2.to(it), ci2.to(it))
        case.close(dense(P, rp2, ci2, n), N, 1e-9, "mult_MtM")
        al, be = case.rand(B), case.rand(B) + 0.1
        M.apply_damping(B, n, rp2.to(it), ci2.to(it), P, al, be)
        Nd = N + torch.diag_embed(al.view(-1, 1) * N.diagonal(dim1=1, dim2=2) + be.view(-1, 1))
        case.close(dense(P, rp2, ci2, n), Nd, 1e-9, "apply_damping")
        # one block row of everything: the densest structure
        sizes = [1] * n if case.chance(0.5) else [1, n - 1]
        k = len(sizes)
        sym = S(torch.tensor(sizes), torch.arange(0, k * k + 1, k), torch.arange(k).repeat(k), "cuda")
        num = sym.create_numeric_decomposition(B)
        num.add_MtM(val, rp, ci)
        num.add_M(N.reshape(B, -1).contiguous(), rp2, ci2)
        num.damp(al, be)
        num.factor()
        x = v.clone()
        num.solve(x)
        N2 = 2 * N
        N2 = N2 + torch.diag_embed(al.view(-1, 1) * N2.diagonal(dim1=1, dim2=2) + be.view(-1, 1))
        case.close(x, torch.linalg.solve(N2, v), 1e-8, "solve")
    c = [sum(q) for q in zip(*load.counts())]
    print(f"concurrent-launches={c[0]} concurrent-threads={c[1]} concurrent-results={case.oracle_calls}", flush=True)


if __name__ == "__main__":
    try:
        main()
    except Violation as e:
        print("VIOLATION", e.msg)
        sys.stdout.flush()
        os._exit(1)
    except ImportError as e:
        print(e, file=sys.stderr)
        os._exit(2)
    os._exit(0)
