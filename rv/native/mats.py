"""Random sparse matrices and their dense form."""
import torch

from rv.core import D64


def csr(case, m, n, full=False):
    """Random pattern by rows: (row_ptr, col_ind, dense mask)."""
    p = 1.1 if full else case.choice([0.2, 0.5, 0.8])
    mask = case.rand(m, n) < p
    if case.chance(0.7):
        for j in range(n):
            mask[case.randint(0, m - 1), j] = True
    if not bool(mask.any()):
        mask[case.randint(0, m - 1), case.randint(0, n - 1)] = True
    rp, ci = [0], []
    for r in range(m):
        ci += torch.nonzero(mask[r]).flatten().tolist()
        rp.append(len(ci))
    return torch.tensor(rp), torch.tensor(ci, dtype=torch.int64), mask


def dense(val, rp, ci, n):
    B, m = val.shape[0], len(rp) - 1
    out = torch.zeros(B, m, n, dtype=D64)
    for r in range(m):
        for k in range(int(rp[r]), int(rp[r + 1])):
            out[:, r, int(ci[k])] += val[:, k]
    return out
