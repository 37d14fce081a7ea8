"""matrix product operators from lists of terms (oracle side)"""
import numpy as np
import scipy.linalg as la


def from_terms(ham, N, q, k):
    """[None, H_1, ..., H_N], shapes (mL, mR, out, in); direct sum of one branch per term"""
    branches = []
    for n in range(1, N - k + 2):
        if ham[n] is None:
            continue
        ds = [q[n + j] for j in range(k)]
        W = []
        x = np.asarray(ham[n])
        x = np.transpose(x, sum([[j, k + j] for j in range(k)], []))
        x = x.reshape((1,) + tuple(d * d for d in ds))
        for j in range(k - 1):
            m = x.reshape(x.shape[0] * x.shape[1], -1)
            U, S, V = la.svd(m, full_matrices=False)
            W.append((U * S).reshape(x.shape[0], ds[j], ds[j], -1))
            x = V.reshape((V.shape[0],) + x.shape[2:])
        W.append(x.reshape(x.shape[0], ds[-1], ds[-1], 1))
        full = []
        for p in range(1, N + 1):
            if n <= p < n + k:
                full.append(np.transpose(W[p - n], (0, 3, 1, 2)))
            else:
                full.append(np.eye(q[p]).reshape(1, 1, q[p], q[p]))
        branches.append(full)
    if not branches:
        branches = [[np.zeros((1, 1, q[p], q[p])) for p in range(1, N + 1)]]
    H = [None]
    for p in range(N):
        a = sum(b[p].shape[0] for b in branches)
        c = sum(b[p].shape[1] for b in branches)
        M = np.zeros((a, c, q[p + 1], q[p + 1]), dtype=complex)
        i = j = 0
        for b in branches:
            M[i:i + b[p].shape[0], j:j + b[p].shape[1]] = b[p]
            i += b[p].shape[0]
            j += b[p].shape[1]
        if p == 0:
            M = M.sum(axis=0, keepdims=True)
        if p == N - 1:
            M = M.sum(axis=1, keepdims=True)
        H.append(M)
    return H


def to_dense(M, n1, N, q):
    op = np.ones((1, 1, 1), dtype=complex)
    for j, W in enumerate(M):
        op = np.einsum("xym,mnst->xsytn", op, W)
        op = op.reshape(op.shape[0] * op.shape[1], op.shape[2] * op.shape[3], -1)
    return op[:, :, 0]
