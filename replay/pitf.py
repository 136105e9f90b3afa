"""numpy oracles of the pairwise-interaction operators"""
import numpy as np

PAIRS = [(0, 1, 2), (1, 2, 0), (2, 0, 1)]


def centre(m):
    return m - m.mean(axis=0, keepdims=True)


def project(m, which):
    return centre(m) + (m.mean() if which == 'A' else 0.0)


def soft(x, t):
    return np.sign(x) * np.maximum(np.abs(x) - t, 0) if t >= 0 else np.maximum(x - t, 0) + np.minimum(x + t, 0)


def shrink(m, tau, mode):
    c = centre(m.astype(float))
    u, s, vt = np.linalg.svd(c, full_matrices=False)
    r = (u * np.maximum(s - tau, 0)) @ vt
    if mode == 'normal':
        return r
    root = np.sqrt(m.shape[0] * m.shape[1])
    return r + soft(m.astype(float).sum() / root, tau) / root


def sample_mat(mat, p, q, rest):
    return mat[p, q] / np.sqrt(rest)


def place(v, p, q, rows, cols):
    r = np.zeros((rows, cols))
    for i in range(len(v)):
        r[p[i], q[i]] = v[i]
    return r
