"""Specification of the pairwise-interaction operators (from the property statements)."""
from pv import alg, tv as T, tfstub as F
from pv.alg import VAR, ZERO, ONE, newvar
from pv.tv import TV
from . import spec

PAIRS = [(0, 1, 2), (1, 2, 0), (2, 0, 1)]     # rows of the matrix, columns, the mode it leaves out


def centre(m):
    """every column minus its mean"""
    n = m.size(0)

    def fn(i, j):
        return m.at(i, j) - spec.sum_([n], lambda k: m.at(k, j)) * alg.inv(n)
    return TV.build(m.shape, fn, m.dtype)


def total(m):
    return spec.sum_(m.shape, lambda i, j: m.at(i, j))


def project(m, which):
    c = centre(m)
    if which != 'A':
        return c
    mean = total(m) * alg.inv(m.size(0)) * alg.inv(m.size(1))
    return TV.build(m.shape, lambda i, j: c.at(i, j) + mean, m.dtype)


def sample_mat(mat, p, q, rest):
    n = p.size(0)
    return TV.build([n], lambda k: mat.at(p.at(k), q.at(k)) * alg.inv(alg.sqrt(rest)), mat.dtype)


def sample_tensor(x, spl):
    n = spl[0].size(0)
    return TV.build([n], lambda k: x.at(*[s.at(k) for s in spl]), x.dtype)


def place(vec, p, q, rows, cols):
    """zero except that place (p_k, q_k) holds vec_k, the last k winning"""
    n = vec.size(0)
    k = newvar(n)
    return F.scatter_tv(n, k, [p.at(VAR(k)), q.at(VAR(k))], vec.at(VAR(k)), [rows, cols], vec.dtype)


def soft(x, tau):
    """max(x - tau, 0) + min(x + tau, 0)"""
    return alg.relu(x - tau) - alg.relu(-x - tau)


def shrink(m, tau, mode):
    c = centre(m)
    s, u, v = F.svd_tv(c)
    k = s.size(0)

    def fn(i, j):
        return spec.sum_([k], lambda r: u.at(i, r) * alg.relu(s.at(r) - tau) * v.at(j, r))
    if mode == 'normal':
        return TV.build(m.shape, fn, m.dtype)
    root = alg.sqrt(m.size(0) * m.size(1))
    d = total(m) * alg.inv(root)
    return TV.build(m.shape, lambda i, j: fn(i, j) + soft(d, tau) * alg.inv(root), m.dtype)
