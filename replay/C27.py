import contextlib
import importlib
import numpy as np
from . import lib, pitf as P
from . import training as R
from .C22 import events
from .lib import *


def iterate(X, spl, y, delt, tao):
    """X, Y, Z, estimate, loss, error rate, next sample vector"""
    D = X.shape
    ms, e2 = [], 0
    for (p, q, o), mode in zip(P.PAIRS, ('complicated', 'normal', 'normal')):
        ad = np.zeros((D[p], D[q]))
        for i in range(len(y)):
            ad[spl[p][i], spl[q][i]] = y[i]          # the last one stays
        m = P.shrink(ad, tao, mode) / np.sqrt(D[o])
        ms.append(m)
        e2 = e2 + P.sample_mat(m, spl[p], spl[q], D[o])
    e1 = X[tuple(spl)]
    e = e1 - e2
    n = len(y)
    return ms, np.sqrt((e ** 2).sum() / n), np.linalg.norm(e) / np.linalg.norm(e1), y + delt * e


def instance(case):
    c = Ctx(case)
    r = c.rng('instance')
    D = tuple(c.dim('I%d' % i, 2, 5) for i in range(3))
    tot = int(np.prod(D))
    v = (np.arange(tot) + 1.0) / tot + 0.2           # all distinct, none zero
    v = v * np.where(r.rand(tot) < 0.5, -1, 1)
    X = r.permutation(v).reshape(D)
    n = int(c.dims.get('n') or (r.randint(2, tot + 1) if r.rand() < .5 else r.randint(2, 9)))
    delt = float(r.choice([0.3, 0.9, 1.7]))
    tao = float(r.choice([0.0005, 0.003, 0.02]))
    steps = int(c.dims.get('steps') or r.choice([1, 2, 3, 5, 8]))
    return c, r, X, D, n, delt, tao, min(steps, 12)


def decode(X, y1, delt):
    """the index set: the first sample vector is delt times the sampled entries"""
    flat = X.reshape(-1)
    idx = []
    for v in np.asarray(y1, float) / delt:
        k = int(np.abs(flat - v).argmin())
        if abs(flat[k] - v) > 0.2 / X.size:
            raise Violated('the first sample vector is not the scaled samples of the data (%r is no entry)' % v)
        idx.append(k)
    return np.unravel_index(idx, X.shape)


def agree(label, got, want, tol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    true(label + ': shape', got.shape == want.shape, '%s, expected %s' % (got.shape, want.shape))
    s = max(np.abs(want).max(), 1e-3) if want.size else 1
    e = np.abs(got - want).max() if want.size else 0
    true(label, np.isfinite(e) and e <= tol * s, '%r, expected %r' % (got.tolist(), want.tolist()))


def run(case):
    c, r, X, D, n, delt, tao, steps = instance(case)
    root = np.sqrt(float(np.prod(D)))
    d, t = delt * n / root, tao * root
    if case['config'].get('backend', 'tf') == 'tf':
        with_tf(c, r, X, n, delt, tao, d, t, steps)
    else:
        with_np(c, r, X, n, delt, tao, d, t, steps)


def with_tf(c, r, X, n, delt, tao, d, t, steps):
    M = importlib.import_module('tensorD.factorization.pitf').PITF
    E = importlib.import_module('tensorD.factorization.env')
    X = X.astype('float32')
    m = M(E.Environment(R.Provider(lib.tf.constant(X)), 'summary'))
    vi = int(r.choice([-1, 1, 2, 3]))
    m.build_model(M.PITF_Args(2, delt, tao, n, validation_internal=vi))
    for turn in range(2 if r.rand() < .4 else 1):
        ys, flags = watch(m, steps)
        true('sample vectors published', len(ys) == steps, '%d in %d steps' % (len(ys), steps))
        true('not finished during training', not any(flags))
        true('finished after training', m.train_finish() is True)
        X64 = X.astype(float)
        spl = decode(X64, ys[0], d)
        y = np.zeros(n)
        ev = events('summary') if turn == 0 else {}
        for k, got in enumerate(ys):
            ms, loss, er, want = iterate(X64, spl, y, d, t)
            agree('sample vector of step %d' % (k + 1), got, want, 1e-3)
            for (tag, step), vs in ev.items():
                if step == k + 1:
                    for v in vs:
                        want_v = er if 'error' in tag else loss if 'loss' in tag else v
                        true('summary %s of step %d' % (tag, step), abs(v - want_v) <= 1e-3 * (1 + abs(want_v)),
                             '%r, expected %r' % (v, want_v))
            y = np.asarray(got, float)


def watch(m, steps):
    ys, flags = [], []
    S = lib.tf.Session
    orig = S.run
    last = [m._sample_vector]

    def look():
        if m._sample_vector is not last[0]:
            last[0] = m._sample_vector
            ys.append(np.array(last[0], float))

    def run(self, *a, **k):
        look()
        flags.append(bool(m.train_finish()))
        return orig(self, *a, **k)
    own = 'run' in S.__dict__
    S.run = run
    try:
        m.train(steps)
    finally:
        if own:
            S.run = orig
        else:
            del S.run
    look()
    return ys, flags


def with_np(c, r, X, n, delt, tao, d, t, steps):
    M = importlib.import_module('tensorD.factorization.pitf_numpy').PITF_np
    E = importlib.import_module('tensorD.factorization.env')
    m = M(E.Environment(None, 'summary'))

    def go(k):
        np.random.seed(c.seed)
        Y = X.copy()
        res = m.exact_recovery(M.PITF_np_Args(2, delt, tao, n, steps=k), Y)
        exact('data', Y, X)
        return res
    runs = [go(k) for k in range(1, steps + 1)]
    y = np.zeros(n)
    spl = decode(X, runs[0][0], d)
    for k, res in enumerate(runs):
        true('seven results', len(res) == 7)
        ms, loss, er, want = iterate(X, spl, y, d, t)
        agree('sample vector of step %d' % (k + 1), res[0], want, 1e-8)
        for i in range(3):
            agree('matrix %s of step %d' % ('XYZ'[i], k + 1), res[1 + i], ms[i], 1e-7)
        true('step numbers', list(res[4]) == list(range(k + 1)), '%r' % (res[4],))
        true('one error rate and loss a step', len(res[5]) == len(res[6]) == k + 1)
        agree('error rate of step %d' % (k + 1), res[5][k], er, 1e-8)
        agree('loss of step %d' % (k + 1), res[6][k], loss, 1e-8)
        for j in range(k):
            agree('earlier error rate', res[5][j], runs[j][5][j], 1e-10)
            agree('earlier loss', res[6][j], runs[j][6][j], 1e-10)
        y = np.asarray(res[0], float)
