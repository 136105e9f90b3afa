"""Running the real code (real TensorFlow/numpy) on concrete inputs against executable contracts."""
import contextlib
import io
import os
import sys
import zlib
import numpy as np

REPO = os.environ.get('PV_REPO', '/repo')
tf = None


def setup():
    global tf
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.WARNING)
    import tensorflow.compat.v1 as tf1
    tf1.disable_v2_behavior()
    sys.modules['tensorflow'] = tf1
    sys.path.insert(0, REPO)
    tf = tf1
    return tf1


class Violated(Exception):
    pass


class Ctx(object):
    def __init__(self, case):
        self.case = case
        self.seed = int(case.get('seed', 0))
        self.dims = case.get('dims') or {}
        self.values = case.get('values') or {}
        self.long = None

    def rng(self, name):
        return np.random.RandomState((zlib.crc32(name.encode()) + 7919 * self.seed) % (2 ** 31))

    def dim(self, name, lo=1, hi=4):
        if name not in self.dims:
            r = self.rng('dim' + name)
            if hi > 2 and self.long is None and self.rng('long' + name).rand() < 0.12:
                self.long = name          # at most one size of a case is drawn from a wider range
                hi = 3 * hi + 1
            self.dims[name] = int(r.randint(lo, hi + 1))
        return int(self.dims[name])

    def arr(self, name, shape, dtype='float32', kind='normal'):
        shape = tuple(int(s) for s in shape)
        if name in self.values:
            v = np.asarray(self.values[name], dtype=dtype)
            if v.shape == shape:
                return v
        r = self.rng(name)
        if dtype.startswith('int'):
            return r.randint(-5, 6, size=shape).astype(dtype)
        if kind == 'pos':
            v = r.rand(*shape) + 0.1
        elif kind == 'sparse':
            v = r.randn(*shape) * (r.rand(*shape) > 0.4)
        else:
            v = r.randn(*shape)
        return np.asarray(v).astype(dtype)

    def const(self, name, shape, dtype='float32', kind='normal'):
        return tf.constant(self.arr(name, shape, dtype, kind))


def ev(*ts):
    with tf.Session() as s:
        r = s.run(list(ts))
    return r[0] if len(ts) == 1 else r


def close(label, got, want, tol=1e-4, dtype=None):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violated('%s: shape %s, expected %s' % (label, got.shape, want.shape))
    if dtype and str(got.dtype) != dtype:
        raise Violated('%s: dtype %s, expected %s' % (label, got.dtype, dtype))
    g, w = got.astype(float), want.astype(float)
    if g.size == 0:
        return
    bad = ~(np.isfinite(g) == np.isfinite(w))
    with np.errstate(all='ignore'):
        e = np.abs(g - w)
        bad |= np.isfinite(w) & ~(e <= tol * (1 + np.max(np.abs(w[np.isfinite(w)])) if np.isfinite(w).any() else tol))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0]) if g.ndim else ()
        raise Violated('%s: entry %s is %r, expected %r' % (label, i, float(g[i]), float(w[i])))


def exact(label, got, want):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violated('%s: shape %s, expected %s' % (label, got.shape, want.shape))
    if not np.array_equal(got, want):
        i = tuple(int(k) for k in np.argwhere(got != want)[0]) if got.ndim else ()
        raise Violated('%s: entry %s is %r, expected %r' % (label, i, got[i], want[i]))


def same(label, got, want):
    if got != want:
        raise Violated('%s: %r, expected %r' % (label, got, want))


def true(label, c, detail=''):
    if not c:
        raise Violated('%s %s' % (label, detail))


def raises(label, exc, fn):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violated('%s: raised %s instead' % (label, type(e).__name__))
    raise Violated('%s: no exception' % label)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
