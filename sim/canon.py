"""
Canonical, comparable forms of everything the library takes or returns.
Only public attributes and accessors are used.
"""
import hashlib
import numpy as np


def _arr(a):
    a = np.asarray(a)
    if a.dtype == object:
        return ('objarr', a.shape, tuple(canon(x) for x in a.ravel()))
    if a.dtype.names is not None:
        return ('rec', a.shape, tuple(
            (n, _arr(np.ascontiguousarray(a[n]))) for n in a.dtype.names))
    a = np.ascontiguousarray(a)
    if a.dtype.kind == 'f' or a.dtype.kind == 'c':
        a = a + 0.0   # -0.0 -> 0.0
        # all nan are one nan
        b = np.where(np.isnan(a), np.array(np.nan, dtype=a.dtype), a)
        b = b.astype(a.dtype)
        return ('arr', a.dtype.str, a.shape, b.tobytes())
    return ('arr', a.dtype.str, a.shape, a.tobytes())


# components of a mixture which define it; the others are derived lazily
GM_FIELDS = ('p', 'row', 'col', 'irr', 'irc', 'icc', 'det')


def canon_gmix(gm):
    d = gm.get_data()
    out = []
    for n in GM_FIELDS:
        if n in d.dtype.names:
            out.append((n, _arr(d[n].copy())))
    return ('gmix', type(gm).__name__, tuple(out))


def canon_jac(j):
    return ('jac', type(j).__name__, _arr(j.get_data().copy()))


def canon_obs(o, depth=0):
    out = [('image', _arr(o.image)), ('weight', _arr(o.weight)),
           ('jac', canon_jac(o.jacobian))]
    for n in ('bmask', 'ormask', 'noise', 'mfrac'):
        if getattr(o, 'has_' + n)():
            out.append((n, _arr(getattr(o, n))))
    if o.has_gmix():
        out.append(('gmix', canon_gmix(o.gmix)))
    if o.has_psf():
        out.append(('psf', canon_obs(o.psf, depth + 1)))
    out.append(('meta', canon(o.meta)))
    out.append(('store_pixels', bool(o.store_pixels)))
    out.append(('izw', bool(o.ignore_zero_weight)))
    out.append(('pixels', None if o.pixels is None else _arr(o.pixels)))
    return ('obs', tuple(out))


def canon(x, seen=None):
    """nested tuples, hashable and comparable"""
    import ngmix
    import galsim
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return 'nan' if x != x else float(x) + 0.0
    if isinstance(x, (complex, np.complexfloating)):
        return ('c', canon(x.real), canon(x.imag))
    if isinstance(x, np.ndarray) or isinstance(x, np.void):
        return _arr(x)
    if isinstance(x, ngmix.Observation):
        return canon_obs(x)
    if isinstance(x, ngmix.GMix):
        return canon_gmix(x)
    if isinstance(x, ngmix.Jacobian):
        return canon_jac(x)
    if isinstance(x, (ngmix.ObsList, ngmix.MultiBandObsList)):
        return (type(x).__name__, tuple(canon(i) for i in list(x)),
                ('meta', canon(x.meta)))
    if isinstance(x, ngmix.observation.KObservation):
        return ('kobs', canon(x.kimage), canon(x.weight),
                canon(x.psf) if x.has_psf() else None,
                canon_jac(x.jacobian), ('meta', canon(x.meta)))
    if isinstance(x, galsim.Image):
        return ('gsim', _arr(x.array), repr(x.bounds), repr(x.wcs))
    if isinstance(x, dict):
        return ('dict', tuple(sorted(
            ((repr(k), canon(v)) for k, v in x.items()),
            key=lambda kv: kv[0])))
    if isinstance(x, (list, tuple)):
        return ('seq', tuple(canon(i) for i in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(repr(canon(i)) for i in x)))
    if isinstance(x, np.random.RandomState):
        return ('rng', canon(x.get_state()))
    if isinstance(x, np.random.Generator):
        return ('gen', canon(x.bit_generator.state))
    if isinstance(x, ngmix.shape.Shape):
        return ('shape', canon(x.g1), canon(x.g2))
    return ('opaque', type(x).__name__)


def digest(x):
    return hashlib.blake2b(repr(canon(x)).encode(), digest_size=8).hexdigest()


def diff(a, b, path=''):
    """first difference between two canonical forms, as text, or None"""
    if type(a) is not type(b):
        return '%s: %s vs %s' % (path, _short(a), _short(b))
    if isinstance(a, tuple):
        if (len(a) == 4 and a[0] == 'arr' and len(b) == 4 and b[0] == 'arr'):
            if a == b:
                return None
            return '%s: array %s' % (path, _adiff(a, b))
        if len(a) != len(b):
            return '%s: length %d vs %d (%s vs %s)' % (
                path, len(a), len(b), _short(a), _short(b))
        named = len(a) == 2 and isinstance(a[0], str)
        for i, (x, y) in enumerate(zip(a, b)):
            p = path
            if named:
                p = path + '.' + a[0] if i == 1 else path
            elif not (i == 0 and isinstance(x, str)):
                p = '%s[%d]' % (path, i)
            d = diff(x, y, p)
            if d:
                return d
        return None
    if a != b:
        return '%s: %s vs %s' % (path, _short(a), _short(b))
    return None


def _short(x):
    s = repr(x)
    return s if len(s) < 80 else s[:77] + '...'


def _adiff(a, b):
    if a[1:3] != b[1:3]:
        return '%s%s vs %s%s' % (a[1], a[2], b[1], b[2])
    x = np.frombuffer(a[3], dtype=a[1])
    y = np.frombuffer(b[3], dtype=b[1])
    w, = np.where(~((x == y) | ((x != x) & (y != y))))
    if w.size == 0:
        return 'same values'
    i = w[0]
    return '%d of %d differ, first [%d] %r vs %r' % (
        w.size, x.size, i, x[i], y[i])


# ---------------------------------------------------------------------------
# tolerant comparison of two canonical forms

def close(a, b, rtol=1e-9, atol=1e-12, path=''):
    """as diff(), floats (and float arrays) only to a tolerance"""
    if isinstance(a, float) and isinstance(b, float):
        if a == b or abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
            return None
        return '%s: %r vs %r' % (path, a, b)
    if type(a) is not type(b):
        return '%s: %s vs %s' % (path, _short(a), _short(b))
    if isinstance(a, tuple):
        if len(a) == 4 and a[0] == 'arr' and len(b) == 4 and b[0] == 'arr':
            if a == b:
                return None
            if a[1:3] != b[1:3] or np.dtype(a[1]).kind not in 'fc':
                return '%s: array %s' % (path, _adiff(a, b))
            x = np.frombuffer(a[3], dtype=a[1])
            y = np.frombuffer(b[3], dtype=b[1])
            fx, fy = np.isfinite(x), np.isfinite(y)
            if np.any(fx != fy):
                return '%s: array %s' % (path, _adiff(a, b))
            if not np.any(fx):
                return None
            scale = np.abs(x[fx]).max()
            if np.all(np.abs(x[fx] - y[fx]) <= atol + rtol * scale):
                return None
            return '%s: array %s' % (path, _adiff(a, b))
        if len(a) != len(b):
            return '%s: length %d vs %d' % (path, len(a), len(b))
        named = len(a) == 2 and isinstance(a[0], str)
        for i, (x, y) in enumerate(zip(a, b)):
            p = path
            if named:
                p = path + '.' + a[0] if i == 1 else path
            elif not (i == 0 and isinstance(x, str)):
                p = '%s[%d]' % (path, i)
            d = close(x, y, rtol, atol, p)
            if d:
                return d
        return None
    if a != b:
        return '%s: %s vs %s' % (path, _short(a), _short(b))
    return None
