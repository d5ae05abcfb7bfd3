"""
Reference model of one observation: plain arrays and the rules of the API.
"""
import builtins
import copy
import pickle
import numpy as np

from . import world
from .canon import canon, diff

PLANES = ('bmask', 'ormask', 'noise', 'mfrac')


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


class Model(object):
    """what the observation must contain"""

    def __init__(self):
        self.image = None
        self.weight = None
        self.planes = {}
        self.jac = None        # row, col, dvdrow, dvdcol, dudrow, dudcol
        self.psf = None        # the object itself
        self.gmix = None       # full pars
        self.meta = {}
        self.store = True
        self.izw = True
        self.fresh = True      # False: an update of the list was declined
        self.dead = False      # the last rebuild failed: list must be absent

    def snap(self):
        m = copy.copy(self)
        m.image = self.image.copy()
        m.weight = self.weight.copy()
        m.planes = {k: v.copy() for k, v in self.planes.items()}
        m.meta = copy.deepcopy(self.meta)
        return m

    def can_build(self):
        return (not self.store) or (not self.izw) or bool(
            np.any(self.weight > 0))


def jac_tuple(j):
    return (float(j.row0), float(j.col0), float(j.dvdrow), float(j.dvdcol),
            float(j.dudrow), float(j.dudcol))


def expected_pixels(m):
    nr, nc = m.image.shape
    r0, c0, a, b, c, d = m.jac
    rows = np.arange(nr)[:, None] - r0
    cols = np.arange(nc)[None, :] - c0
    v = a * rows + b * cols
    u = c * rows + d * cols
    w = m.weight
    good = w > 0
    sel = good if m.izw else np.ones(w.shape, dtype=bool)
    ierr = np.where(good, np.sqrt(np.where(good, w, 0.0)), 0.0)
    area = abs(a * d - b * c)
    return v[sel], u[sel], m.image[sel], ierr[sel], area


def verify(obs, m, ctx, where):
    """all public views of obs against the model"""
    def bad(kind, detail=''):
        ctx.fail(kind, '%s after %s' % (detail, where))

    if not np.array_equal(obs.image, m.image, equal_nan=True):
        bad('stale-image', 'image differs from the data last set')
    if not np.array_equal(obs.weight, m.weight, equal_nan=True):
        bad('stale-weight', 'weight differs from the data last set')
    for p in PLANES:
        has = getattr(obs, 'has_' + p)()
        if has != (p in m.planes):
            bad('plane-presence', '%s present: %s, expected %s' % (
                p, has, p in m.planes))
        elif has and not np.array_equal(getattr(obs, p), m.planes[p]):
            bad('stale-plane', '%s differs' % p)
    jt = jac_tuple(obs.jacobian)
    if not np.allclose(jt, m.jac, rtol=1e-13, atol=0):
        bad('stale-jacobian', '%s vs %s' % (jt, m.jac))
    det = m.jac[2] * m.jac[5] - m.jac[3] * m.jac[4]
    if not np.isclose(obs.jacobian.area, abs(det), rtol=1e-10):
        bad('stale-jacobian', 'area %r vs %r' % (obs.jacobian.area, det))
    if obs.has_psf() != (m.psf is not None):
        bad('psf-presence', 'has_psf %s' % obs.has_psf())
    elif m.psf is not None and obs.psf is not m.psf:
        bad('wrong-psf', 'another psf object')
    if obs.has_gmix() != (m.gmix is not None):
        bad('gmix-presence', 'has_gmix %s' % obs.has_gmix())
    elif m.gmix is not None and not np.allclose(
            obs.gmix.get_full_pars(), m.gmix, rtol=1e-13, atol=0):
        bad('stale-gmix', 'mixture differs')
    d = diff(canon(obs.meta), canon(m.meta))
    if d:
        bad('stale-meta', d)
    if bool(obs.store_pixels) != m.store:
        bad('option', 'store_pixels %s' % obs.store_pixels)
    if bool(obs.ignore_zero_weight) != m.izw:
        bad('option', 'ignore_zero_weight %s' % obs.ignore_zero_weight)

    pix = obs.pixels
    if m.dead:
        # the last rebuild was refused: there must be no list of older data
        if pix is not None and m.can_build() is False:
            bad('stale-pixels', 'list of %d pixels while no pixel has '
                'positive weight' % pix.size)
    elif not m.store:
        if pix is not None:
            bad('pixels-kept', 'pixel list present with storing off')
    elif m.fresh:
        if pix is None:
            bad('pixels-missing', 'no pixel list')
            return
        v, u, val, ierr, area = expected_pixels(m)
        if pix.size != val.size:
            bad('stale-pixels', '%d pixels listed, expected %d' % (
                pix.size, val.size))
            return
        sc = np.sqrt(area)
        got = np.array([pix['v'], pix['u'], pix['val'], pix['ierr']])
        exp = np.array([v, u, val, ierr])
        # order is not part of the property
        key = np.round(exp[:2] / sc, 5)
        o1 = np.lexsort((key[1], key[0]))
        key = np.round(got[:2] / sc, 5)
        o2 = np.lexsort((key[1], key[0]))
        exp, got = exp[:, o1], got[:, o2]
        if not np.allclose(got[:2], exp[:2], rtol=1e-9, atol=1e-9 * sc):
            bad('stale-pixels', 'sky positions differ')
        if not np.array_equal(got[2], exp[2], equal_nan=True):
            bad('stale-pixels', 'values differ')
        if not np.allclose(got[3], exp[3], rtol=1e-12, atol=0,
                           equal_nan=True):
            bad('stale-pixels', 'inverse errors differ')
        if not np.allclose(pix['area'], area, rtol=1e-10):
            bad('stale-pixels', 'areas differ')
        if pix.flags.writeable:
            bad('pixels-writeable', 'the pixel list can be written')

    good = m.weight > 0
    I, V, N = obs.get_s2n_sums()
    if good.any():
        eI = m.image[good].sum()
        eV = (1.0 / m.weight[good]).sum()
        es = eI / np.sqrt(eV)
    else:
        eI = eV = 0.0
        es = -9999.0
    tol = np.array([np.abs(m.image[good]).sum(), 0.0, 0.0])
    if eV > 0:
        tol[2] = tol[0] / np.sqrt(eV)
    got, exp = np.array([I, V, obs.get_s2n()]), np.array([eI, eV, es])
    if N != good.sum() or not np.all(
            np.abs(got - exp) <= 1e-9 * (np.abs(exp) + tol)):
        bad('stale-s2n', '%r vs %r' % ((I, V, N, obs.get_s2n()),
                                      (eI, eV, int(good.sum()), es)))


# ---------------------------------------------------------------------------
# operations

def gen_array_arg(rng, bad_ok=True):
    kind = rng.choices(
        ['ok', 'f4', 'fortran', 'strided', 'swapped', 'int',
         'shape', '1d', '3d', 'transposed'],
        [6, 1, 1, 1, 1, 1, 1, .5, .5, .5])[0]
    return kind


BADARR = ('shape', '1d', '3d')


def build_array(kind, dims, rs, lo=-1.0, hi=1.0, integer=False):
    """returns array, valid"""
    nr, nc = dims
    if kind == 'shape':
        dims2 = (nr + 1, nc)
    elif kind == '1d':
        dims2 = (nr * nc,)
    elif kind == '3d':
        dims2 = (1, nr, nc)
    elif kind == 'transposed':
        dims2 = (nc, nr)
    else:
        dims2 = (nr, nc)
    a = rs.uniform(lo, hi, size=dims2)
    if integer or kind == 'int':
        a = rs.randint(0, 16, size=dims2).astype('i8')
        if kind == 'int':
            a = a.astype('i4')
    if kind == 'f4':
        a = a.astype('f4')
    elif kind == 'fortran':
        a = np.asfortranarray(a)
    elif kind == 'strided':
        b = np.zeros((dims2[0] * 2, dims2[1] * 2), dtype=a.dtype)
        b[::2, ::2] = a
        a = b[::2, ::2]
    elif kind == 'swapped':
        a = a.astype(a.dtype.newbyteorder())
    valid = a.ndim == 2 and a.shape == (nr, nc)
    return a, valid


def grow(a, amp):
    """the same numbers in another unit"""
    if a is None or not amp or a.dtype.kind != 'f':
        return a
    return (a * a.dtype.type(amp)).astype(a.dtype)


AMPS = [1e-30, 1e-12, 1e-7, 1e-3, 1e4, 1e9, 1e18, 1e30]


def gen_units(rng, d):
    """data, errors and positions in any unit, images of any size"""
    if rng.random() < .15:
        d['amp'] = rng.choice(AMPS)
    if rng.random() < .15:
        d['wamp'] = rng.choice(AMPS)
    if d.get('jac') and rng.random() < .15:
        d['jac']['scale'] *= rng.choice([1e-8, 1e-4, .01, 100., 3600., 1e8])
    if rng.random() < .03:
        d['dims'] = rng.choice([[1, 70], [66, 3], [40, 41], [101, 2],
                                [33, 130]])


def gen_edit(rng, depth=0):
    """one edit operation, JSON"""
    op = rng.choices(
        ['image', 'weight', 'plane', 'jac', 'psf', 'gmix', 'meta', 'store',
         'izw', 'block', 'copy', 'update', 'poke'],
        [3, 4, 3, 3, 2, 2, 1, 2, 2.5, 6 if depth == 0 else 1, 2, 1,
         0 if depth == 0 else 8])[0]
    s = rng.randrange(1 << 30)
    d = dict(op=op, seed=s)
    if op in ('image', 'weight', 'plane'):
        d['arr'] = gen_array_arg(rng)
        d['via'] = rng.choice(['prop', 'method'])
        if rng.random() < .15:
            d['amp'] = rng.choice(AMPS)
    if op == 'image':
        d['noup'] = rng.random() < 0.1
    if op == 'weight':
        d['wkind'] = rng.choice(['pos', 'holes', 'neg', 'nan', 'zero',
                                 'none', 'one'])
        d['noup'] = rng.random() < 0.1
    if op == 'plane':
        d['plane'] = rng.choice(PLANES)
        d['none'] = rng.random() < 0.25
    if op == 'jac':
        d['how'] = rng.choice(['ok', 'ok', 'ok', 'none', 'bad', 'noup',
                               'turn', 'turn'])
        d['jac'] = world.jac_spec(rng)
        if rng.random() < .15:
            d['jac']['scale'] *= rng.choice([1e-8, 1e-4, .01, 100., 1e4])
        d['via'] = rng.choice(['prop', 'method'])
    if op in ('psf', 'gmix'):
        d['how'] = rng.choice(['ok', 'ok', 'none', 'bad'])
        d['via'] = rng.choice(['prop', 'method'])
    if op == 'meta':
        d['how'] = rng.choice(['set', 'none', 'bad', 'update', 'badupdate'])
    if op in ('store', 'izw'):
        d['value'] = rng.random() < 0.5
    if op == 'block':
        d['body'] = [gen_edit(rng, depth + 1)
                     for _ in range(rng.randrange(0, 5))]
        d['raise'] = rng.choice([None, None, None, 'Boom', 'BoomBase',
                                  'BoomBase', 'GeneratorExit',
                                  'KeyboardInterrupt', 'SystemExit',
                                  'StopIteration', 'OSError'])
        d['at'] = rng.randrange(0, 5)
    if op == 'copy':
        d['how'] = rng.choice(['copy', 'copy.copy', 'deepcopy', 'pickle'])
    if op == 'poke':
        d['what'] = rng.choice(['image', 'weight', 'zero', 'plane', 'jac',
                                'iadd', 'weight_all_zero'])
        d['plane'] = rng.choice(PLANES)
    return d


def create(spec):
    """observation and model from a spec"""
    import ngmix
    rs = np.random.RandomState(spec['seed'])
    dims = tuple(spec['dims'])
    m = Model()
    m.image = rs.normal(size=dims)
    m.weight = rs.uniform(0.5, 2.0, size=dims)
    m.image *= spec.get('amp', 1.0)
    m.weight *= spec.get('wamp', 1.0)
    if spec.get('holes'):
        m.weight[rs.uniform(size=dims) < 0.3] = 0.0
        m.weight[0, 0] = 1.0
    m.store = bool(spec.get('store', True))
    m.izw = bool(spec.get('izw', True))
    kw = {}
    for p in spec.get('planes', []):
        m.planes[p] = rs.randint(0, 9, size=dims)
        kw[p] = m.planes[p].copy()
    if spec.get('jac'):
        jac = world.make_jac(spec['jac'], dims)
        m.jac = jac_tuple(jac)
    else:
        jac = None
        m.jac = ((dims[0] - 1) / 2., (dims[1] - 1) / 2., 1., 0., 0., 1.)
    if spec.get('psf'):
        m.psf = small_psf(rs)
        kw['psf'] = m.psf
    if spec.get('gmix'):
        gm = small_gmix(rs)
        m.gmix = gm.get_full_pars().copy()
        kw['gmix'] = gm
    m.meta = {'a': 1}
    obs = ngmix.Observation(
        m.image.copy(), weight=m.weight.copy(), jacobian=jac,
        meta={'a': 1}, store_pixels=m.store, ignore_zero_weight=m.izw, **kw)
    return obs, m


def small_psf(rs):
    import ngmix
    kw = {}
    how = rs.randint(4)
    if how > 0:
        kw['gmix'] = small_gmix(rs)
    if how > 1:
        kw['mfrac'] = rs.uniform(size=(5, 5))
        kw['jacobian'] = ngmix.DiagonalJacobian(
            row=2.0, col=rs.uniform(1, 3), scale=0.3)
    return ngmix.Observation(rs.normal(size=(5, 5)), meta={'p': 1}, **kw)


def small_gmix(rs):
    import ngmix
    n = rs.randint(1, 4)
    pars = []
    for _ in range(n):
        pars += [rs.uniform(.1, 2), rs.uniform(-1, 1), rs.uniform(-1, 1),
                 rs.uniform(1, 2), rs.uniform(-.2, .2), rs.uniform(1, 2)]
    return ngmix.GMix(pars=pars)


class World(object):
    """an observation, its model, and everything given to it"""

    def __init__(self, spec, ctx):
        self.obs, self.m = create(spec)
        self.ctx = ctx
        self.given = []      # (kind, object) handed to the observation
        self.open = 0

    def expect_reject(self, what, exc):
        self.ctx.check(exc is not None, 'accepted-bad-edit', what)

    def try_(self, fn):
        try:
            fn()
        except Exception as e:
            return e
        return None

    def apply(self, op):
        """apply one edit to the observation and to the model"""
        ctx, m, obs = self.ctx, self.m, self.obs
        rs = np.random.RandomState(op['seed'])
        k = op['op']
        before = m.snap()
        rejected = False
        ctx.step()
        if k == 'image':
            a, valid = build_array(op['arr'], m.image.shape, rs)
            a = grow(a, op.get('amp'))
            if op['via'] == 'prop' and not op['noup']:
                e = self.try_(lambda: setattr(obs, 'image', a))
            else:
                e = self.try_(lambda: obs.set_image(
                    a, update_pixels=not op['noup']))
            ok = valid
            if ok:
                m.image = np.array(a, dtype='f8')
                ok = self._rebuild(op['noup'], before)
        elif k == 'weight':
            a, valid = build_array(op['arr'], m.image.shape, rs, .5, 2.,
                                   integer=False)
            wk = op['wkind']
            a = np.array(a)
            if a.dtype.kind == 'i':
                a = a + 1
            if wk == 'holes':
                a[rs.uniform(size=a.shape) < 0.4] = 0
                a.flat[0] = 1
            elif wk == 'neg':
                a[rs.uniform(size=a.shape) < 0.3] = -1
                a.flat[-1] = 1
            elif wk == 'nan' and a.dtype.kind == 'f':
                a[rs.uniform(size=a.shape) < 0.3] = np.nan
                a.flat[-1] = 1
            elif wk == 'zero':
                a[...] = 0
            elif wk == 'one':
                a[...] = 0
                a.flat[a.size // 2] = 2
            elif wk == 'none':
                a, valid = None, True
            a = grow(a, op.get('amp'))
            if op['via'] == 'prop' and not op['noup']:
                e = self.try_(lambda: setattr(obs, 'weight', a))
            else:
                e = self.try_(lambda: obs.set_weight(
                    a, update_pixels=not op['noup']))
            ok = valid
            if ok:
                m.weight = (np.ones(m.image.shape) if a is None
                            else np.array(a, dtype='f8'))
                ok = self._rebuild(op['noup'], before)
        elif k == 'plane':
            p = op['plane']
            if op['none']:
                a, ok = None, True
            else:
                a, ok = build_array(op['arr'], m.image.shape, rs,
                                    integer=(p in ('bmask', 'ormask')))
            if op['via'] == 'prop':
                e = self.try_(lambda: setattr(obs, p, a))
            else:
                e = self.try_(lambda: getattr(obs, 'set_' + p)(a))
            if ok:
                if a is None:
                    m.planes.pop(p, None)
                else:
                    m.planes[p] = np.array(a)
        elif k == 'jac':
            how = op['how']
            if how == 'turn':
                import ngmix
                # the same but for one respect
                r0, c0, a, b, c, e = m.jac
                new = [(r0, c0, -b, a, -e, c), (r0, c0, -a, -b, -c, -e),
                       (r0, c0, c, e, a, b), (c0, r0, a, b, c, e),
                       (r0, c0, a, b + .1 * a, c, e + .1 * c),
                       (r0 + .5, c0, a, b, c, e),
                       (r0, c0 - .25, a, b, c, e)][op['seed'] % 7]
                j = ngmix.Jacobian(row=new[0], col=new[1], dvdrow=new[2],
                                   dvdcol=new[3], dudrow=new[4],
                                   dudcol=new[5])
                ok = True
                self.given.append(('jac', j))
            elif how in ('ok', 'noup'):
                j = world.make_jac(op['jac'], m.image.shape)
                new, ok = jac_tuple(j), True
                self.given.append(('jac', j))
            elif how == 'none':
                j, ok = None, True
                s = m.image.shape
                new = ((s[0] - 1) / 2., (s[1] - 1) / 2., 1., 0., 0., 1.)
            else:
                j, ok = 'not a jacobian', False
            if op['via'] == 'prop' and how != 'noup':
                e = self.try_(lambda: setattr(obs, 'jacobian', j))
            else:
                e = self.try_(lambda: obs.set_jacobian(
                    j, update_pixels=how != 'noup'))
            if ok:
                m.jac = new
                ok = self._rebuild(how == 'noup', before)
        elif k in ('psf', 'gmix'):
            how = op['how']
            ok = how != 'bad'
            if how == 'ok':
                x = small_psf(rs) if k == 'psf' else small_gmix(rs)
                if k == 'gmix':
                    self.given.append(('gmix', x))
            elif how == 'none':
                x = None
            else:
                x = [1, 2, 3]
            if op['via'] == 'prop':
                e = self.try_(lambda: setattr(obs, k, x))
            else:
                e = self.try_(lambda: getattr(obs, 'set_' + k)(x))
            if ok:
                if k == 'psf':
                    m.psf = x
                else:
                    m.gmix = None if x is None else x.get_full_pars().copy()
        elif k == 'meta':
            how = op['how']
            ok = how in ('set', 'none', 'update')
            if how == 'set':
                e = self.try_(lambda: setattr(
                    obs, 'meta', {'s': op['seed']}))
                m.meta = {'s': op['seed']}
            elif how == 'none':
                e = self.try_(lambda: obs.set_meta(None))
                m.meta = {}
            elif how == 'update':
                e = self.try_(lambda: obs.update_meta_data(
                    {'u': op['seed'] % 7}))
                m.meta = dict(m.meta, u=op['seed'] % 7)
            elif how == 'bad':
                e = self.try_(lambda: obs.set_meta([('a', 2)]))
            else:
                e = self.try_(lambda: obs.update_meta_data([('a', 2)]))
        elif k in ('store', 'izw'):
            name = 'store_pixels' if k == 'store' else 'ignore_zero_weight'
            val = bool(op['value'])
            e = self.try_(lambda: setattr(obs, name, val))
            old = m.store if k == 'store' else m.izw
            setattr(m, k, val)
            ok = True
            if val != old:
                ok = self._rebuild(False, before)
        elif k == 'update':
            e = self.try_(obs.update_pixels)
            ok = m.can_build()
            if ok:
                m.fresh, m.dead = True, False
            elif m.store:
                # nothing to list: no older list may survive
                m.dead = m.dead or not before.fresh
        elif k == 'copy':
            how = op['how']
            if not m.can_build():
                # a copy rebuilds the list; not with nothing to list
                return
            fn = {'copy': obs.copy, 'copy.copy': lambda: copy.copy(obs),
                  'deepcopy': lambda: copy.deepcopy(obs),
                  'pickle': lambda: pickle.loads(pickle.dumps(obs))}[how]
            new = fn()
            if self.open:
                # the block is not one of the copy
                for a in ('image', 'weight') + PLANES:
                    if getattr(new, 'has_' + a, lambda: True)():
                        ctx.check(not getattr(new, a).flags.writeable,
                                  'copy-open', '%s of a copy (%s) made in '
                                  'a block' % (a, how))
                ctx.count('copy in a block')
                return
            if m.psf is not None:
                ctx.check(new.has_psf(), 'copy-lost-psf', how)
                ctx.check(new.psf is not m.psf, 'copy-shares-psf', how)
                d = diff(canon(new.psf), canon(m.psf))
                ctx.check(d is None, 'copy-differs', d)
                m.psf = new.psf
            self.obs = new
            if how != 'pickle':
                # a copy is rebuilt, a restored object is as it was saved
                m.fresh, m.dead = True, False
            e, ok = None, True
        elif k == 'poke':
            ok, e = True, self._poke(op, rs)
        elif k == 'block':
            self._block(op)
            return
        else:
            raise RuntimeError(k)

        if ok:
            ctx.check(e is None, 'rejected-good-edit', '%s: %r' % (op, e))
        else:
            rejected = True
            self.expect_reject(repr(op)[:200], e)
            if not (m.dead and k == 'update'):
                self.m = before
            ctx.fault('rejected:' + k)
        ctx.count('op:' + k)
        ctx.log(k, 'rejected' if rejected else 'ok')

    def _rebuild(self, declined, before):
        """the list is rebuilt; False when that must be refused"""
        m = self.m
        if declined:
            m.fresh = False
            return True
        if not m.can_build():
            return False
        m.fresh, m.dead = True, False
        return True

    def _poke(self, op, rs):
        """an edit in place, only inside an open block"""
        m, obs = self.m, self.obs
        nr, nc = m.image.shape
        r, c = rs.randint(nr), rs.randint(nc)
        x = rs.uniform(0.5, 3)
        what = op['what']
        m.fresh = False
        if what == 'image':
            m.image = m.image.copy()
            m.image[r, c] = x

            def f():
                obs.image[r, c] = x
        elif what == 'iadd':
            m.image = m.image + x

            def f():
                im = obs.image
                im += x
        elif what == 'weight':
            m.weight = m.weight.copy()
            m.weight[r, :] = x

            def f():
                obs.weight[r, :] = x
        elif what == 'zero':
            m.weight = m.weight.copy()
            m.weight[r, :] = 0

            def f():
                obs.weight[r, :] = 0
        elif what == 'weight_all_zero':
            m.weight = np.zeros(m.weight.shape)

            def f():
                obs.weight[...] = 0
        elif what == 'plane':
            p = op['plane']
            if p not in m.planes:
                return None
            m.planes[p] = m.planes[p].copy()
            m.planes[p][r, c] = 3

            def f():
                getattr(obs, p)[r, c] = 3
        elif what == 'jac':
            m.jac = (x, -x) + tuple(m.jac[2:])

            def f():
                obs.jacobian.set_cen(row=x, col=-x)
        return self.try_(f)

    def _block(self, op):
        ctx, m0 = self.ctx, self.m
        exc = {'Boom': Boom, 'BoomBase': BoomBase, None: None}.get(
            op['raise'])
        if exc is None and op['raise']:
            exc = getattr(builtins, op['raise'])
        raised = None
        nested = self.open > 0
        self.open += 1
        ctx.log('block', op['raise'])
        try:
            try:
                with self.obs.writeable():
                    for i, sub in enumerate(op['body']):
                        if exc is not None and i == op['at']:
                            ctx.fault('exception-in-block')
                            raise exc('in block')
                        if sub['op'] == 'poke' and self.open_closed:
                            continue
                        self.apply(sub)
                    if exc is not None and op['at'] >= len(op['body']):
                        ctx.fault('exception-in-block')
                        raise exc('in block')
            finally:
                self.open -= 1
                self._closed = nested or self.open > 0
        except (Boom, BoomBase, GeneratorExit, KeyboardInterrupt,
                SystemExit) as e:
            raised = e
        except Exception as e:
            from .core import Violation
            if isinstance(e, Violation):
                raise
            raised = e
        m = self.m
        # leaving the block rebuilds the list
        if m.can_build():
            m.fresh, m.dead = True, False
            if exc is None:
                ctx.check(raised is None, 'block-raised', repr(raised))
            else:
                ctx.check(isinstance(raised, exc), 'block-swallowed',
                          'exception %s became %r' % (exc, raised))
        else:
            m.fresh, m.dead = False, True
            ctx.check(raised is not None, 'accepted-bad-edit',
                      'block left no usable pixel')
            ctx.fault('rejected:block')
        if not nested:
            self._closed = False
        ctx.count('op:block')
        assert m0 is not None

    _closed = False

    @property
    def open_closed(self):
        """an inner block has closed the observation again"""
        return self._closed
