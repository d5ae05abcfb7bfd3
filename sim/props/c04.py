"""C04: a mixture's behaviour depends only on its current parameters"""
import copy
import pickle
import sys
import numpy as np

from .. import ndmix, samplers, world
from ..canon import canon, canon_gmix, diff, close

ID = 'C04'
RUNS = {'quick': 9000, 'thorough': 150000}
RULE = ('a run is a random history over a pool of mixtures of every kind: '
        'building, refilling, recentring, rescaling, resetting, shearing, '
        'convolving, rounding, concatenating, copying, pickling, storing on '
        'observations, and evaluating, with singular or out-of-range '
        'components mixed in so that evaluations fail; every evaluation is '
        'compared with a mixture freshly built from the components the '
        'reference holds, and with a numpy sum of gaussians. Non-trivial: an '
        'evaluation follows a failed evaluation or an edit after an '
        'evaluation')
STATE_MEASURE = 'signature (operation, previous operation, kind, outcome)'
REAL = ['ngmix.gmix', 'ngmix.gmix.gmix_nb (compiled)', 'ngmix.pixels',
        'ngmix.observation',
        'ngmix.gmix_ndim', 'sklearn (samples of n-dimensional mixtures)']
STUB = ['fitsio (files of n-dimensional mixtures, on a failing disk)']
ASSUME = ['the total flux of a mixture is not zero when it is recentred, '
          'rescaled or used as a point-spread function',
          'components are finite numbers',
          'the profile tables of the named models are not judged here (C31)']

SIMPLE = ['gauss', 'turb', 'exp', 'dev']
EVALS = ['image', 'fimage', 'loglike', 'more', 'fdiff', 's2n', 'sums',
         'hsums', 'accum', 'moments', 'apflux', 'stats', 'galsim']


def warm():
    import random
    from .. import core
    rng = random.Random(5)
    for _ in range(60):
        core.run_one(sys.modules[__name__], generate(rng, 'quick'))


def u(rng, a, b):
    return round(rng.uniform(a, b), 4)


def gen_pars(rng):
    kind = rng.choice(SIMPLE + ['cm', 'bdf', 'bd', 'coellip', 'full', 'full',
                                'full', 'full'])
    if kind == 'full':
        if rng.random() < .15:
            # round as a whole, its components are not
            a, b, r, c = u(rng, .5, 4), u(rng, .5, 4), u(rng, -1, 1), \
                u(rng, -1, 1)
            x = rng.choice([0.0, u(rng, -.4, .4)])
            p = u(rng, .1, 3)
            return dict(kind=kind, pars=[p, r, c, a, x, b,
                                         p, r, c, b, -x, a])
        n = rng.choice([1, 1, 2, 3, 3, 4, 6])
        pars = []
        bad = rng.random() < .3
        ibad = rng.randrange(n)
        for i in range(n):
            irr, icc = u(rng, .5, 4), u(rng, .5, 4)
            irc = u(rng, -.4, .4)
            if bad and i == ibad:
                w = rng.randrange(6)
                if w == 0:
                    irc = 5.0
                elif w == 1:
                    irr = 0.0
                    irc = 0.0
                elif w == 2:
                    irr, icc = -irr, -icc
                elif w == 3:
                    irr = icc = irc = 0.0
                elif w == 4:
                    irr = -irr
                elif w == 5:
                    irr = icc = irc = 1.0
            pars += [u(rng, .1, 3), u(rng, -1, 1), u(rng, -1, 1), irr, irc,
                     icc]
        if n > 1 and rng.random() < .1:
            # not a component, a hole
            pars[6 * rng.randrange(1, n)] *= -.05
        return dict(kind=kind, pars=pars)
    g1, g2 = u(rng, -.4, .4), u(rng, -.4, .4)
    if rng.random() < .12:
        g1, g2 = rng.choice([(1.0, 0.0), (.9, .8), (0.0, -1.5)])
    head = [u(rng, -1, 1), u(rng, -1, 1), g1, g2]
    T = u(rng, 1, 8) if rng.random() < .9 else rng.choice([0.0, -2.0])
    F = u(rng, .5, 5)
    d = dict(kind=kind)
    if kind == 'cm':
        d['fracdev'] = u(rng, 0, 1)
        d['TdByTe'] = u(rng, .5, 2)
        d['pars'] = head + [T, F]
    elif kind == 'bdf':
        d['pars'] = head + [T, u(rng, 0, 1), F]
    elif kind == 'bd':
        d['pars'] = head + [T, u(rng, -.3, .3), u(rng, 0, 1), F]
    elif kind == 'coellip':
        n = rng.choice([1, 2, 3])
        d['pars'] = head + [T] + [u(rng, 1, 9) for _ in range(n - 1)] \
            + [u(rng, .2, 2) for _ in range(n)]
    else:
        d['pars'] = head + [T, F]
    return d


def gen_op(rng):
    op = rng.choice(['new', 'fill', 'fill', 'set_cen', 'set_cen', 'set_flux',
                     'set_flux', 'reset', 'shear', 'convolve', 'round',
                     'concat', 'copy', 'pickle', 'obs', 'norms', 'eval',
                     'eval', 'eval', 'eval', 'eval', 'eval', 'eval'])
    d = dict(op=op, a=rng.randrange(8), b=rng.randrange(8),
             x=u(rng, -1, 1), y=u(rng, -1, 1), f=u(rng, .1, 5),
             s1=u(rng, -.3, .3), s2=u(rng, -.3, .3),
             ev=rng.choice(EVALS), flag=rng.random() < .5,
             keep=rng.random() < .6)
    if op == 'new':
        d['gm'] = gen_pars(rng)
    if op == 'fill':
        d['gm'] = gen_pars(rng)
        d['len'] = rng.random() < .15
    if op == 'reset' and rng.random() < .5:
        d['op'] = 'eval'
    if op == 'eval' and rng.random() < .1:
        d['x'], d['y'] = 40.0, -3.0
    return d


def generate(rng, tier):
    if rng.random() < .12:
        return dict(nd=True, ops=ndmix.gen(rng))
    ops = [dict(op='new', a=0, gm=gen_pars(rng))]
    for _ in range(rng.choice([4, 8, 12, 18, 25])):
        ops.append(gen_op(rng))
        if rng.random() < .5:
            o = gen_op(rng)
            o['op'] = 'eval'
            o['a'] = ops[-1]['a']
            ops.append(o)
    d = dict(jac=world.jac_spec(rng), dims=[rng.randrange(4, 9),
                                            rng.randrange(4, 9)],
             seed=rng.randrange(1 << 30), ops=ops)
    if rng.random() < .04:
        # images of any size
        d['dims'] = rng.choice([[3, 70], [66, 2], [45, 41], [1, 5], [101, 1]])
    if rng.random() < .25:
        # units of any size
        d['jac']['scale'] *= rng.choice([1e-7, 1e-4, .01, 30., 3600., 1e6])
    if rng.random() < .25:
        d['flux'] = rng.choice([1e-12, 1e-6, .001, 1e3, 1e7, 1e12])
    return d


MINLEN = {'ops': 1}


# ---------------------------------------------------------------------------
# reference

class Ref(object):
    """components of a mixture, rows of (p,row,col,irr,irc,icc)"""

    def __init__(self, comps):
        self.c = np.array(comps, dtype='f8').reshape(-1, 6).copy()

    def good(self):
        """can be normalised; None if too close to call"""
        det = self.c[:, 3] * self.c[:, 5] - self.c[:, 4] ** 2
        T = self.c[:, 3] + self.c[:, 5]
        if np.any(det < 1e-200) or np.any(T <= 1e-200):
            return False
        return True

    def points(self):
        """components may be measured or point-like, nothing else"""
        c = self.c[np.any(self.c[:, 3:] != 0, axis=1)]
        return Ref(c).good()

    def sheared(self, s1, s2):
        """the second moments of each component transformed by the shear"""
        A = np.array([[1 - s1, s2], [s2, 1 + s1]]) \
            / np.sqrt(1 - s1 ** 2 - s2 ** 2)
        c = self.c.copy()
        for i in range(len(c)):
            M = A.dot(np.array([[c[i, 3], c[i, 4]],
                                [c[i, 4], c[i, 5]]])).dot(A.T)
            c[i, 3], c[i, 4], c[i, 5] = M[0, 0], M[0, 1], M[1, 1]
        return Ref(c)

    def cen(self):
        p = self.c[:, 0]
        return ((p * self.c[:, 1]).sum() / p.sum(),
                (p * self.c[:, 2]).sum() / p.sum())

    def mom(self):
        r0, c0 = self.cen()
        p = self.c[:, 0]
        dr, dc = self.c[:, 1] - r0, self.c[:, 2] - c0
        s = p.sum()
        return ((p * (self.c[:, 3] + dr * dr)).sum() / s,
                (p * (self.c[:, 4] + dr * dc)).sum() / s,
                (p * (self.c[:, 5] + dc * dc)).sum() / s)

    def conv(self, o):
        r0, c0 = o.cen()
        s = o.c[:, 0].sum()
        out = []
        for a in self.c:
            for b in o.c:
                out.append([a[0] * b[0] / s, a[1] + b[1] - r0,
                            a[2] + b[2] - c0, a[3] + b[3], a[4] + b[4],
                            a[5] + b[5]])
        return Ref(out)

    def round(self, preserve):
        irr, irc, icc = self.mom()
        T = irr + icc
        if preserve:
            f = np.linalg.eigvalsh([[irr, irc], [irc, icc]]).max() / (T / 2)
        else:
            f = np.sqrt(max(irr * icc - irc ** 2, 0)) * 2 / T
        c = self.c.copy()
        h = 0.5 * (c[:, 3] + c[:, 5]) * f
        c[:, 3] = c[:, 5] = h
        c[:, 4] = 0
        return Ref(c)

    def eval(self, v, uu, area):
        """values and the largest error the fast exponential may make"""
        out = np.zeros(np.shape(v))
        err = np.zeros(np.shape(v))
        for p, r, c, irr, irc, icc in self.c:
            det = irr * icc - irc ** 2
            dv, du = v - r, uu - c
            chi2 = (icc * dv ** 2 + irr * du ** 2 - 2 * irc * dv * du) / det
            n = p * area / (2 * np.pi * np.sqrt(det))
            g = n * np.exp(-0.5 * chi2)
            out += g
            err += np.abs(np.where(chi2 > 24.9, g, 1.0e-4 * g))
        return out, err


class World(object):
    def __init__(self, spec, ctx):
        import ngmix
        self.ctx = ctx
        self.gms = []      # (gmix, Ref)
        rs = np.random.RandomState(spec['seed'])
        dims = tuple(spec['dims'])
        jac = world.make_jac(spec['jac'], dims)
        self.dims = dims
        self.jac = jac
        v, uu = world.vu(spec['jac'], dims)
        self.area = abs(np.linalg.det(world.jac_matrix(spec['jac'])))
        self.scale = np.sqrt(self.area)
        self.v, self.u = v, uu
        im = rs.normal(size=dims)
        wt = rs.uniform(0.5, 2, size=dims)
        wt[rs.uniform(size=dims) < .1] = 0
        if not np.any(wt > 0):
            wt[0, 0] = 1
        self.im, self.wt = im, wt
        self.use = wt > 0
        self.obs = ngmix.Observation(im, weight=wt, jacobian=jac)
        self.dirty = set()
        self.evaluated = set()


def scaled(pars, kind, s):
    s, f = s if isinstance(s, tuple) else (s, 1.0)
    """sizes and positions are in sky units, scale them to the pixels"""
    p = list(pars)
    if kind == 'full':
        for i in range(0, len(p), 6):
            p[i] *= f
            for j, k in ((1, 1), (2, 1), (3, 2), (4, 2), (5, 2)):
                p[i + j] *= s ** k
    else:
        p[0] *= s
        p[1] *= s
        if kind == 'coellip':
            n = (len(p) - 4) // 2
            for i in range(n):
                p[4 + i] *= s * s
                p[4 + n + i] *= f
        else:
            p[4] *= s * s
            p[-1] *= f
    return p


def build(d, s):
    import ngmix
    p = scaled(d['pars'], d['kind'], s)
    if d['kind'] == 'full':
        return ngmix.GMix(pars=p)
    if d['kind'] == 'cm':
        return ngmix.gmix.GMixCM(d['fracdev'], d['TdByTe'], p)
    if d['kind'] == 'coellip':
        return ngmix.gmix.GMixCoellip(p)
    return ngmix.GMixModel(p, d['kind'])


def simple_ref(d, s):
    """components of a mixture of this description, None if not judged"""
    p = scaled(d['pars'], d['kind'], s)
    if d['kind'] == 'full':
        return Ref(p)
    if d['kind'] not in ('gauss', 'coellip'):
        return None
    g1, g2 = p[2:4]
    g = np.hypot(g1, g2)
    if g >= 1:
        return 'bad'
    if g == 0:
        e1 = e2 = 0.0
    else:
        e = np.tanh(2 * np.arctanh(g))
        e1, e2 = e * g1 / g, e * g2 / g
    n = (len(p) - 4) // 2
    return Ref([[p[4 + n + i], p[0], p[1], .5 * p[4 + i] * (1 - e1),
                 .5 * p[4 + i] * e2, .5 * p[4 + i] * (1 + e1)]
                for i in range(n)])


def comps(gm):
    return np.array(gm.get_full_pars()).reshape(-1, 6)


def agree(ctx, gm, ref, what, rtol=1e-9):
    c = comps(gm)
    ctx.check(c.shape == ref.c.shape, 'component-count', what)
    sc = np.abs(ref.c).max(axis=0)
    # sums of opposite numbers: positions and sizes share a scale
    sc[1:3] = max(sc[1:3].max(), np.sqrt(sc[3:6].max()), 1e-200)
    sc[3:6] = sc[3:6].max()
    ok = np.all(np.abs(c - ref.c) <= rtol * sc)
    ctx.check(ok, 'components', lambda: '%s: %s expected %s' % (
        what, c.tolist(), ref.c.tolist()))


def do_eval(w, gm, op):
    import ngmix
    ev = op['ev']
    if ev == 'image':
        return gm.make_image(w.dims, jacobian=w.jac)
    if ev == 'fimage':
        return gm.make_image(w.dims, jacobian=w.jac, fast_exp=True)
    if ev == 'loglike':
        return gm.get_loglike(w.obs)
    if ev == 'more':
        return gm.get_loglike(w.obs, more=True)
    if ev == 'fdiff':
        st = 3 if op['flag'] else 0
        f = np.full(w.im.size + st, -7.0)
        gm.fill_fdiff(w.obs, f, start=st)
        return f
    if ev == 's2n':
        return gm.get_model_s2n(w.obs), gm.get_model_s2n_sum(w.obs)
    if ev in ('sums', 'hsums'):
        mr = 3 * w.scale if op['flag'] else None
        return gm.get_weighted_sums(w.obs, maxrad=mr,
                                    with_higher_order=ev == 'hsums').copy()
    if ev == 'accum':
        r = gm.get_weighted_sums(w.obs, maxrad=50 * w.scale)
        return gm.get_weighted_sums(w.obs, maxrad=50 * w.scale, res=r).copy()
    if ev == 'moments':
        return gm.get_weighted_moments(w.obs)
    if ev == 'apflux':
        return gm.get_gaussap_flux(T=4 * w.area)
    if ev == 'stats':
        return gm.get_cen(), gm.get_e1e2T(), gm.get_T(), gm.get_flux()
    if ev == 'galsim':
        return repr(gm.make_galsim_object())
    raise AssertionError(ev)


RENDER = ('image', 'fimage', 'loglike', 'more', 'fdiff', 's2n', 'sums',
          'hsums', 'accum', 'moments')


def reference_eval(w, ref, op, out):
    """the package's answer against numpy; text on disagreement"""
    ev = op['ev']
    val, err = ref.eval(w.v, w.u, w.area)
    tiny = 1e-9 * (np.abs(val).max() + 1e-300)
    if ev == 'image':
        if not np.all(np.abs(out - val) <= tiny):
            return 'image differs by %g' % np.abs(out - val).max()
    elif ev == 'fimage':
        if not np.all(np.abs(out - val) <= tiny + err):
            return 'image differs by %g' % np.abs(out - val).max()
    elif ev == 'fdiff':
        st = 3 if op['flag'] else 0
        exp = ((val - w.im) * np.sqrt(w.wt))[w.use]
        tol = ((err + tiny) * np.sqrt(w.wt))[w.use] + 1e-9
        if np.any(out[:st] != -7.0):
            return 'fdiff written before start'
        if not np.all(np.abs(out[st:st + exp.size] - exp) <= tol):
            return 'fdiff differs by %g' % np.abs(
                out[st:st + exp.size] - exp).max()
        if np.any(out[st + exp.size:] != -7.0):
            return 'fdiff written past the pixels'
    elif ev in ('loglike', 'more'):
        d = (val - w.im) * np.sqrt(w.wt)
        exp = -0.5 * (d ** 2).sum()
        tol = (np.abs(d) * err * np.sqrt(w.wt) + err ** 2 * w.wt).sum() \
            + 1e-8 * abs(exp) + 1e-9
        ll = out['loglike'] if ev == 'more' else out
        if abs(ll - exp) > tol:
            return 'loglike %r expected %r' % (ll, exp)
        if ev == 'more' and out['npix'] != w.use.sum():
            return 'npix %r' % out['npix']
    elif ev == 's2n':
        exp = (val ** 2 * w.wt).sum()
        tol = 3 * (np.abs(val) * err * w.wt).sum() + 1e-9 * exp \
            + (err ** 2 * w.wt).sum()
        if abs(out[1] - exp) > tol or abs(
                out[0] - np.sqrt(out[1])) > 1e-9 * abs(out[0]):
            return 's2n sum %r expected %r' % (out[1], exp)
    elif ev in ('sums', 'accum', 'moments'):
        if ev == 'sums' and op['flag']:
            mr = 3 * w.scale
        elif ev == 'accum':
            mr = 50 * w.scale
        else:
            irr, _, icc = ref.mom()
            mr = 100 * np.sqrt((irr + icc) / 2)
        dv, du = w.v - ref.c[0, 1], w.u - ref.c[0, 2]
        rad2 = dv ** 2 + du ** 2
        if np.any(np.abs(rad2 - mr ** 2) < 1e-9 * mr ** 2):
            return None
        k = w.use & (rad2 < mr ** 2)
        F = [w.v, w.u, du ** 2 - dv ** 2, 2 * dv * du, rad2,
             np.ones(w.v.shape)]
        n = 2 if ev == 'accum' else 1
        exp = [n * (f * val * w.im)[k].sum() for f in F]
        mag = [n * np.abs(f * val * w.im)[k].sum() for f in F]
        for e, m, o in zip(exp, mag, out['sums']):
            if abs(e - o) > 1e-9 * m + 1e-12 * np.abs(val).max():
                return 'sums %r expected %r' % (o, e)
        if out['npix'] != n * k.sum():
            return 'npix %r expected %d' % (out['npix'], n * k.sum())
    elif ev == 'apflux':
        exp = 0.0
        W = np.eye(2) * 2 * w.area
        for p, r, c, irr, irc, icc in ref.c:
            M = np.array([[irr, irc], [irc, icc]])
            f = np.sqrt(np.linalg.det(W) / np.linalg.det(M + W)) \
                if irr + icc != 0 else 1.0
            exp += p * f
        if abs(out - exp) > 1e-8 * np.abs(ref.c[:, 0]).sum():
            return 'aperture flux %r expected %r' % (out, exp)
    elif ev == 'stats':
        irr, irc, icc = ref.mom()
        T = irr + icc
        exp = list(ref.cen()) + [(icc - irr) / T, 2 * irc / T, T, T,
                                 ref.c[:, 0].sum()]
        got = list(out[0]) + list(out[1]) + [out[2], out[3]]
        sc = np.array([w.scale, w.scale, 1, 1, w.area, w.area,
                       np.abs(ref.c[:, 0]).sum()])
        got, exp = np.array(got), np.array(exp)
        if not np.all(np.abs(got - exp) <= 1e-8 * np.abs(exp) + 1e-9 * sc):
            return 'statistics %r expected %r' % (got, exp)
    return None


def execute(spec, ctx):
    import ngmix
    from ngmix.gexceptions import GMixRangeError
    if spec.get('nd'):
        ctx.count('nontrivial')
        return ndmix.run(spec['ops'], ctx, samplers.have_sklearn())
    w = World(spec, ctx)
    s = w.scale
    fl = spec.get('flux', 1.0)
    sf = (s, fl)
    prev = 'start'
    for i, op in enumerate(spec['ops']):
        name = op['op']
        ctx.step()
        if name == 'new' or not w.gms:
            d = op.get('gm')
            if d is None:
                continue
            ref = simple_ref(d, sf)
            try:
                gm = build(d, sf)
            except GMixRangeError:
                g = np.hypot(d['pars'][2], d['pars'][3])
                ctx.check(d['kind'] != 'full' and g >= 1,
                          'rejected', 'building %s' % d)
                ctx.fault('rejected build')
                ctx.log(i, 'rejected')
                continue
            ctx.check(ref != 'bad', 'accepted', 'building %s' % d)
            if ref is not None:
                agree(ctx, gm, ref, 'new %s' % d['kind'])
            w.gms.append([gm, Ref(comps(gm)), d['kind'], d])
            if len(w.gms) > 8:
                w.gms.pop(0)
            ctx.log(i, 'new', d['kind'])
            continue
        a = w.gms[op['a'] % len(w.gms)]
        b = w.gms[op['b'] % len(w.gms)]
        gm, ref, kind, d0 = a
        before = canon_gmix(gm)
        bbefore = canon_gmix(b[0])
        others = [(g, canon_gmix(g[0])) for g in w.gms if g is not a]
        psum = ref.c[:, 0].sum()
        new = None
        inplace = False
        out = 'ok'
        if name == 'fill':
            d = dict(op['gm'])
            if d['kind'] != kind and d['kind'] in SIMPLE and kind in SIMPLE:
                d['kind'] = kind
            if d['kind'] != kind or (len(d['pars']) != len(d0['pars'])
                                     and not op['len']):
                continue
            if kind == 'cm':
                d['fracdev'], d['TdByTe'] = d0['fracdev'], d0['TdByTe']
            p = scaled(d['pars'], kind, sf)
            if op['len']:
                p = p[:-1]
            try:
                gm.fill(np.array(p) if op['flag'] else p)
                ctx.check(not op['len'], 'accepted', 'fill with %d' % len(p))
                fresh = build(d, sf)
                a[1] = Ref(comps(fresh))
                agree(ctx, gm, a[1], 'fill %s' % kind, rtol=0)
                r = simple_ref(d, sf)
                if r is not None:
                    agree(ctx, gm, r, 'fill %s' % kind)
                a[3] = d
            except (GMixRangeError, ValueError):
                ctx.check(op['len'] or np.hypot(
                    d['pars'][2], d['pars'][3]) >= 1, 'rejected', 'fill')
                ctx.fault('rejected fill')
                # whatever it holds now is its state
                a[1] = Ref(comps(gm))
                out = 'rejected'
            inplace = True
        elif name == 'set_cen':
            if psum == 0:
                continue
            r, c = ref.cen()
            gm.set_cen(op['x'] * s, op['y'] * s)
            ref.c[:, 1] += op['x'] * s - r
            ref.c[:, 2] += op['y'] * s - c
            agree(ctx, gm, ref, 'set_cen')
            ref.c[:] = comps(gm)
            inplace = True
        elif name == 'set_flux':
            if psum == 0:
                continue
            gm.set_flux(op['f'] * fl)
            ref.c[:, 0] *= op['f'] * fl / psum
            agree(ctx, gm, ref, 'set_flux')
            ref.c[:] = comps(gm)
            inplace = True
        elif name == 'reset':
            gm.reset()
            ref.c[:] = 0
            agree(ctx, gm, ref, 'reset')
            inplace = True
        elif name == 'norms':
            try:
                if op['flag']:
                    gm.set_norms()
                else:
                    gm.set_norms_if_needed()
                ctx.check(ref.good(), 'not-rejected', 'set_norms %s' % kind)
            except GMixRangeError:
                ctx.check(not ref.good(), 'rejected', 'set_norms %s' % kind)
                ctx.fault('failed evaluation')
                out = 'failed'
        elif name == 'shear':
            try:
                new = gm.get_sheared(op['s1'], op['s2']) if op['flag'] else \
                    gm.get_sheared(ngmix.Shape(op['s1'], op['s2']))
                if ref.good():
                    r = ref.sheared(op['s1'], op['s2'])
                    agree(ctx, new, r, 'get_sheared', 1e-8)
            except GMixRangeError:
                ctx.check(not ref.good(), 'rejected', 'get_sheared')
                out = 'failed'
            nk = kind
        elif name == 'convolve':
            if len(gm) * len(b[0]) > 60 or b[1].c[:, 0].sum() == 0:
                continue
            new = gm.convolve(b[0])
            agree(ctx, new, ref.conv(b[1]), 'convolve')
            nk = 'full'
        elif name == 'round':
            if psum == 0 or not ref.good():
                continue
            irr, irc, icc = ref.mom()
            if irr + icc <= 0 or irr * icc - irc ** 2 <= \
                    1e-6 * (irr + icc) ** 2:
                # holes: no shape as a whole
                continue
            new = gm.make_round(preserve_size=op['flag'])
            agree(ctx, new, ref.round(op['flag']), 'make_round', 1e-6)
            nk = kind
        elif name == 'concat':
            if len(gm) + len(b[0]) > 60:
                continue
            new = ngmix.gmix.gmix_concat([gm, b[0]])
            agree(ctx, new, Ref(np.concatenate([ref.c, b[1].c])), 'concat',
                  0)
            nk = 'full'
        elif name == 'copy':
            new = [gm.copy, lambda: copy.copy(gm),
                   lambda: copy.deepcopy(gm)][op['b'] % 3]()
            agree(ctx, new, ref, 'copy', 0)
            ctx.check(len(ref.c) == 0 or np.any(np.isnan(ref.c))
                      or new == gm, 'copy-not-equal', kind)
            nk = kind
        elif name == 'pickle':
            new = pickle.loads(pickle.dumps(gm))
            agree(ctx, new, ref, 'pickle', 0)
            nk = kind
        elif name == 'obs':
            o = ngmix.Observation(np.zeros((3, 3)), gmix=gm)
            new = o.get_gmix() if op['flag'] else o.gmix
            agree(ctx, new, ref, 'stored on an observation', 0)
            nk = kind
        elif name == 'eval':
            ev = op['ev']
            if ev in ('stats', 'galsim', 'apflux', 'round'):
                if psum == 0 or not (ref.good() or (
                        ev == 'apflux' and ref.points())):
                    continue
            fresh = ngmix.GMix(pars=ref.c.ravel().copy())
            try:
                res = do_eval(w, gm, op)
            except GMixRangeError:
                ctx.check(not ref.good(), 'rejected', '%s of %s' % (ev, kind))
                ctx.fault('failed evaluation')
                out = 'failed'
                res = None
            else:
                if ev in RENDER:
                    ctx.check(ref.good(), 'not-rejected',
                              '%s of %s gave a number' % (ev, kind))
                try:
                    res2 = do_eval(w, fresh, op)
                except GMixRangeError:
                    ctx.fail('differs-from-fresh', '%s of %s: fresh mixture '
                             'is rejected' % (ev, kind))
                d = close(canon(res), canon(res2), rtol=1e-12)
                ctx.check(d is None, 'differs-from-fresh',
                          '%s of %s after %s: %s' % (ev, kind, prev, d))
                bad = reference_eval(w, ref, op, res)
                ctx.check(bad is None, 'differs-from-analytic',
                          '%s of %s after %s: %s' % (ev, kind, prev, bad))
            if prev not in ('start', 'eval', 'new'):
                ctx.count('nontrivial')
            ctx.count('eval:' + ev)
        if new is not None and np.all(np.isfinite(comps(new))):
            if op['keep']:
                dd = dict(d0)
                w.gms.append([new, Ref(comps(new)), nk,
                              dd if nk == kind != 'full' else
                              dict(kind='full', pars=[0] * (6 * len(new)))])
                if len(w.gms) > 8:
                    w.gms.pop(0)
        if not inplace:
            dd = diff(before, canon_gmix(gm))
            ctx.check(dd is None, 'original-changed', '%s: %s' % (name, dd))
        ctx.check(b is a or diff(bbefore, canon_gmix(b[0])) is None,
                  'operand-changed', name)
        for g, c0 in others:
            ctx.check(diff(c0, canon_gmix(g[0])) is None, 'other-changed',
                      '%s changed a mixture it does not involve' % name)
        ctx.state(name, op.get('ev'), prev, kind, out)
        ctx.log(i, name, out)
        prev = name if out == 'ok' else name + '-' + out
