"""C19: simulated observations: model, geometry, noise, generator"""
import copy

import numpy as np

from ..canon import canon, diff
from ..inject import count_statements, run_with_fault
from ..sched import Scheduler

ID = 'C19'
RUNS = {'quick': 3000, 'thorough': 150000}
TECH = ('seeded histories of simulations, edits of the inputs and of earlier '
        'outputs, failing generators, statement-level faults and overlapping '
        'threads; every image is compared with the mixture rendered in plain '
        'numpy plus the noise an identical generator gives, and the '
        'generators are compared afterwards')
RULE = ('a run is a history of up to ten operations on one pool of three '
        'inputs (single image, list, multi-band) and three generators. '
        'Non-trivial: an edit, a fault, a bad call or an overlap was in it')
STATE_MEASURE = 'signature (structure, model, options, weight patterns)'
REAL = ['ngmix.simobs', 'ngmix.observation', 'ngmix.gmix']
STUB = ['the random stream (MT19937 or PCG64 with a failing call)',
        'the interruption and failing call (statement injection)',
        'thread scheduling']
ASSUME = ['noise factors are positive, weights are not undefined',
          'metadata and mask planes are not part of a simulated observation']
TIME_UNIT = 'images'

MODELS = ['gauss', 'exp', 'turb', 'full2', 'full3', 'coellip']
WT = ['flat', 'vary', 'holes', 'neg', 'one', 'zero', 'even']
BIG = 1.0e15


def warm():
    import random
    r = random.Random(8)
    for _ in range(80):
        try:
            execute(generate(r, 'quick'), _Null())
        except Exception:
            pass


class _Null(object):
    def __getattr__(self, k):
        return lambda *a, **kw: None


def generate(rng, tier):
    nb = rng.choice([1, 2, 3])
    ep = []
    for _ in range(rng.choice([3, 4, 6])):
        ep.append(dict(s=rng.randrange(1 << 31), w=rng.choice(WT),
                       raw=rng.random() < 0.3, psf=rng.choice(
                           ['gmix', 'gmix', 'gmix', 'turb', 'nogmix',
                            'none'] if rng.random() < .4 else
                           ['gmix', 'turb']),
                       izw=rng.random() < 0.7, px=rng.random() < 0.7,
                       planes=rng.random() < 0.3))
        if rng.random() < .2:
            # weights of any size
            ep[-1]['wx'] = rng.choice([-14, -9, -4, 5, 9, 13])
        if rng.random() < .012:
            # images of any size
            ep[-1]['dims'] = rng.choice([[5, 70], [81, 6], [104, 109],
                                         [40, 41]])
    # which epochs are in the list and in the bands
    ol = [rng.randrange(len(ep)) for _ in range(rng.choice([0, 1, 2, 3]))]
    mb = [[rng.randrange(len(ep)) for _ in range(rng.choice([0, 1, 1, 2]))]
          for _ in range(nb)]
    ops = []
    for _ in range(rng.randrange(2, 11)):
        k = rng.choice(['sim'] * 8 + ['edit'] * 4 + ['spoil'] * 2 +
                       ['bad'] * 2 + ['threads'])
        op = dict(k=k, x=rng.choice(['o', 'l', 'm']),
                  e=rng.randrange(len(ep)), r=rng.randrange(3),
                  model=rng.randrange(4))
        if k in ('sim', 'threads'):
            op['kw'] = gen_kw(rng)
            if rng.random() < 0.2:
                op['none'] = True
            if k == 'threads':
                op['x2'] = rng.choice(['o', 'l', 'm'])
                op['kw2'] = gen_kw(rng)
                op['sched'] = [[rng.randrange(2), rng.choice([1, 4, 15, 60])]
                               for _ in range(rng.randrange(1, 12))]
            elif rng.random() < 0.3:
                op['inject'] = dict(f=rng.random(), e=rng.choice(
                    ['MemoryError', 'Interrupt', 'KeyboardInterrupt']))
            elif rng.random() < 0.12:
                op['rngfail'] = rng.randrange(3)
        elif k == 'edit':
            op['what'] = rng.choice(['weight', 'weight', 'zero', 'image',
                                     'psfgmix', 'psfflux', 'raw', 'noraw',
                                     'jac', 'flux', 'gmixset', 'nopsf',
                                     'psf', 'append'])
            op['s'] = rng.randrange(1 << 31)
            if rng.random() < .2:
                op['wx'] = rng.choice([-14, -9, 9, 13])
        elif k == 'spoil':
            op['n'] = rng.randrange(9)
            op['what'] = rng.choice(['image', 'weight', 'psf', 'jac',
                                     'noise', 'psfgmix'])
        else:
            op['what'] = rng.choice(['gmix3', 'obs3', 'short', 'notlist',
                                     'nor', 'gmixstr', 'long', 'listfor1'])
        ops.append(op)
    return dict(s=rng.randrange(1 << 31), ep=ep, ol=ol, mb=mb, ops=ops,
                models=[[rng.choice(MODELS), rng.randrange(1 << 31)]
                        for _ in range(4)],
                rngs=[rng.choice(['mt', 'mt', 'pcg']) for _ in range(3)])


def gen_kw(rng):
    kw = {}
    if rng.random() < 0.3:
        kw['add_noise'] = rng.random() < 0.5
    if rng.random() < 0.5:
        kw['add_all'] = rng.random() < 0.4
    if rng.random() < 0.4:
        kw['noise_factor'] = rng.choice([1.0, 2.0, 0.5, 1.4142135623730951])
    if rng.random() < 0.4:
        kw['use_raw_weight'] = rng.random() < 0.4
    if rng.random() < 0.5:
        kw['convolve_psf'] = rng.random() < 0.4
    return kw


def shrink(spec):
    for i, o in enumerate(spec['ops']):
        for k in ('inject', 'rngfail', 'none'):
            if k in o:
                p = dict(o)
                del p[k]
                yield dict(spec, ops=spec['ops'][:i] + [p] +
                           spec['ops'][i + 1:])
        if o.get('kw'):
            for k in o['kw']:
                p = dict(o, kw={a: b for a, b in o['kw'].items() if a != k})
                yield dict(spec, ops=spec['ops'][:i] + [p] +
                           spec['ops'][i + 1:])
    for i, e in enumerate(spec['ep']):
        if e['w'] != 'flat':
            yield dict(spec, ep=spec['ep'][:i] + [dict(e, w='flat')] +
                       spec['ep'][i + 1:])


class FailRNG(object):
    """a generator whose n-th use fails"""

    def __init__(self, rng, n):
        self.__dict__.update(_r=rng, _n=n)

    def __getattr__(self, k):
        f = getattr(self._r, k)
        if not callable(f):
            return f

        def g(*a, **kw):
            self.__dict__['_n'] -= 1
            if self._n < 0:
                raise OSError('no more randomness')
            return f(*a, **kw)
        return g


def rng_state(r):
    if isinstance(r, np.random.RandomState):
        s = r.get_state(legacy=False)
        return canon([s['state']['key'], s['state']['pos'], s['has_gauss'],
                      s['gauss']])
    return repr(r.bit_generator.state)


def make_rng(kind, s):
    if kind == 'pcg':
        return np.random.default_rng(s)
    return np.random.RandomState(s)


def make_gmix(kind, s):
    import ngmix
    rs = np.random.RandomState(s)
    if kind.startswith('full'):
        n = int(kind[4:])
        p = []
        for _ in range(n):
            a, b = rs.uniform(.1, .6, size=2)
            p += [rs.uniform(.5, 30), rs.normal() * .1, rs.normal() * .1,
                  a, rs.uniform(-.8, .8) * np.sqrt(a * b), b]
        return ngmix.GMix(pars=p)
    g = rs.uniform(-.4, .4, size=2)
    c = rs.normal(size=2) * 0.1
    if kind == 'coellip':
        return ngmix.gmix.GMixCoellip(
            [c[0], c[1], g[0], g[1], 0.3, 0.9, rs.uniform(1, 50), 20.0])
    return ngmix.GMixModel(
        [c[0], c[1], g[0], g[1], rs.uniform(.2, 1.5),
         10 ** rs.uniform(-2, 3) * (-1 if rs.uniform() < .1 else 1)],
        kind)


def gaussians(gm):
    return np.array(gm.get_full_pars()).reshape(-1, 6)


def convolved(gm, psf):
    a, b = gaussians(gm), gaussians(psf)
    ps = b[:, 0].sum()
    cen = (b[:, 0][:, None] * b[:, 1:3]).sum(axis=0) / ps
    out = []
    for x in a:
        for y in b:
            out.append([x[0] * y[0] / ps, x[1] + y[1] - cen[0],
                        x[2] + y[2] - cen[1], x[3] + y[3], x[4] + y[4],
                        x[5] + y[5]])
    return np.array(out)


def render(comps, dims, jac):
    """plain numpy, at pixel centers, in flux per pixel"""
    r, q = np.mgrid[:dims[0], :dims[1]]
    dr, dc = r - jac['row0'], q - jac['col0']
    v = jac['dvdrow'] * dr + jac['dvdcol'] * dc
    u = jac['dudrow'] * dr + jac['dudcol'] * dc
    area = abs(jac['dvdrow'] * jac['dudcol'] - jac['dvdcol'] * jac['dudrow'])
    im = np.zeros(dims)
    peak = 0.0
    for p, row, col, rr, rc, cc in comps:
        det = rr * cc - rc * rc
        dv, du = v - row, u - col
        chi2 = (cc * dv * dv + rr * du * du - 2 * rc * dv * du) / det
        im += p / (2 * np.pi * np.sqrt(det)) * np.exp(-0.5 * chi2) * area
        peak += abs(p) / (2 * np.pi * np.sqrt(det)) * area
    return im, peak


def jac_dict(j):
    return dict(row0=j.row0, col0=j.col0, dvdrow=j.dvdrow, dvdcol=j.dvdcol,
                dudrow=j.dudrow, dudcol=j.dudcol)


def make_weight(kind, rs, dims, wx=0):
    w = np.full(dims, 10 ** (wx + rs.uniform(-2, 3)))
    if kind == 'vary':
        w *= rs.uniform(.2, 3, size=dims)
    elif kind == 'holes':
        w *= rs.uniform(.2, 3, size=dims)
        w[rs.uniform(size=dims) < 0.3] = 0
        w[0, 0] = 0
        w[1, 1] = 2.0
    elif kind == 'neg':
        w *= rs.uniform(.2, 3, size=dims)
        w[2] = -1.0
    elif kind == 'one':
        w[:] = 0
        w[2, 3] = 4.0 * 10.0 ** wx
    elif kind == 'zero':
        w[:] = 0
    elif kind == 'even':
        # an even number of good pixels of two kinds
        w[:] = 0
        w[1, 1:3] = 10.0 ** wx
        w[2, 1:3] = 25.0 * 10.0 ** wx
    return w


def make_obs(e):
    import ngmix
    rs = np.random.RandomState(e['s'])
    dims = (rs.randint(6, 13), rs.randint(6, 13))
    dims = tuple(e.get('dims', dims))
    sc = rs.uniform(0.15, 0.5)
    m = sc * (np.eye(2) + rs.uniform(-.15, .15, size=(2, 2)))
    if rs.uniform() < 0.3:
        m[1] *= -1
    jac = ngmix.Jacobian(
        row=(dims[0] - 1) / 2 + rs.uniform(-.6, .6),
        col=(dims[1] - 1) / 2 + rs.uniform(-.6, .6),
        dvdrow=m[0, 0], dvdcol=m[0, 1], dudrow=m[1, 0], dudcol=m[1, 1])
    kw = {}
    if e['w'] == 'zero':
        if e['s'] % 2:
            kw['ignore_zero_weight'] = False
        else:
            kw['store_pixels'] = False
    else:
        kw['ignore_zero_weight'] = e['izw']
        kw['store_pixels'] = e['px']
    if e['planes']:
        kw['bmask'] = np.ones(dims, dtype='i4')
        kw['noise'] = rs.normal(size=dims)
        kw['meta'] = {'a': 1}
    psf = None
    if e['psf'] != 'none':
        psf = make_psf(e['psf'], rs, jac)
    o = ngmix.Observation(
        rs.normal(size=dims), weight=make_weight(e['w'], rs, dims, e.get('wx', 0)),
        jacobian=jac, psf=psf, **kw)
    if e['raw']:
        o.weight_raw = make_weight(WT[e['s'] % 5], rs, dims,
                                   e.get('wx', 0))
    return o


def make_psf(kind, rs, jac):
    import ngmix
    gm = None
    if kind in ('gmix', 'turb'):
        gm = ngmix.GMixModel(
            [rs.normal() * .2, rs.normal() * .2, rs.uniform(-.1, .1),
             rs.uniform(-.1, .1), rs.uniform(.2, .8), rs.uniform(.3, 3)],
            'gauss' if kind == 'gmix' else 'turb')
    return ngmix.Observation(rs.normal(size=(7, 7)) + 1, jacobian=jac,
                             gmix=gm, meta={'p': 1})


class Fail(Exception):
    pass


class World(object):
    def __init__(self, spec):
        import ngmix
        self.obs = [make_obs(e) for e in spec['ep']]
        self.ol = ngmix.ObsList()
        for i in spec['ol']:
            self.ol.append(self.obs[i])
        self.mb = ngmix.MultiBandObsList()
        for b in spec['mb']:
            ol = ngmix.ObsList()
            for i in b:
                ol.append(self.obs[i])
            self.mb.append(ol)
        self.gm = [make_gmix(*m) for m in spec['models']]
        self.rngs = [make_rng(k, (spec['s'] + i) % (1 << 31))
                     for i, k in enumerate(spec['rngs'])]
        self.outs = []

    def all(self):
        return [self.obs, self.gm,
                [getattr(o, 'weight_raw', None) for o in self.obs]]

    def target(self, op, x, e):
        if x == 'o':
            return self.obs[e]
        return self.ol if x == 'l' else self.mb

    def model(self, op, x):
        if op.get('none'):
            return None
        g = self.gm[op['model']]
        if x == 'm':
            return [self.gm[(op['model'] + i) % 4]
                    for i in range(len(self.mb))]
        return g


def flat(x, gm):
    """the observations in order, with the mixture of each"""
    import ngmix
    if isinstance(x, ngmix.Observation):
        return [(x, gm)]
    if isinstance(x, ngmix.ObsList):
        return [(o, gm) for o in x]
    out = []
    for i, ol in enumerate(x):
        out += [(o, gm[i] if gm is not None else None) for o in ol]
    return out


def expect(pairs, kw, rng):
    """images, noise and weights, using up the same random numbers"""
    out = []
    for o, gm in pairs:
        dims = o.image.shape
        if gm is None:
            im, peak = np.zeros(dims), 0.0
        else:
            if kw.get('convolve_psf', True):
                if not o.has_psf() or not o.psf.has_gmix():
                    raise Fail('no psf')
                comps = convolved(gm, o.psf.gmix)
            else:
                comps = gaussians(gm)
            im, peak = render(comps, dims, jac_dict(o.jacobian))
        noise = None
        if kw.get('add_noise', True):
            w = o.weight
            if hasattr(o, 'weight_raw') and kw.get('use_raw_weight', True):
                w = o.weight_raw
            dev = rng.normal(size=dims)
            good = w > 0
            sig = np.zeros(dims)
            if not good.any():
                sig[:] = BIG
            else:
                sig[good] = 1 / np.sqrt(w[good])
                if kw.get('add_all', True):
                    sig[~good] = np.median(sig[good])
                sig *= kw.get('noise_factor', 1.0)
            noise = dev * sig
        wt = o.weight / kw.get('noise_factor', 1.0) ** 2
        out.append((im, peak, noise, wt))
    return out


def judge(ctx, x, gm, out, ref, kw):
    import ngmix
    ctx.check(type(out) is type(x), 'structure', lambda: '%s gives %s' % (
        type(x), type(out)))
    if isinstance(x, ngmix.MultiBandObsList):
        ctx.check([len(b) for b in x] == [len(b) for b in out], 'structure',
                  lambda: '%s is not %s' % ([len(b) for b in out],
                                            [len(b) for b in x]))
        for b in out:
            ctx.check(isinstance(b, ngmix.ObsList), 'structure', type(b))
    pairs, got = flat(x, gm), flat(out, gm)
    ctx.check(len(pairs) == len(got), 'structure', lambda: '%d is not %d' % (
        len(got), len(pairs)))
    for (o, g), (n, _), (im, peak, noise, wt) in zip(pairs, got, ref):
        ctx.step()
        ctx.check(n is not o, 'aliased', 'the input itself is returned')
        ctx.check(n.image.shape == o.image.shape, 'geometry', 'shape')
        d = diff(canon(o.jacobian), canon(n.jacobian))
        ctx.check(d is None, 'geometry', lambda: d)
        ctx.check(np.allclose(n.weight, wt, rtol=1e-12, atol=0),
                  'weights', lambda: '%s is not %s' % (n.weight, wt))
        ctx.check(n.has_psf() == o.has_psf(), 'psf', 'presence')
        if o.has_psf():
            ctx.check(n.psf is not o.psf, 'aliased', 'psf')
            d = diff(canon(o.psf), canon(n.psf))
            ctx.check(d is None, 'psf', lambda: d)
        ctx.check((n.store_pixels, n.ignore_zero_weight) ==
                  (o.store_pixels, o.ignore_zero_weight), 'structure',
                  'pixel settings')
        a = n.image
        ctx.check(np.all(np.isfinite(a)), 'undefined-pixels',
                  lambda: '%d pixels' % (~np.isfinite(a)).sum())
        if noise is None:
            ctx.check(n.noise_image is None, 'noise', 'noise not asked for')
            noise = 0.0
        else:
            ctx.check(np.allclose(n.noise_image, noise, rtol=1e-10, atol=0),
                      'noise', lambda: '%s is not %s' % (
                          n.noise_image, noise))
        dd = np.abs(a - im - noise)
        tol = 1e-9 * peak + 1e-9 * np.abs(noise)
        ctx.check(np.all(dd <= tol), 'wrong-image',
                  lambda: 'off by %s of peak %s' % (dd.max(), peak))


def edit(W, op, ctx):
    import ngmix
    o = W.obs[op['e']]
    rs = np.random.RandomState(op['s'])
    k = op['what']
    g = W.gm[op['model']]
    if k == 'weight':
        o.weight = make_weight(WT[op['s'] % 5], rs, o.image.shape,
                               op.get('wx', 0))
    elif k == 'zero':
        try:
            o.weight = np.zeros(o.image.shape)
        except ngmix.GMixFatalError:
            ctx.count('refused')
    elif k == 'image':
        o.image = rs.normal(size=o.image.shape)
    elif k == 'psfgmix' and o.has_psf():
        o.psf.gmix = make_psf('gmix', rs, o.jacobian).gmix
    elif k == 'psfflux' and o.has_psf() and o.psf.has_gmix():
        gm = o.psf.gmix.copy()
        gm.set_flux(float(rs.uniform(.2, 5)))
        o.psf.gmix = gm
    elif k == 'raw':
        o.weight_raw = make_weight(WT[op['s'] % 5], rs, o.image.shape,
                                   op.get('wx', 0))
    elif k == 'noraw':
        if hasattr(o, 'weight_raw'):
            del o.weight_raw
    elif k == 'jac':
        j = o.jacobian.copy()
        j.set_cen(row=float(rs.uniform(2, 4)), col=float(rs.uniform(2, 4)))
        o.jacobian = j
    elif k == 'flux':
        g.set_flux(float(rs.uniform(.2, 50)))
    elif k == 'gmixset':
        if type(g) is ngmix.GMix:
            p = np.array(g.get_full_pars())
            p[0::6] *= 1.5
            g.fill(p)
        else:
            g.set_cen(.05, -.07)
    elif k == 'nopsf':
        o.set_psf(None)
    elif k == 'psf':
        o.set_psf(make_psf('turb', rs, o.jacobian))
    elif k == 'append':
        W.ol.append(o)
    else:
        return
    ctx.count('nontrivial')
    ctx.count('edit:' + k)


def spoil(W, op, ctx):
    """the caller writes on what a simulation returned"""
    if not W.outs:
        return
    import ngmix
    out = W.outs[op['n'] % len(W.outs)]
    pairs = flat(out, [None] * 9 if isinstance(
        out, ngmix.MultiBandObsList) else None)
    if not pairs:
        return
    n = pairs[op['e'] % len(pairs)][0]
    k = op['what']
    if k == 'image':
        with n.writeable():
            n.image[:] = -77.0
    elif k == 'weight':
        with n.writeable():
            n.weight[:] = 1.0
    elif k == 'psf' and n.has_psf():
        with n.psf.writeable():
            n.psf.image[:] = 5.0
        n.psf.meta['x'] = 1
    elif k == 'psfgmix' and n.has_psf() and n.psf.has_gmix():
        gm = n.psf.gmix.copy()
        gm.set_flux(99.0)
        n.psf.set_gmix(gm)
    elif k == 'jac':
        j = n.jacobian.copy()
        j.set_cen(row=-5.0, col=-5.0)
        n.jacobian = j
    elif k == 'noise' and n.noise_image is not None:
        n.noise_image[:] = 1e9
    ctx.count('nontrivial')
    ctx.count('spoil')


def bad_call(W, op, ctx):
    from ngmix.simobs import simulate_obs
    x = W.target(op, op['x'], op['e'])
    gm = W.model(op, op['x'])
    r = W.rngs[op['r']]
    k = op['what']
    want = ValueError
    if k == 'gmix3':
        gm = 3
    elif k == 'gmixstr':
        gm = 'exp'
    elif k == 'obs3':
        x = 3
    elif k in ('short', 'long', 'notlist'):
        x = W.mb
        gm = [W.gm[0]] * (len(W.mb) + (1 if k == 'long' else -1))
        if k == 'notlist' or not gm:
            gm = W.gm[0]
    elif k == 'listfor1':
        x, gm = W.obs[op['e']], [W.gm[0]]
    elif k == 'nor':
        r = None
        if not flat(x, gm):
            return
    before = (canon(W.all()), [rng_state(q) for q in W.rngs])
    try:
        simulate_obs(gmix=gm, obs=x, rng=r, convolve_psf=False)
    except want:
        ctx.count('nontrivial')
        ctx.count('bad:' + k)
    else:
        ctx.fail('accepted', 'call with %s is accepted' % k)
    d = diff(before, (canon(W.all()), [rng_state(q) for q in W.rngs]))
    ctx.check(d is None, 'input-changed', lambda: '%s: %s' % (k, d))


def sim(W, spec, op, ctx):
    from ngmix.simobs import simulate_obs
    x, gm = W.target(op, op['x'], op['e']), W.model(op, op['x'])
    kw = op['kw']
    r = W.rngs[op['r']]
    ref_rng = copy.deepcopy(r)
    pairs = flat(x, gm)
    try:
        ref = expect(pairs, kw, ref_rng)
    except Fail:
        ref = None
    before = canon(W.all())

    def call(rr=None):
        return simulate_obs(gm, x, rng=r if rr is None else rr, **kw)

    def unchanged():
        d = diff(before, canon(W.all()))
        ctx.check(d is None, 'input-changed', lambda: d)

    if ref is None:
        start = rng_state(r)
        try:
            call()
        except RuntimeError:
            ctx.count('nopsf')
        else:
            ctx.fail('accepted', 'convolved with a psf which is not there')
        unchanged()
        assert start is not None
        return
    if 'rngfail' in op and kw.get('add_noise', True):
        n = op['rngfail']
        try:
            call(FailRNG(copy.deepcopy(r), n))
            failed = False
        except OSError:
            failed = True
            ctx.count('nontrivial')
            ctx.fault('failing generator')
        ctx.check(failed or n >= len(pairs), 'fault-hidden',
                  'a failing generator is not noticed')
        unchanged()
    if 'inject' in op:
        cnt, _ = count_statements(lambda: call(copy.deepcopy(r)))
        t, _, exc = run_with_fault(
            lambda: call(copy.deepcopy(r)),
            1 + int(op['inject']['f'] * cnt), op['inject']['e'])
        if t.fired:
            ctx.count('nontrivial')
            ctx.fault(op['inject']['e'])
            ctx.check(exc is not None, 'fault-hidden',
                      lambda: '%s in %s lost' % (op['inject']['e'], t.where))
        unchanged()
    out = call()
    judge(ctx, x, gm, out, ref, kw)
    ctx.check(rng_state(r) == rng_state(ref_rng), 'generator',
              'another number of random values was used')
    unchanged()
    W.outs.append(out)
    ctx.count('op:' + op['x'])
    ctx.log(op['x'], canon(out)[-1] if False else len(pairs),
            rng_state(r) if isinstance(rng_state(r), str) else
            hash_of(out))
    ctx.state((op['x'], None if gm is None else op['model'] % 4,
               tuple(sorted(kw.items())), len(pairs)))


def hash_of(out):
    from ..canon import digest
    return digest(canon(out))


def threads(W, spec, op, ctx):
    from ngmix.simobs import simulate_obs
    jobs = []
    for x, kw, r in ((op['x'], op['kw'], W.rngs[0]),
                     (op['x2'], op['kw2'], W.rngs[1])):
        t, gm = W.target(op, x, op['e']), W.model(op, x)
        rr = copy.deepcopy(r)
        try:
            ref = expect(flat(t, gm), kw, rr)
        except Fail:
            return
        jobs.append((t, gm, kw, r, rr, ref))
    outs = [None, None]

    def job(i):
        t, gm, kw, r = jobs[i][:4]

        def f():
            outs[i] = simulate_obs(gm, t, rng=r, **kw)
        return f
    before = canon(W.all())
    sch = Scheduler([job(0), job(1)], [tuple(x) for x in op['sched']])
    sch.run()
    if sch.overlapped:
        ctx.count('nontrivial')
        ctx.count('overlap')
        ctx.interleaving(tuple(sch.order))
    for (t, gm, kw, r, rr, ref), out in zip(jobs, outs):
        judge(ctx, t, gm, out, ref, kw)
        ctx.check(rng_state(r) == rng_state(rr), 'generator',
                  'another number of random values was used')
    d = diff(before, canon(W.all()))
    ctx.check(d is None, 'input-changed', lambda: d)


def execute(spec, ctx):
    np.seterr(all='ignore')
    W = World(spec)
    for op in spec['ops']:
        if op['e'] >= len(W.obs):
            continue
        if op['k'] == 'sim':
            sim(W, spec, op, ctx)
        elif op['k'] == 'threads':
            threads(W, spec, op, ctx)
        elif op['k'] == 'edit':
            edit(W, op, ctx)
        elif op['k'] == 'spoil':
            before = canon(W.all())
            spoil(W, op, ctx)
            d = diff(before, canon(W.all()))
            ctx.check(d is None, 'aliased', lambda: 'writing on %s of an '
                      'output changes the input: %s' % (op['what'], d))
        else:
            bad_call(W, op, ctx)
