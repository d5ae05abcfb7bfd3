"""C13: shear response images: right types, right structure, all or nothing"""
import numpy as np

from .. import zoo
from ..canon import canon, canon_jac, diff
from ..inject import count_statements, run_with_fault

ID = 'C13'
RUNS = {'quick': 1800, 'thorough': 25000}
MISMATCH_IS_VIOLATION = True
TECH = ('seeded requests over bands and epochs and seeded call histories on '
        'one image maker, with interruptions and damaged epochs; images are '
        'compared with a small galsim-only reference and between requests')
RULE = ('a run is a request for shear response images, made in full, in '
        'another order and in part, or a history of calls on one image '
        'maker; part of the runs are interrupted at a seeded statement or '
        'have a damaged epoch. Non-trivial: images were made')
STATE_MEASURE = 'signature (container, psf kind, types, noise mode, fault)'
REAL = ['ngmix.metacal', 'ngmix.simobs', 'galsim']
STUB = ['noise of the caller (seeded RandomState)']
ASSUME = ["the galsim-only reference agrees to 2e-4 of the peak; it is not "
          "made for 'fitgauss', whose target comes from a fit"]

BASE = ['noshear', '1p', '1m', '2p', '2m']
PSFT = ['1p_psf', '1m_psf', '2p_psf', '2m_psf']
TOL = 2.0e-4


def warm():
    import random
    r = random.Random(5)
    op = zoo.OPS['metacal']
    for _ in range(6):
        try:
            op.out(zoo.run_op(op.gen(r))[2])
        except Exception:
            pass


def generate(rng, tier):
    op = zoo.OPS['metacal']
    t = op.gen_t(rng)
    psf = t['psf']
    allt = BASE + (PSFT if psf == 'dilate' else [])
    k = rng.random()
    if k < 0.15:
        types = None
    else:
        types = rng.sample(allt, rng.randrange(1, min(5, len(allt)) + 1))
    fix = rng.random() < 0.5
    t.update(types=types, fixnoise=fix,
             use_noise=fix and rng.random() < 0.5,
             step=rng.choice([0.01, 0.01, 0.02, 0.03]))
    d = op.gen_d(rng, t)
    spec = dict(kind='request', t=t, d=d, s=rng.randrange(1 << 30),
                perm=rng.randrange(1 << 20), fault=None, damage=[],
                norng=not fix and psf != 'fitgauss' and rng.random() < 0.15)
    if rng.random() < 0.3:
        spec['wts'] = [[rng.randrange(6), rng.choice(['wide', 'wide',
                                                      'zeros', 'one'])]
                       for _ in range(rng.choice([1, 2]))]
    k = rng.random()
    if k < 0.2:
        spec['fault'] = round(rng.random(), 6)
        spec['exc'] = rng.choice(['MemoryError', 'KeyboardInterrupt',
                                  'GMixRangeError', 'LinAlgError',
                                  'ValueError', 'OSError'])
    elif k < 0.35:
        spec['damage'] = [dict(k=rng.choice(
            ['nopsf', 'nonoise', 'nonsquare', 'badtype', 'pzero', 'nanpix',
             'pnanpix', 'psmall', 'bigjump', 'zero']), e=rng.randrange(6),
            s=rng.randrange(1 << 20))]
    elif k < 0.55 and psf != 'fitgauss':
        spec['kind'] = 'maker'
        spec['d'] = op.gen_d(rng, t)
        spec['d']['bands'] = [spec['d']['bands'][0][:1]]
        spec['d']['kind'] = 'obs'
        spec['calls'] = [dict(
            m=rng.choice(['gal', 'gal', 'galun', 'psf', 'all']
                         if psf == 'dilate' else ['gal', 'gal', 'galun',
                                                  'all']),
            g=[rng.choice([0.01, -0.01, 0.02, 0.0, 0.1, 0.0100001]),
               rng.choice([0.0, 0.0, 0.01, -0.01, 0.02])],
            types=rng.sample(allt, rng.choice([1, 2])),
            kill=round(rng.random(), 6) if rng.random() < 0.15 else None,
            exc=rng.choice(['MemoryError', 'KeyboardInterrupt'])
        ) for _ in range(rng.choice([3, 5, 8]))]
    return spec


def shrink(spec):
    for d in zoo.shrink_data(spec['d']):
        yield dict(spec, d=d)
    t = spec['t']
    if t['types'] and len(t['types']) > 1:
        for i in range(len(t['types'])):
            ts = list(t['types'])
            del ts[i]
            yield dict(spec, t=dict(t, types=ts))


# ---------------------------------------------------------------------------
# the reference

def wcs_of(j):
    import galsim
    return galsim.JacobianWCS(j.dudcol, j.dudrow, j.dvdcol, j.dvdrow)


def target_gauss(psf_int, flux):
    """gaussian whose transform is 3e-3 where that of the psf is 1e-2"""
    import galsim
    dk = psf_int.stepk / 4.0
    k = psf_int.drawKImage(scale=dk).real.array
    nk = k.shape[0]
    x, y = np.meshgrid(np.arange(-nk / 2, nk / 2), np.arange(-nk / 2, nk / 2))
    ksq = ((x ** 2 + y ** 2) * dk ** 2)[k < 1e-2 * psf_int.flux].min()
    return galsim.Gaussian(sigma=np.sqrt(-2 * np.log(3e-3) / ksq), flux=flux)


def shear_of(type, step):
    s = {'1p': (step, 0.0), '1m': (-step, 0.0), '2p': (0.0, step),
         '2m': (0.0, -step), 'noshear': (0.0, 0.0)}
    return s[type.replace('_psf', '')]


class Ref(object):
    """images from one observation, by galsim alone"""

    def __init__(self, image, obs, psf):
        import galsim
        self.wcs = wcs_of(obs.jacobian)
        self.shape = image.shape
        self.psf = psf
        im = galsim.Image(np.array(image), wcs=self.wcs)
        self.pim = galsim.Image(np.array(obs.psf.image),
                                wcs=wcs_of(obs.psf.jacobian))
        self.psf_int = galsim.InterpolatedImage(
            self.pim, x_interpolant='lanczos15')
        self.nopsf = galsim.Convolve(
            galsim.InterpolatedImage(im, x_interpolant='lanczos15'),
            galsim.Deconvolve(self.psf_int))
        self.flux = obs.psf.image.sum()

    def target(self, g, dopsf):
        import galsim
        d = 1.0 + 2.0 * np.sqrt(g[0] ** 2 + g[1] ** 2)
        if self.psf == 'dilate':
            pix = self.wcs.toWorld(galsim.Pixel(scale=1))
            p = galsim.Convolve(
                self.psf_int, galsim.Deconvolve(pix)).dilate(d)
            if dopsf:
                p = p.shear(g1=g[0], g2=g[1])
            return galsim.Convolve(p, pix)
        if self.psf == 'gauss':
            return target_gauss(self.psf_int, self.flux).dilate(d)
        return self.psf.dilate(d)

    def images(self, g, dopsf, shear):
        import galsim
        p = self.target(g, dopsf)
        im = self.nopsf
        if shear:
            im = im.shear(g1=g[0], g2=g[1])
        im = galsim.Convolve([im, p]).drawImage(
            nx=self.shape[1], ny=self.shape[0], wcs=self.wcs,
            dtype=np.float64, method='no_pixel')
        pim = self.pim.copy()
        p.drawImage(image=pim, method='no_pixel')
        return im.array, pim.array

    def typed(self, type, step):
        # the unsheared one shares the target of the sheared ones
        g = shear_of('1p' if type == 'noshear' else type, step)
        dopsf = 'psf' in type
        return self.images(g, dopsf, type != 'noshear' and not dopsf)


def near(a, b, tol=TOL):
    return a.shape == b.shape and \
        np.abs(a - b).max() <= tol * max(np.abs(b).max(), 1e-300)


# ---------------------------------------------------------------------------

def psf_of(spec):
    if spec['t']['psf'] == 'gs':
        import galsim
        return galsim.Gaussian(fwhm=3.2 * zoo.scale_of(spec['d']))
    return spec['t']['psf']


def request(spec, obs, types=False, fixnoise=None, rng=None):
    import ngmix
    t = spec['t']
    ts = t['types'] if types is False else types
    if rng is None and not spec['norng']:
        rng = np.random.RandomState(spec['s'])
    return ngmix.metacal.get_all_metacal(
        obs, psf=psf_of(spec), step=t['step'],
        fixnoise=t['fixnoise'] if fixnoise is None else fixnoise,
        rng=rng, use_noise_image=t['use_noise'],
        types=None if ts is None else list(ts))


def wanted(types, psf):
    """-> (must be there, may be there)"""
    if types is None:
        w = set(BASE + (PSFT if psf == 'dilate' else []))
        return w, w
    w = set(types)
    may = set(w)
    if w & {'noshear', '1p'}:
        may |= {'noshear', '1p'}
    return w, may


def pairs(ctx, obs, got, what):
    """check the form and return the pairs of epochs"""
    import ngmix
    ctx.check(type(got) is type(obs), 'structure', lambda: '%s is a %s for a '
              '%s' % (what, type(got).__name__, type(obs).__name__))
    if isinstance(obs, ngmix.Observation):
        return [(obs, got)]
    ctx.check(len(got) == len(obs), 'structure', lambda: '%s has %d members, '
              'the input %d' % (what, len(got), len(obs)))
    out = []
    for a, b in zip(obs, got):
        out += pairs(ctx, a, b, what)
    return out


def check_epoch(ctx, o, n, what, gauss, fix):
    """everything but the images"""
    for k in ('bmask', 'ormask', 'mfrac', 'noise'):
        has = getattr(o, 'has_' + k)()
        ctx.check(getattr(n, 'has_' + k)() == has, 'plane-lost',
                  lambda: '%s: %s %s' % (what, k, 'lost' if has else 'made'))
        if has:
            ctx.check(np.array_equal(getattr(n, k), getattr(o, k)),
                      'plane-changed', lambda: '%s: %s changed' % (what, k))
    d = diff(canon(o.meta), canon(n.meta))
    ctx.check(d is None, 'metadata', lambda: '%s: %s' % (what, d))
    d = diff(canon(o.psf.meta), canon(n.psf.meta))
    ctx.check(d is None, 'metadata', lambda: '%s psf: %s' % (what, d))
    d = diff(canon_jac(o.jacobian), canon_jac(n.jacobian))
    ctx.check(d is None, 'mapping', lambda: '%s: %s' % (what, d))
    j, pj = o.psf.jacobian, n.psf.jacobian
    for k in ('dvdrow', 'dvdcol', 'dudrow', 'dudcol'):
        ctx.check(getattr(j, k) == getattr(pj, k), 'mapping',
                  lambda: '%s psf: %s' % (what, k))
    cen = [j.row0, j.col0]
    if gauss:
        cen = [(s - 1) / 2.0 for s in o.psf.image.shape]
    ctx.check([pj.row0, pj.col0] == cen, 'mapping',
              lambda: '%s psf center %s, expected %s' % (
                  what, [pj.row0, pj.col0], cen))
    w = o.weight.copy()
    if fix:
        w = w / 2
    ctx.check(np.allclose(n.weight, w, rtol=1e-12, atol=0), 'weight',
              lambda: '%s: weights are not %s' % (
                  what, 'those of data and noise together' if fix else
                  'those of the input'))
    ctx.check(n.image.shape == o.image.shape and
              n.psf.image.shape == o.psf.image.shape, 'structure',
              lambda: '%s: image sizes changed' % what)
    ctx.check(np.isfinite(n.image).all() and np.isfinite(n.psf.image).all(),
              'not-finite', lambda: what)
    ctx.check((n.psf.weight > 0).all(), 'weight', lambda: what + ' psf')
    v = n.pixels['val']
    ctx.check(len(v) == (n.weight > 0).sum() or
              len(v) == n.image.size, 'structure', lambda: what)
    ctx.check(np.array_equal(v, n.image[n.weight > 0]) or
              np.array_equal(v, n.image.ravel()), 'structure',
              lambda: '%s: the pixel list is not of this image' % what)


def weighted(obs, wts):
    """unusual weight maps"""
    import ngmix
    for e, k in wts or []:
        eps = zoo.epochs_of(obs)
        o = eps[e % len(eps)]
        if not np.any(o.weight > 0):
            continue
        w = o.weight.copy()
        if k == 'wide':
            i = np.arange(w.size).reshape(w.shape)
            w *= 10.0 ** -(i * 7 % 11)
        elif k == 'one':
            w[:] = 0.0
            w[w.shape[0] // 2, w.shape[1] // 3] = 3.0
        else:
            w[:] = 0.0
        kw = dict(weight=w, jacobian=o.jacobian, meta=o.meta, psf=o.psf,
                  ignore_zero_weight=k != 'zeros')
        for n in ('bmask', 'ormask', 'noise', 'mfrac'):
            if getattr(o, 'has_' + n)():
                kw[n] = getattr(o, n)
        n = ngmix.Observation(o.image, **kw)
        if isinstance(obs, ngmix.Observation):
            obs = n
            continue
        for ol in ([obs] if isinstance(obs, ngmix.ObsList) else obs):
            for i, x in enumerate(ol):
                if x is o:
                    ol[i] = n
    return obs


def damaged(obs, d):
    import ngmix
    k = d['k']
    eps = zoo.epochs_of(obs)
    o = eps[d['e'] % len(eps)]
    if k == 'nopsf':
        o.set_psf(None)
    elif k == 'nonoise':
        o.set_noise(None)
    elif k in ('pzero', 'nanpix', 'pnanpix', 'zero'):
        zoo.apply_damage(obs, [d])
    elif k == 'psmall':
        o.psf.image = o.psf.image * 1e-30
    elif k == 'nonsquare':
        n = ngmix.Observation(
            o.image[:, 1:-1].copy(), weight=o.weight[:, 1:-1].copy(),
            jacobian=o.jacobian, psf=o.psf,
            ignore_zero_weight=bool(np.any(o.weight > 0)))
        if isinstance(obs, ngmix.Observation):
            return n
        for ol in ([obs] if isinstance(obs, ngmix.ObsList) else obs):
            for i, x in enumerate(ol):
                if x is o:
                    ol[i] = n
    return obs


def execute(spec, ctx):
    zoo.reset_caches()
    if spec['kind'] == 'maker':
        return execute_maker(spec, ctx)
    t = spec['t']
    obs = weighted(zoo.make_data(spec['d']), spec.get('wts'))
    label = (spec['d']['kind'], t['psf'], None if t['types'] is None else
             tuple(sorted(t['types'])), t['fixnoise'], t['use_noise'])
    if spec['damage']:
        return execute_damaged(spec, ctx, obs, label)
    if spec['fault'] is not None:
        return execute_faulty(spec, ctx, obs, label)
    got = request(spec, obs)
    ctx.step()
    ctx.count('nontrivial')
    check_all(spec, ctx, obs, got)
    # other requests give the same images
    must = sorted(got)
    rs = np.random.RandomState(spec['perm'])
    types = [k for k in must if k in wanted(t['types'], t['psf'])[0]]
    alt = [list(rs.permutation(types))]
    one = types[rs.randint(len(types))]
    alt.append([one])
    allt = BASE + (PSFT if t['psf'] == 'dilate' else [])
    alt.append(list(rs.permutation(list(set(types + list(
        rs.choice(allt, 2)))))))
    for ts in alt:
        ts = [str(x) for x in ts]
        other = request(spec, obs, types=ts)
        ctx.step()
        for k in types:
            if k not in ts:
                continue
            ctx.check(k in other, 'types', lambda: 'asked for %s, got %s' % (
                ts, sorted(other)))
            d = diff(canon(got[k]), canon(other[k]))
            ctx.check(d is None, 'depends-on-request', lambda: '%s differs '
                      'between requests for %s and %s: %s' % (
                          k, t['types'], ts, d))
    ctx.log(label, sorted(got), spec['s'])
    ctx.state(label)


def check_all(spec, ctx, obs, got, reference=True):
    import ngmix
    t = spec['t']
    must, may = wanted(t['types'], t['psf'])
    ctx.check(must <= set(got) <= may, 'types', lambda: 'asked for %s, got '
              '%s' % (t['types'], sorted(got)))
    gauss = t['psf'] != 'dilate'
    by = {}
    for k in sorted(got):
        by[k] = pairs(ctx, obs, got[k], k)
        seen = set()
        for i, (o, n) in enumerate(by[k]):
            what = '%s epoch %d' % (k, i)
            ctx.check(n is not o and id(n) not in seen, 'structure', what)
            seen.add(id(n))
            check_epoch(ctx, o, n, what, gauss, t['fixnoise'])
    if not reference:
        return by
    data = noise = None
    if t['fixnoise']:
        # the noise goes the same way as the data, turned by 90 degrees
        rng = np.random.RandomState(spec['s'])
        if t['use_noise']:
            nobs = obs.copy()
            for o in zoo.epochs_of(nobs):
                o.image = np.rot90(o.noise).copy()
        else:
            nobs = ngmix.simobs.simulate_obs(gmix=None, obs=obs, rng=rng)
            for o in zoo.epochs_of(nobs):
                o.image = np.rot90(o.image).copy()
        data = request(spec, obs, fixnoise=False, rng=rng)
        noise = request(spec, nobs, fixnoise=False, rng=rng)
        for k in got:
            a = zoo.epochs_of(got[k])
            b = zoo.epochs_of(data[k])
            c = zoo.epochs_of(noise[k])
            for i, (x, y, z) in enumerate(zip(a, b, c)):
                s = y.image + np.rot90(z.image, k=3)
                ctx.check(near(x.image, s, 1e-9), 'noise', lambda: '%s epoch '
                          '%d is not data plus noise treated alike' % (k, i))
                ctx.check(near(x.psf.image, y.psf.image, 1e-12), 'noise',
                          lambda: '%s epoch %d psf' % (k, i))
        if spec['perm'] % 3 == 0:
            reference_check(spec, ctx, nobs, noise, 'noise ')
    if spec['perm'] % 2 == 0:
        reference_check(spec, ctx, obs, data or got, '')
    return by


def reference_check(spec, ctx, obs, got, pre):
    t = spec['t']
    if t['psf'] == 'fitgauss':
        return
    psf = psf_of(spec)
    # the small psf noise is drawn from the caller's generator: bounded here
    for i, o in enumerate(zoo.epochs_of(obs)):
        r = Ref(o.image, o, psf)
        for k in sorted(got):
            n = zoo.epochs_of(got[k])[i]
            im, pim = r.typed(k, t['step'])
            ctx.count('reference_images')
            ctx.check(near(n.image, im), 'image', lambda: '%s%s epoch %d: '
                      'image differs from the reference by %g of its peak' % (
                          pre, k, i, np.abs(n.image - im).max() /
                          np.abs(im).max()))
            tol = 8.0 / 50000 * o.psf.image.max() / pim.max() + TOL
            ctx.check(near(n.psf.image, pim, tol), 'image', lambda: '%s%s '
                      'epoch %d: psf image differs from the reference by %g '
                      'of its peak' % (
                          pre, k, i, np.abs(n.psf.image - pim).max() /
                          np.abs(pim).max()))
            obj = getattr(n.psf, 'galsim_obj', None)
            if obj is not None:
                # the profile handed out along with it
                own = r.pim.copy()
                obj.drawImage(image=own, method='no_pixel')
                ctx.count('profiles')
                ctx.check(near(own.array, pim), 'image', lambda: '%s%s epoch '
                          '%d: the profile of the psf is not that of its '
                          'image' % (pre, k, i))


def complete(spec, ctx, obs, got, label):
    """whatever comes back after a fault is complete"""
    t = spec['t']
    must, may = wanted(t['types'], t['psf'])
    ctx.check(isinstance(got, dict), 'partial', lambda: 'got %r' % (got,))
    ctx.check(must <= set(got) <= may, 'partial', lambda: 'asked for %s, got '
              '%s although something failed' % (t['types'], sorted(got)))
    for k in sorted(got):
        ps = pairs(ctx, obs, got[k], k)
        for o, n in ps:
            w = o.weight / 2 if t['fixnoise'] else o.weight
            ctx.check(np.allclose(n.weight, w, rtol=1e-12, atol=0),
                      'partial', lambda: '%s: weights %s' % (k, label))


def execute_damaged(spec, ctx, obs, label):
    k = spec['damage'][0]['k']
    t = spec['t']
    if k == 'badtype':
        spec = dict(spec, t=dict(t, types=(t['types'] or []) + ['3p']))
    else:
        obs = damaged(obs, spec['damage'][0])
    ctx.fault('damage-' + k)
    before = canon(obs)
    try:
        got = request(spec, obs)
    except Exception as e:
        ctx.log('raised', type(e).__name__)
        ctx.state(label, k, type(e).__name__)
        d = diff(before, canon(obs))
        ctx.check(d is None, 'input-changed', lambda: '%s' % d)
        return
    # what has no answer is not answered
    bad = k in ('nopsf', 'badtype') or (k == 'nonoise' and t['use_noise']) \
        or (k == 'nonsquare' and t['fixnoise'])
    ctx.check(not bad, 'no-error', lambda: 'images made although %s' % k)
    ctx.count('nontrivial')
    complete(spec, ctx, obs, got, k)
    ctx.log('made', k)
    ctx.state(label, k, 'made')


def execute_faulty(spec, ctx, obs, label):
    n, plain = count_statements(lambda: request(spec, obs))
    at = 1 + int(spec['fault'] * n)
    before = canon(obs)
    tr, got, exc = run_with_fault(lambda: request(spec, obs), at,
                                  spec['exc'])
    ctx.step()
    if tr.fired:
        ctx.fault(spec['exc'])
    ctx.log(label, tr.where, type(exc).__name__)
    if exc is None:
        ctx.count('nontrivial')
        complete(spec, ctx, obs, got, '%s in %s' % (spec['exc'], tr.where))
    d = diff(before, canon(obs))
    ctx.check(d is None, 'input-changed', lambda: '%s' % d)
    # the next request is not affected
    again = request(spec, obs)
    for k in plain:
        d = diff(canon(plain[k]), canon(again[k]))
        ctx.check(d is None, 'left-over', lambda: 'after %s in %s: %s: %s' % (
            spec['exc'], tr.where, k, d))
    ctx.state(label, spec['exc'], tr.where)


# ---------------------------------------------------------------------------
# one maker, many calls

def maker(spec, obs):
    from ngmix.metacal import metacal
    rng = None if spec['norng'] else np.random.RandomState(spec['s'])
    p = spec['t']['psf']
    if p == 'dilate':
        return metacal.MetacalDilatePSF(obs)
    if p == 'gauss':
        return metacal.MetacalGaussPSF(obs, rng=rng)
    return metacal.MetacalAnalyticPSF(obs, psf_of(spec), rng=rng)


def one_call(m, c, step):
    import ngmix
    if c['m'] == 'all':
        return m.get_all(step=step, types=list(c['types']))
    sh = ngmix.Shape(*c['g'])
    if c['m'] == 'psf':
        return [m.get_obs_psfshear(sh)]
    if c['m'] == 'galun':
        return list(m.get_obs_galshear(sh, get_unsheared=True))
    return [m.get_obs_galshear(sh)]


def canon_call(r):
    if isinstance(r, dict):
        return zoo.canon_odict(r)
    return canon(r)


def execute_maker(spec, ctx):
    obs = zoo.make_data(spec['d'])
    step = spec['t']['step']
    before = canon(obs)
    m = maker(spec, obs)
    held = []
    for i, c in enumerate(spec['calls']):
        fresh = maker(spec, obs)
        if c['kill'] is not None:
            n, want = count_statements(lambda: one_call(fresh, c, step))
        else:
            n, want = None, one_call(fresh, c, step)
        want = canon_call(want)
        if n is not None:
            tr, _, e = run_with_fault(lambda: one_call(m, c, step),
                                      1 + int(c['kill'] * n), c['exc'])
            if tr.fired:
                ctx.fault(c['exc'])
            ctx.log(i, 'killed', tr.where)
        got = one_call(m, c, step)
        ctx.step()
        form = canon_call(got)
        d = diff(want, form)
        ctx.check(d is None, 'call-history', lambda: 'call %d (%s) differs '
                  'from the same call on a new maker: %s' % (i, c['m'], d))
        held.append((i, got, form))
        if isinstance(got, list) and i == 0 and spec['perm'] % 2 == 0:
            r = Ref(obs.image, obs, psf_of(spec))
            im, pim = r.images(c['g'], c['m'] == 'psf', c['m'] != 'psf')
            ctx.check(near(got[0].image, im), 'image', lambda: '%s %s: image '
                      'differs from the reference' % (c['m'], c['g']))
            if len(got) > 1:
                im, pim = r.images(c['g'], False, False)
                ctx.check(near(got[1].image, im), 'image', lambda: '%s %s: '
                          'unsheared image differs from the reference' % (
                              c['m'], c['g']))
        ctx.log(i, c['m'], c['g'])
        if i % 3 == 1:
            # what was handed out is the caller's
            for o in (got.values() if isinstance(got, dict) else got):
                with o.writeable():
                    o.image[:, :] = 7
                with o.psf.writeable():
                    o.psf.image[:, :] = 7
            held.pop()
    for i, got, form in held:
        d = diff(form, canon_call(got))
        ctx.check(d is None, 'result-changed', lambda: 'call %d: %s' % (i, d))
    d = diff(before, canon(obs))
    ctx.check(d is None, 'input-changed', lambda: '%s' % d)
    ctx.count('nontrivial')
    ctx.state('maker', spec['t']['psf'], tuple(
        (c['m'], tuple(c['g']), c['kill'] is not None)
        for c in spec['calls']))
