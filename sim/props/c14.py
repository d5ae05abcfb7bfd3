"""C14: samplers and guessers end, in bounds, allowed, of the asked shape"""
import numpy as np

from .. import samplers, world, zoo
from ..rngs import AdversarialRandomState

ID = 'C14'
RUNS = {'quick': 12000, 'thorough': 600000}
TECH = ('the random stream is the adversary: for a seeded number of calls it '
        'delivers legal extremes and repeats, then ordinary values; draws and '
        'guesses must end within a number of calls, in the asked shape, '
        'within support and limits, and allowed by the prior')
RULE = ('a run is a few draws from one sampler, or a few guesses, from a '
        'stream whose first calls are chosen by a seeded script. '
        'Non-trivial: at least one unlikely value was delivered')
STATE_MEASURE = 'signature (sampler or guesser, method, script, size)'
REAL = ['ngmix.priors', 'ngmix.joint_prior', 'ngmix.guessers',
        'ngmix.fitting (psf fluxes of guesses)']
STUB = ['the random stream (scripted, then MT19937)']
ASSUME = ['normal deviates stay within 8.2 sigma',
          'a draw at the very edge of a disc counts as inside to 1e-12']
TIME_UNIT = 'random calls'

CODES = ['lo', 'hi', 'mid', 'rep', 'tail', 'ntail', 'mix', 'ord']
GUESSERS = ['tflux', 'tpsf', 'tpsfprior', 'tfluxprior', 'bdfpsf', 'bdf',
            'bd', 'pars', 'r50', 'nu', 'prior', 'gmixpsf', 'simplepsf',
            'coellippsf', 'shape', 'srandu']
PSFG = ('gmixpsf', 'simplepsf', 'coellippsf')


def warm():
    import random
    r = random.Random(4)
    for _ in range(60):
        try:
            execute(generate(r, 'quick'), _Null())
        except Exception:
            pass


class _Null(object):
    def __getattr__(self, k):
        return lambda *a, **kw: None


def r3(x):
    return round(x, 3)


def generate(rng, tier):
    spec = dict(s=rng.randrange(1 << 31),
                script=[rng.choice(CODES) for _ in range(
                    rng.choice([1, 1, 2, 3, 5, 8]))],
                nbad=rng.choice([1, 2, 3, 5, 8, 20, 60]))
    if rng.random() < 0.5:
        p = samplers.gen(rng)
        spec.update(kind='draw', k=p['k'], t=p['t'], calls=[
            dict(m=rng.choice(samplers.KINDS[p['k']].methods),
                 n=(p['n'] if i == 0 else rng.choice([1, 2, 7, 40]))
                 if rng.random() < 0.88 or p['k'] in ('joint', 'kde') else 1700)
            for i in range(rng.choice([1, 1, 2, 3]))])
        return spec
    k = rng.choice(GUESSERS)
    nb = rng.choice([1, 2, 3])
    if k in PSFG:
        nb = 1
    t = dict(nb=nb, T=rng.choice([0.6, 0.6, 1e-3, 30.0, -0.5, 1e6]),
             F=[rng.choice([100.0, 100.0, -5.0, 1e-3, 1e7])
                for _ in range(nb)],
             ng=rng.choice([1, 2, 3, 4, 5]), moms=rng.random() < 0.5,
             nu=rng.choice([0.5, -0.99, 3.5, -2.0, 9.0, 0.0, -0.9]),
             g=[r3(rng.uniform(-.7, .7)), r3(rng.uniform(-.7, .7))]
             if rng.random() < .8 else
             [r3(rng.uniform(-1.6, 1.6)), r3(rng.uniform(-1.6, 1.6))],
             width=rng.choice([None, 0.05, 0.5]),
             prior=None)
    if k in ('tpsfprior', 'tfluxprior', 'bdfpsf', 'bdf', 'bd', 'prior') or \
            rng.random() < 0.7:
        t['prior'] = dict(
            cen=rng.choice([0.01, 1.0]),
            g=rng.choice(['ba0.05', 'ba0.3', 'disk0.01', 'disk0.3',
                          'gauss0.2']),
            T=rng.choice(['flat', 'flat-narrow', 'erf', 'normal',
                          'lognormal', 'trunc']),
            F=rng.choice(['flat', 'flat-narrow', 'erf', 'normal',
                          'lognormal', 'trunc']),
            fd=rng.choice(['normal', 'flat-fd', 'trunc-fd']))
        if k == 'prior' and t['prior']['g'].startswith('gauss'):
            t['prior']['g'] = 'ba0.3'
        if t['prior']['g'].startswith('gauss'):
            # no log probability of its own
            t['prior']['g'] = 'disk0.3'
    spec.update(kind='guess', k=k, t=t, calls=[
        rng.choice([1, 1, 2, 5, 20]) for _ in range(rng.choice([1, 2]))])
    if k in ('tpsf', 'tpsfprior', 'bdfpsf') or k in PSFG:
        d = zoo.data_spec(rng, kind='obs' if nb == 1 else 'mb')
        if nb > 1:
            d['bands'] = (d['bands'] * 3)[:nb]
        spec['d'] = d
        spec['badband'] = rng.randrange(nb) if rng.random() < 0.25 else None
    return spec


def shrink(spec):
    if len(spec['script']) > 1:
        for c in spec['script']:
            yield dict(spec, script=[c])
    for n in (1, 2, 3, 5, 8):
        if n < spec['nbad']:
            yield dict(spec, nbad=n)
    if 'd' in spec:
        for d in zoo.shrink_data(spec['d']):
            if zoo.nband(d) == spec['t']['nb']:
                yield dict(spec, d=d)


KEEP = ('calls', 'script')


FRANGE = [(1.0, 1000.0), (500.0, 9000.0), (0.01, 3.0)]


def part(name, rng, lo, hi):
    """a one-dimensional prior on roughly lo..hi"""
    from ngmix import priors as P
    mid = 0.5 * (lo + hi)
    w = hi - lo
    if name == 'flat':
        return P.FlatPrior(lo, hi, rng=rng)
    if name == 'flat-narrow':
        return P.FlatPrior(mid, mid + 1e-3 * w, rng=rng)
    if name == 'erf':
        return P.TwoSidedErf(lo, 0.05 * w, hi, 0.05 * w, rng=rng)
    if name == 'normal':
        return P.Normal(mid, 0.3 * w, rng=rng)
    if name == 'lognormal':
        return P.LogNormal(abs(mid) + 0.1 * w, 0.3 * w, rng=rng)
    if name == 'trunc':
        return P.TruncatedGaussian(mid, 0.3 * w, lo, hi, rng=rng)
    if name == 'bounded':
        return P.Bounded1D(P.Normal(mid, 0.3 * w, rng=rng), (lo, hi))
    raise ValueError(name)


def joint(t, k, rng):
    import ngmix
    from ngmix import priors as P
    p = t['prior']
    cen = P.CenPrior(0.0, 0.0, p['cen'], p['cen'], rng=rng)
    v = float(p['g'].lstrip('badiskgu'))
    if p['g'].startswith('ba'):
        g = P.GPriorBA(v, rng=rng)
    else:
        g = P.ZDisk2D(v, rng=rng)
    T = part(p['T'], rng, 0.05, 10.0)
    # each band has its own range
    Fs = [part(p['F'], rng, *FRANGE[b]) for b in range(t['nb'])]
    F = Fs if t['nb'] > 1 else Fs[0]
    fd = {'normal': P.Normal(0.5, 0.1, rng=rng),
          'flat-fd': P.FlatPrior(0.0, 1.0, rng=rng),
          'trunc-fd': P.TruncatedGaussian(0.5, 0.1, 0.45, 0.55, rng=rng)
          }[p['fd']]
    J = ngmix.joint_prior
    extra = []
    if k in ('bdf', 'bdfpsf'):
        extra, out = [fd], J.PriorBDFSep(cen, g, T, fd, F)
    elif k == 'bd':
        extra = [P.Normal(0.4, 0.3, rng=rng), fd]
        out = J.PriorBDSep(cen, g, T, *extra, Fs)
    elif k == 'r50':
        out = J.PriorGalsimSimpleSep(cen, g, T, F)
    elif k == 'nu':
        extra = [part('flat', rng, -0.8, 3.4)]
        out = J.PriorSpergelSep(cen, g, T, *extra, F)
    else:
        out = J.PriorSimpleSep(cen, g, T, F)
    out.sim_parts = [T] + extra + Fs
    return out


def stream(spec):
    rng = AdversarialRandomState(spec['s']).setup(
        spec['script'], spec['nbad'])
    return rng


def budget(n):
    return 60000 + 2000 * n


def execute(spec, ctx):
    rng = stream(spec)
    if spec['kind'] == 'draw':
        run_draw(spec, ctx, rng)
    else:
        run_guess(spec, ctx, rng)
    bad = sum(rng.used.values()) if hasattr(rng, 'used') else 0
    if bad:
        ctx.count('nontrivial')
    for c, n in sorted(rng.used.items()):
        ctx.fault('stream-' + c, n)
    ctx.step(rng.ncalls)
    ctx.log(rng.ncalls)


def run_draw(spec, ctx, rng):
    k = samplers.KINDS[spec['k']]
    obj = k.make(spec['t'], rng)
    for i, c in enumerate(spec['calls']):
        m = c['m']
        n = samplers.number_of(dict(c, k=spec['k']))
        rng.limit = rng.ncalls + spec['nbad'] + budget(n or 1)
        what = '%s.%s(%s) from %s' % (spec['k'], m, n, spec['script'])
        v = samplers.draw(dict(k=spec['k'], m=m, n=n), obj)
        two = k.ndim == 2 or m.startswith('sample2d') or (
            spec['k'] == 'cen')
        if spec['k'] in ('joint', 'kde', 'gmixnd'):
            shapes = [np.shape(v)]
            want = joint_shape(spec, n, obj)
            ctx.check(shapes[0] == want, 'shape', lambda: '%s has shape %s, '
                      'expected %s' % (what, shapes[0], want))
            ok = k.inside(spec['t'], obj, m, np.asarray(v))
        elif two:
            ctx.check(isinstance(v, tuple) and len(v) == 2, 'shape',
                      lambda: '%s gives %r' % (what, type(v)))
            want = () if n is None else (n,)
            ctx.check(np.shape(v[0]) == want and np.shape(v[1]) == want,
                      'shape', lambda: '%s has shapes %s' % (
                          what, [np.shape(x) for x in v]))
            ok = k.inside(spec['t'], obj, m, (np.asarray(v[0]),
                                              np.asarray(v[1])))
            ok = np.atleast_1d(ok) & np.atleast_1d(
                np.isfinite(v[0]) & np.isfinite(v[1]))
        else:
            want = () if n is None else (n,)
            ctx.check(np.shape(v) == want, 'shape', lambda: '%s has shape '
                      '%s, expected %s' % (what, np.shape(v), want))
            ok = np.atleast_1d(k.inside(spec['t'], obj, m, np.asarray(v)))
            ok = ok & np.atleast_1d(np.isfinite(v))
        ctx.check(np.all(ok), 'outside', lambda: '%s: %s' % (what, v))
        ctx.log(what, np.shape(v))
        ctx.state(spec['k'], m, n, tuple(spec['script']), i)


def joint_shape(spec, n, obj):
    t = spec['t']
    if spec['k'] == 'joint':
        if t['prior'].endswith('-co'):
            npar = 4 + 2 * t['nb']
            return (npar,) if n is None else (n, npar)
        npar = {'bdf': 6, 'bd': 7, 'sp': 6}.get(
            t['prior'].split('-')[-1] if '-' in t['prior'] else '', 5)
        npar += t['nb']
        return (npar,) if n is None else (n, npar)
    if t['nd'] == 1:
        return () if n is None else (n,)
    return (t['nd'],) if n is None else (n, t['nd'])


# ---------------------------------------------------------------------------

def make_guesser(spec, rng):
    import ngmix
    G = ngmix.guessers
    k, t = spec['k'], spec['t']
    prior = joint(t, k, rng) if t['prior'] else None
    T, F = t['T'], t['F']
    if k == 'tflux':
        return G.TFluxGuesser(rng=rng, T=T, flux=F, prior=prior), prior
    if k == 'tpsf':
        return G.TPSFFluxGuesser(rng=rng, T=T, prior=prior), prior
    if k == 'tpsfprior':
        return G.TPSFFluxAndPriorGuesser(rng=rng, T=T, prior=prior), prior
    if k == 'tfluxprior':
        return G.TFluxAndPriorGuesser(rng=rng, T=T, flux=F,
                                      prior=prior), prior
    if k == 'bdfpsf':
        return G.BDFPSFFluxGuesser(T=T, prior=prior), prior
    if k == 'bdf':
        return G.BDFGuesser(T=T, flux=F, prior=prior), prior
    if k == 'bd':
        return G.BDGuesser(T=T, flux=F, prior=prior), prior
    if k == 'pars':
        pars = [0.01, -0.02] + t['g'] + [T] + F
        w = None if t['width'] is None else [t['width']] * len(pars)
        return G.ParsGuesser(rng=rng, pars=pars, prior=prior,
                             widths=w), prior
    if k == 'r50':
        return G.R50FluxGuesser(rng=rng, r50=abs(T), flux=F,
                                prior=prior), prior
    if k == 'nu':
        return G.R50NuFluxGuesser(rng=rng, r50=abs(T), nu=t['nu'], flux=F,
                                  prior=prior), prior
    if k == 'prior':
        return G.PriorGuesser(prior=prior), prior
    if k == 'gmixpsf':
        return G.GMixPSFGuesser(rng=rng, ngauss=t['ng'],
                                guess_from_moms=t['moms']), None
    if k == 'simplepsf':
        return G.SimplePSFGuesser(rng=rng, guess_from_moms=t['moms']), None
    return G.CoellipPSFGuesser(rng=rng, ngauss=t['ng'],
                               guess_from_moms=t['moms']), None


NPAR = {'bdf': 6, 'bdfpsf': 6, 'bd': 7, 'nu': 6}


def allowed(prior, p):
    # a shape at the very edge of its disc counts as inside
    return _allowed(prior, p) or _allowed(prior, np.concatenate(
        [p[:2], p[2:4] * (1 - 1e-12), p[4:]]))


def _allowed(prior, p):
    from ngmix.gexceptions import GMixRangeError
    try:
        lnp = prior.get_lnprob_scalar(p)
        # the same from its separate parts
        lnp = min(lnp, sum(x.get_lnprob_scalar(v) for x, v in zip(
            prior.sim_parts, p[4:])))
    except GMixRangeError:
        return False
    # the package's own "as good as zero"
    return np.isfinite(lnp) and lnp > -9999.0e47


def kept(spec, ctx, n, v, prior, obs, what):
    """what was allowed before the repair is returned as it was drawn"""
    k, t = spec['k'], spec['t']
    if prior is None or k not in ('tflux', 'tpsf', 'r50', 'nu', 'pars') or (
            k == 'pars' and t['width'] is None):
        return
    rng = stream(spec)
    rng.limit = spec['nbad'] + budget(n)
    if t['prior']:
        joint(t, k, rng)
    g, _ = make_guesser(dict(spec, t=dict(t, prior=None)), rng)
    raw = np.atleast_2d(g(obs=obs, nrand=n) if k == 'tpsf' else g(nrand=n))
    v = np.atleast_2d(v)
    for a, b in zip(raw, v):
        if _allowed(prior, a):
            ctx.count('kept')
            ctx.check(np.array_equal(a, b), 'allowed-guess-replaced',
                      lambda: '%s: %s became %s' % (what, list(a), list(b)))


def run_guess(spec, ctx, rng):
    import ngmix
    from ngmix.gexceptions import GMixRangeError, PSFFluxFailure
    k, t = spec['k'], spec['t']
    if k == 'srandu':
        for n in spec['calls']:
            rng.limit = rng.ncalls + spec['nbad'] + budget(n)
            v = ngmix.priors.srandu(n, rng=rng)
            ctx.check(np.shape(v) == (n,) and (np.abs(v) <= 1).all(),
                      'outside', lambda: 'srandu(%d): %s' % (n, v))
            v = ngmix.priors.srandu(rng=rng)
            ctx.check(np.shape(v) == () and abs(v) <= 1, 'outside',
                      lambda: 'srandu(): %s' % v)
        return
    if k == 'shape':
        w = t['width'] or 0.1
        for n in spec['calls']:
            rng.limit = rng.ncalls + spec['nbad'] + budget(n)
            v = ngmix.guessers.get_shape_guess(
                rng=rng, g1=t['g'][0], g2=t['g'][1], nrand=n, width=[w, w])
            ctx.check(v.shape == (n, 2) and (np.hypot(*v.T) < 1).all(),
                      'outside', lambda: 'get_shape_guess(%s, %d): %s' % (
                          t['g'], n, v))
        ctx.state(k, tuple(t['g']), tuple(spec['script']))
        return
    guesser, prior = make_guesser(spec, rng)
    obs = None
    if 'd' in spec:
        obs = zoo.make_data(spec['d'], psfg=True)
        if spec['badband'] is not None and k not in PSFG:
            for o in (obs[spec['badband']] if t['nb'] > 1 else [obs]):
                o.weight = o.weight * 0 if False else o.weight
                o.image = o.image * np.nan
    for n in spec['calls']:
        rng.limit = rng.ncalls + spec['nbad'] + budget(n)
        what = '%s guesser, %d from %s' % (k, n, spec['script'])
        start = rng.ncalls
        try:
            if k in PSFG:
                v = guesser(obs=obs)
            elif k in ('tpsf', 'tpsfprior', 'bdfpsf'):
                v = guesser(obs=obs, nrand=n)
            else:
                v = guesser(nrand=n)
        except PSFFluxFailure:
            ctx.check(spec.get('badband') is not None and t['nb'] == 1,
                      'refused', lambda: what)
            ctx.log(what, 'no psf fluxes')
            continue
        except GMixRangeError as e:
            if k in PSFG or prior is None:
                raise
            # repair reported as failed
            ctx.log(what, 'repair failed', str(e))
            ctx.count('repair_failed')
            continue
        # an own draw could still be at the edge when the script ended late
        ordinary = rng.ncalls > spec['nbad'] or start > spec['nbad']
        check_guess(spec, ctx, k, t, n, v, prior, obs, what, ordinary)
        if start == 0:
            kept(spec, ctx, n, v, prior, obs, what)
        ctx.log(what, np.shape(v) if not hasattr(v, 'get_full_pars') else
                'gmix')
    ctx.state(k, t['prior'] and tuple(sorted(t['prior'].items())),
              tuple(spec['script']), t['T'])


def near_pars(ctx, t, rows, what):
    """no further from the parameters than the widths"""
    w = 0.1 if t['width'] is None else t['width']
    wc = 0.02 if t['width'] is None else w
    e = 1e-9
    ok = np.all(np.abs(rows[:, :2] - [0.01, -0.02]) <= wc * (1 + e) + e)
    ref = np.array([t['T']] + list(t['F']))
    ok &= np.all(np.abs(rows[:, 4:] - ref) <= np.abs(ref) * w * (1 + e))
    g = complex(*t['g'])
    if abs(g) > 0.8:
        # brought back inside
        g *= 0.8 / abs(g)
    g1 = rows[:, 2] + 1j * rows[:, 3]
    # the shear that takes one to the other
    c, d = g * g1, g1 - g
    s = (d + c * np.conj(d)) / (1 - np.abs(c) ** 2)
    ok &= np.all(np.maximum(np.abs(s.real), np.abs(s.imag)) <= w + 1e-6)
    ctx.check(ok, 'outside', lambda: '%s: %s from %s %s, widths %s' % (
        what, rows, t['g'], ref, w))


def check_guess(spec, ctx, k, t, n, v, prior, obs, what, ordinary):
    import ngmix
    if k == 'gmixpsf':
        ctx.check(isinstance(v, ngmix.GMix) and len(v) == t['ng'], 'shape',
                  lambda: '%s: %r' % (what, v))
        flux = obs.image.sum()
        p = v.get_full_pars().reshape(-1, 6)
        ctx.check(np.isfinite(p).all(), 'outside', lambda: what)
        ctx.check((np.abs(p[:, 1:3]) <= 0.1).all(), 'outside',
                  lambda: '%s: centers %s' % (what, p[:, 1:3]))
        det = p[:, 3] * p[:, 5] - p[:, 4] ** 2
        ctx.check((det > 0).all() and (p[:, 3] > 0).all() and
                  (p[:, 5] > 0).all(), 'outside',
                  lambda: '%s: not a gaussian: %s' % (what, p))
        ctx.check((np.sign(p[:, 0]) == np.sign(flux)).all(), 'outside',
                  lambda: '%s: fluxes %s' % (what, p[:, 0]))
        return
    if k in ('simplepsf', 'coellippsf'):
        npar = 6 if k == 'simplepsf' else 4 + 2 * t['ng']
        ctx.check(np.shape(v) == (npar,), 'shape', lambda: '%s: %s' % (
            what, np.shape(v)))
        ctx.check(np.isfinite(v).all() and (np.abs(v[:2]) <= 0.1).all() and
                  (np.abs(v[2:4]) <= 0.1).all() and (v[4:] > 0).all(),
                  'outside', lambda: '%s: %s' % (what, v))
        return
    npar = NPAR.get(k, 5) + t['nb']
    want = (npar,) if n == 1 and k not in ('pars', 'prior') else (n, npar)
    ctx.check(np.shape(v) == want, 'shape', lambda: '%s has shape %s, '
              'expected %s' % (what, np.shape(v), want))
    rows = np.atleast_2d(v)
    ctx.check(np.isfinite(rows).all(), 'outside', lambda: '%s: %s' % (
        what, rows))
    ctx.check((np.hypot(rows[:, 2], rows[:, 3]) < 1).all(), 'outside',
              lambda: '%s: shapes %s' % (what, rows[:, 2:4]))
    if prior is not None:
        if not ordinary:
            return
        for p in rows:
            ctx.check(allowed(prior, p), 'forbidden', lambda: '%s: %s has no '
                      'probability in the prior' % (what, list(p)))
        return
    if k == 'pars':
        near_pars(ctx, t, rows, what)
    if k in ('tflux', 'tpsf', 'r50', 'nu'):
        T = t['T'] if k in ('tflux', 'tpsf') else abs(t['T'])
        e = 1e-12
        ctx.check((np.abs(rows[:, :2]) <= 0.01 * (1 + e)).all() and
                  (np.abs(rows[:, 2:4]) <= 0.02 * (1 + e)).all() and
                  (np.abs(rows[:, 4] / T - 1) <= 0.1 * (1 + e)).all(),
                  'outside', lambda: '%s: %s' % (what, rows))
        if k == 'nu':
            g = ngmix.guessers.R50NuFluxGuesser
            ctx.check(((rows[:, 5] > g.NUMIN) & (rows[:, 5] < g.NUMAX)).all(),
                      'outside', lambda: '%s: nu %s' % (what, rows[:, 5]))
        if k != 'tpsf':
            f = rows[:, npar - t['nb']:] / np.array(t['F'])
            ctx.check((np.abs(f - 1) <= 0.1 * (1 + e)).all(), 'outside',
                      lambda: '%s: fluxes %s' % (what, f))


assert world  # noqa
