"""C08: success comes with usable numbers; what cannot be measured is flagged"""
import numpy as np

from .. import zoo
from ..inject import count_statements, run_with_fault

ID = 'C08'
RUNS = {'quick': 5000, 'thorough': 120000}
RULE = ('a run is one measuring operation on generated data that may be '
        'damaged (non-finite, huge, tiny, negative, empty or noisy pixels, '
        'degenerate weights, ruined point-spread images), from guesses that '
        'may be hopeless (non-finite, negative sizes, shapes outside the '
        'unit disc, out of the prior), with iteration budgets that may be '
        'tiny, and in part of the runs a model that leaves its range at a '
        'statement chosen by the seed; the outcome must be a consistent '
        'success, a flag, or a documented error. Non-trivial: something was '
        'damaged, starved or injected')
STATE_MEASURE = 'signature (operation, damage, guess, starved, outcome)'
REAL = ['ngmix (fitters, moments, adaptive moments, em, pre-seeing moments, '
        'bootstraps, runners, guessers)', 'scipy', 'galsim', 'numba']
STUB = []
ASSUME = ['pixel values and weights within 1e-66 .. 1e66, or not finite',
          'a point-spread image whose transform has an exact zero may be '
          'reported as the ZeroDivisionError of the deconvolution',
          'errors of galsim about unusable images count as documented for '
          'the galsim fitters', 'fewer data than parameters may be reported '
          'as the TypeError of the minimiser',
          'shear response images of a ruined point-spread image may fail '
          'with the ValueError of an empty reduction']
OPSET = ['fit', 'coellip', 'psfflux', 'gsfit', 'gspsfflux', 'em', 'admom',
         'run_admom', 'findcen', 'gaussmom', 'premom', 'boot', 'mboot',
         'runpsf', 'wmom']
KINDS = (['nanpix', 'infpix', 'bigpix', 'negative', 'zero', 'noise', 'small',
          'big', 'hot'] * 2
         + ['wnan', 'winf', 'wneg', 'wsmall', 'wbig', 'wone', 'wmost']
         + ['pnanpix', 'pzero', 'pnoise', 'pnegative', 'pbigpix', 'psmall'])
GUESS = ['nan', 'inf', 'g1', 'negT', 'zeroT', 'tinyT', 'hugeT', 'far',
         'zeroF', 'negF', 'hugeF', 'bound']
GMGUESS = ['nan', 'negT', 'tinyT', 'hugeT', 'far', 'zeroF', 'negF', 'det']


def warm():
    zoo.warm()


EXACT = ['gaussmom', 'wmom', 'admom', 'run_admom']


def generate_exact(rng):
    """images so symmetric that some sums are exactly zero"""
    op = zoo.OPS[rng.choice(EXACT)]
    p = op.gen(rng)
    d = p['d']
    ep = d['bands'][0][0]
    ep['dims'] = [21, 21]
    ep['jac'].update(kind='diag', off=[0.0, 0.0])
    ep.pop('pjac', None)
    ep['wt'] = 'flat'
    if 'g' in d:
        d['g']['j'] = [0.0] * len(d['g']['j'])
    d['gk'] = 'gmix'
    p['t'].pop('maxiter', None)
    if 'shiftmax' in p['t']:
        p['t']['maxiter'] = 200
    a = [round(rng.uniform(.2, 1), 3) for _ in range(3)]
    k = rng.choice(['all', 'same', 'row', 'col', 'point', 'tilt', 'noise'])
    if k == 'same':
        a[1] = a[0]
    elif k == 'row':
        a[1] = a[2] = 0.0
    elif k == 'col':
        a[0] = a[2] = 0.0
    elif k == 'point':
        a = [0.0, 0.0, 0.0]
    return dict(p=p, damage=[], guess=None, starve=None, fault=None,
                exact=dict(k=k, a=a))


def generate_direct(rng):
    """sums and covariances as they may reach the statistics"""
    n = rng.choice([6, 6, 17])
    which = rng.choice(['mom', 'mom', 'mom', 'admom'])
    if which == 'admom':
        n = 7
    bad = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        bad.append([rng.choice(['var', 'var', 'sum', 'cov']),
                    rng.randrange(2, min(n, 7)), rng.randrange(2, min(n, 7)),
                    rng.choice(['nan', 'zero', 'neg', 'tiny'])])
        if which == 'mom' and bad[-1][0] == 'var' and rng.random() < .4:
            bad[-1][1] = rng.randrange(n)
    return dict(direct=which, n=n, s=rng.randrange(1 << 30), bad=bad)


def generate(rng, tier):
    x = rng.random()
    if x < .08:
        return generate_direct(rng)
    if x < .15:
        return generate_exact(rng)
    op = zoo.pick(rng, OPSET)
    p = op.gen(rng)
    spec = dict(p=p, damage=[], guess=None, starve=None, fault=None)
    mode = rng.choice(['damage', 'damage', 'damage', 'guess', 'starve',
                       'range', 'none', 'mixed'])
    if mode in ('damage', 'mixed'):
        spec['damage'] = zoo.damage_spec(
            rng, rng.choice([1, 1, 2, 3]), KINDS)
    if mode in ('guess', 'mixed') and op.name in (
            'fit', 'coellip', 'gsfit', 'em', 'admom', 'run_admom'):
        spec['guess'] = rng.choice(
            GUESS if op.name in ('fit', 'coellip', 'gsfit') else GMGUESS)
    if mode in ('starve', 'mixed') and op.name in (
            'fit', 'coellip', 'gsfit', 'em', 'admom', 'run_admom', 'boot',
            'runpsf', 'mboot'):
        spec['starve'] = rng.choice([1, 2, 3, 5, 9])
        if op.name in ('boot', 'runpsf', 'mboot'):
            p['t']['starve'] = spec['starve']
        elif op.name in ('fit', 'coellip', 'gsfit'):
            pass
        else:
            p['t']['maxiter'] = spec['starve']
    if mode == 'range':
        spec['fault'] = round(rng.random(), 6)
    return spec


def shrink(spec):
    if 'direct' in spec:
        return
    for d in zoo.shrink_data(spec['p']['d']):
        yield dict(spec, p=dict(spec['p'], d=d))


def bad_guess(name, g, k, scale):
    """make a guess hopeless"""
    import ngmix
    if isinstance(g, ngmix.GMix):
        pars = g.get_full_pars().reshape(-1, 6)
        if k == 'nan':
            pars[0, 3] = np.nan
        elif k == 'negT':
            pars[:, 3:6] *= -1
        elif k == 'tinyT':
            pars[:, 3:6] *= 1e-12
        elif k == 'hugeT':
            pars[:, 3:6] *= 1e8
        elif k == 'far':
            pars[:, 1:3] += 1e4 * scale
        elif k == 'zeroF':
            pars[:, 0] = 0.0
        elif k == 'negF':
            pars[:, 0] *= -1
        elif k == 'det':
            pars[0, 4] = np.sqrt(abs(pars[0, 3] * pars[0, 5]))
        return ngmix.GMix(pars=pars.ravel())
    if np.ndim(g) == 0:
        return {'nan': np.nan, 'negT': -g, 'tinyT': g * 1e-12,
                'hugeT': g * 1e8}.get(k, 0.0)
    g = np.array(g, dtype='f8')
    if k == 'nan':
        g[4] = np.nan
    elif k == 'inf':
        g[5] = np.inf
    elif k == 'g1':
        g[2:4] = 0.9, 0.8
    elif k == 'negT':
        g[4] *= -1
    elif k == 'zeroT':
        g[4] = 0.0
    elif k == 'tinyT':
        g[4] *= 1e-10
    elif k == 'hugeT':
        g[4] *= 1e8
    elif k == 'far':
        g[0:2] += 1e4 * scale
    elif k == 'zeroF':
        g[5:] = 0.0
    elif k == 'negF':
        g[5:] *= -1
    elif k == 'hugeF':
        g[5:] *= 1e30
    elif k == 'bound':
        g[4:] = -1e7
    return g


def allowed_error(e, opname, t, spec):
    import ngmix
    if isinstance(e, ngmix.gexceptions.NGmixBaseException):
        return True
    s = str(e)
    if opname in ('boot', 'mboot') and not t['ignore'] and isinstance(
            e, (ValueError, RuntimeError)) and (
                'neither gmix' in s or 'not set' in s or 'no gmix' in s
                or 'has no' in s or 'has not' in s):
        return True
    if 'galsim' in type(e).__module__:
        return True
    kinds = [d['k'] for d in spec['damage']]
    if (isinstance(e, ZeroDivisionError) and opname == 'premom'
            and any(k[0] == 'p' for k in kinds)):
        return True
    if isinstance(e, TypeError) and 'Improper input' in s:
        return True
    if (isinstance(e, ValueError) and opname == 'mboot'
            and 'zero-size array' in s
            and any(k in ('pnanpix', 'pbigpix', 'pnegative', 'pzero',
                          'pnoise') for k in kinds)):
        # the size of a point-spread image without any power
        return True
    return False


def finite(x):
    return bool(np.all(np.isfinite(np.asarray(x, dtype='f8'))))


class Judge(object):
    ranged = False

    def __init__(self, ctx, what, clean):
        self.ctx, self.what, self.clean = ctx, what, clean

    def ok(self, cond, kind, detail=''):
        self.ctx.check(bool(cond), kind, lambda: '%s: %s' % (
            self.what, detail() if callable(detail) else detail))

    def finite(self, res, *names):
        for n in names:
            if n in res and res[n] is not None:
                self.ok(finite(res[n]), 'success-not-finite',
                        lambda: '%s = %s' % (n, res[n]))

    def near(self, a, b, kind, detail, rtol=1e-7, atol=0.0):
        self.ok(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True),
                kind, lambda: '%s: %s vs %s' % (detail, a, b))

    def cov(self, err, cov, name, zero_ok=False):
        # the ratio of two moments of data with one good pixel is exact
        cov = np.atleast_2d(cov)
        d = np.diag(cov)
        self.ok(finite(cov) and finite(err), 'success-not-finite',
                lambda: '%s covariance' % name)
        self.ok(np.all(d >= 0 if zero_ok else d > 0),
                'success-without-variance', lambda: '%s variances %s' % (name, d))
        self.near(np.atleast_1d(err) ** 2, d, 'inconsistent',
                  name + ' errors and covariance', rtol=1e-6)

    # -- least squares
    def lm(self, res, limit, prior, nobs_pix=None):
        npar = len(res['pars'])
        if limit is not None and res.get('nfev', 0) >= 0:
            self.ok(res['nfev'] <= limit + 2 * npar + 4, 'over-limit',
                    lambda: '%d evaluations, limit %d' % (res['nfev'],
                                                          limit))
        if res['flags'] != 0:
            return
        self.finite(res, 'pars', 'pars_err', 'pars_cov', 'pars_cov0', 'dof')
        if self.ranged and res.get('lnprob', 0.0) == -np.inf:
            # a model that is in range when fitted and out of range when
            # the same parameters are evaluated for the statistics: no
            # real model is, so the statistics may say so
            return
        self.finite(res, 'lnprob', 'chi2per', 's2n', 's2n_w', 's2n_r')
        z = res.get('chi2per') == 0.0     # nothing left to estimate from
        self.cov(res['pars_err'], res['pars_cov'], 'pars', z)
        p = np.asarray(res['pars'])
        if 'g' in res:
            self.ok(finite(res['g']), 'success-not-finite', 'g')
            self.near(res['g'], p[2:4], 'inconsistent', 'g')
            self.cov(res['g_err'], res['g_cov'], 'g', z)
            self.ok(np.hypot(*res['g']) < 1, 'shape-out-of-range',
                    lambda: res['g'])
        if 'T' in res:
            self.near(res['T'], p[4], 'inconsistent', 'T')
            self.near(res['T_err'] ** 2, res['pars_cov'][4, 4],
                      'inconsistent', 'T error', rtol=1e-6)
        if 'flux' in res:
            nb = np.size(res['flux'])
            self.near(res['flux'], p[-nb:] if nb > 1 else p[-1],
                      'inconsistent', 'flux')
            self.finite(res, 'flux_err')
            e = np.diag(res['pars_cov'])[-nb:]
            self.near(np.atleast_1d(res['flux_err']) ** 2, e,
                      'inconsistent', 'flux error', rtol=1e-6)
            if nb > 1:
                self.near(res['flux_cov'], res['pars_cov'][-nb:, -nb:],
                          'inconsistent', 'flux covariance')
        if 'dof' in res:
            self.ok(res['dof'] > 0, 'inconsistent', lambda: 'dof %s' %
                    res['dof'])
        if prior is not None and getattr(prior, 'bounds', None) is not None:
            for v, b in zip(p, prior.bounds):
                if b[0] is not None:
                    self.ok(v >= b[0] - 1e-9 * (1 + abs(b[0])),
                            'out-of-bounds', lambda: '%s %s' % (v, b))
                if b[1] is not None:
                    self.ok(v <= b[1] + 1e-9 * (1 + abs(b[1])),
                            'out-of-bounds', lambda: '%s %s' % (v, b))

    def chi2(self, res, obs):
        """the stated fit quality is that of the stated model"""
        import ngmix
        tot = npix = 0
        inside = 1.0
        num = den = 0.0
        mb = ngmix.observation.get_mb_obs(obs)
        for b, ol in enumerate(mb):
            for i, o in enumerate(ol):
                m = res.make_image(band=b, obsnum=i)
                w = o.weight > 0
                c2 = (o.image - m)[w] ** 2 * o.weight[w]
                tot += c2.sum()
                npix += w.sum()
                num += ((o.image * m)[w] * o.weight[w]).sum()
                den += (m[w] ** 2 * o.weight[w]).sum()
                F = np.atleast_1d(res['flux'])[b]
                inside = min(inside, abs(m.sum()) / max(abs(F), 1e-99))
        self.near(res['dof'], npix - len(res['pars']), 'inconsistent',
                  'degrees of freedom')
        self.near(res['npix'], npix, 'inconsistent', 'pixels')
        if den > 0 and self.clean and inside > 0.3:
            # the same mixtures are evaluated, but fits cut off the tails
            self.near(res['s2n'], num / np.sqrt(den), 'inconsistent', 's2n',
                      rtol=1e-2)
        return tot / (npix - len(res['pars'])) if inside > 0.3 else None

    # -- mixtures
    def mixture(self, res, must):
        """any mixture given has finite numbers"""
        if not hasattr(res, 'get_gmix'):
            return
        nb = getattr(res, 'nband', None) or 1
        for b in range(nb):
            try:
                try:
                    gm = res.get_gmix(band=b)
                except TypeError:
                    gm = res.get_gmix()
            except Exception:
                self.ok(not must, 'no-mixture', 'a success gives no mixture')
                continue
            f = finite(gm.get_full_pars())
            if must:
                self.ok(f, 'mixture-not-finite', lambda: gm.get_full_pars())

    # -- moments
    def moms(self, r, sums=True):
        if r.get('flux_flags', 0) == 0 and 'flux_flags' in r:
            self.finite(r, 'flux', 'flux_err', 's2n')
            self.ok(r['flux_err'] > 0, 'success-without-variance', 'flux')
            self.near(r['s2n'], r['flux'] / r['flux_err'], 'inconsistent',
                      's2n', rtol=1e-6)
        if r.get('T_flags', 0) == 0 and 'T_flags' in r:
            self.finite(r, 'T')
            if np.isfinite(r['T']):
                self.ok('T_err' in r, 'inconsistent', 'T_err')
        if np.any(r['flags'] != 0):
            return
        self.finite(r, 'e', 'e1', 'e2', 'e_err', 'e_cov', 'T', 'T_err',
                    'flux', 'flux_err', 's2n')
        self.near(r['e'], [r['e1'], r['e2']], 'inconsistent', 'e')
        self.ok(r['T'] > 0, 'inconsistent', lambda: 'T %s' % r['T'])
        self.ok(r['flux'] > 0, 'inconsistent', lambda: 'flux %s' % r['flux'])
        self.cov(r['e_err'], r['e_cov'], 'e', not self.clean)

    def mom_sums(self, r):
        s, c = r['sums'], r['sums_cov']
        if r['flags'] == 0 and finite(c):
            self.near(r['sums_err'] ** 2, np.diag(c), 'inconsistent',
                      'sums errors', rtol=1e-6)
        if r['flux_flags'] == 0:
            self.near(r['flux'], s[5], 'inconsistent', 'flux and its sum')
            self.near(r['flux_err'] ** 2, c[5, 5], 'inconsistent',
                      'flux error and covariance', rtol=1e-6)
            for n in ('MF', 'M00'):
                if n in r:
                    self.near(r[n], r['flux'], 'inconsistent', n)
        if r['flags'] == 0:
            self.near(r['T'], s[4] / s[5], 'inconsistent', 'T')
            self.near(r['e'], s[2:4] / s[4], 'inconsistent', 'e')


def judge(spec, ctx, op, tool, inp, res, limit, ranged):
    p, t = spec['p'], spec['p']['t']
    clean = not spec['damage'] and not spec.get('exact')
    J = Judge(ctx, op.name, clean)
    J.ranged = ranged
    name = op.name
    if name in ('fit', 'coellip', 'gsfit'):
        fl = res['flags']
        J.lm(res, limit, getattr(tool, 'prior', None))
        if name != 'gsfit':
            J.mixture(res, fl == 0)
        if fl == 0 and name == 'fit' and res['lnprob'] > -np.inf:
            c = J.chi2(res, inp['obs'])
            if t['prior'] is None and clean and c is not None:
                J.near(res['chi2per'], c, 'inconsistent', 'chi2 per dof',
                       rtol=2e-2)
        return fl
    if name in ('psfflux', 'gspsfflux'):
        if res['flags'] == 0:
            J.finite(res, 'flux', 'flux_err', 'chi2per', 'dof')
            J.ok(res['flux_err'] >= 0, 'success-without-variance')
            J.ok(res['dof'] > 0, 'inconsistent', 'dof')
            if clean:
                J.ok(res['flux_err'] > 0, 'success-without-variance')
        return res['flags']
    if name == 'em':
        if 'numiter' in res:
            J.ok(res['numiter'] <= t['maxiter'], 'over-limit',
                 lambda: '%d of %d' % (res['numiter'], t['maxiter']))
            if res['numiter'] >= t['maxiter']:
                J.ok(res['flags'] != 0, 'unconverged-success')
        if res['flags'] == 0:
            J.finite(res, 'fdiff', 'sky')
            J.ok(abs(res['fdiff']) < t['tol'], 'unconverged-success',
                 lambda: 'fdiff %s tol %s' % (res['fdiff'], t['tol']))
        # what is held fixed stays as undefined as it was given
        J.mixture(res, res['flags'] == 0 and not (
            t['kind'] != 'full' and spec['guess'] == 'nan'))
        return res['flags']
    if name in ('admom', 'run_admom', 'findcen'):
        if name == 'findcen':
            if res['flags'] == 0:
                J.finite(res, 'cen')
            return res['flags']
        J.ok(res['numiter'] <= t['maxiter'], 'over-limit',
             lambda: '%d of %d' % (res['numiter'], t['maxiter']))
        if res['flags'] == 0:
            J.finite(res, 'pars', 'flux', 'flux_err', 'flux_mean', 'T',
                     'T_err', 'e', 'e1', 'e2', 'e_err', 'e_cov', 's2n',
                     'rho4', 'sums', 'wsum')
            J.ok(res['T'] > 0, 'inconsistent', 'T')
            J.near(res['T'], res['pars'][4], 'inconsistent', 'T')
            J.near(res['e'], res['pars'][2:4] / res['T'], 'inconsistent',
                   'e')
            J.near(res['e'], [res['e1'], res['e2']], 'inconsistent', 'e')
            J.cov(res['e_err'], res['e_cov'], 'e', not clean)
            J.ok(np.hypot(*res['e']) < 1, 'shape-out-of-range',
                 lambda: res['e'])
            J.ok(np.all(np.diag(res['sums_cov'])[2:] > 0),
                 'success-without-variance', 'sums')
            if res['flux_flags'] == 0:
                J.near(res['s2n'], res['flux'] / res['flux_err'],
                       'inconsistent', 's2n', rtol=1e-6)
            if res['T_flags'] == 0:
                J.finite(res, 'T_err')
        else:
            try:
                res.get_gmix()
            except Exception:
                pass
            else:
                J.ok(False, 'flagged-mixture',
                     'a flagged result gives a mixture')
        if res['flags'] == 0:
            J.mixture(res, True)
        return res['flags']
    if name == 'gaussmom':
        J.moms(res)
        J.mom_sums(res)
        if clean:
            gaussmom_reference(J, res, inp['obs'], t)
        return res['flags']
    if name == 'wmom':
        J.moms(res[0])
        J.mom_sums(res[0])
        J.moms(res[1])
        J.mom_sums(res[1])
        r = res[2]
        if np.all(r['flags'] == 0):
            J.finite(r, 'e', 'T', 'flux')
        return res[0]['flags']
    if name == 'premom':
        J.moms(res)
        if res['flags'] == 0:
            J.finite(res, 'flux', 'T')
            J.near(res['s2n'], res['flux'] / res['flux_err'],
                   'inconsistent', 's2n', rtol=1e-6)
            c = res['sums_cov'][2:, 2:]
            s = res['sums']
            J.near(res['sums_err'][2:] ** 2, np.diag(c), 'inconsistent',
                   'sums errors', rtol=1e-6)
            J.near(res['flux'], s[5], 'inconsistent', 'flux and its sum')
            J.near(res['flux_err'] ** 2, c[3, 3], 'inconsistent',
                   'flux error', rtol=1e-6)
        return res['flags']
    if name in ('boot', 'runpsf', 'mboot'):
        outs = []

        def walk(x):
            if isinstance(x, dict) and 'flags' in x:
                outs.append(x)
            elif isinstance(x, dict):
                for v in x.values():
                    walk(v)
            elif isinstance(x, (list, tuple)):
                for v in x:
                    walk(v)
        walk(res[0] if name == 'mboot' else res)
        lim = 6 * t['starve'] if t.get('starve') else None
        for r in outs:
            if 'nfev' in r:
                J.lm(r, lim, None)
                J.mixture(r, r['flags'] == 0)
            elif 'numiter' in r and 'wsum' in r:
                if r['flags'] == 0:
                    J.finite(r, 'pars', 'e', 'T', 'flux', 'flux_err')
            elif r['flags'] == 0:
                J.mixture(r, True)
        return tuple(bool(r['flags']) for r in outs)
    raise AssertionError(name)


def gaussmom_reference(J, res, obs, t):
    """weighted moments with plain numpy"""
    if np.any(obs.weight <= 0):
        return
    T = 2 * (t['fwhm'] / 2.3548200450309493) ** 2
    jac = obs.jacobian
    r = np.arange(obs.image.shape[0])[:, None] + 0.0 * obs.image
    c = np.arange(obs.image.shape[1])[None, :] + 0.0 * obs.image
    v, u = jac.get_vu(r, c)
    rad2 = v ** 2 + u ** 2
    w = np.exp(-0.5 * rad2 / (T / 2))
    wi = w * obs.image
    J.near(res['flux'], wi.sum(), 'inconsistent', 'weighted flux',
           rtol=1e-9, atol=1e-10 * np.abs(wi).sum())
    J.near(res['flux_err'] ** 2, (w ** 2 / obs.weight).sum(),
           'inconsistent', 'weighted flux variance', rtol=1e-9)
    num, den = (wi * rad2).sum(), wi.sum()
    if res['T_flags'] == 0:
        J.near(res['T'] * den, num, 'inconsistent', 'weighted size',
               rtol=1e-8, atol=1e-10 * np.abs(wi * rad2).sum())


def direct(spec, ctx):
    """the statistics of sums with a damaged covariance"""
    import inspect
    from ngmix import moments
    from ngmix.admom import admom as adm
    rs = np.random.RandomState(spec['s'])
    n = spec['n']
    A = rs.normal(size=(n, n + 3))
    cov = A.dot(A.T) * 0.01
    sums = rs.normal(size=n)
    # flux, size, and moments below the size
    sums[5] = rs.uniform(1, 10)
    sums[4] = sums[5] * rs.uniform(.5, 4)
    sums[2:4] = sums[4] * rs.uniform(-.6, .6, size=2)
    for k, i, j, v in spec['bad']:
        val = {'nan': np.nan, 'zero': 0.0, 'neg': -1.0, 'tiny': 1e-30}[v]
        if k == 'sum':
            if spec['direct'] == 'admom':
                # a sum that is not a number leaves with a flag
                val = 0.0 if v == 'nan' else val
                if i == 4 and v != 'neg':
                    continue
            sums[i] = val
        elif k == 'var':
            cov[i, i] = val
        elif i != j and 4 not in (i, j) and 5 not in (i, j):
            cov[i, j] = cov[j, i] = val
        elif i in (2, 3) and j in (4, 5) and v == 'nan':
            cov[i, j] = cov[j, i] = val
        ctx.fault('%s:%s' % (k, v))
    if spec['bad']:
        ctx.count('nontrivial')
    J = Judge(ctx, 'statistics of %s sums' % spec['direct'],
              not spec['bad'])
    if spec['direct'] == 'mom':
        r = moments.make_mom_result(sums.copy(), cov.copy())
        J.moms(r)
        J.mom_sums(r)
        fl = r['flags']
        if n == 6:
            reg = moments.regularize_mom_shapes(r, 0.7)
            ctx.check(reg['flags'] & fl == fl, 'flag-lost', lambda: 'sums '
                      'flagged %s, their regularized shapes %s' % (
                          fl, reg['flags']))
            if reg['flags'] == 0:
                J.finite(reg, 'e', 'e_err', 'e_cov', 'pars')
    else:
        f = getattr(adm, 'get_result', None)
        if f is None or list(inspect.signature(f).parameters) != [
                'ares', 'jac_area', 'wgt_norm']:
            ctx.count('no_direct_admom')
            return
        T = 2 * sums[4] / sums[5]
        r = f(dict(flags=0, numiter=5, npix=100, wsum=3.0, sums=sums.copy(),
                   sums_cov=cov.copy(), rho4=2.0, F=np.zeros(n),
                   pars=np.array([.1, -.1, .1 * T, .05 * T, T, 1.0])),
              0.25, 1.5)
        fl = r['flags']
        if fl == 0:
            J.finite(r, 'e', 'e1', 'e2', 'e_err', 'e_cov', 'T', 'pars')
            J.cov(r['e_err'], r['e_cov'], 'e', True)
            J.ok(r['T'] > 0, 'success-without-size', 'T')
        if r['flux_flags'] == 0:
            J.finite(r, 'flux', 'flux_err', 's2n')
            J.ok(r['flux_err'] > 0, 'success-without-variance', 'flux')
        if r['T_flags'] == 0:
            J.finite(r, 'T', 'T_err')
            J.ok(cov[4, 4] > 0 and cov[5, 5] > 0,
                 'success-without-variance', 'T')
    if not spec['bad']:
        ctx.check(fl == 0, 'good-flagged', lambda: 'good sums are flagged '
                  '%s' % fl)
    ctx.state('direct', spec['direct'], str(spec['bad']), str(fl))
    ctx.log('direct', spec['direct'], int(fl))


def stamp(obs, x):
    """the central pixels and nothing else"""
    a, b, c = x['a']
    h, w = np.array(obs.image.shape) // 2
    with obs.writeable():
        obs.image[:, :] = 0.0
        obs.image[h - 1:h + 2, w - 1:w + 2] = [[c, a, c], [b, 1.0, b],
                                               [c, a, c]]
        if x['k'] == 'tilt':
            obs.image[h + 1, w + 1] *= 1.5
            obs.image[h - 1, w - 1] *= 1.5
        elif x['k'] == 'noise':
            obs.image[0, 0] = 1e-3


def execute(spec, ctx):
    import ngmix
    zoo.reset_caches()
    if 'direct' in spec:
        return direct(spec, ctx)
    p = spec['p']
    op = zoo.OPS[p['op']]
    t = p['t']
    limit = [None]

    def build():
        rng = np.random.RandomState(p['s'])
        ca = op.ctor(t)
        if 'fit_pars' in ca:
            if spec['starve']:
                ca['fit_pars'] = {'maxfev': 3 * spec['starve'],
                                  'ftol': 1e-8, 'xtol': 1e-8}
            limit[0] = (ca['fit_pars'] or {}).get('maxfev')
        if op.name in ('boot', 'mboot', 'runpsf'):
            tool = op.tool(t, rng)
        else:
            tool = op.tool(t, rng, ca)
        inp = op.inputs(p['d'], t)
        ap = []
        if spec['damage'] and 'obs' in inp:
            ap = zoo.apply_damage(inp['obs'], spec['damage'])
        if spec.get('exact'):
            stamp(inp['obs'], spec['exact'])
            ap = ap + ['exact:' + spec['exact']['k']]
        if spec['guess'] and 'guess' in inp:
            inp['guess'] = bad_guess(op.name, inp['guess'], spec['guess'],
                                     zoo.scale_of(p['d']))
        return rng, tool, inp, ap
    try:
        rng, tool, inp, ap = build()
    except ngmix.gexceptions.NGmixBaseException as e:
        ctx.log('rejected at once', type(e).__name__)
        ctx.state(op.name, 'rejected', spec['guess'])
        return
    for k in ap:
        ctx.fault('data:' + k)
    if spec['guess'] and 'guess' in inp:
        ctx.fault('guess:' + spec['guess'])
    if spec['starve']:
        ctx.fault('starved')
    if ap or spec['guess'] or spec['starve']:
        ctx.count('nontrivial')

    def once(at=None):
        if at is None:
            try:
                return None, op.call(tool, inp, rng, t), None
            except Exception as e:
                return None, None, e
        return run_with_fault(lambda: op.call(tool, inp, rng, t), at,
                              'GMixRangeError')
    tr, res, exc = once()
    outcome(spec, ctx, op, tool, inp, res, exc, limit[0], ap)
    if spec['fault'] is None:
        return
    rng, tool, inp, ap = build()

    def dry():
        try:
            op.call(tool, inp, rng, t)
        except Exception:
            pass
    n, _ = count_statements(dry)
    rng, tool, inp, ap = build()
    tr, res, exc = once(1 + int(spec['fault'] * n))
    if not tr.fired:
        return
    ctx.fault('GMixRangeError')
    ctx.count('nontrivial')
    ctx.log('range error in', tr.where)
    ctx.state(op.name, 'range', tr.where)
    outcome(spec, ctx, op, tool, inp, res, exc, limit[0], ap, True)


def outcome(spec, ctx, op, tool, inp, res, exc, limit, ap, ranged=False):
    t = spec['p']['t']
    ctx.step()
    if exc is not None:
        if isinstance(exc, Exception) and not allowed_error(
                exc, op.name, t, spec):
            raise exc
        ctx.log(op.name, ap, 'error', type(exc).__name__)
        ctx.state(op.name, tuple(ap), spec['guess'], spec['starve'],
                  type(exc).__name__)
        return
    fl = judge(spec, ctx, op, tool, inp, res, limit, ranged)
    ctx.log(op.name, ap, 'flags', fl)
    ctx.state(op.name, tuple(ap), spec['guess'], spec['starve'], str(fl))
    ctx.count('success' if not np.any(fl) else 'flagged')

