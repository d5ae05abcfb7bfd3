"""
The operation zoo: every public measuring operation of the package in one
uniform form, so that properties about all of them (inputs untouched, damage
flagged, randomness owned, no crosstalk, restartable) run over all of them.

An operation is described by JSON parameters
    {'op': name, 't': tool parameters, 'd': data parameters, 's': seed}
and offers
    tool(t, rng)        the reusable measuring object (None for functions)
    inputs(d)           dict of everything passed in per measurement
    call(tool, inp, rng, d) -> result
    out(result)         canonical form of the result
`tool_rng` tells that the tool itself holds the random generator; `call_rng`
that one is passed per call.
"""
import numpy as np

from . import world
from .canon import canon, canon_gmix, _arr


# ---------------------------------------------------------------------------
# data

def data_spec(rng, kind='any', square=False, multi=True, planes=None,
              npsf=None, quick=True):
    if kind == 'any':
        kind = rng.choice(['obs', 'obs', 'list', 'mb'] if multi
                          else ['obs'])
    nb = {'obs': 1, 'list': 1, 'mb': rng.choice([1, 2, 2, 3] * 8 + [5])}[kind]
    first = world.epoch_spec(rng)
    scale = first['jac']['scale']
    gal = first['gal']
    bands = []
    for b in range(nb):
        ne = 1 if kind == 'obs' else rng.choice([1, 2, 2, 3] * 8 + [6])
        eps = []
        for e in range(ne):
            ep = world.epoch_spec(rng)
            for j in ('jac', 'pjac'):
                if j in ep:
                    ep[j]['scale'] = scale
            f = scale / 0.263
            ep['gal'] = dict(gal)
            ep['psf'].update(T=round(scale ** 2 * rng.uniform(3, 6), 4))
            assert f
            if square:
                ep['dims'] = [ep['dims'][0], ep['dims'][0]]
            if planes is not None:
                ep['planes'] = list(planes)
            eps.append(ep)
        bands.append(eps)
    return dict(kind=kind, bands=bands, psfg=rng.random() < 0.0)


def make_data(d, psfg=False, with_psf=True):
    b = d['bands']
    kw = dict(psf_gmix=psfg, with_psf=with_psf)
    if d['kind'] == 'obs':
        return world.make_epoch(b[0][0], **kw)
    if d['kind'] == 'list':
        return world.make_obslist(b[0], **kw)
    return world.make_mbobs(b, **kw)


def nband(d):
    return len(d['bands'])


def scale_of(d):
    return d['bands'][0][0]['jac']['scale']


def gal_of(d):
    return d['bands'][0][0]['gal']


def epochs_of(obs):
    """flat list of the observations in any container"""
    import ngmix
    if isinstance(obs, ngmix.Observation):
        return [obs]
    if isinstance(obs, ngmix.ObsList):
        return list(obs)
    return [o for ol in obs for o in ol]


# ---------------------------------------------------------------------------
# damaged data

IMG_DAMAGE = ['nanpix', 'infpix', 'hugepix', 'negative', 'zero', 'noise',
              'tiny', 'huge', 'hot']
WT_DAMAGE = ['wnan', 'winf', 'wneg', 'wtiny', 'whuge', 'wone', 'wmost']
PSF_DAMAGE = ['p' + k for k in ('nanpix', 'zero', 'noise', 'negative',
                                'hugepix', 'tiny')]


def damage_spec(rng, n=None, kinds=None):
    kinds = kinds or (IMG_DAMAGE * 2 + WT_DAMAGE + PSF_DAMAGE)
    if n is None:
        n = rng.choice([1, 1, 1, 2])
    return [dict(k=rng.choice(kinds), e=rng.randrange(6),
                 s=rng.randrange(1 << 20)) for _ in range(n)]


def _damage_image(k, im, rs):
    r, c = rs.randint(im.shape[0]), rs.randint(im.shape[1])
    if k == 'nanpix':
        im[r, c] = np.nan
    elif k == 'infpix':
        im[r, c] = np.inf * rs.choice([-1, 1])
    elif k == 'hugepix':
        im[r, c] = 1e300 * rs.choice([-1, 1])
    elif k == 'bigpix':
        im[r, c] = 1e60 * rs.choice([-1, 1])
    elif k == 'small':
        im *= 1e-60
    elif k == 'big':
        im *= 1e40
    elif k == 'hot':
        im[r, c] = 1e4 * np.abs(im).max()
    elif k == 'negative':
        im *= -1
    elif k == 'zero':
        im[:] = 0.0
    elif k == 'noise':
        im[:] = rs.normal(size=im.shape) * max(np.abs(im).max(), 1e-8)
    elif k == 'tiny':
        im *= 1e-200
    elif k == 'huge':
        im *= 1e200
    return im


def apply_damage(obs, damages, skip_psf=False):
    """obs in place; returns the kinds applied"""
    import ngmix
    eps = epochs_of(obs)
    done = []
    for d in damages:
        o = eps[d['e'] % len(eps)]
        rs = np.random.RandomState(d['s'])
        k = d['k']
        try:
            if k in IMG_DAMAGE or k in ('bigpix', 'small', 'big'):
                o.image = _damage_image(k, o.image.copy(), rs)
            elif k[0] == 'p':
                if not o.has_psf() or skip_psf:
                    continue
                o.psf.image = _damage_image(k[1:], o.psf.image.copy(), rs)
            else:
                w = o.weight.copy()
                r, c = rs.randint(w.shape[0]), rs.randint(w.shape[1])
                if k == 'wnan':
                    w[r, c] = np.nan
                elif k == 'winf':
                    w[r, c] = np.inf
                elif k == 'wneg':
                    w[r, c] = -1.0
                elif k == 'wtiny':
                    w *= 1e-250
                elif k == 'whuge':
                    w *= 1e250
                elif k == 'wsmall':
                    w *= 1e-60
                elif k == 'wbig':
                    w *= 1e40
                elif k == 'wone':
                    v = w.max()
                    w[:] = 0.0
                    w[r, c] = v
                elif k == 'wmost':
                    w[rs.uniform(size=w.shape) < 0.97] = 0.0
                    w[r, c] = 1.0
                o.weight = w
        except ngmix.gexceptions.NGmixBaseException:
            continue
        done.append(k)
    return done


def reset_caches():
    """a run starts from the defaults: all optional caches off and empty"""
    from ngmix import prepsfmom
    from ngmix.metacal import metacal
    prepsfmom.turn_off_fft_caching()
    prepsfmom.turn_off_kernel_caching()
    metacal.turn_off_galsim_caching()


def shrink_data(d):
    """simpler data descriptions"""
    import copy
    if not isinstance(d, dict) or 'bands' not in d:
        return
    nb = len(d['bands'])
    for b in range(nb):
        for e in range(len(d['bands'][b])):
            if len(d['bands'][b]) > 1:
                c = copy.deepcopy(d)
                del c['bands'][b][e]
                yield c
    for b in range(nb):
        for e in range(len(d['bands'][b])):
            ep = d['bands'][b][e]
            for k, v in (('planes', []), ('wt', 'flat')):
                if ep[k] != v:
                    c = copy.deepcopy(d)
                    c['bands'][b][e][k] = v
                    yield c
            if ep['jac']['kind'] != 'diag':
                c = copy.deepcopy(d)
                c['bands'][b][e]['jac']['kind'] = 'diag'
                yield c


# ---------------------------------------------------------------------------
# results

def canon_result(res):
    """every public thing a result offers"""
    out = [('dict', canon(dict(res)))]
    flags = res.get('flags', 0)
    if hasattr(res, 'has_gmix'):
        has = bool(res.has_gmix())
        out.append(('has', has))
    else:
        has = np.all(np.asarray(flags) == 0)
    if has and hasattr(res, 'get_gmix'):
        nb = getattr(res, 'nband', None) or 1
        try:
            gms = [res.get_gmix(band=b) for b in range(nb)]
        except TypeError:
            gms = [res.get_gmix()]
        out.append(('gmix', tuple(canon_gmix(g) for g in gms)))
        if hasattr(res, 'get_convolved_gmix'):
            try:
                g = res.get_convolved_gmix()
                out.append(('cgmix', canon_gmix(g)))
            except TypeError:
                pass
    if has and hasattr(res, 'make_image'):
        try:
            out.append(('image', _arr(res.make_image())))
        except TypeError:
            pass
    return ('result', tuple(out))


# ---------------------------------------------------------------------------
# priors, guesses

def make_prior(kind, rng, scale, nb, parts=None):
    """parts: a list to fill with the priors of the parameters after the
    shape, in their order; each band then has another one"""
    import ngmix
    P = ngmix.priors
    if kind is None:
        return None
    if kind.startswith('flat'):
        g = P.GPriorBA(sigma=0.3, rng=rng)
        T = P.FlatPrior(minval=-10 * scale ** 2, maxval=1000 * scale ** 2,
                        rng=rng)
        F = P.FlatPrior(minval=-100.0, maxval=1e6, rng=rng)
    elif kind.startswith('erf'):
        g = P.ZDisk2D(0.95, rng=rng) if False else P.GPriorBA(
            sigma=0.4, rng=rng)
        T = P.TwoSidedErf(-1 * scale ** 2, 0.2 * scale ** 2,
                          500 * scale ** 2, 10 * scale ** 2, rng=rng)
        F = P.TwoSidedErf(-10.0, 1.0, 1e6, 1e4, rng=rng)
    elif kind.startswith('lm'):
        g = P.GPriorBA(sigma=0.3, rng=rng)
        T = P.Normal(8 * scale ** 2, 50 * scale ** 2, rng=rng,
                     bounds=[0.1 * scale ** 2, 1000 * scale ** 2])
        F = P.Normal(100.0, 500.0, rng=rng, bounds=[0.01, 1e6])
    else:
        g = P.GPriorGauss(0.2, rng=rng) if False else P.GPriorBA(
            sigma=0.2, rng=rng)
        T = P.Normal(8 * scale ** 2, 5 * scale ** 2, rng=rng)
        F = P.LogNormal(100.0, 80.0, rng=rng)
    cen = P.CenPrior(0.0, 0.0, scale, scale, rng=rng)
    apart = kind.startswith('apart')
    if apart:
        # no two entries can be taken for one another
        cen = P.CenPrior(20.0, 30.0, 0.1, 0.1, rng=rng)
        T = P.FlatPrior(1.0, 2.0, rng=rng)
        F = P.FlatPrior(10.0, 11.0, rng=rng)
    if kind.endswith('-co'):
        # here the number of gaussians
        if parts is not None:
            parts += [cen, g] + [T] * nb + [F] * nb
        return ngmix.joint_prior.PriorCoellipSame(nb, cen, g, T, F)
    Fs = [F] * nb
    if parts is not None:
        Fs = [F] + [P.LogNormal(100.0 * 3 ** b, 60.0 * 2 ** b, rng=rng)
                    for b in range(1, nb)]
    if apart:
        Fs = [P.FlatPrior(10.0 + 2 * b, 11.0 + 2 * b, rng=rng)
              for b in range(nb)]
    extra = []
    J = ngmix.joint_prior.PriorSimpleSep
    if kind.endswith('-bdf'):
        J = ngmix.joint_prior.PriorBDFSep
        extra = [P.Normal(0.5, 0.1, rng=rng)]
    if kind.endswith('-bd'):
        J = ngmix.joint_prior.PriorBDSep
        extra = [P.Normal(0.0, 0.1, rng=rng), P.Normal(0.5, 0.1, rng=rng)]
    if kind.endswith('-gs'):
        J = ngmix.joint_prior.PriorGalsimSimpleSep
    if kind.endswith('-gs') or kind.endswith('-sp'):
        T = P.Normal(2 * scale, 5 * scale, rng=rng,
                     bounds=[0.05 * scale, 100 * scale])
    if kind.endswith('-sp'):
        J = ngmix.joint_prior.PriorSpergelSep
        extra = [P.Normal(0.5, 0.5, bounds=[-0.5, 3.0], rng=rng)]
    if apart:
        T = P.FlatPrior(1.0, 2.0, rng=rng)
        extra = [P.FlatPrior(3.0 + 2 * i, 4.0 + 2 * i, rng=rng)
                 for i in range(len(extra))]
    if parts is not None:
        parts += [cen, g, T] + extra + Fs
    return J(cen, g, T, *extra, Fs if nb > 1 or kind.endswith('-bd')
             else Fs[0])


def guess_spec(rng):
    return dict(j=[round(rng.uniform(-1, 1), 3) for _ in range(8)])


def guess_array(model, d, g):
    """a guess near the truth"""
    j = g['j']
    gal, s = gal_of(d), scale_of(d)
    T = gal['T'] * (1 + 0.2 * j[4])
    flux = gal['flux'] * (1 + 0.2 * j[5])
    head = [gal['cv'] + 0.2 * s * j[0], gal['cu'] + 0.2 * s * j[1],
            gal['e1'] / 2 + 0.05 * j[2], gal['e2'] / 2 + 0.05 * j[3]]
    nb = nband(d)
    if model == 'bdf':
        mid = [T, 0.5 + 0.1 * j[6]]
    elif model == 'bd':
        mid = [T, 0.1 * j[7], 0.5 + 0.1 * j[6]]
    elif model == 'r50':
        mid = [np.sqrt(T / 2) * 1.2]
    elif model == 'nu':
        mid = [np.sqrt(T / 2) * 1.2, 0.5 + 0.2 * j[6]]
    elif model == 'moffat':
        mid = [np.sqrt(T / 2) * 1.2, 3.0 + 0.3 * j[6]]
    else:
        mid = [T]
    return np.array(head + mid + [flux] * nb)


def gmix_guess(ng, T, flux, j, s):
    import ngmix
    fr = {1: [1.0], 2: [0.6, 0.4], 3: [0.5, 0.3, 0.2]}[ng]
    sz = {1: [1.0], 2: [0.6, 1.6], 3: [0.5, 1.0, 2.2]}[ng]
    pars = []
    for i in range(ng):
        h = 0.5 * T * sz[i] * (1 + 0.1 * j[i])
        pars += [flux * fr[i], 0.1 * s * j[i + 1], 0.1 * s * j[i + 2],
                 h, 0.02 * h * j[i + 3], h * (1 + 0.05 * j[i])]
    return ngmix.GMix(pars=pars)


# ---------------------------------------------------------------------------

class Op(object):
    name = None
    weight = 1.0
    tool_rng = False
    call_rng = False
    stores_psf = False      # documented: stores psf fit results
    slow = False

    def gen_t(self, rng):
        return {}

    def gen_d(self, rng, t):
        raise NotImplementedError

    def gen(self, rng):
        t = self.gen_t(rng)
        return dict(op=self.name, t=t, d=self.gen_d(rng, t),
                    s=rng.randrange(1 << 30))

    def ctor(self, t):
        """mutable arguments the tool is built from"""
        return {}

    def tool(self, t, rng, c=None):
        return None

    def inputs(self, d, t):
        raise NotImplementedError

    def call(self, tool, inp, rng, t):
        raise NotImplementedError

    def out(self, res):
        return canon_result(res)


def fit_pars(t):
    fp = FIT_PARS[t['fp']]
    return None if fp is None else dict(fp)


FIT_PARS = [None, None, {'maxfev': 60, 'ftol': 1e-4, 'xtol': 1e-4},
            {'maxfev': 400, 'ftol': 1e-6, 'xtol': 1e-6}]


class Fit(Op):
    name = 'fit'
    weight = 3.0

    def gen_t(self, rng):
        model = rng.choice(['gauss', 'gauss', 'exp', 'exp', 'dev', 'turb',
                            'bdf', 'bd'])
        pr = rng.choice([None, 'flat', 'erf', 'lm', 'gauss'])
        if model in ('bdf', 'bd'):
            pr = (pr or 'flat') + '-' + model
        return dict(model=model, prior=pr, fp=rng.randrange(len(FIT_PARS)),
                    nb=rng.choice([1, 1, 2]), scale=0.263)

    def gen_d(self, rng, t):
        d = data_spec(rng, kind=rng.choice(['obs', 'list', 'mb'])
                      if t['nb'] == 1 else 'mb')
        while nband(d) != t['nb']:
            d['bands'] = (d['bands'] * 2)[:t['nb']]
        d['g'] = guess_spec(rng)
        return d

    def tool(self, t, rng, c=None):
        import ngmix
        c = c or self.ctor(t)
        prior = make_prior(t['prior'], rng, 0.5, t['nb'])
        return ngmix.fitting.Fitter(model=t['model'], prior=prior,
                                    fit_pars=c['fit_pars'])

    def ctor(self, t):
        return dict(fit_pars=fit_pars(t))

    def inputs(self, d, t):
        return dict(obs=make_data(d, psfg=True),
                    guess=guess_array(t['model'], d, d['g']))

    def call(self, tool, inp, rng, t):
        return tool.go(obs=inp['obs'], guess=inp['guess'])


class Coellip(Op):
    name = 'coellip'

    def gen_t(self, rng):
        return dict(ng=rng.choice([1, 2, 3]), fp=rng.randrange(3),
                    prior=rng.choice([None, None, 'flat-co', 'erf-co',
                                      'lm-co', 'gauss-co']))

    def gen_d(self, rng, t):
        d = data_spec(rng, kind='obs')
        d['g'] = guess_spec(rng)
        return d

    def tool(self, t, rng, c=None):
        import ngmix
        c = c or self.ctor(t)
        return ngmix.fitting.CoellipFitter(
            ngauss=t['ng'], fit_pars=c['fit_pars'],
            prior=make_prior(t.get('prior'), rng, 0.5, t['ng']))

    def ctor(self, t):
        return dict(fit_pars=fit_pars(t))

    def inputs(self, d, t):
        b = guess_array('gauss', d, d['g'])
        ng = t['ng']
        T = b[4] * np.array([1.0, 0.4, 2.0])[:ng]
        F = b[5] * np.array([1.0, 0.6, 0.3])[:ng] / ng
        return dict(obs=make_data(d, psfg=True),
                    guess=np.concatenate([b[:4], T, F]))

    def call(self, tool, inp, rng, t):
        return tool.go(obs=inp['obs'], guess=inp['guess'])


class PSFFlux(Op):
    name = 'psfflux'

    def gen_t(self, rng):
        return dict(do_psf=rng.random() < 0.7, norm=rng.random() < 0.7)

    def gen_d(self, rng, t):
        return data_spec(rng, kind=rng.choice(['obs', 'list']))

    def tool(self, t, rng, c=None):
        import ngmix
        return ngmix.fitting.PSFFluxFitter(do_psf=t['do_psf'],
                                           normalize_psf=t['norm'])

    def inputs(self, d, t):
        import ngmix
        obs = make_data(d, psfg=True)
        if not t['do_psf']:
            gal, s = gal_of(d), scale_of(d)
            for o in epochs_of(obs):
                o.set_gmix(ngmix.GMixModel(
                    [0.0, 0.0, 0.0, 0.0, gal['T'] + 4 * s * s, 1.0],
                    'gauss'))
        return dict(obs=obs)

    def call(self, tool, inp, rng, t):
        return tool.go(obs=inp['obs'])


class GSFit(Op):
    name = 'gsfit'
    weight = 0.5
    slow = True

    def gen_t(self, rng):
        kind = rng.choice(['exp', 'gauss', 'dev', 'spergel', 'moffat'])
        pr = rng.choice([None, 'flat-gs'])
        if kind == 'spergel':
            pr = 'flat-sp'
        if kind == 'moffat':
            pr = None
        return dict(kind=kind, prior=pr, fp=rng.choice([0, 2]))

    def gen_d(self, rng, t):
        d = data_spec(rng, kind=rng.choice(['obs', 'list']))
        for eps in d['bands']:
            for ep in eps:
                ep['dims'] = [ep['dims'][0]] * 2
        d['g'] = guess_spec(rng)
        return d

    def tool(self, t, rng, c=None):
        import ngmix
        prior = make_prior(t['prior'], rng, 0.5, 1)
        c = c or self.ctor(t)
        fp = c['fit_pars']
        if t['kind'] == 'spergel':
            return ngmix.fitting.GalsimSpergelFitter(prior=prior, fit_pars=fp)
        if t['kind'] == 'moffat':
            return ngmix.fitting.GalsimMoffatFitter(prior=prior, fit_pars=fp)
        return ngmix.fitting.GalsimFitter(model=t['kind'], prior=prior,
                                          fit_pars=fp)

    def ctor(self, t):
        return dict(fit_pars=fit_pars(t) or {
            'maxfev': 80, 'ftol': 1e-4, 'xtol': 1e-4})

    def inputs(self, d, t):
        m = {'spergel': 'nu', 'moffat': 'moffat'}.get(t['kind'], 'r50')
        inp = dict(obs=make_data(d), guess=guess_array(m, d, d['g']))
        if d.get('k'):
            # transformed by the caller
            import ngmix
            inp['kobs'] = ngmix.observation.make_kobs(inp['obs'])
            if d['k'] == 'one':
                inp['kobs'] = inp['kobs'][0][0]
            elif d['k'] == 'list':
                inp['kobs'] = inp['kobs'][0]
        return inp

    def call(self, tool, inp, rng, t):
        obs = inp['kobs'] if 'kobs' in inp else inp['obs']
        return tool.go(obs=obs, guess=inp['guess'])

    def out(self, res):
        return canon(dict(res))


class GSPSFFlux(Op):
    name = 'gspsfflux'
    weight = 0.7

    def gen_t(self, rng):
        return dict(model=rng.choice([None, None, 'exp']))

    def gen_d(self, rng, t):
        return data_spec(rng, kind=rng.choice(['obs', 'list']))

    def tool(self, t, rng, c=None):
        import galsim
        import ngmix
        m = None
        if t['model']:
            m = galsim.Exponential(half_light_radius=0.9)
        return ngmix.fitting.GalsimPSFFluxFitter(model=m)

    def inputs(self, d, t):
        return dict(obs=make_data(d))

    def call(self, tool, inp, rng, t):
        return tool.go(obs=inp['obs'])

    def out(self, res):
        return canon(dict(res))


class EM(Op):
    name = 'em'
    weight = 2.0

    def gen_t(self, rng):
        return dict(kind=rng.choice(['full', 'full', 'fixcen', 'fluxonly',
                                     'fixcov']), run=rng.random() < 0.3,
                    maxiter=rng.choice([10, 60, 300]),
                    miniter=rng.choice([3, 10]),
                    tol=rng.choice([1e-3, 1e-5]),
                    vary_sky=rng.random() < 0.3)

    def gen_d(self, rng, t):
        d = data_spec(rng, kind='obs')
        d['g'] = guess_spec(rng)
        d['ng'] = rng.choice([1, 2, 3])
        d['psf'] = rng.random() < 0.6
        d['sky'] = None if rng.random() < 0.7 else 1.5
        return d

    def tool(self, t, rng, c=None):
        import ngmix
        cls = {'full': ngmix.em.EMFitter, 'fixcen': ngmix.em.EMFitterFixCen,
               'fixcov': ngmix.em.em.EMFitterFixCov,
               'fluxonly': ngmix.em.EMFitterFluxOnly}[t['kind']]
        return cls(**self.limits(t))

    def limits(self, t):
        return dict(miniter=min(t['miniter'], t['maxiter']),
                    maxiter=t['maxiter'], tol=t['tol'],
                    vary_sky=t['vary_sky'])

    def inputs(self, d, t):
        gal, s = gal_of(d), scale_of(d)
        obs = make_data(d, psfg=True, with_psf=d['psf'])
        if d['sky'] is not None:
            obs.image = obs.image + d['sky']
        return dict(obs=obs, sky=d['sky'], guess=gmix_guess(
            d['ng'], gal['T'] + (0 if d['psf'] else 4 * s * s), gal['flux'],
            d['g']['j'], s))

    def call(self, tool, inp, rng, t):
        if t.get('run'):
            import ngmix
            kw = self.limits(t)
            if t['kind'] != 'full':
                kw[t['kind']] = True
            return ngmix.em.run_em(inp['obs'], inp['guess'], sky=inp['sky'],
                                   **kw)
        return tool.go(obs=inp['obs'], guess=inp['guess'], sky=inp['sky'])


class Admom(Op):
    name = 'admom'
    weight = 2.0
    call_rng = False
    tool_rng = True

    def gen_t(self, rng):
        return dict(maxiter=rng.choice([5, 50, 200]),
                    shiftmax=rng.choice([1.0, 5.0]),
                    etol=rng.choice([1e-3, 1e-5]), cenonly=rng.random() < .2)

    def gen_d(self, rng, t):
        d = data_spec(rng, kind='obs')
        d['g'] = guess_spec(rng)
        d['gk'] = rng.choice(['T', 'gmix', 'gmix'])
        return d

    def tool(self, t, rng, c=None):
        import ngmix
        return ngmix.admom.AdmomFitter(
            maxiter=t['maxiter'], shiftmax=t['shiftmax'], etol=t['etol'],
            cenonly=t['cenonly'], rng=rng)

    def inputs(self, d, t):
        gal, s = gal_of(d), scale_of(d)
        T = gal['T'] + 4 * s * s
        if d['gk'] == 'T':
            g = float(T)
        else:
            g = gmix_guess(1, T, 1.0, d['g']['j'], s)
        return dict(obs=make_data(d), guess=g)

    def call(self, tool, inp, rng, t):
        return tool.go(inp['obs'], inp['guess'])


class RunAdmom(Admom):
    name = 'run_admom'
    weight = 0.5
    tool_rng = False
    call_rng = True

    def tool(self, t, rng, c=None):
        return None

    def call(self, tool, inp, rng, t):
        import ngmix
        return ngmix.admom.run_admom(
            inp['obs'], inp['guess'], maxiter=t['maxiter'],
            shiftmax=t['shiftmax'], etol=t['etol'], rng=rng)


class FindCen(Op):
    name = 'findcen'
    weight = 0.7
    call_rng = True

    def gen_t(self, rng):
        return dict(ntry=rng.choice([1, 3, 10]), gm=rng.random() < 0.5,
                    neg=rng.random() < 0.2)

    def gen_d(self, rng, t):
        d = data_spec(rng, kind='obs')
        d['fw'] = round(rng.uniform(2, 6), 2)
        d['g'] = guess_spec(rng)
        return d

    def inputs(self, d, t):
        out = dict(obs=make_data(d), fwhm=d['fw'] * scale_of(d))
        if t.get('gm'):
            s = scale_of(d)
            out['gmix'] = gmix_guess(1, d['fw'] * s * s, 1.0, d['g']['j'], s)
        if t.get('neg'):
            # no centre to be found
            o = out['obs']
            with o.writeable():
                o.image[:, :] -= o.image.max() * 1.1
        return out

    def call(self, tool, inp, rng, t):
        import ngmix
        if 'gmix' in inp:
            return ngmix.admom.find_cen_admom(
                inp['obs'], gmix=inp['gmix'], ntry=t['ntry'], rng=rng)
        return ngmix.admom.find_cen_admom(inp['obs'], inp['fwhm'],
                                          ntry=t['ntry'], rng=rng)


class GMom(Op):
    name = 'gaussmom'
    weight = 1.0

    def gen_t(self, rng):
        return dict(fwhm=rng.choice([0.8, 1.2, 3.0]),
                    ho=rng.random() < 0.3)

    def gen_d(self, rng, t):
        return data_spec(rng, kind='obs')

    def tool(self, t, rng, c=None):
        import ngmix
        return ngmix.gaussmom.GaussMom(fwhm=t['fwhm'],
                                       with_higher_order=t['ho'])

    def inputs(self, d, t):
        return dict(obs=make_data(d))

    def call(self, tool, inp, rng, t):
        return tool.go(inp['obs'])


class PreMom(Op):
    name = 'premom'
    weight = 2.0

    def gen_t(self, rng):
        return dict(kind=rng.choice(['ksigma', 'pgauss']),
                    fwhm=rng.choice([1.2, 2.0, 4.0]),
                    pad=rng.choice([2, 4, 1.5]), ap=rng.choice([0, 1.5, 1.5]),
                    sm=rng.choice([0, 0, 0.8]), rk=rng.random() < 0.15,
                    no_psf=rng.random() < 0.2)

    def gen_d(self, rng, t):
        d = data_spec(rng, kind='obs', square=True)
        # the package asks for one mapping for image and psf here; their
        # centers may differ
        ep = d['bands'][0][0]
        if 'pjac' in ep:
            ep['pjac'] = dict(ep['jac'], off=ep['pjac']['off'])
        return d

    def tool(self, t, rng, c=None):
        from ngmix import prepsfmom
        cls = {'ksigma': prepsfmom.KSigmaMom,
               'pgauss': prepsfmom.PGaussMom}[t['kind']]
        return cls(fwhm=t['fwhm'], pad_factor=t['pad'], ap_rad=t['ap'],
                   fwhm_smooth=t['sm'])

    def inputs(self, d, t):
        return dict(obs=make_data(d, with_psf=not t['no_psf']))

    def call(self, tool, inp, rng, t):
        return tool.go(inp['obs'], return_kernels=t['rk'],
                       no_psf=t['no_psf'])


MCAL_TYPES = ['noshear', '1p', '1m', '2p', '2m',
              '1p_psf', '1m_psf', '2p_psf', '2m_psf']


def mcal_types(rng, full=False):
    k = rng.random()
    if k < 0.25:
        return None
    n = rng.choice([1, 2, 3])
    ts = rng.sample(MCAL_TYPES, n)
    return ts


class Metacal(Op):
    name = 'metacal'
    weight = 2.0
    call_rng = True
    slow = True

    def gen_t(self, rng):
        psf = rng.choice(['gauss', 'gauss', 'fitgauss', 'dilate', 'gs'])
        ts = mcal_types(rng)
        if psf != 'dilate' and ts:
            ts = [t for t in ts if 'psf' not in t] or ['1p']
        if ts and 'noshear' in ts and '1p' not in ts:
            # the companion type: see the known findings
            ts.append('1p')
        fix = rng.random() < 0.7
        return dict(psf=psf, types=ts, step=rng.choice([0.01, 0.02]),
                    fixnoise=fix, use_noise=fix and rng.random() < 0.4)

    def gen_d(self, rng, t):
        d = data_spec(rng, kind='any', square=True)
        # two epochs at most keep a run short
        d['bands'] = [eps[:2] for eps in d['bands'][:2]]
        if d['kind'] == 'mb' and len(d['bands']) > 1:
            d['bands'][1] = d['bands'][1][:1]
        for eps in d['bands']:
            for ep in eps:
                if t['use_noise'] and 'noise' not in ep['planes']:
                    ep['planes'].append('noise')
        return d

    def inputs(self, d, t):
        import galsim
        psf = t['psf']
        if psf == 'gs':
            psf = galsim.Gaussian(fwhm=3.2 * scale_of(d))
        return dict(obs=make_data(d), psf=psf,
                    types=None if t['types'] is None else list(t['types']))

    def call(self, tool, inp, rng, t):
        import ngmix
        return ngmix.metacal.get_all_metacal(
            inp['obs'], psf=inp['psf'], step=t['step'],
            fixnoise=t['fixnoise'], rng=rng, use_noise_image=t['use_noise'],
            types=inp['types'])

    def out(self, res):
        return canon_odict(res)


def canon_odict(od):
    out = []
    for k in sorted(od):
        out.append((k, canon(od[k])))
    return ('odict', tuple(out))


def lm_starve(t):
    """fit parameters which make some fits end at their limit"""
    n = t.get('starve')
    return {'maxfev': 6 * n, 'ftol': 1e-6, 'xtol': 1e-6} if n else None


class Boot(Op):
    """psf fits, then the object"""
    name = 'boot'
    weight = 2.0
    tool_rng = True
    stores_psf = True
    slow = True

    def gen_t(self, rng):
        psf = rng.choice(['em1', 'em2', 'em3', 'lm', 'coellip2', 'admom'])
        obj = rng.choice(['gauss', 'gauss', 'exp'])
        g = rng.choice(['tflux', 'tpsf', 'tpsfprior', 'tfluxprior'])
        return dict(psf=psf, obj=obj, guesser=g,
                    prior=rng.choice([None, 'flat', 'lm'])
                    if 'prior' not in g else rng.choice(['flat', 'lm']),
                    ntry=rng.choice([1, 2]), pntry=rng.choice([1, 2]),
                    nb=rng.choice([1, 1, 2]),
                    moms=rng.random() < 0.4, T=0.5,
                    ignore=rng.random() < 0.8)

    def gen_d(self, rng, t):
        d = data_spec(rng, kind=rng.choice(['obs', 'list', 'mb'])
                      if t['nb'] == 1 else 'mb')
        d['bands'] = (d['bands'] * 2)[:t['nb']]
        d['bands'] = [eps[:2] for eps in d['bands']]
        return d

    def parts(self, t, rng):
        """fitter, guesser, psf fitter, psf guesser"""
        import ngmix
        G = ngmix.guessers
        psf = t['psf']
        starve = t.get('starve')
        if psf.startswith('em'):
            pf = ngmix.em.EMFitter(maxiter=200)
            if starve:
                pf = ngmix.em.EMFitter(maxiter=starve, miniter=1, tol=1e-4)
            pg = G.GMixPSFGuesser(rng=rng, ngauss=int(psf[2:]),
                                  guess_from_moms=t['moms'])
        elif psf == 'lm':
            pf = ngmix.fitting.Fitter(model='gauss', fit_pars=lm_starve(t))
            pg = G.SimplePSFGuesser(rng=rng, guess_from_moms=t['moms'])
        elif psf == 'admom':
            pf = ngmix.admom.AdmomFitter(rng=rng, **(
                dict(maxiter=starve) if starve else {}))
            pg = G.GMixPSFGuesser(rng=rng, ngauss=1,
                                  guess_from_moms=t['moms'])
        else:
            pf = ngmix.fitting.CoellipFitter(ngauss=2, fit_pars=lm_starve(t))
            pg = G.CoellipPSFGuesser(rng=rng, ngauss=2,
                                     guess_from_moms=t['moms'])
        prior = make_prior(t['prior'], rng, 0.5, t['nb'])
        fitter = ngmix.fitting.Fitter(model=t['obj'], prior=prior,
                                      fit_pars=lm_starve(t))
        g = t['guesser']
        if g == 'tflux':
            gu = G.TFluxGuesser(rng=rng, T=t['T'], flux=[80.0] * t['nb'],
                                prior=prior)
        elif g == 'tpsf':
            gu = G.TPSFFluxGuesser(rng=rng, T=t['T'], prior=prior)
        elif g == 'tpsfprior':
            gu = G.TPSFFluxAndPriorGuesser(rng=rng, T=t['T'], prior=prior)
        else:
            gu = G.TFluxAndPriorGuesser(rng=rng, T=t['T'],
                                        flux=[80.0] * t['nb'], prior=prior)
        return fitter, gu, pf, pg

    def runners(self, t, rng):
        import ngmix
        R = ngmix.runners
        fitter, gu, pf, pg = self.parts(t, rng)
        return (R.Runner(fitter=fitter, guesser=gu, ntry=t['ntry']),
                R.PSFRunner(fitter=pf, guesser=pg, ntry=t['pntry']))

    def tool(self, t, rng, c=None):
        import ngmix
        r, p = self.runners(t, rng)
        return ngmix.bootstrap.Bootstrapper(
            runner=r, psf_runner=p, ignore_failed_psf=t['ignore'])

    def inputs(self, d, t):
        return dict(obs=make_data(d))

    def call(self, tool, inp, rng, t):
        return tool.go(inp['obs'])


class MBoot(Boot):
    """metacal, then psf fits and the object for every type"""
    name = 'mboot'
    weight = 0.6
    tool_rng = True
    stores_psf = False
    slow = True

    def gen_t(self, rng):
        t = Boot.gen_t(self, rng)
        t.update(psf='lm', obj='gauss', nb=1, mpsf=rng.choice(
            ['gauss', 'fitgauss', 'dilate']),
            types=rng.choice([None, ['noshear', '1p'], ['1m']]),
            fixnoise=rng.random() < 0.6)
        return t

    def gen_d(self, rng, t):
        d = data_spec(rng, kind=rng.choice(['obs', 'list']), square=True)
        d['bands'] = [eps[:2] for eps in d['bands']]
        return d

    def tool(self, t, rng, c=None):
        import ngmix
        r, p = self.runners(t, rng)
        kw = {}
        c = c or self.ctor(t)
        if c['types'] is not None:
            kw['types'] = c['types']
        return ngmix.metacal.MetacalBootstrapper(
            runner=r, psf_runner=p, ignore_failed_psf=t['ignore'], rng=rng,
            psf=t['mpsf'], fixnoise=t['fixnoise'], **kw)

    def ctor(self, t):
        return dict(types=None if t['types'] is None else list(t['types']))

    def out(self, res):
        rd, od = res
        return ('mboot', tuple((k, canon_result(rd[k])) for k in sorted(rd)),
                canon_odict(od))


class Guess(Op):
    name = 'guess'
    weight = 1.5
    tool_rng = True

    def gen_t(self, rng):
        k = rng.choice(['tflux', 'tpsf', 'tpsfprior', 'tfluxprior', 'bdfpsf',
                        'bdf', 'bd', 'pars', 'r50', 'nu', 'prior', 'gmixpsf',
                        'simplepsf', 'coellippsf'])
        nb = rng.choice([1, 2, 3])
        if k in ('gmixpsf', 'simplepsf', 'coellippsf'):
            nb = 1
        pr = rng.choice(['flat', 'erf', 'lm', 'gauss'])
        if k in ('bdfpsf', 'bdf'):
            pr += '-bdf'
        elif k == 'bd':
            pr += '-bd'
        elif k == 'r50':
            pr += '-gs'
        elif k == 'nu':
            pr += '-sp'
        if k in ('tflux', 'tpsf', 'pars', 'r50', 'nu') and rng.random() < .5:
            pr = None
        return dict(kind=k, nb=nb, prior=pr, nrand=rng.choice([1, 2, 5]),
                    ng=rng.choice([1, 2, 3, 4, 5]), moms=rng.random() < 0.5)

    def gen_d(self, rng, t):
        d = data_spec(rng, kind='obs' if t['nb'] == 1 else 'mb')
        if t['nb'] > 1:
            d['bands'] = (d['bands'] * 3)[:t['nb']]
        return d

    def tool(self, t, rng, c=None):
        import ngmix
        G = ngmix.guessers
        k, nb = t['kind'], t['nb']
        prior = make_prior(t['prior'], rng, 0.5, nb)
        c = c or self.ctor(t)
        F = c['F']
        if k == 'tflux':
            return G.TFluxGuesser(rng=rng, T=0.6, flux=F, prior=prior)
        if k == 'tpsf':
            return G.TPSFFluxGuesser(rng=rng, T=0.6, prior=prior)
        if k == 'tpsfprior':
            return G.TPSFFluxAndPriorGuesser(rng=rng, T=0.6, prior=prior)
        if k == 'tfluxprior':
            return G.TFluxAndPriorGuesser(rng=rng, T=0.6, flux=F, prior=prior)
        if k == 'bdfpsf':
            return G.BDFPSFFluxGuesser(T=0.6, prior=prior)
        if k == 'bdf':
            return G.BDFGuesser(T=0.6, flux=F, prior=prior)
        if k == 'bd':
            return G.BDGuesser(T=0.6, flux=F, prior=prior)
        if k == 'pars':
            return G.ParsGuesser(rng=rng, pars=c['pars'], prior=prior,
                                 widths=c['widths'])
        if k == 'r50':
            return G.R50FluxGuesser(rng=rng, r50=0.6, flux=F, prior=prior)
        if k == 'nu':
            return G.R50NuFluxGuesser(rng=rng, r50=0.6, nu=0.5, flux=F,
                                      prior=prior)
        if k == 'prior':
            return G.PriorGuesser(prior=prior)
        if k == 'gmixpsf':
            return G.GMixPSFGuesser(rng=rng, ngauss=t['ng'],
                                    guess_from_moms=t['moms'])
        if k == 'simplepsf':
            return G.SimplePSFGuesser(rng=rng, guess_from_moms=t['moms'])
        return G.CoellipPSFGuesser(rng=rng, ngauss=t['ng'],
                                   guess_from_moms=t['moms'])

    def inputs(self, d, t):
        return dict(obs=make_data(d, psfg=True))

    def call(self, tool, inp, rng, t):
        if t['kind'] in ('gmixpsf', 'simplepsf', 'coellippsf'):
            return tool(obs=inp['obs'])
        return tool(obs=inp['obs'], nrand=t['nrand'])

    def out(self, res):
        return canon(res)

    def ctor(self, t):
        nb = t['nb']
        F = [100.0] * nb
        return dict(F=F, pars=np.array([0.01, -0.02, 0.1, 0.05, 0.6] + F),
                    widths=np.full(5 + nb, 0.05) if nb > 1 else None)


class Sample(Op):
    name = 'sample'
    weight = 1.0
    tool_rng = True

    def gen_t(self, rng):
        return dict(prior=rng.choice(['flat', 'erf', 'gauss', 'flat-bdf',
                                      'gauss-bd', 'erf-gs', 'gauss-sp',
                                      'flat-co', 'gauss-co', 'lm-co']),
                    nb=rng.choice([1, 2, 3]))

    def gen_d(self, rng, t):
        return dict(n=rng.choice([None, 1, 3]))

    def tool(self, t, rng, c=None):
        return make_prior(t['prior'], rng, 0.5, t['nb'])

    def inputs(self, d, t):
        return dict(n=d['n'])

    def call(self, tool, inp, rng, t):
        s = tool.sample() if inp['n'] is None else tool.sample(inp['n'])
        p = np.atleast_2d(s)
        return [s, [tool.get_lnprob_scalar(r) for r in p]]

    def out(self, res):
        return canon(res)


class SimObs(Op):
    name = 'simobs'
    weight = 1.5
    call_rng = True

    def gen_t(self, rng):
        return dict(noise=rng.random() < 0.8, all=rng.random() < 0.6,
                    nf=rng.choice([None, None, 2.0]),
                    conv=rng.random() < 0.7, none=rng.random() < 0.25)

    def gen_d(self, rng, t):
        d = data_spec(rng)
        d['g'] = guess_spec(rng)
        return d

    def inputs(self, d, t):
        gal, s = gal_of(d), scale_of(d)
        gms = [gmix_guess(2, gal['T'], gal['flux'] * (1 + b), d['g']['j'], s)
               for b in range(nband(d))]
        if t['none']:
            gm = None
        elif d['kind'] == 'mb':
            gm = gms
        else:
            gm = gms[0]
        return dict(obs=make_data(d, psfg=True), gmix=gm)

    def call(self, tool, inp, rng, t):
        import ngmix
        return ngmix.simobs.simulate_obs(
            inp['gmix'], inp['obs'], add_noise=t['noise'], rng=rng,
            add_all=t['all'], noise_factor=t['nf'], convolve_psf=t['conv'])

    def out(self, res):
        return ('sim', canon(res), tuple(
            canon(getattr(o, 'noise_image', None)) for o in epochs_of(res)))


class GapFlux(Op):
    name = 'gapflux'
    weight = 0.5

    def gen_t(self, rng):
        return dict(model=rng.choice(['exp', 'gauss', 'dev', 'cm', 'bdf']),
                    fwhm=rng.choice([0.8, 2.0]))

    def gen_d(self, rng, t):
        n, nb = rng.choice([1, 3]), rng.choice([1, 2])
        rows = []
        for i in range(n):
            r = [0.0, 0.1, rng.uniform(-.4, .4), rng.uniform(-.4, .4),
                 rng.uniform(.1, 3)]
            if t['model'] == 'bdf':
                r.append(rng.uniform(0, 1))
            rows.append([round(x, 3) for x in r] +
                        [round(rng.uniform(1, 100), 2) for _ in range(nb)])
        return dict(rows=rows, mask=rng.random() < 0.3)

    def inputs(self, d, t):
        n = len(d['rows'])
        out = dict(pars=np.array(d['rows']), mask=None)
        if d['mask']:
            out['mask'] = np.arange(n) % 2 == 0
        if t['model'] == 'cm':
            out['fracdev'] = np.linspace(0.2, 0.7, n)
            out['TdByTe'] = np.linspace(0.8, 1.7, n)
        return out

    def call(self, tool, inp, rng, t):
        from ngmix.gaussap import get_gaussap_flux
        return get_gaussap_flux(
            inp['pars'], t['model'], t['fwhm'], mask=inp['mask'],
            fracdev=inp.get('fracdev'), TdByTe=inp.get('TdByTe'),
            verbose=False)

    def out(self, res):
        return canon(res)


class KObs(Op):
    name = 'kobs'
    weight = 0.5

    def gen_d(self, rng, t):
        d = data_spec(rng, square=True)
        d['bands'] = [eps[:2] for eps in d['bands'][:2]]
        return d

    def inputs(self, d, t):
        return dict(obs=make_data(d))

    def call(self, tool, inp, rng, t):
        import ngmix
        return ngmix.observation.make_kobs(inp['obs'])

    def out(self, res):
        return canon([[o for o in ol] for ol in res])


class WSums(Op):
    """weighted moments of a mixture weight, and regularised shapes"""
    name = 'wmom'
    weight = 0.5

    def gen_t(self, rng):
        return dict(ho=rng.random() < 0.3, reg=rng.choice([0.5, 1.0]),
                    wF=rng.choice([1.0, 1.0, 1.0, -2.0, 1e-3]),
                    mr=rng.choice([None, None, 3.0]))

    def gen_d(self, rng, t):
        d = data_spec(rng, kind='obs')
        d['g'] = guess_spec(rng)
        return d

    def inputs(self, d, t):
        gal, s = gal_of(d), scale_of(d)
        obs = make_data(d)
        wt = gmix_guess(1, gal['T'] + 4 * s * s, t.get('wF', 1.0),
                        d['g']['j'], s)
        return dict(obs=obs, wt=wt,
                    momres=wt.copy().get_weighted_moments(obs=obs.copy()))

    def call(self, tool, inp, rng, t):
        from ngmix import moments
        mr = t.get('mr')
        if mr is not None:
            mr = mr * np.sqrt(inp['obs'].jacobian.area)
        r = inp['wt'].get_weighted_moments(
            obs=inp['obs'], with_higher_order=t['ho'], maxrad=mr)
        s = inp['momres']
        r2 = moments.make_mom_result(s['sums'], s['sums_cov'])
        r3 = moments.regularize_mom_shapes(s, t['reg'])
        return [r, r2, r3]

    def out(self, res):
        return canon(res)


class S2N(Op):
    name = 's2n'
    weight = 0.3

    def gen_d(self, rng, t):
        return data_spec(rng)

    def inputs(self, d, t):
        return dict(obs=make_data(d))

    def call(self, tool, inp, rng, t):
        import ngmix
        return [inp['obs'].get_s2n(), inp['obs'].get_s2n_sums(),
                ngmix.observation.get_mb_obs(inp['obs'])]

    def out(self, res):
        return canon(res)


class RunPSF(Boot):
    """psf runner alone"""
    name = 'runpsf'
    weight = 1.0
    tool_rng = True
    stores_psf = True

    def tool(self, t, rng, c=None):
        return self.runners(t, rng)[1]

    def call(self, tool, inp, rng, t):
        return tool.go(inp['obs'])

    def out(self, res):
        return canon_nested(res)


def canon_nested(res):
    if isinstance(res, list):
        return ('list', tuple(canon_nested(r) for r in res))
    return canon_result(res)


class GMixOps(Op):
    """derived mixtures: convolution, shear, rounding, conversion, images"""
    name = 'gmixops'
    weight = 0.7

    def gen_t(self, rng):
        return dict(model=rng.choice(['gauss', 'exp', 'dev', 'turb', 'full']),
                    g1=round(rng.uniform(-.1, .1), 3),
                    g2=round(rng.uniform(-.1, .1), 3))

    def gen_d(self, rng, t):
        return dict(j=[round(rng.uniform(-1, 1), 3) for _ in range(8)],
                    ep=world.epoch_spec(rng))

    def inputs(self, d, t):
        import ngmix
        j = d['j']
        s = d['ep']['jac']['scale']
        if t['model'] == 'full':
            gm = gmix_guess(3, 8 * s * s, 50.0, j, s)
        else:
            gm = ngmix.GMixModel(
                [0.1 * s * j[0], 0.1 * s * j[1], 0.2 * j[2], 0.2 * j[3],
                 s * s * (8 + j[4]), 50 + 10 * j[5]], t['model'])
        psf = gmix_guess(2, 4 * s * s, 1.0, j[2:] + j[:2], s)
        return dict(gm=gm, psf=psf, obs=world.make_epoch(d['ep']))

    def call(self, tool, inp, rng, t):
        gm, psf, obs = inp['gm'], inp['psf'], inp['obs']
        c = gm.convolve(psf)
        sh = gm.get_sheared(t['g1'], t['g2'])
        rd = gm.make_round()
        im = c.make_image(obs.image.shape, jacobian=obs.jacobian)
        ll = c.get_loglike(obs)
        s2n = c.get_model_s2n(obs)
        gs = repr(type(gm.make_galsim_object()))
        return [c, sh, rd, im, ll, s2n, gs, gm.get_e1e2T(), gm.get_cen(),
                gm.get_flux(), c.get_gaussap_flux(1.0)]

    def out(self, res):
        return canon(res)


class Algebra(Op):
    """shape and moment conversions and prior evaluations on arrays"""
    name = 'algebra'
    weight = 0.5

    def gen_t(self, rng):
        return dict(s=[round(rng.uniform(-.3, .3), 3) for _ in range(2)],
                    th=round(rng.uniform(-3, 3), 3))

    def gen_d(self, rng, t):
        n = rng.choice([1, 3, 6])
        rows = []
        for _ in range(n):
            r = rng.choice([0.0, 1e-9, rng.uniform(0, .9), rng.uniform(0, .9),
                            rng.uniform(0, .9), .999999, 1.0, 1.3])
            a = rng.uniform(0, 6.283)
            rows.append([round(float(r * np.cos(a)), 9),
                         round(float(r * np.sin(a)), 9),
                         round(rng.choice([rng.uniform(.1, 5),
                                           rng.uniform(.1, 5), 0.0, -1.0]),
                               4)])
        return dict(rows=rows, scalar=rng.random() < .3)

    def inputs(self, d, t):
        a = np.array(d['rows'])
        if d['scalar']:
            return dict(g1=float(a[0, 0]), g2=float(a[0, 1]),
                        T=float(a[0, 2]), t=dict(t))
        return dict(g1=a[:, 0].copy(), g2=a[:, 1].copy(), T=a[:, 2].copy(),
                    t=dict(t))

    def call(self, tool, inp, rng, t):
        from ngmix import shape, moments, priors
        g1, g2, T = inp['g1'], inp['g2'], inp['T']
        s1, s2 = t['s']
        out = []

        def do(f, *a):
            try:
                out.append(f(*a))
            except documented_errors() + (ArithmeticError, ValueError) as e:
                # numbers that have no shape, or arrays where a single
                # number is expected
                if 'injected' in str(e):
                    raise
                out.append(type(e).__name__)
        do(shape.g1g2_to_e1e2, g1, g2)
        do(shape.e1e2_to_g1g2, g1, g2)
        do(shape.g1g2_to_eta1eta2, g1, g2)
        do(shape.e1e2_to_eta1eta2, g1, g2)
        do(shape.eta1eta2_to_g1g2, g1, g2)
        do(shape.shear_reduced, g1, g2, s1, s2)
        do(shape.dgs_by_dgo_jacob, g1, g2, s1, s2)
        do(shape.get_round_factor, g1, g2)
        do(shape.rotate_shape, g1, g2, t['th'])
        do(moments.moms_to_e1e2, g1, g2, T)
        do(moments.get_sheared_M1M2T, g1, g2, T, s1, s2)
        do(moments.get_sheared_moments, g1, g2, T, s1, s2)
        do(moments.e2mom, g1, g2, T)
        pr = priors.GPriorBA(0.3, rng=np.random.RandomState(3))
        r = np.sqrt(g1 ** 2 + g2 ** 2)
        zd = priors.ZDisk2D(1.0, rng=np.random.RandomState(3))
        if isinstance(g1, np.ndarray):
            do(pr.get_prob_array2d, g1, g2)
            do(pr.get_lnprob_array2d, g1, g2)
            do(pr.get_prob_array1d, r)
            do(pr.get_fdiff, g1, g2)
            do(zd.get_prob_array2d, g1, g2)
        else:
            do(moments.mom2e, g1, g2, T)
            do(moments.mom2g, 1.0 + T, g2, 1.0 - T)
            do(moments.get_Tround, T, g1, g2)
            do(moments.get_T, T, g1, g2)
            do(moments.g2mom, g1, g2, T)
            do(moments.get_sheared_g1g2T, g1, g2, T, s1, s2)
            do(pr.get_prob_scalar2d, g1, g2)
            do(zd.get_prob_scalar2d, g1, g2)
        for q in (priors.Normal(0.0, 1.0, rng=np.random.RandomState(3)),
                  priors.LogNormal(1.0, .5, rng=np.random.RandomState(3)),
                  priors.TwoSidedErf(0.0, .1, 2.0, .1,
                                     rng=np.random.RandomState(3)),
                  priors.TruncatedGaussian(
                      0.5, 1.0, 0.0, 2.0, rng=np.random.RandomState(3))):
            if isinstance(T, np.ndarray):
                for n in ('get_lnprob_array', 'get_prob_array'):
                    if hasattr(q, n):
                        do(getattr(q, n), T)
                if type(q).__name__ != 'LogNormal':
                    do(q.get_fdiff, T)
            else:
                do(q.get_lnprob_scalar, T)
        return out

    def out(self, res):
        return canon(res)


OPS = {}
for _c in (Fit, Coellip, PSFFlux, GSFit, GSPSFFlux, EM, Admom, RunAdmom,
           FindCen, GMom, PreMom, Metacal, Boot, MBoot, Guess, Sample, SimObs,
           GapFlux, KObs, WSums, S2N, RunPSF, GMixOps,
           Algebra):
    OPS[_c.name] = _c()


def pick(rng, names=None, skip=()):
    names = [n for n in (names or OPS) if n not in skip]
    w = [OPS[n].weight for n in names]
    return OPS[rng.choices(names, weights=w)[0]]


def documented_errors():
    import ngmix
    return (ngmix.gexceptions.NGmixBaseException,)


def run_op(p, tool=None, inp=None, rng=None):
    """build what is missing, call once -> (inp, rng, result)"""
    op = OPS[p['op']]
    if rng is None:
        rng = np.random.RandomState(p['s'])
    if tool is None:
        tool = op.tool(p['t'], rng)
    if inp is None:
        inp = op.inputs(p['d'], p['t'])
    return inp, rng, op.call(tool, inp, rng, p['t'])


def warm():
    """compile everything once"""
    import random
    r = random.Random(7)
    for name, op in OPS.items():
        for _ in range(3):
            p = op.gen(r)
            try:
                inp, rng, res = run_op(p)
                op.out(res)
            except Exception:
                pass
    for kind in ('full', 'fixcen', 'fluxonly'):
        for n in (1, 2):
            op = OPS['em']
            p = op.gen(r)
            p['t'].update(kind=kind)
            p['d']['psf'] = n == 1
            try:
                op.out(run_op(p)[2])
            except Exception:
                pass
