"""C20: what a fit evaluates is the model against exactly the data it was given"""
import sys
import warnings

import numpy as np

from .. import world
from ..canon import canon, diff
from ..inject import count_statements, run_with_fault
from ..sched import Scheduler
from .c04 import Ref

ID = 'C20'
RUNS = {'quick': 7000, 'thorough': 200000}
TECH = ('seeded histories of evaluations at good, out-of-range and undefined '
        'parameters by several fit models over shared data, with failing '
        'priors, statement-level faults, overlapping threads and data in '
        'other orders and pieces; each evaluation is compared with the model '
        'rendered in plain numpy (or galsim values) at every pixel')
RULE = ('a run builds fit models over one set of images (one to many epochs '
        'and bands) and evaluates them in a random history. Non-trivial: an '
        'evaluation follows one that failed, was interrupted, overlapped or '
        'used other parameters')
STATE_MEASURE = ('signature (kind, model, bands, operation, previous '
                 'operation, outcome)')
REAL = ['ngmix.fitting.results', 'ngmix.fitting.galsim_results',
        'ngmix.gmix', 'ngmix.observation', 'ngmix.joint_prior', 'galsim']
STUB = ['priors that fail on a script (some runs)', 'thread scheduling',
        'the interruption and failing call (statement injection)']
ASSUME = ['statistics are derived of fits with more pixels than parameters',
          'all epochs have a point-spread mixture, or none has',
          'the data are not edited while a fit model holds them',
          'weights are not negative in flux fits',
          'profile tables are not judged here (C31)']
TIME_UNIT = 'evaluations'

GM = ['gauss', 'exp', 'dev', 'turb', 'bdf', 'bd', 'coellip']
GS = ['gauss', 'exp', 'dev', 'spergel', 'moffat']
FLUX = ['psf', 'psf', 'psfraw', 'obs', 'tpsf', 'tpsfraw', 'tobs', 'gspsf',
        'gsmodel']
EVALS = ['lnp', 'more', 'fdiff', 'fdiff', 'result']
BADP = ['g1', 'gbig', 'T0', 'Tneg', 'nan', 'inf', 'prior']


def warm():
    import random
    from .. import core
    rng = random.Random(5)
    for _ in range(60):
        core.run_one(sys.modules[__name__], generate(rng, 'quick'))


def u(rng, a, b):
    return round(rng.uniform(a, b), 4)


def gen_ep(rng, scale):
    d = dict(s=rng.randrange(1 << 30), dims=[rng.randrange(3, 11),
                                             rng.randrange(3, 11)],
             jac=world.jac_spec(rng), w=rng.choice(
                 ['flat', 'vary', 'vary', 'holes', 'row', 'one']),
             izw=rng.random() < .7, npsf=rng.choice([1, 1, 2, 3]))
    d['jac']['scale'] = scale
    if rng.random() < .15:
        # epochs of other pixels
        d['jac']['scale'] = scale * rng.choice([.5, 1.7, 3.])
    if rng.random() < .01:
        d['dims'] = rng.choice([[40, 9], [7, 66], [34, 33]])
    return d


def gen_pars(rng, mode, model, nb, ng):
    """in units of the pixel scale"""
    p = [u(rng, -1, 1), u(rng, -1, 1)]
    g = rng.uniform(0, .7)
    t = rng.uniform(-3.2, 3.2)
    p += [round(float(g * np.cos(t)), 4), round(float(g * np.sin(t)), 4)]
    for j in range(4):
        if rng.random() < .08:
            p[j] = 0.0
    if mode == 'gs':
        p.append(u(rng, .3, 3))
        if model == 'spergel':
            p.append(u(rng, -.6, 3))
        elif model == 'moffat':
            p.append(u(rng, 1.6, 5))
    elif model == 'coellip':
        p += [u(rng, .5, 9) for _ in range(ng)]
    else:
        p.append(u(rng, .5, 9))
        if model == 'bdf':
            p.append(u(rng, 0, 1))
        elif model == 'bd':
            p += [u(rng, -.3, .3), u(rng, 0, 1)]
    n = ng if model == 'coellip' else nb
    p += [round(10 ** rng.uniform(-1, 3), 4) for _ in range(n)]
    return dict(p=p, bad=rng.choice(BADP) if rng.random() < .3 else None,
                f=rng.choice(['array', 'list', 'ro', 'buffer']))


def generate(rng, tier):
    mode = rng.choice(['gmix', 'gmix', 'gmix', 'gs', 'flux'])
    model = rng.choice({'gmix': GM, 'gs': GS, 'flux': FLUX}[mode])
    scale = rng.choice([1.0, .263, .2])
    if rng.random() < .1:
        # galsim models have a least size of 1e-4
        scale = rng.choice([1e-2 if mode == 'gs' else 1e-4, 30.])
    nb = 1 if mode == 'flux' or model == 'coellip' else \
        rng.choice([1, 1, 2, 3, 5])
    ng = rng.choice([1, 2, 3])
    d = dict(mode=mode, model=model, scale=scale, nb=nb, ng=ng,
             psf=rng.random() < .8, form=rng.choice(['mb', 'mb', 'small']),
             bands=[[gen_ep(rng, scale)
                     for _ in range(rng.choice([1, 1, 2, 3, 4, 7]))]
                    for _ in range(nb)],
             flux=rng.choice([1.0, 1.0, 1e-5, 1e5]),
             prior=rng.choice([None, None, 'stub', 'real']),
             pfail=rng.choice([None, None, 'GMixRangeError', 'ValueError']),
             native=rng.random() < .25)
    if nb == 1 and rng.random() < .3:
        d['bands'][0] = d['bands'][0][:1]
    d['pars'] = [gen_pars(rng, mode, model, nb, ng) for _ in range(4)]
    ops = []
    for _ in range(rng.randrange(3, 14)):
        r = rng.random()
        if r < .72:
            op = dict(k='eval', ev=rng.choice(EVALS), m=rng.randrange(4),
                      p=rng.randrange(4), spoil=rng.random() < .5)
            if rng.random() < .2:
                op['inject'] = dict(f=rng.random(), e=rng.choice(
                    ['MemoryError', 'Interrupt', 'GMixRangeError',
                     'ValueError']))
        elif r < .88:
            op = dict(k='new', how=rng.choice(['perm', 'perm', 'split',
                                               'blank', 'same', 'one',
                                               'twice', 'twice', 'shared',
                                               'shared', 'edit', 'edit']),
                      m=rng.randrange(4), s=rng.randrange(1 << 20), p=rng.randrange(4))
        elif r < .94:
            op = dict(k='badnew', how=rng.choice(['short', 'long', 'range']),
                      m=rng.randrange(4))
        else:
            op = dict(k='threads', m=rng.randrange(4), m2=rng.randrange(4),
                      p=rng.randrange(4), p2=rng.randrange(4),
                      ev=rng.choice(EVALS[:4]), ev2=rng.choice(EVALS[:4]),
                      sched=[[rng.randrange(2), rng.choice([1, 3, 9, 30])]
                             for _ in range(rng.randrange(1, 16))])
        ops.append(op)
    d['ops'] = ops
    return d


KEEP = ('pars', 'nb', 'ng', 'dims')
MINLEN = {'ops': 1}


def shrink(spec):
    for i, o in enumerate(spec['ops']):
        if 'inject' in o:
            p = dict(o)
            del p['inject']
            yield dict(spec, ops=spec['ops'][:i] + [p] + spec['ops'][i + 1:])
    for b, eps in enumerate(spec['bands']):
        if len(eps) > 1:
            for j in range(len(eps)):
                yield dict(spec, bands=spec['bands'][:b] +
                           [eps[:j] + eps[j + 1:]] + spec['bands'][b + 1:])
    for i, p in enumerate(spec['pars']):
        if p['bad']:
            yield dict(spec, pars=spec['pars'][:i] + [dict(p, bad=None)] +
                       spec['pars'][i + 1:])


# ---------------------------------------------------------------------------
# data

class Ep(object):
    """one image, in plain numpy"""

    def copy(self):
        e = Ep()
        e.__dict__.update(self.__dict__)
        e.w = self.w.copy()
        return e


def make_ep(d, spec):
    e = Ep()
    rs = np.random.RandomState(d['s'])
    dims = tuple(d['dims'])
    e.dims, e.jac = dims, d['jac']
    e.area = abs(np.linalg.det(world.jac_matrix(d['jac'])))
    e.v, e.u = world.vu(d['jac'], dims)
    amp = spec['flux'] * 10 ** rs.uniform(-1, 1)
    e.im = rs.normal(size=dims) * amp
    w = np.full(dims, 10 ** rs.uniform(-1, 1)) / amp ** 2
    if d['w'] != 'flat':
        w *= rs.uniform(.2, 3, size=dims)
    if d['w'] == 'holes':
        w[rs.uniform(size=dims) < .3] = 0
    elif d['w'] == 'row':
        w[1] = 0
    elif d['w'] == 'one':
        w[:] = 0
        w[2, 1] = 1.5 / amp ** 2
    if not (w > 0).any():
        w[1, 1] = 1 / amp ** 2
    e.w, e.izw = w, d['izw']
    s = spec['scale']
    pars = []
    for _ in range(d['npsf']):
        a, b = s * s * rs.uniform(.4, 3, size=2)
        pars += [rs.uniform(.1, 2), s * rs.uniform(-.4, .4),
                 s * rs.uniform(-.4, .4), a, .6 * rs.uniform(-1, 1) *
                 np.sqrt(a * b), b]
    e.psf = np.array(pars).reshape(-1, 6)
    e.tmpl = rs.uniform(.1, 1, size=dims)
    e.ptmpl = rs.uniform(.1, 1, size=dims)
    x, y = np.mgrid[-4:5, -4:5]
    e.pim = np.exp(-.5 * (x ** 2 + y ** 2) / rs.uniform(1, 3)) * \
        rs.uniform(.5, 3)
    e.pcen = rs.uniform(3.6, 4.4, size=2)
    return e


def make_obs(e, spec):
    import ngmix
    psf = None
    jac = world.make_jac(e.jac, e.dims)
    m = spec['model']
    if spec['mode'] == 'flux' or spec['psf']:
        pj = jac.copy()
        pj.set_cen(row=e.pcen[0], col=e.pcen[1])
        gm = ngmix.GMix(pars=e.psf.ravel())
        if spec['mode'] == 'flux' and m[0] == 't':
            gm = None
        psf = ngmix.Observation(e.pim.copy(), jacobian=pj, gmix=gm)
        if m in ('tpsf', 'tpsfraw'):
            psf.template = e.ptmpl.copy()
    kw = {}
    if spec['mode'] == 'flux' and m == 'obs':
        kw['gmix'] = ngmix.GMix(pars=e.psf.ravel())
    o = ngmix.Observation(e.im.copy(), weight=e.w.copy(), jacobian=jac,
                          psf=psf, ignore_zero_weight=e.izw, **kw)
    if m == 'tobs':
        o.template = e.tmpl.copy()
    return o


class KEp(Ep):
    """an image of frequencies"""


def make_kep(d, spec):
    """an image of frequencies"""
    e = KEp()
    rs = np.random.RandomState(d['s'])
    n, m = d['dims'][0] + 1, d['dims'][1] + 1
    e.dims = (n, m)
    e.dk = rs.uniform(.2, .6) / spec['scale']
    amp = spec['flux'] * 10 ** rs.uniform(-1, 1)
    e.k = amp * (rs.normal(size=(n, m)) + 1j * rs.normal(size=(n, m)))
    w = np.full((n, m), 10 ** rs.uniform(-1, 1)) / amp ** 2
    if d['w'] != 'flat':
        w *= rs.uniform(.2, 3, size=w.shape)
    if d['w'] in ('holes', 'one'):
        w[rs.uniform(size=w.shape) < .3] = 0
    elif d['w'] == 'row':
        w[1] = 0
    e.w = w
    e.pk = rs.normal(size=(n, m)) + 1j * rs.normal(size=(n, m))
    return e


def make_kobs(e, spec):
    import galsim
    import ngmix

    def im(a, t=galsim.ImageCD):
        i = t(a.copy(), scale=e.dk)
        # zero frequency in the middle
        i.setCenter(0, 0)
        return i
    psf = None
    if spec['psf']:
        psf = ngmix.observation.KObservation(im(e.pk))
    return ngmix.observation.KObservation(
        im(e.k), weight=im(e.w, galsim.ImageD), psf=psf)


def kep_of(kobs):
    """the same numbers out of an image the package has transformed"""
    e = KEp()
    e.k = kobs.kimage.array.copy()
    e.dk = kobs.kimage.scale
    e.w = kobs.weight.array.copy()
    e.dims = e.k.shape
    e.pk = kobs.psf.kimage.array.copy() if kobs.has_psf() else None
    e.b = kobs.kimage.bounds
    return e


# ---------------------------------------------------------------------------
# priors

class StubPrior(object):
    """a parabola; fails on a script"""

    def __init__(self, c, w, n, fail):
        self.c, self.w, self.n = np.array(c), np.array(w), n
        self.fail = fail
        self.armed = False
        self.bounds = [(None, None)] * len(c)

    def boom(self):
        if self.armed:
            import ngmix
            e = {'GMixRangeError': ngmix.gexceptions.GMixRangeError,
                 'ValueError': ValueError}[self.fail]
            raise e('scripted')

    def terms(self, p):
        x = (np.array(p) - self.c) / self.w
        return x[:self.n]

    def get_lnprob_scalar(self, p):
        self.boom()
        return -.5 * (self.terms(p) ** 2).sum()

    def fill_fdiff(self, p, fdiff):
        self.boom()
        # two parameters of the shape go together in the real ones
        x = self.terms(p)
        fdiff[:self.n] = x
        return self.n


def n_prior(spec):
    m, nb = spec['model'], spec['nb']
    if spec['mode'] == 'gs':
        return 4 + nb + (m in ('spergel', 'moffat'))
    if m == 'coellip':
        return 3 + 2 * spec['ng']
    return 4 + nb + {'bdf': 1, 'bd': 2}.get(m, 0)


# ---------------------------------------------------------------------------
# the reference

def npars_of(spec):
    return len(spec['pars'][0]['p'])


def real_pars(spec, i):
    """parameters in sky units"""
    d = spec['pars'][i]
    s, p = spec['scale'], list(d['p'])
    nb, m = spec['nb'], spec['model']
    p[0] *= s
    p[1] *= s
    if spec['mode'] == 'gs':
        p[4] *= s
    elif m == 'coellip':
        for j in range(spec['ng']):
            p[4 + j] *= s * s
    else:
        p[4] *= s * s
    n = spec['ng'] if m == 'coellip' else nb
    for j in range(len(p) - n, len(p)):
        p[j] *= spec['flux']
    b = d['bad']
    if b == 'g1':
        p[2:4] = [0.6, -0.8]
    elif b == 'gbig':
        p[2:4] = [1.1, 0.3]
    elif b == 'T0':
        p[4] = 0.0
    elif b == 'Tneg':
        p[4] = -3.0 * s * s
    elif b == 'nan':
        p[i % len(p)] = np.nan
    elif b == 'inf':
        p[-1] = np.inf
    return p


def band_pars(spec, p, band):
    m, nb = spec['model'], spec['nb']
    if m == 'coellip':
        return list(p)
    return list(p[:len(p) - nb]) + [p[len(p) - nb + band]]


def components(spec, p, band):
    """of the model alone; None when out of range"""
    import ngmix
    b = band_pars(spec, p, band)
    if np.hypot(b[2], b[3]) >= 1:
        return None
    try:
        if spec['model'] == 'coellip':
            gm = ngmix.gmix.GMixCoellip(b)
        else:
            gm = ngmix.GMixModel(b, spec['model'])
    except ngmix.gexceptions.GMixRangeError:
        return None
    return Ref(np.array(gm.get_full_pars()))


def gs_object(spec, p, band):
    import galsim
    b = band_pars(spec, p, band)
    m = spec['model']
    try:
        if m == 'spergel':
            o = galsim.Spergel(b[5], half_light_radius=b[4], flux=b[6])
        elif m == 'moffat':
            o = galsim.Moffat(b[5], half_light_radius=b[4], flux=b[6])
        else:
            if b[4] < 1e-4:
                return None
            c = {'gauss': galsim.Gaussian, 'exp': galsim.Exponential,
                 'dev': galsim.DeVaucouleurs}[m]
            o = c(half_light_radius=b[4], flux=b[5])
        o = o.shear(g1=b[2], g2=b[3])
    except (galsim.GalSimError, ValueError, RuntimeError):
        return None
    return o.shift(b[0], b[1])


def gs_values(o, e):
    """the transform of the model at each frequency; None when galsim has
    none"""
    import galsim
    n, m = e.dims
    im = galsim.ImageCD(m, n, scale=e.dk)
    if hasattr(e, 'b'):
        im = galsim.ImageCD(bounds=e.b, scale=e.dk)
    else:
        im.setCenter(0, 0)
    try:
        o.drawKImage(image=im, recenter=False)
    except (galsim.GalSimError, RuntimeError):
        return None
    return im.array.copy()


def flat_obs(x):
    """single observations"""
    if isinstance(x, list):
        return [o for y in x for o in flat_obs(y)]
    return [x]


class Data(object):
    """epochs by band, as numpy and as the package's objects"""

    def __init__(self, bands, obs):
        self.bands, self.obs = bands, obs


class Model(object):
    def __init__(self, fm, data):
        self.fm, self.data = fm, data
        self.serial = None


class Run(object):
    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.prev = 'start'
        self.ms = []
        self.cache = {}
        self.buf = None
        self.nbuilt = 0

    # -- building
    def eps(self):
        sp = self.spec
        f = make_kep if sp['mode'] == 'gs' and not sp['native'] else make_ep
        return [[f(d, sp) for d in eps] for eps in sp['bands']]

    def wrap(self, bands):
        """collections of observations"""
        import ngmix
        sp = self.spec
        o = ngmix.observation
        k = sp['mode'] == 'gs' and not sp['native']
        OL = o.KObsList if k else o.ObsList
        MB = o.KMultiBandObsList if k else o.MultiBandObsList
        mk = make_kobs if k else make_obs
        mb = MB()
        # one object that is there twice stays one object
        made = {}
        for eps in bands:
            ol = OL()
            for e in eps:
                if id(e) not in made:
                    made[id(e)] = mk(e, sp)
                    if k:
                        made[id(e)].meta['seen'] = 3
                ol.append(made[id(e)])
            mb.append(ol)
        if sp['mode'] == 'flux' or (sp['form'] == 'small' and len(mb) == 1):
            if len(mb[0]) == 1 and sp['form'] == 'small':
                return mb[0][0]
            return mb[0]
        return mb

    def make_prior(self):
        sp = self.spec
        # the priors of single parameters that a joint one is made of
        self.parts = []
        if sp['prior'] is None or sp['mode'] == 'flux':
            return None
        if sp['prior'] == 'stub':
            n = len(real_pars(sp, 0))
            c = [0.3 * sp['scale']] * n
            pr = StubPrior(c, np.abs(np.array(c)) * 3 + 1e-3, n_prior(sp),
                           sp['pfail'])
            # as many entries as the real prior of this model has
            x = pr.terms
            pr.terms = lambda p: np.resize(x(p), n_prior(sp))
            return pr
        from .. import zoo
        rng = np.random.RandomState(3)
        m = sp['model']
        kind = 'gauss'
        if sp['mode'] == 'gs':
            kind = 'gauss-sp' if m in ('spergel', 'moffat') else 'gauss-gs'
        elif m in ('bdf', 'bd'):
            kind = 'gauss-' + m
        elif m == 'coellip':
            return zoo.make_prior('gauss-co', rng, sp['scale'], sp['ng'],
                                  self.parts)
        return zoo.make_prior(kind, rng, sp['scale'], sp['nb'], self.parts)

    def again(self, op, guess):
        """another fit model over observations one was made for, perhaps
        with other weights"""
        m = self.ms[op['m'] % len(self.ms)]
        bands, obs = m.data.bands, m.data.obs
        if op['how'] == 'edit':
            rs = np.random.RandomState(op['s'])
            made = {}
            bands = [[made.setdefault(id(e), e.copy()) for e in eps]
                     for eps in bands]
            flat = [e for eps in bands for e in eps]
            j = rs.randint(len(flat))
            e, o = flat[j], flat_obs(obs)[j]
            w = e.w * rs.uniform(.3, 3, size=e.w.shape)
            w[rs.randint(w.shape[0])] = 0
            if not (w > 0).any():
                w[rs.randint(w.shape[0]), rs.randint(w.shape[1])] = \
                    e.w.max()
            if not (w > 0).any():
                return
            e.w = w
            if hasattr(o, 'kimage'):
                o.weight.array[:, :] = w
            elif rs.randint(2):
                o.weight = w
            else:
                with o.writeable():
                    o.weight[:, :] = w
            # the ones before hold other data now
            self.ms = [x for x in self.ms if x.data.obs is not obs]
        self.ms.append(self.build(bands, guess, obs))

    def build(self, bands, guess, obs=None):
        import ngmix
        from ngmix.fitting import results, galsim_results as gr
        sp = self.spec
        made = obs is None
        if made:
            obs = self.wrap(bands)
        m = sp['model']
        if sp['mode'] == 'flux':
            if m in ('gspsf', 'gsmodel'):
                import galsim
                g = None
                if m == 'gsmodel':
                    g = galsim.Exponential(half_light_radius=sp['scale'],
                                           flux=7.0)
                fm = gr.GalsimPSFFitModel(obs, model=g)
            else:
                fm = results.PSFFluxFitModel(
                    obs, do_psf=m not in ('obs', 'tobs'),
                    normalize_psf=m not in ('psfraw', 'tpsfraw'))
        elif sp['mode'] == 'gs':
            if sp['native'] and made:
                # judge what is done with the transforms, not the transforms
                obs = ngmix.observation.make_kobs(obs)
                bands = [[kep_of(k) for k in kl] for kl in obs]
            kw = dict(obs=obs, guess=guess, prior=self.prior)
            if m == 'spergel':
                fm = gr.GalsimSpergelFitModel(**kw)
            elif m == 'moffat':
                fm = gr.GalsimMoffatFitModel(**kw)
            else:
                fm = gr.GalsimFitModel(model=m, **kw)
        elif m == 'coellip':
            fm = results.CoellipFitModel(obs=obs, ngauss=sp['ng'],
                                         guess=guess, prior=self.prior)
        else:
            fm = results.FitModel(obs=obs, model=m, guess=guess,
                                  prior=self.prior)
        m = Model(fm, Data(bands, obs))
        self.nbuilt += 1
        m.serial = self.nbuilt
        return m

    def good_par(self, i):
        sp = self.spec
        d = dict(sp, pars=[dict(p, bad=None) for p in sp['pars']])
        return real_pars(d, i)

    # -- what evaluation gives
    def rendered(self, m, p):
        """per band and epoch (values, errors of the fast exponential);
        None when out of range, 'undefined' when not a number"""
        sp = self.spec
        if not np.all(np.isfinite(p)):
            return 'undefined'
        out = []
        for b, eps in enumerate(m.data.bands):
            if sp['mode'] == 'gs':
                if abs(np.hypot(p[2], p[3]) - 1) < 1e-6 and \
                        sp['model'] != 'moffat':
                    # a line
                    return 'undefined'
                o = gs_object(sp, p, b)
                if o is None:
                    return None
                row = []
                for e in eps:
                    x = gs_values(o, e)
                    if x is None:
                        return None
                    err = 1e-9 * np.abs(x) + 1e-11 * abs(o.flux)
                    if sp['psf']:
                        x = x * e.pk
                        err = err * np.abs(e.pk)
                    row.append((x, err))
                out.append(row)
                continue
            ref = components(sp, p, b)
            if ref is None:
                return None
            row = []
            for e in eps:
                r = ref.conv(Ref(e.psf)) if sp['psf'] else ref
                det = r.c[:, 3] * r.c[:, 5] - r.c[:, 4] ** 2
                T = r.c[:, 3] + r.c[:, 5]
                sc = np.abs(r.c[:, 3:]).max()
                if not r.good():
                    return None
                if np.any(det < 1e-9 * sc ** 2) or np.any(T < 1e-9 * sc):
                    # too close to call
                    return 'undefined'
                row.append(r.eval(e.v, e.u, e.area))
            out.append(row)
        return out

    def used(self, e):
        return e.w > 0 if e.izw else np.ones(e.w.shape, dtype=bool)

    def ref_more(self, m, ren):
        s = dict(ll=0.0, n=0.0, d=0.0, npix=0)
        tol = dict(ll=0.0, n=0.0, d=0.0)
        for eps, row in zip(m.data.bands, ren):
            for e, (x, err) in zip(eps, row):
                err = err + 1e-10 * (np.abs(x).max() + 1e-300)
                d = x - e.im
                s['ll'] += -.5 * (d ** 2 * e.w).sum()
                s['n'] += (x * e.im * e.w).sum()
                s['d'] += (x ** 2 * e.w).sum()
                s['npix'] += int(self.used(e).sum())
                tol['ll'] += ((np.abs(d) * err + err ** 2) * e.w).sum() + \
                    1e-9 * (d ** 2 * e.w).sum()
                tol['n'] += (np.abs(e.im) * err * e.w).sum() + \
                    1e-9 * np.abs(x * e.im * e.w).sum()
                tol['d'] += ((2 * np.abs(x) * err + err ** 2) * e.w).sum() + \
                    1e-9 * (x ** 2 * e.w).sum()
        return s, tol

    def par_arg(self, i):
        p = real_pars(self.spec, i)
        f = self.spec['pars'][i]['f']
        if f == 'list' and self.spec['mode'] != 'gmix':
            f = 'array'
        if f == 'list' and self.spec['model'] == 'coellip':
            f = 'array'
        if self.spec['prior'] == 'real':
            f = 'array'
        a = p if f == 'list' else np.array(p)
        if f == 'buffer':
            # one array refilled for each evaluation, as optimisers do
            if self.buf is None:
                self.buf = a
            self.buf[:] = a
            a = self.buf
        if f == 'ro':
            a.setflags(write=False)
        return a

    def evaluate(self, m, ev, a):
        if ev == 'lnp':
            return m.fm.calc_lnprob(a)
        if ev == 'more':
            return m.fm.calc_lnprob(a, more=True)
        return m.fm.calc_fdiff(a)

    def prior_terms(self, p):
        """(lnprob, entries, range error, other error)"""
        import ngmix
        pr = self.prior
        if pr is None:
            return 0.0, np.zeros(0), False, False
        f = np.zeros(n_prior(self.spec))
        if self.parts:
            cen, g = self.parts[:2]
            try:
                t = list(cen.get_lnprob_scalar_sep(p[0], p[1]))
                t.append(g.get_lnprob_scalar2d(p[2], p[3]))
                t += [x.get_lnprob_scalar(v)
                      for x, v in zip(self.parts[2:], p[4:])]
            except ngmix.gexceptions.GMixRangeError:
                return None, None, True, False
            t = np.array(t)
            self.ctx.check(t.size == f.size and
                           len(p) == len(self.parts) + 2, 'prior-entries',
                           lambda: '%s of %s' % (t.size, f.size))
            ln = cen.get_lnprob_scalar(p[0], p[1]) + t[2:].sum()
            return ln, np.sqrt((-2 * t).clip(min=0)), False, False
        try:
            ln = pr.get_lnprob_scalar(np.array(p))
            n = pr.fill_fdiff(np.array(p), f)
        except ngmix.gexceptions.GMixRangeError:
            return None, None, True, False
        except ValueError:
            return None, None, False, True
        self.ctx.check(n == f.size, 'prior-entries', lambda: '%s of %s' % (
            n, f.size))
        return ln, f, False, False

    def judge(self, m, i, ev, out, exc, what):
        """one evaluation against the reference; True: in range"""
        import ngmix
        ctx, sp = self.ctx, self.spec
        p = real_pars(sp, i)
        key = (m.serial, i)
        if key not in self.cache:
            self.cache[key] = self.rendered(m, p)
        ren = self.cache[key]
        ln, pf, prange, perr = self.prior_terms(p)
        if perr:
            ctx.check(isinstance(exc, ValueError) or ren is None,
                      'error-lost', lambda: '%s: the prior failed, and %r '
                      'came out' % (what, exc if exc else out))
            return False
        if exc is not None:
            if ren == 'undefined':
                ok = isinstance(exc, (ngmix.gexceptions.GMixRangeError,
                                      ValueError, RuntimeError,
                                      ZeroDivisionError))
                ctx.check(ok, 'unexpected-error', lambda: '%s: %r' % (
                    what, exc))
                return False
            raise exc
        if ev in ('lnp', 'more'):
            v = out['lnprob'] if ev == 'more' else out
            if ren is None or prange:
                ctx.check(v == -np.inf, 'out-of-range-accepted',
                          lambda: '%s: %r' % (what, v))
                if ev == 'more':
                    ctx.check(out['npix'] == 0 and out['s2n_numer'] == 0 and
                              out['s2n_denom'] > 1e40,
                              'out-of-range-accepted', lambda: '%s: %r' % (
                                  what, out))
                return False
            if ren == 'undefined':
                # a centre that is not a number is nowhere
                return False
            s, tol = self.ref_more(m, ren)
            want = s['ll'] + ln
            ctx.check(v == want or abs(v - want) <= tol['ll'] +
                      1e-9 * abs(ln), 'wrong-probability',
                      lambda: '%s: %r, reference %r +- %r' % (
                          what, v, want, tol['ll']))
            if ev == 'more':
                for a, b in (('s2n_numer', 'n'), ('s2n_denom', 'd')):
                    ctx.check(abs(out[a] - s[b]) <= tol[b], 'wrong-' + a,
                              lambda: '%s: %r, reference %r' % (
                                  what, out[a], s[b]))
                ctx.check(out['npix'] == s['npix'], 'wrong-pixels',
                          lambda: '%s: %s of %s pixels' % (
                              what, out['npix'], s['npix']))
            return True
        out = np.array(out)
        segs = []
        for b, eps in enumerate(m.data.bands):
            for j, e in enumerate(eps):
                if sp['mode'] == 'gs':
                    segs += [(b, j, e, 're'), (b, j, e, 'im')]
                else:
                    segs.append((b, j, e, None))
        sizes = [e.w.size if part else int(self.used(e).sum())
                 for _, _, e, part in segs]
        want = sum(sizes) + (0 if self.prior is None else n_prior(sp))
        # a spare entry for the prior stays empty
        ctx.check(out.ndim == 1 and want <= out.size <= want + 1,
                  'wrong-size', lambda: '%s: %s residuals for %s pixels' % (
                      what, out.shape, sum(sizes)))
        if ren is None or prange:
            ctx.check(np.all(out == -np.inf), 'out-of-range-accepted',
                      lambda: '%s: %s' % (what, out[:5]))
            return False
        if ren == 'undefined':
            return False
        ctx.check(np.allclose(
            np.sort(np.abs(out[:pf.size])), np.sort(np.abs(pf)), rtol=1e-9,
            atol=1e-7, equal_nan=True), 'wrong-prior-entries',
                  lambda: '%s: %s, the prior says %s' % (
                      what, out[:pf.size], pf))
        at = pf.size
        for (b, j, e, part), n in zip(segs, sizes):
            got = out[at:at + n]
            at += n
            x, err = ren[b][j]
            err = err + 1e-10 * (np.abs(x).max() + 1e-300)
            ie = np.sqrt(e.w)
            if part:
                d = x - e.k
                exp = ((d.real if part == 're' else d.imag) * ie).ravel()
                tol = (err * ie).ravel() + 1e-9 * np.abs(exp)
            else:
                k = self.used(e)
                exp = ((x - e.im) * ie)[k]
                tol = (err * ie)[k] + 1e-9 * np.abs(exp)
            # the order of the pixels of one image is its own affair
            tmax = 1e-300 + tol.max() if n else 0
            ctx.check(np.all(np.abs(np.sort(got) - np.sort(exp)) <= tmax),
                      'wrong-residuals', lambda: '%s: band %d epoch %d off '
                      'by %g' % (what, b, j, np.abs(
                          np.sort(got) - np.sort(exp)).max()))
        ctx.check(np.all(out[at:] == 0), 'wrong-residuals', what)
        return True

    # -- a result
    def result(self, m, i, what):
        """what is derived from given parameters"""
        ctx, sp = self.ctx, self.spec
        p = real_pars(sp, i)
        ren = self.cache.get((m.serial, i))
        if (m.serial, i) not in self.cache:
            ren = self.cache[(m.serial, i)] = self.rendered(m, p)
        _, _, prange, perr = self.prior_terms(p)
        if ren is None or ren == 'undefined' or prange or perr:
            return
        n = len(p)
        if sp['mode'] != 'gs' and self.ref_more(m, ren)[0]['npix'] <= n:
            # flagged by the fitters, which then derive nothing
            return
        rs = np.random.RandomState(i)
        cov = rs.normal(size=(n, n))
        cov = cov @ cov.T + np.eye(n)
        fm = m.fm
        fm.set_fit_result(dict(flags=0, pars=np.array(p), pars_cov=cov,
                               pars_err=np.sqrt(np.diag(cov))))
        ctx.check(np.allclose(fm['g'], p[2:4]) and np.allclose(
            fm['g_cov'], cov[2:4, 2:4]) and np.allclose(
                fm['g_err'], np.sqrt(np.diag(cov)[2:4])), 'wrong-entry',
            lambda: '%s: shape %s' % (what, fm['g']))
        nb = sp['nb']
        if sp['model'] != 'coellip':
            F = np.array(p[-nb:])
            ctx.check(np.allclose(fm['flux'], F if nb > 1 else F[0]) and
                      np.allclose(fm['flux_err'],
                                  np.sqrt(np.diag(cov)[-nb:]) if nb > 1
                                  else np.sqrt(cov[-1, -1])),
                      'wrong-entry', lambda: '%s: fluxes %s of %s' % (
                          what, fm['flux'], F))
            if nb > 1 and 'flux_cov' in fm:
                ctx.check(np.allclose(fm['flux_cov'], cov[-nb:, -nb:]),
                          'wrong-entry', what)
        if sp['mode'] == 'gs':
            rp = list(p)
            rp[2] = rp[3] = 0.0
            rr = self.rendered(m, rp)
            if rr is None:
                return
            s = sum((np.abs(x) ** 2 * e.w).sum() for eps, row in zip(
                m.data.bands, rr) for e, (x, _) in zip(eps, row))
            ctx.check(abs(fm['s2n_r'] - np.sqrt(s)) <= 1e-4 * np.sqrt(s),
                      'wrong-s2n', lambda: '%s: %s reference %s' % (
                          what, fm['s2n_r'], np.sqrt(s)))
            return
        s, tol = self.ref_more(m, ren)
        if s['npix'] != n:
            ctx.check(fm['npix'] == s['npix'] and
                      fm['dof'] == s['npix'] - n, 'wrong-entry',
                      lambda: '%s: %s pixels, dof %s' % (
                          what, fm['npix'], fm['dof']))
            ln = self.prior_terms(p)[0]
            want = -2 * (s['ll'] + ln) / (s['npix'] - n)
            t = 2 * (tol['ll'] + 1e-9 * abs(ln)) / abs(s['npix'] - n)
            ctx.check(want == fm['chi2per'] or abs(
                fm['chi2per'] - want) <= t, 'wrong-entry', lambda:
                '%s: chi2 per dof %s reference %s' % (
                    what, fm['chi2per'], want))
        ctx.check(fm['T'] == p[4] and np.isclose(
            fm['T_err'], np.sqrt(cov[4, 4])), 'wrong-entry', what)
        for b, eps in enumerate(m.data.bands):
            ref = components(sp, p, b)
            self.same_comps(fm.get_gmix(band=b), ref, '%s: mixture of band '
                            '%d' % (what, b))
            for j, e in enumerate(eps):
                r = ref.conv(Ref(e.psf)) if sp['psf'] else ref
                self.same_comps(fm.get_convolved_gmix(band=b, obsnum=j), r,
                                '%s: convolved mixture of band %d epoch %d'
                                % (what, b, j))
                im = fm.make_image(band=b, obsnum=j)
                x = ren[b][j][0]
                ctx.check(im.shape == x.shape and np.all(
                    np.abs(im - x) <= 1e-9 * np.abs(x).max() + 1e-300),
                    'wrong-image', lambda: '%s: band %d epoch %d' % (
                        what, b, j))

    def same_comps(self, gm, ref, what):
        c = np.array(gm.get_full_pars()).reshape(-1, 6)
        ok = c.shape == ref.c.shape
        if ok:
            sc = np.abs(ref.c).max(axis=0)
            sc[1:3] = max(sc[1:3].max(), np.sqrt(sc[3:].max()))
            sc[3:] = sc[3:].max()
            ok = np.all(np.abs(c - ref.c) <= 1e-9 * sc)
        self.ctx.check(ok, 'wrong-mixture', lambda: '%s: %s reference %s' % (
            what, c.tolist(), ref.c.tolist()))


def other_data(run, how, s):
    """the same pixels in another order or other pieces"""
    bands = run.eps()
    rs = np.random.RandomState(s)
    if how == 'perm':
        for b in bands:
            rs.shuffle(b)
    elif how == 'split' and not hasattr(bands[0][0], 'pk'):
        for b in bands:
            for j in range(len(b))[::-1]:
                e = b[j]
                half = rs.uniform(size=e.w.shape) < .5
                x, y = e.copy(), e.copy()
                x.w[half] = 0
                y.w[~half] = 0
                if (x.w > 0).any() and (y.w > 0).any():
                    x.izw = y.izw = True
                    b[j:j + 1] = [x, y]
    elif how == 'blank' and not hasattr(bands[0][0], 'pk'):
        b = bands[rs.randint(len(bands))]
        e = b[0].copy()
        e.w[:] = 0
        e.izw = False
        e.im = e.im * 50
        b.insert(rs.randint(len(b) + 1), e)
    elif how == 'one':
        for b in bands:
            del b[1:]
    elif how == 'twice':
        e = bands[rs.randint(len(bands))][0]
        b = bands[rs.randint(len(bands))]
        b.insert(rs.randint(len(b) + 1), e)
    return bands


def execute(spec, ctx):
    np.seterr(all='ignore')
    warnings.simplefilter('ignore', RuntimeWarning)
    import ngmix
    run = Run(spec, ctx)
    run.prior = run.make_prior()
    if spec['mode'] == 'flux':
        return flux_run(run)
    GRE = ngmix.gexceptions.GMixRangeError
    run.ms.append(run.build(run.eps(), np.array(run.good_par(0))))
    keep = []
    for io, op in enumerate(spec['ops']):
        k = op['k']
        ctx.step()
        if k == 'new':
            g = run.good_par(op['p'])
            ga = np.array(g)
            if op['how'] in ('shared', 'edit'):
                run.again(op, ga)
            else:
                run.ms.append(run.build(other_data(run, op['how'], op['s']),
                                        ga))
            ga[:] = -77.0
            ctx.log(io, 'new', op['how'])
            run.prev = 'new'
            continue
        if k == 'badnew':
            g = run.good_par(0)
            if op['how'] == 'short':
                g = g[:-1]
            elif op['how'] == 'long':
                g = g + [1.0]
            else:
                g[2:4] = [.9, .9]
            try:
                run.build(run.eps(), np.array(g))
            except (AssertionError, ValueError, GRE) as e:
                ctx.check(isinstance(e, GRE) == (op['how'] == 'range'),
                          'wrong-error', lambda: '%s guess: %r' % (
                              op['how'], e))
                ctx.fault('rejected guess')
            else:
                ctx.fail('accepted', '%s guess' % op['how'])
            continue
        m = run.ms[op['m'] % len(run.ms)]
        i = op['p']
        arm = spec['prior'] == 'stub' and spec['pfail'] and \
            spec['pars'][i]['bad'] == 'prior'
        if k == 'threads':
            m2 = run.ms[op['m2'] % len(run.ms)]
            evs = [op['ev'], op['ev2']]
            if spec['mode'] == 'gs':
                evs = ['fdiff', 'fdiff']
            if m2 is m:
                # one model per thread, perhaps over the same observations
                continue
            outs = [None, None]

            def job(q, mm, ev, a):
                def f():
                    try:
                        outs[q] = (run.evaluate(mm, ev, a), None)
                    except Exception as e:
                        outs[q] = (None, e)
                return f
            sch = Scheduler(
                [job(0, m, evs[0], np.array(run.par_arg(i))),
                 job(1, m2, evs[1], np.array(run.par_arg(op['p2'])))],
                [tuple(x) for x in op['sched']])
            sch.run()
            if sch.overlapped:
                ctx.count('nontrivial')
                ctx.count('overlap')
                ctx.interleaving(tuple(sch.order))
            for q, (mm, ii) in enumerate(((m, i), (m2, op['p2']))):
                run.judge(mm, ii, evs[q], outs[q][0], outs[q][1],
                          'thread %d %s' % (q, evs[q]))
            ctx.log(io, 'threads')
            run.prev = 'threads'
            continue
        ev = op['ev']
        if ev == 'result':
            run.result(m, i, 'op %d result after %s' % (io, run.prev))
            ctx.state(spec['mode'], spec['model'], spec['nb'], ev, run.prev)
            ctx.log(io, ev)
            run.prev = ev
            continue
        if spec['mode'] == 'gs':
            ev = 'fdiff'
        if arm:
            run.prior.armed = True
            ctx.fault('failing prior')
        a = run.par_arg(i)
        before = canon(a)
        what = 'op %d %s of %s after %s' % (io, ev, spec['model'], run.prev)
        if 'inject' in op:
            try:
                n, _ = count_statements(lambda: run.evaluate(m, ev, a))
            except Exception:
                n = 20
            t, out, exc = run_with_fault(
                lambda: run.evaluate(m, ev, a),
                1 + int(op['inject']['f'] * n), op['inject']['e'])
            if t.fired:
                ctx.count('nontrivial')
                ctx.fault(op['inject']['e'])
                if exc is None:
                    # a range error is a model out of range
                    v = out
                    if isinstance(out, dict):
                        v = out['lnprob']
                    # (the shapes galsim rejects are value errors)
                    ctx.check(op['inject']['e'] in (
                        'GMixRangeError', 'ValueError' if spec['mode'] ==
                        'gs' else '') and np.all(np.asarray(v) == -np.inf),
                              'fault-hidden', lambda: '%s: %s in %s gives '
                              '%s' % (what, op['inject']['e'], t.where,
                                      out))
            run.prev = 'fault'
            what = 'op %d %s of %s again after a fault' % (
                io, ev, spec['model'])
        out = exc = None
        try:
            out = run.evaluate(m, ev, a)
        except Exception as e:
            exc = e
        good = run.judge(m, i, ev, out, exc, what)
        if run.prior is not None and spec['prior'] == 'stub':
            run.prior.armed = False
        d = diff(before, canon(a))
        ctx.check(d is None, 'input-changed', lambda: '%s: %s' % (what, d))
        for x, c in keep:
            ctx.check(diff(c, canon(x)) is None, 'earlier-result-changed',
                      what)
        if op['spoil'] and isinstance(out, np.ndarray):
            out[:] = 1e30
        elif out is not None:
            keep.append((out, canon(out)))
            del keep[:-3]
        if op['spoil'] and m.fm.bounds:
            # a copy
            b = m.fm.bounds
            b[0] = (3, 4)
        if run.prev not in ('start', 'new'):
            ctx.count('nontrivial')
        ctx.state(spec['mode'], spec['model'], spec['nb'], ev, run.prev,
                  spec['pars'][i]['bad'], good)
        ctx.log(io, ev, i, good, out if ev == 'lnp' else '')
        run.prev = '%s-%s' % (ev, 'ok' if good else 'bad')
    # the data are the caller's
    for m in run.ms:
        if spec['mode'] == 'gs':
            for e, o in zip([e for b in m.data.bands for e in b],
                            flat_obs(m.data.obs)):
                if not isinstance(o, ngmix.observation.KObservation):
                    continue
                ctx.check(
                    np.array_equal(e.k, o.kimage.array) and
                    np.array_equal(e.w, o.weight.array) and
                    (not spec['psf'] or not o.has_psf() or np.array_equal(
                        e.pk, o.psf.kimage.array)),
                    'input-changed', 'images')
                if not spec['native']:
                    ctx.check(o.meta == {'seen': 3}, 'input-changed',
                              lambda: 'metadata: %s' % sorted(o.meta))
            continue
        from .. import zoo
        for e, o in zip([e for b in m.data.bands for e in b],
                        zoo.epochs_of(m.data.obs)):
            ctx.check(np.array_equal(e.im, o.image) and np.array_equal(
                e.w, o.weight), 'input-changed', 'data')


# ---------------------------------------------------------------------------
# fluxes of fixed shapes

def template_of(run, e):
    """the shape of unit amplitude, as an image"""
    sp = run.spec
    m = sp['model']
    if m in ('psf', 'psfraw', 'obs'):
        r = Ref(e.psf)
        if m != 'psfraw':
            r.c[:, 0] /= r.c[:, 0].sum()
        return r.eval(e.v, e.u, e.area)[0]
    if m == 'tpsf':
        return e.ptmpl / e.ptmpl.sum()
    if m == 'tpsfraw':
        return e.ptmpl
    if m == 'tobs':
        return e.tmpl / e.tmpl.sum()
    import galsim
    M = world.jac_matrix(e.jac)
    wcs = galsim.JacobianWCS(M[1, 1], M[1, 0], M[0, 1], M[0, 0])
    psf = galsim.InterpolatedImage(
        galsim.Image(e.pim / e.pim.sum(), wcs=wcs),
        offset=(e.pcen[1] - 4.0, e.pcen[0] - 4.0), x_interpolant='lanczos15')
    o = psf
    if m == 'gsmodel':
        o = galsim.Convolve(galsim.Exponential(
            half_light_radius=sp['scale'], flux=1.0), psf)
    return o.drawImage(nx=e.dims[1], ny=e.dims[0], wcs=wcs, offset=(
        e.jac['off'][1], e.jac['off'][0])).array.astype('f8')


def flux_judge(run, m, what):
    ctx, fm = run.ctx, m.fm
    xc = ms = 0.0
    mag = 0.0
    tm = []
    eps = m.data.bands[0]
    for e in eps:
        t = template_of(run, e)
        tm.append(t)
        xc += (t * e.im * e.w).sum()
        mag += np.abs(t * e.im * e.w).sum()
        ms += (t * t * e.w).sum()
    gs = run.spec['model'] in ('gspsf', 'gsmodel')
    rt = 2e-4 if gs else 1e-8
    if ms == 0 or not np.isfinite(ms):
        ctx.check(fm['flags'] != 0, 'nothing-to-measure', what)
        return
    if gs and ms < 1e-9 * max((e.w.max() * t.max() ** 2)
                              for e, t in zip(eps, tm)):
        return
    F = xc / ms
    ctx.check(abs(fm['flux'] - F) <= rt * mag / ms + 1e-300, 'wrong-flux',
              lambda: '%s: %r reference %r' % (what, fm['flux'], F))
    F = fm['flux']
    chi2 = sum(((F * t - e.im) ** 2 * e.w).sum() for e, t in zip(eps, tm))
    size = sum((((np.abs(F * t) + np.abs(e.im)) ** 2) * e.w).sum()
               for e, t in zip(eps, tm))
    npix = sum(int((e.w > 0).sum()) for e in eps)
    listed = sum(int(run.used(e).sum()) for e in eps)
    if npix > 1:
        ctx.check(fm['dof'] == npix - 1, 'wrong-entry', lambda: '%s: dof %s, '
                  '%s pixels' % (what, fm['dof'], npix))
        ctx.check(abs(fm['chi2per'] * (npix - 1) - chi2) <= rt * size,
                  'wrong-chi2', lambda: '%s: chi2 %r reference %r' % (
                      what, fm['chi2per'] * (npix - 1), chi2))
        if listed == npix:
            ctx.check(fm['flags'] == 0, 'flagged', lambda: '%s: %s' % (
                what, fm['flags']))
            e2 = chi2 / ms / (npix - 1)
            ctx.check(abs(fm['flux_err'] ** 2 - e2) <=
                      rt * size / ms / (npix - 1), 'wrong-error',
                      lambda: '%s: %r reference %r' % (
                          what, fm['flux_err'], np.sqrt(e2)))


def flux_run(run):
    spec, ctx = run.spec, run.ctx
    from .. import zoo
    run.ms.append(run.build(run.eps(), None))
    for io, op in enumerate(spec['ops']):
        k = op['k']
        ctx.step()
        if k == 'new':
            if op['how'] in ('shared', 'edit'):
                run.again(op, None)
            else:
                run.ms.append(run.build(other_data(run, op['how'], op['s']),
                                        None))
            run.prev = 'new'
            continue
        if k == 'badnew':
            continue
        m = run.ms[op['m'] % len(run.ms)]
        what = 'op %d flux (%s) after %s' % (io, spec['model'], run.prev)
        snap = canon(m.data.obs)
        if k == 'threads':
            m2 = run.ms[op['m2'] % len(run.ms)]
            if m2 is m or m2.data.obs is m.data.obs:
                continue
            sch = Scheduler([m.fm.go, m2.fm.go],
                            [tuple(x) for x in op['sched']])
            sch.run()
            if sch.overlapped:
                ctx.count('nontrivial')
                ctx.count('overlap')
            flux_judge(run, m, what + ' in a thread')
            flux_judge(run, m2, what + ' in another thread')
            run.prev = 'threads'
            continue
        if 'inject' in op:
            n, _ = count_statements(m.fm.go)
            t, _, exc = run_with_fault(m.fm.go, 1 + int(
                op['inject']['f'] * n), op['inject']['e'])
            if t.fired:
                ctx.count('nontrivial')
                ctx.fault(op['inject']['e'])
                ctx.check(exc is not None, 'fault-hidden', what)
            run.prev = 'fault'
        m.fm.go()
        flux_judge(run, m, what)
        d = diff(snap, canon(m.data.obs))
        ctx.check(d is None, 'input-changed', lambda: '%s: %s' % (what, d))
        if run.prev not in ('start', 'new'):
            ctx.count('nontrivial')
        ctx.state('flux', spec['model'], len(m.data.bands[0]), run.prev)
        ctx.log(io, 'flux', m.fm['flux'])
        run.prev = 'flux'
    for m in run.ms:
        for e, o in zip(m.data.bands[0], zoo.epochs_of(m.data.obs)):
            ctx.check(np.array_equal(e.im, o.image), 'input-changed', 'data')
