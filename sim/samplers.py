"""
Everything in the package that draws from a generator, one object at a time:
how to build it, what can be drawn, and where the values may lie.
"""
import numpy as np


def r3(x):
    return round(x, 3)


def have_sklearn():
    try:
        import sklearn.mixture  # noqa
    except ImportError:
        return False
    return True


class S(object):
    """one kind of sampler; methods give (name, needs a number)"""
    name = None
    methods = ('sample',)
    scalar = True       # may be asked for a single value
    ndim = 1

    def gen(self, rng):
        return {}

    def inside(self, t, obj, m, v):
        """array of bools, one for each draw"""
        return np.isfinite(v)


class Flat(S):
    name = 'flat'

    def gen(self, rng):
        lo = r3(rng.uniform(-5, 5))
        return dict(lo=lo, hi=lo + rng.choice([1e-3, 0.5, 3, 1e4]))

    def make(self, t, rng):
        from ngmix import priors
        return priors.FlatPrior(t['lo'], t['hi'], rng=rng)

    def inside(self, t, o, m, v):
        return (v >= t['lo']) & (v <= t['hi'])


class Erf(S):
    name = 'erf'

    def gen(self, rng):
        lo = r3(rng.uniform(-5, 5))
        return dict(lo=lo, hi=lo + rng.choice([0.5, 3, 1e4]),
                    w1=rng.choice([0.01, 0.1, 1.0]),
                    w2=rng.choice([0.01, 0.1, 1.0]))

    def make(self, t, rng):
        from ngmix import priors
        return priors.TwoSidedErf(t['lo'], t['w1'], t['hi'], t['w2'],
                                  rng=rng)

    def inside(self, t, o, m, v):
        return ((v >= t['lo'] - 5.0001 * t['w1'])
                & (v <= t['hi'] + 5.0001 * t['w2'])
                & (o.get_prob_array(np.atleast_1d(v)) > 0).reshape(
                    np.shape(v)))


class Normal(S):
    name = 'normal'

    def gen(self, rng):
        return dict(mean=r3(rng.uniform(-5, 5)),
                    sigma=rng.choice([0.01, 1.0, 100]))

    def make(self, t, rng):
        from ngmix import priors
        return priors.Normal(t['mean'], t['sigma'], rng=rng)


class LMB(Flat):
    name = 'lmbounds'

    def make(self, t, rng):
        from ngmix import priors
        return priors.LMBounds(t['lo'], t['hi'], rng)


class Bounded(S):
    name = 'bounded'

    def gen(self, rng):
        mean = r3(rng.uniform(-5, 5))
        lo = mean + rng.choice([-2, -0.5, 0.0, 0.5])
        base = rng.choice(['normal', 'lognormal', 'flat'])
        if base == 'lognormal':
            # its support must reach into the limits
            lo = mean + rng.choice([-1.2, 0.0, 0.5])
        return dict(mean=mean, lo=lo, hi=lo + rng.choice([0.3, 1, 4]),
                    base=base)

    def make(self, t, rng):
        from ngmix import priors
        if t['base'] == 'normal':
            b = priors.Normal(t['mean'], 1.0, rng=rng)
        elif t['base'] == 'lognormal':
            b = priors.LogNormal(2.0, 1.0, rng=rng, shift=t['mean'] - 1.5)
        else:
            b = priors.FlatPrior(t['mean'] - 3, t['mean'] + 3, rng=rng)
        return priors.Bounded1D(b, (t['lo'], t['hi']))

    def inside(self, t, o, m, v):
        return (v > t['lo']) & (v < t['hi'])


class LogN(S):
    name = 'lognormal'
    methods = ('sample', 'sample_brute')

    def gen(self, rng):
        return dict(mean=rng.choice([0.1, 1.0, 100.0]),
                    rel=rng.choice([0.1, 0.5, 1.0]),
                    shift=rng.choice([None, None, -0.5, 3.0]))

    def make(self, t, rng):
        from ngmix import priors
        return priors.LogNormal(t['mean'], t['rel'] * t['mean'], rng=rng,
                                shift=t['shift'])

    def inside(self, t, o, m, v):
        s = t['shift'] or 0.0
        return np.isfinite(v) & (v > s)


class Sinh(S):
    name = 'sinh'

    def gen(self, rng):
        return dict(mean=r3(rng.uniform(-5, 5)), scale=rng.choice([.1, 3.0]))

    def make(self, t, rng):
        from ngmix import priors
        return priors.Sinh(t['mean'], t['scale'], rng=rng)

    def inside(self, t, o, m, v):
        return np.abs(v - t['mean']) <= t['scale'] * (1 + 1e-12)


class TGauss(S):
    name = 'truncgauss'

    def gen(self, rng):
        m = r3(rng.uniform(-5, 5))
        lo = m + rng.choice([-2, -0.5, 0.0, 0.5])
        return dict(mean=m, sigma=1.0, lo=lo, hi=lo + rng.choice([.3, 1, 4]))

    def make(self, t, rng):
        from ngmix import priors
        return priors.TruncatedGaussian(t['mean'], t['sigma'], t['lo'],
                                        t['hi'], rng=rng)

    def inside(self, t, o, m, v):
        return (v > t['lo']) & (v < t['hi'])


class Cen(S):
    name = 'cen'
    ndim = 2
    methods = ('sample', 'sample2d')

    def gen(self, rng):
        return dict(c=[r3(rng.uniform(-1, 1)), r3(rng.uniform(-1, 1))],
                    s=[rng.choice([0.01, 1.0]), rng.choice([0.01, 1.0])])

    def make(self, t, rng):
        from ngmix import priors
        return priors.CenPrior(*(t['c'] + t['s']), rng=rng)


def disc(v, r):
    return v[0] ** 2 + v[1] ** 2 < r * r


class GGauss(S):
    name = 'ggauss'
    ndim = 2
    methods = ('sample2d',)

    def gen(self, rng):
        return dict(sigma=rng.choice([0.05, 0.3, 1.0]))

    def make(self, t, rng):
        from ngmix import priors
        return priors.GPriorGauss(t['sigma'], rng=rng)

    def inside(self, t, o, m, v):
        return disc(v, 1.0)


class GBA(S):
    name = 'gba'
    methods = ('sample1d', 'sample2d', 'sample2d_brute')

    def gen(self, rng):
        return dict(sigma=rng.choice([0.05, 0.1, 0.2, 0.3, 0.4]))

    def make(self, t, rng):
        from ngmix import priors
        return priors.GPriorBA(t['sigma'], rng=rng)

    def inside(self, t, o, m, v):
        if m == 'sample1d':
            return (v >= 0) & (v < 1)
        return disc(v, 1.0)


class ZDisk(S):
    name = 'zdisk'
    methods = ('sample1d', 'sample2d')

    def gen(self, rng):
        return dict(r=rng.choice([0.1, 1.0, 7.0]))

    def make(self, t, rng):
        from ngmix import priors
        return priors.ZDisk2D(t['r'], rng=rng)

    def inside(self, t, o, m, v):
        if m == 'sample1d':
            return (v >= 0) & (v <= t['r'])
        return v[0] ** 2 + v[1] ** 2 <= t['r'] ** 2 * (1 + 1e-12)


class KDE(S):
    name = 'kde'

    def gen(self, rng):
        return dict(nd=rng.choice([1, 2]), seed=rng.randrange(2 ** 31))

    def make(self, t, rng):
        from ngmix import priors
        d = np.random.RandomState(t['seed']).normal(
            size=30 if t['nd'] == 1 else (30, 2))
        return priors.KDE(data=d, kde_factor=0.2, rng=rng)


class GND(S):
    name = 'gmixnd'

    def gen(self, rng):
        return dict(nd=rng.choice([1, 2]), ng=rng.choice([1, 2, 3]))

    def make(self, t, rng):
        from ngmix.gmix_ndim import GMixND
        n, ng = t['nd'], t['ng']
        m = np.arange(n * ng).reshape(ng, n) * 0.5
        c = np.array([np.eye(n) * (1 + i) for i in range(ng)])
        return GMixND(np.ones(ng) / ng, m, c, rng=rng)


class Joint(S):
    """joint priors of the model fits"""
    name = 'joint'

    def gen(self, rng):
        return dict(prior=rng.choice(['flat', 'erf', 'gauss', 'flat-bdf',
                                      'gauss-bd', 'erf-gs', 'gauss-sp',
                                      'flat-co', 'erf-co', 'gauss-co',
                                      'apart', 'apart-bdf', 'apart-bd',
                                      'apart-gs', 'apart-sp', 'apart-co']),
                    nb=rng.choice([1, 2, 3]))

    def make(self, t, rng):
        from . import zoo
        return zoo.make_prior(t['prior'], rng, 0.5, t['nb'])

    def inside(self, t, o, m, v):
        v = np.atleast_2d(v)
        ok = np.array([np.isfinite(o.get_lnprob_scalar(p)) for p in v])
        if t['prior'].startswith('apart'):
            for i, (lo, hi) in enumerate(self.apart(t)):
                ok &= (v[:, i] >= lo) & (v[:, i] <= hi)
        return ok

    @staticmethod
    def apart(t):
        """the range of every entry"""
        nb = t['nb']
        out = [(19.0, 21.0), (29.0, 31.0), (-1, 1), (-1, 1)]
        if t['prior'].endswith('-co'):
            return out + [(1, 2)] * nb + [(10, 11)] * nb
        n = {'bdf': 1, 'bd': 2, 'sp': 1}.get(t['prior'][6:], 0)
        return (out + [(1, 2)] + [(3 + 2 * i, 4 + 2 * i) for i in range(n)] +
                [(10 + 2 * b, 11 + 2 * b) for b in range(nb)])


KINDS = {}
for _c in (Flat, Erf, Normal, LMB, Bounded, LogN, Sinh, TGauss, Cen, GGauss,
           GBA, ZDisk, KDE, GND, Joint):
    KINDS[_c.name] = _c()


def names():
    out = [n for n in KINDS if n != 'gmixnd' or have_sklearn()]
    return out


def gen(rng, only=None):
    k = KINDS[rng.choice(only or names())]
    return dict(k=k.name, t=k.gen(rng), m=rng.choice(k.methods),
                n=rng.choice([None, 1, 2, 5, 50]))


def make(p, rng):
    return KINDS[p['k']].make(p['t'], rng)


def number_of(p):
    # some cannot be asked for a single value
    if p['n'] is None and p['k'] == 'gba' and p['m'] != 'sample2d':
        return 1
    return p['n']


def draw(p, obj):
    f = getattr(obj, p['m'])
    if number_of(p) is None:
        return f()
    return f(number_of(p))
