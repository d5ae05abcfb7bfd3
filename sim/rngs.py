"""
The random seam: generators handed to the library, watched or scripted.
"""
import random
import numpy as np

from .core import StepLimit

# methods which return random values
DRAWS = (
    'uniform', 'random_sample', 'random', 'rand', 'randn', 'normal',
    'standard_normal', 'randint', 'integers', 'choice', 'poisson',
    'lognormal', 'exponential', 'standard_exponential', 'gamma', 'beta',
    'multivariate_normal', 'permutation', 'shuffle', 'chisquare',
    'standard_t', 'standard_gamma', 'triangular', 'rayleigh', 'binomial',
    'tomaxint', 'ranf', 'sample', 'standard_cauchy', 'laplace', 'logistic',
    'power', 'pareto', 'weibull', 'vonmises', 'wald', 'zipf', 'geometric',
    'gumbel', 'hypergeometric', 'logseries', 'multinomial', 'dirichlet',
    'negative_binomial', 'noncentral_chisquare', 'noncentral_f', 'f',
    'random_integers', 'bytes',
)


class CountingRandomState(np.random.RandomState):
    """a real RandomState which counts calls, values and can hit a limit"""
    limit = None
    ncalls = 0
    depth = 0


def _wrap(name):
    base = getattr(np.random.RandomState, name, None)
    if base is None:
        return None

    def method(self, *a, **k):
        if self.depth:
            return base(self, *a, **k)
        self.ncalls += 1
        if self.limit is not None and self.ncalls > self.limit:
            raise StepLimit('more than %d random draws' % self.limit)
        self.depth += 1
        try:
            return self._filter(name, base(self, *a, **k), a, k)
        finally:
            self.depth -= 1
    method.__name__ = name
    return method


def _nofilter(self, name, value, a, k):
    return value


CountingRandomState._filter = _nofilter
for _n in DRAWS:
    _m = _wrap(_n)
    if _m is not None:
        setattr(CountingRandomState, _n, _m)


class AdversarialRandomState(CountingRandomState):
    """
    a RandomState whose first `nbad` draw calls are replaced by legal but
    unlikely values, chosen by a script: a list of codes used cyclically

    'lo'   the lowest value the draw can take
    'hi'   just below the highest value
    'mid'  the middle
    'rep'  every element the same ordinary value
    'tail' far in the tail (normal-like draws: +-38 sigma at random sign)
    'ntail' the negative tail
    'mix'  alternate lo/hi inside an array
    'ord'  an ordinary value
    """

    def setup(self, script, nbad):
        self.script = list(script)
        self.nbad = nbad
        self.used = {}
        return self

    def _filter(self, name, value, a, k):
        i = self.ncalls - 1
        if i >= self.nbad or not self.script:
            return value
        code = self.script[i % len(self.script)]
        if code == 'ord':
            return value
        new = self._bad(name, code, value, a, k)
        if new is None:
            return value
        self.used[code] = self.used.get(code, 0) + 1
        return new

    def _bad(self, name, code, value, a, k):
        if name in ('uniform', 'random_sample', 'random', 'rand', 'ranf',
                    'sample'):
            lo, hi = 0.0, 1.0
            if name == 'uniform':
                lo = k.get('low', a[0] if len(a) > 0 else 0.0)
                hi = k.get('high', a[1] if len(a) > 1 else 1.0)
            top = lo + (hi - lo) * (1.0 - 2.0 ** -53)
            top = np.minimum(top, np.nextafter(hi, lo))
            return self._fill(value, code, lo, top, 0.5 * (np.asarray(lo) + hi))
        if name in ('normal', 'randn', 'standard_normal'):
            mu, sig = 0.0, 1.0
            if name == 'normal':
                mu = k.get('loc', a[0] if len(a) > 0 else 0.0)
                sig = k.get('scale', a[1] if len(a) > 1 else 1.0)
            return self._fill(value, code, mu - 8.2 * np.asarray(sig),
                              mu + 8.2 * np.asarray(sig), mu)
        return None

    def _fill(self, value, code, lo, hi, mid):
        shape = np.shape(value)
        lo = np.broadcast_to(np.asarray(lo, dtype='f8'), shape)
        hi = np.broadcast_to(np.asarray(hi, dtype='f8'), shape)
        mid = np.broadcast_to(np.asarray(mid, dtype='f8'), shape)
        if code in ('lo', 'ntail'):
            v = lo
        elif code in ('hi', 'tail'):
            v = hi
        elif code == 'mid':
            v = mid
        elif code == 'mix':
            v = np.where(np.arange(lo.size).reshape(shape) % 2 == 0, lo, hi) \
                if shape else lo
        elif code == 'rep':
            v = np.broadcast_to(np.ravel(value)[0] if shape else value, shape)
        else:
            return None
        if shape == ():
            return float(v)
        return np.array(v)


class GlobalGuard(object):
    """
    perturbs the process-wide generators and tells whether they were used
    """

    def __init__(self, salt):
        self.salt = salt

    def __enter__(self):
        np.random.seed(self.salt % (2 ** 32))
        random.seed(self.salt)
        self.np0 = self._state()
        self.py0 = random.getstate()
        return self

    def _state(self):
        s = np.random.get_state()
        return (s[0], s[1].tobytes(), s[2], s[3], s[4])

    def touched(self):
        out = []
        if self._state() != self.np0:
            out.append('numpy.random')
        if random.getstate() != self.py0:
            out.append('random')
        return out

    def __exit__(self, *a):
        return False


def rng_state(rng):
    if isinstance(rng, np.random.RandomState):
        s = rng.get_state()
        return (s[0], s[1].tobytes(), s[2], s[3], s[4])
    return repr(rng.bit_generator.state)
