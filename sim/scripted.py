"""
Scripted parts handed to the package through its public interfaces: fitters
and guessers whose outcome is a line of a script, and watchers around real ones.
A script line is one of
    'ok'            success, with a mixture
    'oknog'         success, plain dict without a mixture
    ['flag', n]     failure with flags n
    ['raise', X]    exception X in the fit
    ['graise', X]   exception X in making the guess
"""
import numpy as np

from .core import InjectedInterrupt


class Boom(Exception):
    """an error of the user's own fitter"""


def exc_class(name):
    import ngmix
    G = ngmix.gexceptions
    return {
        'GMixRangeError': G.GMixRangeError, 'GMixFatalError': G.GMixFatalError,
        'GMixMaxIterEM': G.GMixMaxIterEM, 'BootPSFFailure': G.BootPSFFailure,
        'PSFFluxFailure': G.PSFFluxFailure, 'FFTRangeError': G.FFTRangeError,
        'ValueError': ValueError, 'RuntimeError': RuntimeError,
        'KeyError': KeyError, 'IndexError': IndexError,
        'StopIteration': StopIteration, 'MemoryError': MemoryError,
        'LinAlgError': np.linalg.LinAlgError,
        'ZeroDivisionError': ZeroDivisionError, 'Boom': Boom,
        'AttributeError': AttributeError, 'TypeError': TypeError,
        'Interrupt': InjectedInterrupt,
    }[name]


EXCS = ['GMixRangeError', 'GMixRangeError', 'GMixFatalError', 'GMixMaxIterEM',
        'BootPSFFailure', 'PSFFluxFailure', 'ValueError', 'RuntimeError',
        'KeyError', 'IndexError', 'StopIteration', 'MemoryError',
        'LinAlgError', 'ZeroDivisionError', 'Boom', 'AttributeError',
        'TypeError', 'Interrupt']
FLAGS = [1, 2, 3, 1 << 3, 1 << 20, 1 << 30, -1]


class Res(dict):
    """a fit result; offers a mixture whatever its flags"""

    def __init__(self, flags, k):
        super().__init__(flags=flags, k=k)
        self.ncalls = 0

    def get_gmix(self):
        import ngmix
        self.ncalls += 1
        return ngmix.GMixModel(
            [0.0, 0.0, 0.0, 0.0, 1.0 + 0.001 * self['k'], 1.0], 'gauss')


class Script(object):
    """outcomes in the order the attempts are made, and what happened"""

    def __init__(self, lines):
        self.lines = list(lines)
        self.k = 0            # attempts begun
        self.events = []      # ('guess', obs, guess) ('fit', obs, guess, res)
        self.raised = None

    def line(self):
        return self.lines[self.k] if self.k < len(self.lines) else 'ok'

    def begin(self):
        i = self.k
        return i, self.line()


class ScriptGuesser(object):
    def __init__(self, s):
        self.s = s

    def __call__(self, obs, **kw):
        i, ln = self.s.begin()
        if isinstance(ln, list) and ln[0] == 'graise':
            self.s.k += 1
            e = exc_class(ln[1])('scripted %d' % i)
            self.s.raised = e
            self.s.events.append(('guess', obs, None, i))
            raise e
        g = np.array([i, 0.5, -0.25 * i])
        self.s.events.append(('guess', obs, g.copy(), i))
        return g


class ScriptFitter(object):
    """numbers its attempts in the order of the script"""

    def __init__(self, s, npflags=False):
        self.s = s
        self.npflags = npflags

    def go(self, obs, guess=None, **kw):
        i, ln = self.s.begin()
        self.s.k += 1
        g = None if guess is None else np.array(guess)
        if isinstance(ln, list) and ln[0] in ('raise', 'graise'):
            e = exc_class(ln[1])('scripted %d' % i)
            self.s.raised = e
            self.s.events.append(('fit', obs, g, None, i))
            raise e
        fl = 0
        if isinstance(ln, list):
            fl = ln[1]
        if self.npflags:
            fl = np.int64(fl)
        res = dict(flags=fl, k=i) if ln == 'oknog' else Res(fl, i)
        self.s.events.append(('fit', obs, g, res, i))
        # an attempt may leave traces in the guess it was given
        if guess is not None:
            guess[:] = -99.0
        return res


def gen_lines(rng, n, p_ok=.35, p_exc=.08, nog=.15):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < p_ok:
            out.append('oknog' if rng.random() < nog else 'ok')
        elif r < p_ok + p_exc:
            out.append([rng.choice(['raise', 'graise']), rng.choice(EXCS)])
        else:
            out.append(['flag', rng.choice(FLAGS)])
    return out


def predict_unit(lines, k, ntry, guesser, obs):
    """
    the reference: what measuring one thing does from attempt k of the script

    returns (events, outcome, k): events as (kind, id of obs, attempt number),
    outcome ('res', attempt, flags, nog) or ('exc', attempt, name)
    """
    ev = []
    for _ in range(ntry):
        ln = lines[k] if k < len(lines) else 'ok'
        if guesser:
            ev.append(('guess', id(obs), k))
            if isinstance(ln, list) and ln[0] == 'graise':
                return ev, ('exc', k, ln[1]), k + 1
        ev.append(('fit', id(obs), k))
        if isinstance(ln, list) and ln[0] in ('raise', 'graise'):
            return ev, ('exc', k, ln[1]), k + 1
        fl = ln[1] if isinstance(ln, list) else 0
        out = ('res', k, fl, ln == 'oknog')
        k += 1
        if fl == 0:
            break
    return ev, out, k


class Watch(object):
    """a real fitter or guesser, recorded"""

    def __init__(self, real, log, kind):
        self.real, self.log, self.kind = real, log, kind

    def __call__(self, obs, **kw):
        g = self.real(obs=obs, **kw)
        self.log.append(('guess', obs, g))
        return g

    def go(self, obs, **kw):
        r = self.real.go(obs=obs, **kw)
        self.log.append(('fit', obs, kw.get('guess'), r))
        return r
