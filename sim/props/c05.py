"""C05: measuring never alters its inputs"""
import contextlib
import sys

import numpy as np

from .. import zoo
from ..canon import canon, diff
from ..inject import count_statements, run_with_fault
from ..core import InjectedInterrupt

ID = 'C05'
RUNS = {'quick': 2400, 'thorough': 60000}
RULE = ('a run is one public operation (of %d kinds: fits, moments, '
        'deconvolution, metacal, bootstraps, guessing, simulation, '
        'conversion) on generated inputs, first undisturbed, then with an '
        'exception raised before one of the statements it executes in the '
        'package (chosen by the seed over its whole length), or on damaged '
        'data, or with failing guesses/fitters; full snapshots of everything '
        'passed in are compared after each. Non-trivial: a fault fired or '
        'the data were damaged')
STATE_MEASURE = 'signature (operation, fault kind, function struck, outcome)'
REAL = ['ngmix (whole package)', 'galsim', 'scipy', 'numba']
STUB = []
ASSUME = ['faults strike between Python statements, not inside compiled '
          'kernels', 'derived values cached inside mixtures (norms) are not '
          'part of their value']
EXC = ['MemoryError', 'Interrupt', 'GMixRangeError', 'LinAlgError', 'OSError']


def warm():
    zoo.warm()


def generate(rng, tier):
    op = zoo.pick(rng)
    p = op.gen(rng)
    if op.name == 'gsfit' and rng.random() < 0.5:
        p['d']['k'] = rng.choice(['mb', 'list', 'one'])
    if op.name == 'metacal' and p['t']['types'] and rng.random() < .3:
        # also without the companion type
        p['t']['types'] = rng.sample(['noshear', '1m', '2p', '2m'],
                                     rng.choice([1, 2]))
    mode = rng.choice(['fault', 'fault', 'fault', 'damage', 'damagefault'])
    faults = []
    if 'fault' in mode:
        for _ in range(rng.choice([1, 1, 2])):
            faults.append(dict(at=round(rng.random(), 6),
                               exc=rng.choice(EXC)))
    return dict(p=p, mode=mode, faults=faults, args=rng.random() < .3,
                open=mode == 'fault' and rng.random() < .2,
                damage=zoo.damage_spec(rng) if 'damage' in mode else [])


def shrink(spec):
    for d in zoo.shrink_data(spec['p']['d']):
        yield dict(spec, p=dict(spec['p'], d=d))


def strip_psf(c):
    """drop what the documented storing of psf results may set"""
    if not isinstance(c, tuple):
        return c
    if len(c) == 2 and c[0] == 'psf' and isinstance(c[1], tuple) \
            and c[1] and c[1][0] == 'obs':
        items = []
        for it in c[1][1]:
            if it[0] == 'gmix':
                continue
            if it[0] == 'meta':
                d = it[1]
                d = (d[0], tuple(kv for kv in d[1] if kv[0] != "'result'"))
                it = ('meta', d)
            items.append(it)
        return ('psf', ('obs', tuple(items)))
    return tuple(strip_psf(x) for x in c)


def flagged(obs):
    """arrays of an observation left open for writing"""
    out = []
    for i, o in enumerate(zoo.epochs_of(obs)):
        for oo, tag in ((o, ''), (o.psf if o.has_psf() else None, 'psf.')):
            if oo is None:
                continue
            for n in ('image', 'weight'):
                if getattr(oo, n).flags.writeable:
                    out.append('%d:%s%s' % (i, tag, n))
    return out


class Case(object):
    def __init__(self, spec, ctx):
        self.p = spec['p']
        self.op = zoo.OPS[self.p['op']]
        self.spec, self.ctx = spec, ctx
        self.fresh()

    def fresh(self):
        p = self.p
        self.rng = np.random.RandomState(p['s'])
        self.ctorargs = self.op.ctor(p['t'])
        self.tool = self.op.tool(p['t'], self.rng, self.ctorargs)
        self.inp = self.op.inputs(p['d'], p['t'])
        self.applied = []
        if self.spec['damage'] and 'obs' in self.inp:
            self.applied = zoo.apply_damage(self.inp['obs'],
                                            self.spec['damage'])
        self.snap = self.shot()

    def shot(self):
        c = ('in', tuple((k, canon(v)) for k, v in sorted(self.inp.items())),
             ('ctor', canon(self.ctorargs)))
        if self.op.stores_psf:
            c = strip_psf(c)
        return c

    def call(self):
        return self.op.call(self.tool, self.inp, self.rng, self.p['t'])

    def verify(self, what):
        now = self.shot()
        d = diff(self.snap, now)
        if d:
            ts = self.inp.get('types')
            orig = self.p['t'].get('types')
            if (self.op.name == 'metacal' and ts is not None
                    and ts == list(orig) + ['1p'] and 'noshear' in orig):
                self.ctx.fail('input-changed',
                              "the caller's list of types gained '1p'",
                              key='metacal-types-list-gains-1p')
                # everything else must be as it was
                ts.remove('1p')
                d = diff(self.snap, self.shot())
            if d:
                self.ctx.fail('input-changed', '%s, %s: %s' % (
                    self.op.name, what, d))
        if 'obs' in self.inp:
            w = flagged(self.inp['obs'])
            self.ctx.check(not w, 'input-left-open',
                           lambda: '%s, %s: %s' % (self.op.name, what, w))


def outcome(fn):
    try:
        return 'ok', fn()
    except (AssertionError, ValueError, RuntimeError, TypeError,
            ArithmeticError, LookupError, AttributeError, MemoryError) as e:
        return type(e).__name__, None
    except zoo.documented_errors() as e:
        return type(e).__name__, None
    except np.linalg.LinAlgError as e:
        return type(e).__name__, None


def execute(spec, ctx):
    zoo.reset_caches()
    c = Case(spec, ctx)
    with opened(c.inp.get('obs') if spec.get('open') else None):
        st, res = outcome(c.call)
    c.verify('undisturbed' if not c.applied else 'damaged data')
    ctx.log(c.op.name, st, c.applied)
    for k in c.applied:
        ctx.fault('data:' + k)
    if c.applied:
        ctx.count('nontrivial')
    ctx.state(c.op.name, tuple(c.applied), st)
    ctx.step()

    # what is done to the result does not reach the inputs
    # (a moment result is documented to hold the sums it was made from)
    if st == 'ok' and spec['args'] and c.op.name != 'wmom':
        spoil(res)
        c.verify('after editing the result')
        ctx.count('results_spoiled')

    if not spec['faults']:
        return
    c.fresh()

    def counted():
        return outcome(c.call)
    n, _ = count_statements(counted)
    c.verify('under trace')
    for f in spec['faults']:
        c.fresh()
        at = 1 + int(f['at'] * n)
        tr, out, exc = run_with_fault(c.call, at, f['exc'])
        ctx.log('fault', at, tr.fired, tr.where, type(exc).__name__)
        ctx.step()
        if not tr.fired:
            continue
        ctx.fault(f['exc'])
        ctx.count('nontrivial')
        ctx.state(c.op.name, f['exc'], tr.where, type(exc).__name__)
        c.verify('%s struck in %s' % (f['exc'], tr.where))
        # and the same inputs can be measured as if nothing had happened
        if not c.op.stores_psf and st == 'ok':
            c.rng = np.random.RandomState(c.p['s'])
            c.tool = c.op.tool(c.p['t'], c.rng, c.ctorargs)
            again = outcome(c.call)
            a = c.op.out(again[1]) if again[0] == 'ok' else again[0]
            if not hasattr(c, 'ref'):
                c2 = Case(spec, ctx)
                r2 = outcome(c2.call)
                c.ref = c2.op.out(r2[1]) if r2[0] == 'ok' else r2[0]
            d = diff(c.ref, a)
            ctx.check(d is None, 'input-spoiled-for-later', lambda: '%s after '
                      '%s in %s: %s' % (c.op.name, f['exc'], tr.where, d))


@contextlib.contextmanager
def opened(obs):
    """the caller is just editing the data"""
    import ngmix
    with contextlib.ExitStack() as stack:
        seen = {}
        for o in [] if obs is None else zoo.epochs_of(obs):
            for x in (o, o.psf if o.has_psf() else None):
                if type(x) is ngmix.Observation and id(x) not in seen:
                    seen[id(x)] = x
                    stack.enter_context(x.writeable())
        yield


def spoil(x, depth=0):
    """edit what a result holds, through whatever is writeable in it"""
    import ngmix
    if depth > 4:
        return
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.names is None and x.dtype.kind == 'f':
            x += 1.0
        return
    if isinstance(x, ngmix.Observation):
        return
    if isinstance(x, ngmix.GMix):
        try:
            x.set_flux(x.get_flux() * 2 + 1)
        except Exception:
            pass
        return
    if isinstance(x, dict):
        for k in list(x):
            spoil(x[k], depth + 1)
        if hasattr(x, 'get_gmix'):
            try:
                spoil(x.get_gmix())
            except Exception:
                pass
        return
    if isinstance(x, (list, tuple)) and not isinstance(
            x, (ngmix.ObsList, ngmix.MultiBandObsList)):
        for v in x:
            spoil(v, depth + 1)


assert sys and InjectedInterrupt
