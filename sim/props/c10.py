"""C10: all randomness comes from the generators the caller supplies"""
import contextlib
import io
import warnings

import numpy as np

from .. import samplers, zoo
from ..canon import canon, diff
from ..inject import count_statements, run_with_fault
from ..rngs import GlobalGuard, rng_state

ID = 'C10'
RUNS = {'quick': 4500, 'thorough': 150000}
MISMATCH_IS_VIOLATION = True
TECH = ('the process-wide generators are perturbed and watched around every '
        'operation, which is run twice from equal generator states among '
        'different bystanders, and interrupted at seeded statements')
RULE = ('a run is one operation or one sequence of draws, made twice from '
        'equal generator states in processes whose global random state and '
        'bystander objects differ, and in part of the runs interrupted at a '
        'statement chosen by the seed. Non-trivial: the operation was given '
        'a generator')
STATE_MEASURE = 'signature (operation or sampler, options, fault, outcome)'
REAL = ['ngmix (all measuring, simulating, sampling and guessing)', 'galsim',
        'scipy', 'sklearn (mixture sampling)']
STUB = []
ASSUME = ['an operation that needs a generator is given one (adaptive '
          'moments with no generator and no guess make their own)']


def warm():
    zoo.warm()


def generate(rng, tier):
    by = [samplers.gen(rng) for _ in range(rng.choice([0, 1, 2, 3]))]
    spec = dict(salts=[rng.randrange(2 ** 31), rng.randrange(2 ** 31)],
                by=by, byseeds=[rng.randrange(2 ** 31) for _ in by],
                order=rng.choice(['before', 'between', 'after']),
                fault=round(rng.random(), 6) if rng.random() < 0.35 else None,
                exc=rng.choice(['KeyboardInterrupt', 'MemoryError',
                                'GMixRangeError', 'ValueError']))
    if rng.random() < 0.45:
        spec.update(kind='draw', s=rng.randrange(2 ** 31), draws=[
            samplers.gen(rng) for _ in range(rng.choice([1, 2, 4]))])
        if rng.random() < 0.2:
            spec['draws'].append(dict(k='gshape', t=dict(
                g1=samplers.r3(rng.uniform(-.95, .95) * .7),
                g2=samplers.r3(rng.uniform(-.95, .95) * .7),
                w=rng.choice([0.01, 0.2])), m='', n=rng.choice([1, 3])))
        if rng.random() < 0.2:
            spec['draws'].append(dict(k='srandu', t={}, m='',
                                      n=rng.choice([None, 1, 7])))
        if rng.random() < 0.2:
            spec['draws'].append(dict(k='lnfit', t={}, m='', n=None))
        if rng.random() < 0.2:
            spec['draws'].append(dict(
                k=rng.choice(['gfit', 'ndfit', 'widths']),
                t=dict(ng=rng.choice([1, 2, 3]), seed=rng.randrange(99),
                       nd=rng.choice([1, 2]),
                       prior=rng.choice(['flat', 'gauss', 'gauss-bdf'])),
                m='', n=rng.choice([1, 3])))
    else:
        op = zoo.pick(rng)
        spec.update(kind='op', p=op.gen(rng))
    return spec


def shrink(spec):
    if spec['kind'] == 'op':
        for d in zoo.shrink_data(spec['p']['d']):
            yield dict(spec, p=dict(spec['p'], d=d))
    else:
        for i in range(len(spec['draws'])):
            if len(spec['draws']) > 1:
                d = list(spec['draws'])
                del d[i]
                yield dict(spec, draws=d)


def one_draw(p, rng):
    import ngmix
    if p['k'] == 'gshape':
        t = p['t']
        return ngmix.guessers.get_shape_guess(
            rng=rng, g1=t['g1'], g2=t['g2'], nrand=p['n'],
            width=[t['w'], t['w']])
    if p['k'] == 'srandu':
        return ngmix.priors.srandu(p['n'], rng=rng)
    if p['k'] == 'lnfit':
        pr = ngmix.priors.LogNormal(1.0, 0.5, rng=rng)
        x = np.linspace(0.1, 4, 30)
        r = pr.fit(x, pr.get_prob_array(x) * 3)
        return [r['flags'], r['pars']]
    if p['k'] in ('gfit', 'ndfit', 'widths'):
        with contextlib.redirect_stdout(io.StringIO()):
            return fit_draw(p, rng)
    return samplers.draw(p, samplers.make(p, rng))


def fit_draw(p, rng):
    """fits of samplers to data, which guess or start at random"""
    import ngmix
    t = p['t']
    if p['k'] == 'gfit':
        pr = ngmix.priors.GPriorBA(0.2, rng=rng)
        x = np.linspace(0.02, 0.9, 25)
        y = np.abs(pr.get_prob_array1d(x)) * 300 + 5
        pr.fit(x, y)
        try:
            draws = pr.sample1d(p['n'])
        except RuntimeError as e:
            # the search for the maximum can fail
            draws = str(e)
        return [pr.fit_pars, pr.fit_pars_cov, draws]
    if p['k'] == 'ndfit' and samplers.have_sklearn():
        data = np.random.RandomState(t['seed']).normal(
            size=(60, t['nd'])) + np.arange(60)[:, None] % t['ng'] * 4
        g = ngmix.gmix_ndim.GMixND(rng=rng)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            g.fit(data, t['ng'], n_iter=20)
            return [g.weights, g.means, g.covars, g.sample(p['n'])]
    from .. import zoo
    pr = zoo.make_prior(t['prior'], rng, 0.5, 2)
    return [pr.get_widths(nrand=50), pr.sample(p['n'])]


def work(spec):
    """-> (generator, function returning a comparable outcome)"""
    if spec['kind'] == 'draw':
        rng = np.random.RandomState(spec['s'])

        def fn():
            return canon([one_draw(p, rng) for p in spec['draws']])
        return rng, fn
    p = spec['p']
    op = zoo.OPS[p['op']]
    rng = np.random.RandomState(p['s'])
    # what is not part of the operation gets its own generator
    inp = op.inputs(p['d'], p['t'])

    def fn():
        tool = op.tool(p['t'], rng, op.ctor(p['t']))
        try:
            return op.out(op.call(tool, inp, rng, p['t']))
        except zoo.documented_errors() as e:
            return type(e).__name__
        except (ValueError, RuntimeError) as e:
            # what a failed psf leads to when failures are not ignored
            if op.name in ('boot', 'mboot') and not p['t']['ignore']:
                return type(e).__name__
            raise
        except Exception as e:
            if 'galsim' in type(e).__module__:
                return type(e).__name__
            raise
    return rng, fn


def execute(spec, ctx):
    zoo.reset_caches()
    name = spec['p']['op'] if spec['kind'] == 'op' else 'draw'
    names = name if spec['kind'] == 'op' else '+'.join(
        '%s.%s' % (p['k'], p['m']) for p in spec['draws'])
    given = spec['kind'] == 'draw' or zoo.OPS[name].tool_rng \
        or zoo.OPS[name].call_rng
    if given:
        ctx.count('nontrivial')
    bys = []
    for p, s in zip(spec['by'], spec['byseeds']):
        r = np.random.RandomState(s)
        bys.append((p, r, samplers.make(p, r)))
    outs, ends = [], []
    for i, salt in enumerate(spec['salts']):
        if (i == 0 and spec['order'] == 'before') or \
                (i == 1 and spec['order'] == 'between'):
            for p, r, o in bys:
                samplers.draw(p, o)
        states = [rng_state(r) for _, r, _ in bys]
        with GlobalGuard(salt) as guard:
            rng, fn = work(spec)
            start = rng_state(rng)
            out = fn()
            t = guard.touched()
        ctx.step()
        ctx.check(not t, 'global-generator', lambda: '%s uses the process-'
                  'wide generator of %s' % (names, ' and '.join(t)))
        ctx.check(states == [rng_state(r) for _, r, _ in bys],
                  'other-generator',
                  lambda: "%s advanced another object's generator" % names)
        outs.append(out)
        ends.append(rng_state(rng))
        ctx.count('advanced' if start != ends[-1] else 'not_advanced')
    d = diff(outs[0], outs[1])
    ctx.check(d is None, 'not-determined', lambda: '%s gives different '
              'results from equal generator states: %s' % (names, d))
    ctx.check(ends[0] == ends[1], 'not-determined', lambda: '%s leaves '
              'different generator states behind' % names)
    ctx.log(names, outs[0] if isinstance(outs[0], str) else 'ok', ends[0][2:])
    ctx.state(names, None)
    ctx.fault('global-state-perturbed', 2)
    if spec['fault'] is None:
        return
    # a failure half way through does not fall back on anything global
    rng, fn = work(spec)

    def quiet():
        try:
            fn()
        except Exception:
            pass
    n, _ = count_statements(quiet)
    at = 1 + int(spec['fault'] * n)
    ends, excs = [], []
    for salt in spec['salts']:
        states = [rng_state(r) for _, r, _ in bys]
        with GlobalGuard(salt) as guard:
            rng, fn = work(spec)
            tr, out, exc = run_with_fault(fn, at, spec['exc'])
            t = guard.touched()
        ctx.step()
        where = tr.where if tr.fired else None
        ctx.check(not t, 'global-generator', lambda: '%s, %s in %s: uses the '
                  'process-wide generator of %s' % (
                      names, spec['exc'], where, ' and '.join(t)))
        ctx.check(states == [rng_state(r) for _, r, _ in bys],
                  'other-generator', lambda: "%s advanced another object's "
                  'generator' % names)
        ends.append(rng_state(rng))
        excs.append((where, type(exc).__name__))
    ctx.check(excs[0] == excs[1] and ends[0] == ends[1], 'not-determined',
              lambda: '%s, %s: %s' % (names, spec['exc'], excs))
    ctx.log('fault', excs[0])
    if excs[0][0]:
        ctx.fault(spec['exc'])
        ctx.state(names, spec['exc'], excs[0])
