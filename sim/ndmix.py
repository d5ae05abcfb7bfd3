"""
Histories of n-dimensional gaussian mixtures: whatever was set, sampled,
evaluated, saved, loaded and copied before, one behaves as a mixture newly
built from its current weights, means and covariances.
"""
import contextlib
import copy
import io
import pickle

import numpy as np

from . import fakefits
from .canon import canon, diff


def comps(rng, nd=None):
    nd = nd or rng.choice([1, 2, 3])
    return dict(nd=nd, ng=rng.choice([1, 1, 2, 3]), s=rng.randrange(1 << 30),
                flat=rng.random() < 0.5)


def arrays(c):
    rs = np.random.RandomState(c['s'])
    n, g = c['nd'], c['ng']
    w = rs.uniform(0.1, 1, size=g)
    w /= w.sum()
    m = rs.normal(size=(g, n))
    a = rs.normal(size=(g, n, n)) * 0.5
    cov = np.array([x.dot(x.T) + np.eye(n) * 0.3 for x in a])
    if n == 1 and c['flat']:
        return w, m[:, 0], cov[:, 0, 0]
    return w, m, cov


def gen(rng):
    ops = [dict(op='new', c=comps(rng), a=0)]
    for _ in range(rng.randrange(3, 16)):
        op = dict(op=rng.choice(['new', 'set', 'set', 'sample', 'sample',
                                 'sample', 'eval', 'eval', 'save', 'load',
                                 'load', 'pickle', 'deepcopy', 'edit']),
                  a=rng.randrange(4), n=rng.choice([None, 1, 3]),
                  f=rng.randrange(2), s=rng.randrange(1 << 30))
        if op['op'] in ('new', 'set'):
            op['c'] = comps(rng)
        if op['op'] in ('save', 'load') and rng.random() < 0.4:
            op['fault'] = [rng.choice(['OSError', 'MemoryError',
                                       'KeyboardInterrupt']),
                           rng.randrange(1, 6)]
        if op['op'] == 'eval':
            op['comp'] = rng.random() < 0.3
            op['how'] = rng.choice(['get_lnprob_scalar', 'get_prob_scalar',
                                    'get_lnprob_array', 'get_prob_array'])
        ops.append(op)
    return ops


def as_set(c):
    w, m, v = arrays(c)
    n, g = c['nd'], c['ng']
    return [w.copy(), m.reshape(g, n).copy(), v.reshape(g, n, n).copy()]


def logsum(ref, x):
    tot = 0.0
    for w, m, c in zip(*ref):
        d = x - m
        tot += w * np.exp(-0.5 * d.dot(np.linalg.inv(c)).dot(d)) / np.sqrt(
            (2 * np.pi) ** len(d) * np.linalg.det(c))
    return np.log(tot)


def run(ops, ctx, have_sampler=True):
    from ngmix.gmix_ndim import GMixND
    fakefits.install()
    pool = []      # [mixture, reference arrays, arrays given]
    files = {}
    for i, op in enumerate(ops):
        k = op['op']
        what = 'step %d (%s)' % (i, k)
        ctx.step()
        ctx.count('nd-' + k)
        if k == 'new' or not pool:
            if 'c' not in op:
                continue
            given = arrays(op['c'])
            g = GMixND(*given, rng=np.random.RandomState(1))
            pool.append([g, as_set(op['c']), given])
            pool = pool[-4:]
            check(ctx, pool, what)
            continue
        it = pool[op['a'] % len(pool)]
        g, ref = it[0], it[1]
        if k == 'set':
            it[2] = arrays(op['c'])
            g.set_mixture(*it[2])
            it[1] = as_set(op['c'])
        elif k == 'edit':
            # the caller goes on using the arrays it gave
            for x in it[2]:
                x[:] = 7.0
        elif k == 'sample':
            if have_sampler:
                one = GMixND(*[x.copy() for x in ref],
                             rng=np.random.RandomState(op['s']))
                g.rng.set_state(np.random.RandomState(op['s']).get_state())
                a, b = g.sample(op['n']), one.sample(op['n'])
                d = diff(canon(b), canon(a))
                ctx.check(d is None, 'stale-sample', lambda: '%s: a mixture '
                          'newly built from the same components gives other '
                          'samples: %s' % (what, d))
        elif k == 'eval':
            x = np.random.RandomState(op['s']).normal(size=len(ref[1][0]))
            comp = op['s'] % len(ref[0]) if op['comp'] else None
            one = GMixND(*[y.copy() for y in ref])
            arr = op['how'].endswith('array')
            p = x.reshape(1, -1) if arr else x
            a = getattr(g, op['how'])(p, component=comp)
            b = getattr(one, op['how'])(p, component=comp)
            d = diff(canon(b), canon(a))
            ctx.check(d is None, 'stale-value', lambda: '%s %s: %s' % (
                what, op['how'], d))
            if comp is None:
                v = np.ravel(a)[0]
                v = v if 'lnprob' in op['how'] else np.log(v)
                w = logsum(ref, x)
                ctx.check(abs(v - w) < 1e-7 * (1 + abs(w)), 'value',
                          lambda: '%s: ln of probability %s, not %s' % (
                              what, v, w))
        elif k in ('save', 'load'):
            name = 'f%d' % op['f']
            exc = None
            if 'fault' in op:
                fakefits.fault = ({'OSError': OSError,
                                   'MemoryError': MemoryError,
                                   'KeyboardInterrupt': KeyboardInterrupt}
                                  [op['fault'][0]], op['fault'][1])
            hadall = len(fakefits.files.get(name, {})) == 3
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if k == 'save':
                        g.save_mixture(name)
                    else:
                        g.load_mixture(name)
            except (OSError, MemoryError, KeyboardInterrupt) as e:
                exc = e
            fired = 'fault' in op and fakefits.fault is None
            fakefits.fault = None
            if fired:
                ctx.fault('file-' + op['fault'][0])
                ctx.check(exc is not None and
                          'simulated disk' in str(exc), 'swallowed',
                          lambda: '%s: a failing disk went unnoticed' % what)
                # the first access opens the file
                if k == 'save' and op['fault'][1] > 1:
                    files.pop(name, None)
            elif k == 'save':
                if exc is not None:
                    raise exc
                files[name] = [x.copy() for x in ref]
            elif exc is None:
                ctx.check(hadall and name in files, 'no-error', lambda: '%s '
                          'of an incomplete file works' % what)
                it[1] = [x.copy() for x in files[name]]
            else:
                ctx.check(name not in files, 'file', lambda: '%s: %s' % (
                    what, exc))
        else:
            new = pickle.loads(pickle.dumps(g)) if k == 'pickle' else \
                copy.deepcopy(g)
            pool.append([new, [x.copy() for x in ref], ()])
            pool = pool[-4:]
        check(ctx, pool, what)
        ctx.state('nd', k, len(it[1][0]), ops[i - 1]['op'])
        ctx.log(what)


def check(ctx, pool, what):
    for n, (g, ref, _) in enumerate(pool):
        d = diff(canon(ref), canon([g.weights, g.means, g.covars]))
        ctx.check(d is None, 'components', lambda: '%s: mixture %d has other '
                  'components than were set: %s' % (what, n, d))
        ctx.check(g.ngauss == len(ref[0]) and g.ndim == ref[1].shape[1],
                  'components', lambda: what)
