"""C16: collections of observations"""
import copy
import pickle

import numpy as np

from ..canon import canon, diff
from ..inject import count_statements, run_with_fault
from ..sched import Scheduler

ID = 'C16'
RUNS = {'quick': 16000, 'thorough': 400000}
TECH = ('seeded histories of appends, replacements, removals, copies and '
        'conversions of real- and k-space collections, with invalid elements, '
        'statement-level faults and interleaved threads; after every step '
        'each collection must hold exactly the members, by identity and in '
        'order, of a plain list model')
RULE = ('a run is a history of up to 24 operations on a pool of up to ten '
        'collections. Non-trivial: a rejection, a fault or an overlap of '
        'threads happened')
STATE_MEASURE = 'signature (collection type, operation, outcome, length)'
REAL = ['ngmix.observation']
STUB = ['thread scheduling']
ASSUME = ['extend, insert and += take valid members only: the package '
          'restricts append and replacement',
          'k-space lists have no copy method of their own; copy.copy and '
          'copy.deepcopy are used']
TIME_UNIT = 'operations'

TYPES = ('O', 'M', 'KO', 'KM')
BAD = ('none', 'int', 'str', 'list', 'array', 'wrong', 'wrong2', 'tuple',
       'type')
OPS = ['append', 'append', 'append', 'append', 'set', 'set', 'set',
       'slice', 'del', 'pop', 'insert', 'extend', 'reverse', 'clear',
       'remove', 'copy', 'deepcopy', 'pickle', 'method', 'convert', 'convert',
       's2n', 's2n', 'edit', 'meta', 'eq', 'new', 'threads', 'kobs',
       'badconv', 'kpsf']


def warm():
    import random
    r = random.Random(8)
    for _ in range(20):
        try:
            execute(generate(r, 'quick'), _Null())
        except Exception:
            pass


class _Null(object):
    def __getattr__(self, k):
        return lambda *a, **kw: None


def generate(rng, tier):
    ops = []
    for _ in range(rng.randrange(3, 25) if rng.random() < .97 else 90):
        op = dict(k=rng.choice(OPS), c=rng.randrange(10),
                  e=rng.randrange(12), i=rng.choice(
                      [0, 0, 1, 2, -1, -2, 5, 99]), t=rng.choice(TYPES))
        if op['k'] in ('append', 'set', 'slice', 'meta'):
            op['bad'] = rng.choice(BAD) if rng.random() < 0.4 else None
        if op['k'] == 'badconv':
            op['bad'] = rng.choice(BAD)
        if op['k'] == 'meta':
            op['u'] = rng.random() < 0.5
        if op['k'] == 'threads':
            op['sched'] = [[rng.randrange(2), rng.choice([1, 2, 3, 7])]
                           for _ in range(rng.randrange(1, 12))]
            op['same'] = rng.random() < 0.5
            op['c2'] = rng.randrange(10)
        if rng.random() < 0.15:
            op['inject'] = dict(f=rng.random(), e=rng.choice(
                ['MemoryError', 'Interrupt', 'KeyboardInterrupt']))
        ops.append(op)
    return dict(s=rng.randrange(1 << 31), ops=ops,
                nmem=rng.choice([2, 4, 6, 2, 4, 6, 2, 4, 6, 15]))


def shrink(spec):
    for i, o in enumerate(spec['ops']):
        if 'inject' in o:
            p = dict(o)
            del p['inject']
            yield dict(spec, ops=spec['ops'][:i] + [p] + spec['ops'][i + 1:])


class World(object):
    """the members and collections, and the plain lists they should be"""

    def __init__(self, spec):
        import ngmix
        import galsim
        o = ngmix.observation
        self.types = {'O': o.ObsList, 'M': o.MultiBandObsList,
                      'KO': o.KObsList, 'KM': o.KMultiBandObsList}
        rs = np.random.RandomState(spec['s'])
        self.mem = {'O': [], 'KO': []}
        for i in range(spec['nmem']):
            dims = (4, 5) if rs.uniform() < .97 else (40, 51)
            im = rs.normal(size=dims) * 10 ** rs.randint(-3, 4)
            w = rs.uniform(0.1, 3, size=im.shape)
            what = rs.randint(8)
            if what == 0:
                # nothing there, or it cancels
                im[:] = 0
            elif what == 1:
                im[:2], im[2:] = 1, -1
                w[:] = 2
            elif what == 2:
                w[:, 0] = np.inf if rs.uniform() < .3 else 1e-300
            how = rs.randint(5)
            if how == 0:
                w[:2] = 0
            elif how == 1:
                w[1, 2] = -3.0
            elif how == 2:
                w[:] = 0 if rs.uniform() < 0.3 else w
            try:
                ob = ngmix.Observation(im, weight=w, meta={'n': i})
            except ngmix.GMixFatalError:
                ob = ngmix.Observation(im, weight=w, meta={'n': i},
                                       ignore_zero_weight=False)
            self.mem['O'].append(ob)
            k = galsim.Image(rs.normal(size=(4, 4)) + 1j, scale=0.3,
                             dtype=complex)
            self.mem['KO'].append(o.KObservation(
                k, meta={'n': i}, psf=o.KObservation(
                    k.copy()) if rs.uniform() < 0.5 else None))
        # [collection, model list, type, model of the metadata]
        self.colls = []
        for t in TYPES:
            self.new(t)

    def new(self, t, meta=None):
        if len(self.colls) > 10:
            return None
        c = [self.types[t](meta=meta) if meta is not None else
             self.types[t](), [], t, dict(meta or {})]
        self.colls.append(c)
        return c

    def element(self, t, e):
        """a valid member for a collection of type t"""
        if t in self.mem:
            return self.mem[t][e % len(self.mem[t])]
        sub = [c for c in self.colls if c[2] == t.replace('M', 'O')]
        return sub[e % len(sub)][0]

    def bad(self, t, b, e):
        other = {'O': 'KO', 'M': 'KM', 'KO': 'O', 'KM': 'M'}[t]
        if b == 'none':
            return None
        if b == 'int':
            return 3
        if b == 'str':
            return 'obs'
        if b == 'list':
            return [self.element(t, e)]
        if b == 'tuple':
            return (self.element(t, e),)
        if b == 'array':
            return np.zeros((3, 3))
        if b == 'type':
            return type(self.element(t, e))
        if b == 'wrong':
            return self.element(other, e)
        # one level off
        if t in self.mem:
            return self.types[t]()
        return self.mem[t.replace('M', 'O')][e % len(
            self.mem[t.replace('M', 'O')])]


def check_all(w, ctx, what):
    for n, (c, m, t, meta) in enumerate(w.colls):
        ctx.check(type(c) is w.types[t], 'type', lambda: '%s: %r' % (
            what, type(c)))
        ctx.check([id(x) for x in list.__iter__(c)] == [id(x) for x in m],
                  'members', lambda: '%s: collection %d (%s) holds %d '
                  'members, the model %d, or another order' % (
                      what, n, t, len(c), len(m)))
        ctx.check(len(c) == len(m), 'members', lambda: what)
        ctx.check(c.meta == meta, 'metadata', lambda: '%s: collection %d has '
                  '%s, not %s' % (what, n, c.meta, meta))


def execute(spec, ctx):
    w = World(spec)
    inter = False
    for n, op in enumerate(spec['ops']):
        c = w.colls[op['c'] % len(w.colls)]
        what = 'step %d (%s on %s)' % (n, op['k'], c[2])
        ctx.count('op-' + op['k'])
        before = list(c[1])
        got = step(w, ctx, op, c, what)
        inter = inter or got in ('rejected', 'fault', 'overlap')
        check_all(w, ctx, what)
        ctx.step()
        ctx.log(what, got, len(c[1]))
        ctx.state(c[2], op['k'], got, min(len(before), 4), op.get('bad'))
    if inter:
        ctx.count('nontrivial')


class Rejected(Exception):
    pass


def attempt(op, ctx, fn, undo=None):
    """(result, exception, whether a fault fired)"""
    if 'inject' not in op:
        try:
            return fn(), None, False
        except Exception as e:
            return None, e, False
    at = 1 + int(op['inject']['f'] * 6)
    t, res, exc = run_with_fault(fn, at, op['inject']['e'])
    if t.fired:
        ctx.fault(op['inject']['e'])
    return res, exc, t.fired


def change(op, ctx, c, new, fn, what):
    """
    an operation which must leave the collection as `new`, or, when it
    fails by a fault, as it was or as new
    """
    res, exc, fired = attempt(op, ctx, fn)
    if fired:
        ids = [id(x) for x in list.__iter__(c[0])]
        if ids == [id(x) for x in new]:
            c[1][:] = new
        # else compared with what it was
        return 'fault'
    if exc is not None:
        raise exc
    c[1][:] = new
    return 'ok'


def refuse(op, ctx, fn, what):
    res, exc, fired = attempt(op, ctx, fn)
    if fired:
        return 'fault'
    ctx.check(exc is not None, 'not-refused', lambda: '%s takes %s' % (
        what, op['bad']))
    ctx.check(isinstance(exc, (AssertionError, TypeError, ValueError)),
              'unexpected-%s' % type(exc).__name__, lambda: '%s: %s' % (
                  what, exc))
    return 'rejected'


def step(w, ctx, op, c, what):
    import ngmix
    k, t, (coll, model) = op['k'], c[2], c[:2]
    if k == 'append':
        if op['bad']:
            x = w.bad(t, op['bad'], op['e'])
            return refuse(op, ctx, lambda: coll.append(x), what)
        x = w.element(t, op['e'])
        return change(op, ctx, c, model + [x], lambda: coll.append(x), what)
    if k == 'set':
        i = op['i']
        if op['bad']:
            x = w.bad(t, op['bad'], op['e'])
            return refuse(op, ctx, lambda: coll.__setitem__(i, x), what)
        x = w.element(t, op['e'])
        if not -len(model) <= i < len(model):
            _, exc, fired = attempt(op, ctx,
                                    lambda: coll.__setitem__(i, x))
            ctx.check(fired or isinstance(exc, IndexError), 'not-refused',
                      lambda: '%s at %d of %d' % (what, i, len(model)))
            return 'rejected'
        new = list(model)
        new[i] = x
        return change(op, ctx, c, new, lambda: coll.__setitem__(i, x), what)
    if k == 'slice':
        # whole slices are refused, or replaced by valid members
        bad = op['bad']
        xs = [w.bad(t, bad, op['e'])] if bad else [w.element(t, op['e'])]
        _, exc, fired = attempt(op, ctx, lambda: coll.__setitem__(
            slice(0, 1), xs))
        if exc is not None:
            return 'rejected'
        ctx.check(not bad, 'not-refused', lambda: '%s takes %s' % (what, bad))
        c[1][0:1] = xs
        return 'ok'
    if k in ('del', 'pop'):
        i = op['i']
        new = list(model)
        try:
            del new[i]
        except IndexError:
            try:
                coll.pop(i) if k == 'pop' else coll.__delitem__(i)
            except IndexError:
                return 'rejected'
            ctx.fail('members', '%s removed something' % what)
        if k == 'pop':
            x = coll.pop(i)
            ctx.check(x is model[i], 'members', lambda: what)
        else:
            del coll[i]
        c[1][:] = new
        return 'ok'
    if k == 'insert':
        x = w.element(t, op['e'])
        coll.insert(op['i'], x)
        c[1].insert(op['i'], x)
        return 'ok'
    if k == 'extend':
        xs = [w.element(t, op['e']), w.element(t, op['e'] + 1)]
        if op['i'] % 2:
            coll.extend(xs)
        else:
            same = coll
            coll += xs
            ctx.check(coll is same, 'type', lambda: what)
        c[1].extend(xs)
        return 'ok'
    if k == 'reverse':
        coll.reverse()
        c[1].reverse()
        return 'ok'
    if k == 'clear':
        if op['e'] < 4:
            coll.clear()
            c[1].clear()
        return 'ok'
    if k == 'remove':
        if model and t in ('KO',):
            x = model[op['e'] % len(model)]
            coll.remove(x)
            for n, y in enumerate(c[1]):
                if y is x:
                    del c[1][n]
                    break
        return 'ok'
    if k in ('copy', 'deepcopy', 'pickle', 'method'):
        return do_copy(w, ctx, op, c, what)
    if k == 'convert':
        return convert(w, ctx, op, c, what)
    if k == 'badconv':
        b = op['bad']
        if b == 'none' or b == 'wrong':
            x = None if b == 'none' else w.element(
                {'O': 'KO', 'M': 'KM', 'KO': 'O', 'KM': 'M'}[t], op['e'])
        else:
            x = w.bad(t, b, op['e'])
        f = ngmix.observation.get_kmb_obs if t.startswith('K') else \
            ngmix.observation.get_mb_obs
        if b == 'wrong2':
            return 'skip'
        return refuse(op, ctx, lambda: f(x), what)
    if k == 's2n':
        return s2n(w, ctx, c, what)
    if k == 'edit':
        o = w.mem['O'][op['e'] % len(w.mem['O'])]
        try:
            with o.writeable():
                o.image *= 1.5
                o.weight[0, op['i'] % 5] = float(op['e'] % 3)
        except ngmix.GMixFatalError:
            return 'rejected'
        return 'ok'
    if k == 'meta':
        return do_meta(ctx, op, c, what)
    if k == 'eq':
        return equal(w, ctx, op, c, what)
    if k == 'new':
        w.new(op['t'], {'k': op['e']} if op['e'] % 2 else None)
        return 'ok'
    if k == 'threads':
        return threads(w, ctx, op, c, what)
    if k == 'kobs':
        return kobs(w, ctx, op, c, what)
    if k == 'kpsf':
        return kpsf(w, ctx, op, what)
    raise ValueError(k)


def do_copy(w, ctx, op, c, what):
    coll, model, t, meta = c
    k = op['k']
    real = not t.startswith('K')
    if k == 'method' and not real:
        return 'skip'
    fn = {'copy': lambda: copy.copy(coll),
          'deepcopy': lambda: copy.deepcopy(coll),
          'pickle': lambda: pickle.loads(pickle.dumps(coll)),
          'method': lambda: coll.copy()}[k]
    res, exc, fired = attempt(op, ctx, fn)
    if fired:
        return 'fault'
    if exc is not None:
        raise exc
    ctx.check(type(res) is w.types[t] and len(res) == len(model) and
              res.meta == meta, 'copy', lambda: '%s: %r' % (what, type(res)))
    deep = real or k != 'copy'
    for a, b in zip(res, model):
        ctx.check((a is not b) if deep else (a is b), 'copy', lambda:
                  '%s: members are%s the same' % (what, ' ' if deep else
                                                  ' not'))
        if deep and real:
            d = diff(canon(b), canon(a))
            ctx.check(d is None, 'copy', lambda: '%s: %s' % (what, d))
        elif deep:
            ctx.check(kcanon(a) == kcanon(b), 'copy', lambda: what)
    if deep and len(w.colls) < 10:
        if t in w.mem:
            w.colls.append([res, list(res), t, dict(meta)])
        else:
            # its own lists are in nobody's model
            w.colls.append([res, list(res), t, dict(meta)])
            shared = {}
            for sub, old in zip(res, model):
                if any(sub is x[0] for x in w.colls):
                    continue
                # copies of one list may share what they had in common
                m = shared.setdefault(id(sub.meta), dict(old.meta))
                w.colls.append([sub, list(sub), t.replace('M', 'O'), m])
    return 'ok'


def kcanon(x):
    if isinstance(x, list):
        return [type(x).__name__, x.meta, [kcanon(y) for y in x]]
    return (x.kimage.array.tobytes(), x.weight.array.tobytes(), x.meta,
            kcanon(x.psf) if x.has_psf() else None)


def convert(w, ctx, op, c, what):
    from ngmix import observation as o
    coll, model, t, meta = c
    f = o.get_kmb_obs if t.startswith('K') else o.get_mb_obs
    T = w.types['KM' if t.startswith('K') else 'M']
    L = w.types['KO' if t.startswith('K') else 'O']
    one = op['e'] % 3 == 0 and t in w.mem
    x = w.element(t, op['e']) if one else coll
    res, exc, fired = attempt(op, ctx, lambda: f(x))
    if fired:
        return 'fault'
    if exc is not None:
        raise exc
    ctx.check(type(res) is T, 'conversion', lambda: '%s: %r' % (
        what, type(res)))
    if t not in w.mem:
        ctx.check([id(a) for a in res] == [id(a) for a in model] and
                  res.meta == meta, 'conversion',
                  lambda: '%s: bands not kept' % what)
    elif one:
        ctx.check(len(res) == 1 and type(res[0]) is L and len(res[0]) == 1
                  and res[0][0] is x, 'conversion', lambda: '%s: %r' % (
                      what, [len(a) for a in res]))
    else:
        ctx.check(len(res) == 1 and type(res[0]) is L and
                  [id(a) for a in res[0]] == [id(a) for a in model] and
                  res[0].meta == meta,
                  'conversion', lambda: '%s: members not kept' % what)
        ctx.check(res[0] is coll, 'conversion',
                  lambda: '%s: the list itself is not kept' % what)
    return 'ok'


def sums(x):
    """over all members, one by one, from the arrays"""
    if isinstance(x, list):
        tot = np.zeros(3)
        for y in x:
            tot += sums(y)
        return tot
    i, v, n = 0.0, 0.0, 0
    for a, b in zip(x.image.ravel().tolist(), x.weight.ravel().tolist()):
        if b > 0:
            i, v, n = i + a, v + 1.0 / b, n + 1
    return np.array([i, v, n])


def scale(x):
    if isinstance(x, list):
        return sum(scale(y) for y in x)
    return np.abs(x.image).sum()


def s2n(w, ctx, c, what):
    coll, model, t, meta = c
    if t.startswith('K'):
        return 'skip'
    got = coll.get_s2n_sums()
    want = sums(list(model))
    tol = 1e-10 * scale(list(model))
    ctx.check(len(got) == 3 and abs(got[0] - want[0]) <= tol and
              abs(got[1] - want[1]) <= 1e-10 * abs(want[1]) and
              got[2] == want[2], 'sums', lambda: '%s: %s, not %s' % (
                  what, got, list(want)))
    v = coll.get_s2n()
    exp = want[0] / np.sqrt(want[1]) if want[1] > 0 else -9999.0
    lim = tol / np.sqrt(want[1]) if want[1] > 0 else 0
    ctx.check(abs(v - exp) <= lim + 1e-10 * abs(exp), 'sums',
              lambda: '%s: s/n %s, not %s' % (what, v, exp))
    return 'ok'


def do_meta(ctx, op, c, what):
    coll = c[0]
    if op['bad']:
        x = [3, 'x', [1], (1,)][op['e'] % 4]
        if op['u']:
            return refuse(op, ctx, lambda: coll.update_meta_data(x), what)
        return refuse(op, ctx, lambda: setattr(coll, 'meta', x), what)
    m = {'k%d' % (op['e'] % 3): op['e']}
    if op['u']:
        coll.update_meta_data(m)
        c[3].update(m)
    else:
        coll.meta = dict(m)
        c[3] = dict(m)
    return 'ok'


def equal(w, ctx, op, c, what):
    coll, model, t, meta = c
    if t.startswith('K'):
        return 'skip'
    others = [d for d in w.colls if d[2] == t]
    d = others[op['e'] % len(others)]
    want = len(model) == len(d[1]) and meta == d[3] and \
        diff(canon(coll), canon(d[0])) is None
    ctx.check((coll == d[0]) == want and (coll != d[0]) == (not want),
              'equality', lambda: '%s: %s, expected %s' % (
                  what, coll == d[0], want))
    return 'ok'


def threads(w, ctx, op, c, what):
    """two threads append, to the same collection or to two"""
    d = c if op['same'] else w.colls[op['c2'] % len(w.colls)]
    x, y = w.element(c[2], op['e']), w.element(d[2], op['e'] + 1)
    s = Scheduler([lambda: c[0].append(x), lambda: d[0].append(y)],
                  op['sched'])
    for t in s.run():
        if t.error is not None:
            raise t.error
    ctx.fault('thread-switch', s.switches)
    ctx.interleaving((tuple(s.order), c is d))
    if c is d:
        n = len(c[1])
        ids = [id(z) for z in list.__iter__(c[0])][n:]
        ctx.check(ids in ([id(x), id(y)], [id(y), id(x)]), 'members',
                  lambda: '%s: lost or doubled' % what)
        c[1].extend([x, y] if ids[0] == id(x) else [y, x])
    else:
        c[1].append(x)
        d[1].append(y)
    return 'overlap' if s.overlapped else 'ok'


def kobs(w, ctx, op, c, what):
    """k-space observations of a real-space collection keep its structure"""
    import ngmix
    coll, model, t, meta = c
    if t.startswith('K') or not model or op['e'] > 7:
        return 'skip'
    bands = [model] if t == 'O' else [list(b) for b in model]
    if not any(bands):
        return 'skip'
    if any(o.image.sum() == 0 for b in bands for o in b):
        return 'skip'
    res = ngmix.observation.make_kobs(coll)
    ctx.check(type(res) is w.types['KM'] and
              [len(b) for b in res] == [len(b) for b in bands] and
              all(type(b) is w.types['KO'] for b in res), 'conversion',
              lambda: '%s: %s of %s' % (what, [len(b) for b in res],
                                        [len(b) for b in bands]))
    dims = set()
    for kb, b in zip(res, bands):
        for ko, o in zip(kb, b):
            dims.add((ko.kimage.array.shape, ko.kimage.scale))
            ctx.check(ko.meta.get('n') == o.meta.get('n') and np.array_equal(
                ko.meta['realspace_gsimage'].array, o.image), 'conversion',
                lambda: '%s: members out of order' % what)
            ctx.check(ko.has_psf() == o.has_psf(), 'conversion',
                      lambda: '%s: psf' % what)
            # the zero frequency holds the flux
            v = ko.kimage(0, 0)
            ctx.check(abs(v.real - o.image.sum() * o.jacobian.area /
                          o.jacobian.area) <= 1e-3 * np.abs(
                              o.image).sum() + 1e-6, 'conversion',
                      lambda: '%s: flux %s, not %s' % (
                          what, v, o.image.sum()))
    ctx.check(len(dims) == 1, 'conversion', lambda: '%s: dimensions %s' % (
        what, dims))
    return 'ok'


def kpsf(w, ctx, op, what):
    """a k-space psf which is refused leaves the observation as it was"""
    import galsim
    import ngmix
    o = w.mem['KO'][op['e'] % len(w.mem['KO'])]
    old = o.psf if o.has_psf() else None
    how = op['i'] % 5
    a = np.ones((4, 4), dtype=complex)
    KO = ngmix.observation.KObservation
    if how == 0:
        new = KO(galsim.Image(np.ones((5, 5), dtype=complex), scale=0.3))
    elif how == 1:
        new = KO(galsim.Image(a, scale=0.5))
    elif how == 2:
        new = 'psf'
    elif how == 3:
        new = None
    else:
        new = KO(galsim.Image(a * op['e'], scale=0.3))
    _, exc, fired = attempt(op, ctx, lambda: o.set_psf(new))
    now = o.psf if o.has_psf() else None
    if fired:
        ctx.check(now is old or (how > 2 and now is new), 'k-psf',
                  lambda: '%s (interrupted)' % what)
        return 'fault'
    if how < 3:
        ctx.check(isinstance(exc, (AssertionError, ValueError)),
                  'not-refused', lambda: what)
        ctx.check(now is old, 'k-psf', lambda: '%s: a refused psf was kept '
                  'or the current one dropped' % what)
        return 'rejected'
    if exc is not None:
        raise exc
    ctx.check(now is new, 'k-psf', lambda: what)
    return 'ok'


assert count_statements  # noqa
