"""C03: copies are equal, complete and independent; equality sees differences"""
import copy
import sys
import numpy as np

from .. import world, inject
from ..canon import canon, diff

ID = 'C03'
RUNS = {'quick': 8000, 'thorough': 120000}
RULE = ('a run keeps a pool of one kind of object (observation, observation '
        'list, multi-band list, mixture of any kind, sky mapping) and makes '
        'copies in every way, edits members of the pool at random depths, '
        'interrupts copies part way, and compares pairs; after each step '
        'every object not edited must be unchanged, each new copy must equal '
        'its source in every respect, and == must hold exactly for equal '
        'contents, in both directions. Non-trivial: an object was edited '
        'after being copied, or a pair with one difference was compared')
STATE_MEASURE = 'signature (kind, operation, edit, equal or not)'
REAL = ['ngmix.observation', 'ngmix.gmix', 'ngmix.jacobian']
STUB = []
ASSUME = ['no nan in the data (nan is unequal to itself)',
          'metadata values are plain data or arrays',
          'the point-spread observation of an observation and members of a '
          'list are shared by reference until copied']

WAYS = ['method', 'copy', 'deepcopy']
EDITS = ['image', 'image', 'weight', 'inplace', 'jac', 'jcen', 'meta',
         'metadeep', 'metaarr', 'plane', 'noplane', 'psf', 'nopsf', 'psfedit',
         'psfmeta', 'gmix', 'nogmix', 'listmeta', 'append', 'pop', 'replace',
         'swap', 'onepix', 'permute', 'psfgmix', 'bandmeta', 'inplane',
         'inplane', 'jac1', 'jac1', 'gmix1', 'psfplane', 'psfweight',
         'psfjac', 'dropadd', 'deep', 'deep', 'deep', 'listdeep']
GEDITS = ['flux', 'cen', 'fill', 'data', 'data', 'norms', 'reset', 'permute']
JEDITS = ['cen', 'data', 'cenxy', 'one', 'one']
PLANES = ('bmask', 'ormask', 'noise', 'mfrac')


def deep_value(rs):
    """metadata of some depth, few enough that two are often alike"""
    v = [[1, [2, 3]], [1, [2, 3, 4]], [1, [2]], [1, []], [], [1], [1, [2, 3], 5],
         {'a': None}, {'b': None}, {}, {'a': [1]}, {'a': [1, 2]},
         {'a': 1, 'b': None}, {'a': 1, 'c': None},
         {'a': {'b': [1, {'c': 2}]}}, {'a': {'b': [1, {'c': 3}]}},
         (1, 2), (1, 2, 3), (1,), 'x', 'xy', None,
         np.arange(3), np.arange(4), [np.arange(3)], [np.arange(3), 1],
         [np.arange(4)], {'a': np.arange(3)}, {'a': np.zeros((2, 2))},
         {'a': np.zeros((2, 1))}]
    if rs.randint(2):
        v = v[7:14]
    return v[rs.randint(len(v))]


def other_jac(j, rs):
    """a mapping which differs in one respect, or not at all"""
    import ngmix
    names = ['row', 'col', 'dvdrow', 'dvdcol', 'dudrow', 'dudcol']
    v = [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol]
    how = rs.randint(10)
    if how < 6:
        v[how] += rs.choice([1e-9, 0.01])
    elif how == 6:
        v[0], v[1] = v[1], v[0]
    elif how == 7:
        v[3], v[4] = v[4], v[3]
    elif how == 8:
        v[3], v[4] = -v[3], -v[4]
    else:
        v[2], v[5] = v[5], v[2]
    return ngmix.Jacobian(**dict(zip(names, v)))


def inplane(o, rs):
    have = [p for p in PLANES if getattr(o, 'has_' + p)()]
    if not have:
        return None
    p = have[rs.randint(len(have))]
    with o.writeable():
        a = getattr(o, p)
        a[rs.randint(a.shape[0]), rs.randint(a.shape[1])] += 1
    return True


def warm():
    import random
    from .. import core
    rng = random.Random(5)
    for _ in range(60):
        core.run_one(sys.modules[__name__], generate(rng, 'quick'))


def small_ep(rng):
    n = rng.randrange(2, 6)
    if rng.random() < .01:
        n = rng.choice([33, 65, 110])
    return world.epoch_spec(rng, dims=[n, n + rng.randrange(2)],
                            psf_dims=[3, rng.randrange(3, 5)])


def generate(rng, tier):
    kind = rng.choice(['obs', 'obs', 'obs', 'list', 'list', 'mb', 'gmix',
                       'jac'])
    d = dict(kind=kind)
    if kind in ('obs', 'list', 'mb'):
        d['nb'] = rng.choice([0, 1, 2, 3] * 10 + [5, 7]) if kind == 'mb' else 1
        d['bands'] = [[small_ep(rng) for _ in range(
            rng.choice([0, 1, 2, 3] * 12 + [6, 11]))]
                      for _ in range(d['nb'])]
        if kind == 'obs':
            d['bands'] = [[small_ep(rng)]]
        d['psf'] = rng.random() < .8
        d['gm'] = rng.random() < .6
        d['store'] = rng.random() < .8
        d['izw'] = rng.random() < .7
    elif kind == 'gmix':
        from . import c04
        d['gm'] = c04.gen_pars(rng)
    else:
        d['jac'] = world.jac_spec(rng)
    ops = []
    for _ in range(rng.randrange(3, 12)):
        op = rng.choice(['copy', 'copy', 'edit', 'edit', 'edit', 'cmp',
                         'fault'])
        o = dict(op=op, i=rng.randrange(8), j=rng.randrange(8),
                 way=rng.choice(WAYS), seed=rng.randrange(1 << 24),
                 band=rng.randrange(4), ep=rng.randrange(4))
        if op == 'edit':
            o['edit'] = rng.choice(EDITS)
            o['gedit'] = rng.choice(GEDITS)
            o['jedit'] = rng.choice(JEDITS)
        if op == 'fault':
            o['at'] = rng.randrange(1, 60)
            o['exc'] = rng.choice(['MemoryError', 'Interrupt'])
        ops.append(o)
    d['ops'] = ops
    return d


KEEP = ('bands',)


def build(spec):
    import ngmix
    k = spec['kind']
    if k == 'gmix':
        from . import c04
        from ngmix.gexceptions import GMixRangeError
        try:
            return c04.build(spec['gm'], 1.0)
        except GMixRangeError:
            return ngmix.GMix(ngauss=2)
    if k == 'jac':
        return world.make_jac(spec['jac'], (8, 9))
    bands = []
    for eps in spec['bands']:
        ol = ngmix.ObsList(meta={'band': [1, {'x': 2}]})
        for ep in eps:
            o = world.make_epoch(ep, with_psf=spec['psf'], psf_gmix=True)
            if spec['gm']:
                o.gmix = ngmix.GMixModel([0, 0, .1, .1, 4., 1.], 'exp')
            if not spec['store'] or not spec['izw']:
                o2 = ngmix.Observation(
                    o.image.copy(), weight=o.weight.copy(),
                    jacobian=o.jacobian, store_pixels=spec['store'],
                    ignore_zero_weight=spec['izw'], meta=o.meta,
                    psf=o.psf if o.has_psf() else None)
                if o.has_gmix():
                    o2.gmix = o.gmix
                for p in ('bmask', 'ormask', 'noise', 'mfrac'):
                    if getattr(o, 'has_' + p)():
                        setattr(o2, p, getattr(o, p))
                o = o2
            ol.append(o)
        bands.append(ol)
    if k == 'obs':
        return bands[0][0]
    if k == 'list':
        return bands[0]
    mb = ngmix.MultiBandObsList(meta={'mb': {'a': [1]}})
    for ol in bands:
        mb.append(ol)
    return mb


def contents(x):
    """canonical form of what equality is about"""
    import ngmix
    if isinstance(x, ngmix.Observation):
        c = canon(x)[1]
        out = []
        for n, v in c:
            if n in ('store_pixels', 'izw', 'pixels'):
                continue
            if n == 'jac':
                v = v[2]
            elif n == 'gmix':
                v = v[2]
            elif n == 'psf':
                v = contents(x.psf)
            elif n != 'meta':
                v = normdtype(v)
            out.append((n, v))
        return tuple(out)
    if isinstance(x, list):
        return (tuple(contents(i) for i in x), canon(x.meta))
    c = canon(x)
    return c[2]


def normdtype(v):
    return v


def source_of(x, spec):
    return x


def do_copy(x, way):
    if way == 'method':
        return x.copy()
    if way == 'copy':
        return copy.copy(x)
    return copy.deepcopy(x)


def full(x):
    """every respect, except that a copied mapping may be of the base class"""
    import ngmix
    if isinstance(x, ngmix.Jacobian):
        return canon(x)[2]
    if isinstance(x, ngmix.Observation):
        out = []
        for n, v in canon(x)[1]:
            if n == 'jac':
                v = v[2]
            elif n == 'psf':
                v = full(x.psf)
            out.append((n, v))
        return tuple(out)
    if isinstance(x, list):
        return (type(x).__name__, tuple(full(i) for i in x), canon(x.meta))
    return canon(x)


def members(x):
    import ngmix
    if isinstance(x, ngmix.Observation):
        return [x]
    if isinstance(x, ngmix.ObsList):
        return list(x)
    return [o for ol in x for o in ol]


def edit(x, op, rs, spec, ctx):
    """edit x somewhere; returns the name of the edit made, or None"""
    import ngmix
    e = op.get('edit')
    if isinstance(x, ngmix.GMix):
        g = op['gedit']
        if g == 'flux':
            if x.get_flux() == 0:
                return None
            x.set_flux(x.get_flux() * rs.choice([1.0, 1.5]))
        elif g == 'cen':
            if x.get_flux() == 0:
                return None
            x.set_cen(rs.uniform(), rs.uniform())
        elif g == 'fill':
            if spec['gm']['kind'] == 'full':
                p = rs.uniform(.5, 1, size=6 * len(x))
            else:
                p = list(spec['gm']['pars'])
                p[0] += 0.1
                if np.hypot(p[2], p[3]) >= 1:
                    return None
            if len(p) != x._npars if hasattr(x, '_npars') else False:
                return None
            x.fill(p)
        elif g == 'data':
            f = ['p', 'row', 'col', 'irr', 'irc', 'icc'][rs.randint(6)]
            x.get_data()[f][rs.randint(len(x))] += 0.25
        elif g == 'permute':
            d = x.get_data()
            if rs.randint(2):
                d[:] = d[::-1].copy()
            else:
                f = ['row', 'col', 'irr', 'irc', 'icc'][rs.randint(5)]
                d[f] = d[f][::-1].copy()
        elif g == 'norms':
            try:
                x.set_norms()
            except Exception:
                pass
        else:
            x.reset()
        return g
    if isinstance(x, ngmix.Jacobian):
        j = op['jedit']
        if j == 'cen':
            x.set_cen(row=rs.uniform(), col=rs.uniform())
        elif j == 'cenxy':
            x.set_cen(x=rs.uniform(), y=rs.uniform())
        elif j == 'one':
            # compared only, the object stays as it is
            y = other_jac(x, rs)
            compare(ctx, x, y, 'mapping with one difference')
            return None
        else:
            x.get_data()['row0'] += 0.5
        return j
    if e == 'deep':
        # the metadata of any part
        t = [x]
        for o in members(x):
            t += [o] + ([o.psf] if o.has_psf() else [])
        if isinstance(x, ngmix.MultiBandObsList):
            t += list(x)
        t[rs.randint(len(t)) if rs.randint(2) else 0].meta['deep'] = deep_value(rs)
        return e
    if e == 'listdeep':
        if isinstance(x, ngmix.Observation):
            return None
        if 'mb' in x.meta:
            x.meta['mb']['a'].append(rs.randint(3))
        elif 'band' in x.meta:
            x.meta['band'][1]['x'] += 1
        else:
            return None
        return e
    if e in ('listmeta', 'append', 'pop', 'replace', 'swap', 'bandmeta'):
        if isinstance(x, ngmix.Observation):
            return None
        t = x
        if isinstance(x, ngmix.MultiBandObsList) and e != 'listmeta':
            if len(x) == 0:
                return None
            if e == 'bandmeta':
                x[op['band'] % len(x)].meta['new'] = [1]
                return e
            if rs.uniform() < .6:
                t = x[op['band'] % len(x)]
        elif e == 'bandmeta':
            x.meta['band'][1]['x'] += 1
            return e
        if e == 'listmeta':
            x.meta['z'] = rs.randint(3)
        elif e == 'append':
            if isinstance(t, ngmix.ObsList):
                t.append(ngmix.Observation(rs.normal(size=(2, 2))))
            else:
                t.append(ngmix.ObsList())
        else:
            if len(t) < 1 or (e == 'swap' and len(t) < 2):
                return None
            k = op['ep'] % len(t)
            if e == 'pop':
                t.pop(k)
            elif e == 'replace':
                t[k] = t[k].copy() if rs.uniform() < .5 else type(t[k])(
                    *([rs.normal(size=(2, 2))]
                      if isinstance(t, ngmix.ObsList) else []))
            else:
                t.reverse()
        return e
    m = members(x)
    if not m:
        return None
    o = m[(op['band'] * 3 + op['ep']) % len(m)]
    if e in ('psfedit', 'psfmeta', 'psfgmix', 'psfplane', 'psfweight',
             'psfjac'):
        if not o.has_psf():
            return None
        if e == 'psfplane':
            if inplane(o.psf, rs) is None:
                o.psf.mfrac = rs.uniform(size=o.psf.image.shape)
            return e
        if e == 'psfweight':
            with o.psf.writeable():
                o.psf.weight[-1, 0] *= 1 + 1e-9
            return e
        if e == 'psfjac':
            o.psf.jacobian = other_jac(o.psf.jacobian, rs)
            return e
        if e == 'psfedit':
            with o.psf.writeable():
                o.psf.image[0, 0] += 1
        elif e == 'psfmeta':
            o.psf.meta['p'] = [rs.randint(3)]
        else:
            if o.psf.has_gmix():
                o.psf.gmix = None
            else:
                o.psf.gmix = ngmix.GMix(ngauss=1)
    elif e == 'image':
        o.image = rs.normal(size=o.image.shape)
    elif e == 'weight':
        o.weight = rs.uniform(.5, 1, size=o.image.shape)
    elif e == 'inplace':
        with o.writeable():
            o.image += 1
            o.weight[0, 0] *= 2
    elif e == 'onepix':
        with o.writeable():
            o.image[-1, -1] += 1e-9
    elif e == 'jac':
        o.jacobian = ngmix.DiagonalJacobian(row=1, col=rs.uniform(),
                                            scale=0.4)
    elif e == 'jcen':
        with o.writeable():
            o.jacobian.set_cen(row=rs.uniform(), col=0.5)
    elif e == 'meta':
        o.meta = {'q': rs.randint(2)}
    elif e == 'metadeep':
        if 'tags' not in o.meta:
            return None
        o.meta['tags'][1]['k'] += 1
    elif e == 'metaarr':
        o.meta['arr'] = np.arange(3) + rs.randint(2)
    elif e == 'plane':
        p = ('bmask', 'ormask', 'noise', 'mfrac')[rs.randint(4)]
        v = rs.randint(0, 3, size=o.image.shape)
        setattr(o, p, v.astype('i4' if 'mask' in p else 'f8'))
    elif e == 'noplane':
        p = ('bmask', 'ormask', 'noise', 'mfrac')[rs.randint(4)]
        setattr(o, p, None)
    elif e == 'psf':
        o.psf = ngmix.Observation(rs.normal(size=(3, 3)))
    elif e == 'nopsf':
        o.psf = None
    elif e == 'gmix':
        o.gmix = ngmix.GMix(pars=rs.uniform(.5, 1, size=6 * rs.randint(1, 3)))
    elif e == 'nogmix':
        o.gmix = None
    elif e == 'permute':
        w = rs.randint(4)
        if w == 0:
            o.image = o.image[::-1].copy()
        elif w == 1:
            o.image = -o.image
        elif w == 2:
            o.weight = o.weight[:, ::-1].copy()
        else:
            o.image = o.image * 2
    elif e == 'inplane':
        if inplane(o, rs) is None:
            return None
    elif e == 'jac1':
        o.jacobian = other_jac(o.jacobian, rs)
    elif e == 'gmix1':
        if not o.has_gmix():
            return None
        gm = o.gmix
        edit(gm, dict(op, gedit=['data', 'permute'][rs.randint(2)]), rs,
             spec, ctx)
        o.gmix = gm
    elif e == 'dropadd':
        # a plane goes, another takes its place with the same numbers
        have = [p for p in PLANES if getattr(o, 'has_' + p)()]
        free = [p for p in PLANES if p not in have]
        if not have or not free:
            return None
        a, b = have[rs.randint(len(have))], free[rs.randint(len(free))]
        v = getattr(o, a).copy()
        setattr(o, a, None)
        setattr(o, b, v)
    return e


def compare(ctx, x, y, what):
    same = diff(contents(x), contents(y)) is None
    a, b = x == y, y == x
    ctx.check(bool(a) == bool(b), 'equality-not-symmetric', what)
    ctx.check(bool(a) == same, 'equality-wrong',
              lambda: '%s: == gives %s but contents %s' % (
                  what, bool(a), diff(contents(x), contents(y))))
    ctx.check(bool(x != y) != bool(a), 'inequality-wrong', what)
    return same


def execute(spec, ctx):
    x = build(spec)
    kind = spec['kind']
    twin = build(spec)
    compare(ctx, x, twin, 'twin %s' % kind)
    pool = [x]
    copied = False
    for n, op in enumerate(spec['ops']):
        ctx.step()
        i = op['i'] % len(pool)
        x = pool[i]
        before = [full(p) for p in pool]
        what = op['op']
        touched = None
        if op['op'] == 'copy':
            m = [] if kind in ('gmix', 'jac') else members(x)
            if m and op['seed'] % 4 == 0:
                # while one of them is being written
                with m[op['ep'] % len(m)].writeable():
                    y = do_copy(x, op['way'])
            else:
                y = do_copy(x, op['way'])
            d = diff(before[i], full(y))
            ctx.check(d is None, 'copy-differs', '%s of %s: %s' % (
                op['way'], kind, d))
            ctx.check(y is not x, 'copy-is-source', kind)
            ctx.check(compare(ctx, x, y, 'copy of %s' % kind),
                      'copy-not-equal', kind)
            pool.append(y)
            copied = True
            if len(pool) > 5:
                pool.pop(0)
                before.pop(0)
        elif op['op'] == 'fault':
            t, y, e = inject.run_with_fault(
                lambda: do_copy(x, op['way']), op['at'], op['exc'])
            if t.fired:
                ctx.fault('%s in copy' % op['exc'])
            elif e is not None:
                raise e
        elif op['op'] == 'cmp':
            y = pool[op['j'] % len(pool)]
            same = compare(ctx, x, y, '%s pair' % kind)
            ctx.state(kind, 'cmp', same, y is x)
            ctx.count('pairs:equal' if same else 'pairs:different')
        else:
            rs = np.random.RandomState(op['seed'])
            touched = i
            what = edit(x, op, rs, spec, ctx)
            if what is None:
                touched = None
            else:
                ctx.count('edit:' + what)
                if copied:
                    ctx.count('nontrivial')
                # one difference (or none) with an unedited twin
                ctx.state(kind, 'edit', what)
        for k, (p, b) in enumerate(zip(pool, before)):
            if k == touched:
                continue
            d = diff(b, full(p))
            ctx.check(d is None, 'not-independent',
                      '%s of %s changed another object: %s' % (
                          what, kind, d))
        if touched is not None:
            for p in pool:
                if p is not x:
                    compare(ctx, x, p, '%s after %s' % (kind, what))
        ctx.log(n, op['op'], what)
