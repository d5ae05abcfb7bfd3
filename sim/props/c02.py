"""C02: observations change only through setters or an open writing block"""
import sys
import numpy as np

from .. import obsmodel, world
from ..canon import canon, diff

ID = 'C02'
RUNS = {'quick': 12000, 'thorough': 200000}
RULE = ('a run is a random history of edits, writing blocks (nested, left by '
        'exceptions), copies and pickling of one observation, with write '
        'attempts in between on arrays, mappings and mixtures obtained '
        'earlier or just now, outside any block; a full snapshot is compared '
        'around each attempt. Non-trivial: an attempt follows a block, a '
        'rejected edit, a copy or a restore')
STATE_MEASURE = 'signature (attack, target age, previous operation, refused)'
REAL = ['ngmix.observation', 'ngmix.jacobian', 'ngmix.gmix']
STUB = []
ASSUME = ['a caller does not override the read-only flag of an array by hand',
          'metadata and the point-spread observation are handed out by '
          'reference, as documented']

TARGETS = ['image', 'weight', 'bmask', 'ormask', 'noise', 'mfrac', 'pixels',
           'jacobian', 'get_jacobian', 'gmix', 'get_gmix', 'psf_gmix',
           'given']
WAYS = ['setitem', 'iadd', 'fill', 'out', 'ravel', 'T', 'put', 'copyto',
        'slice', 'sort']


def warm():
    import random
    from .. import core
    rng = random.Random(5)
    for _ in range(20):
        core.run_one(sys.modules[__name__], generate(rng, 'quick'))


def gen_attack(rng):
    return dict(op='attack', target=rng.choice(TARGETS),
                way=rng.choice(WAYS), held=rng.random() < .4,
                inblock=rng.random() < .2, nested=rng.random() < .3,
                psf=rng.random() < .2, seed=rng.randrange(1 << 20))


def generate(rng, tier):
    dims = [rng.randrange(2, 7), rng.randrange(2, 7)]
    ops = []
    for _ in range(rng.randrange(1, 7)):
        if rng.random() < .7:
            ops.append(obsmodel.gen_edit(rng))
        if rng.random() < .25:
            ops.append(dict(op='hold', seed=0))
        for _ in range(rng.choice([0, 1, 2, 3])):
            ops.append(gen_attack(rng))
    d = dict(
        dims=dims, seed=rng.randrange(1 << 30), holes=rng.random() < .3,
        store=rng.random() < .9, izw=rng.random() < .8,
        planes=[p for p in obsmodel.PLANES if rng.random() < .6],
        jac=world.jac_spec(rng) if rng.random() < .8 else None,
        psf=rng.random() < .6, gmix=rng.random() < .6, ops=ops)
    obsmodel.gen_units(rng, d)
    return d


def grab(obs, target):
    if target in obsmodel.PLANES:
        if not getattr(obs, 'has_' + target)():
            return None
        return getattr(obs, target)
    if target == 'gmix':
        return obs.gmix if obs.has_gmix() else None
    if target == 'given':
        return None
    if target == 'get_gmix':
        return obs.get_gmix() if obs.has_gmix() else None
    if target == 'psf_gmix':
        return obs.get_psf_gmix() if obs.has_psf_gmix() else None
    if target == 'get_jacobian':
        return obs.get_jacobian()
    return getattr(obs, target)


def strike(x, way, rs):
    """try to write to x"""
    import ngmix
    if isinstance(x, ngmix.Jacobian):
        if way in ('setitem', 'iadd', 'fill'):
            x.set_cen(row=99.0, col=98.0)
        elif way in ('out', 'ravel', 'T'):
            x.get_data()['dvdrow'] = 3.0
        elif way == 'slice':
            x.set_cen(x=99.0, y=97.0)
        else:
            x.get_data()[0] = 0
        return
    if isinstance(x, ngmix.GMix):
        if way in ('setitem', 'fill'):
            x.set_flux(77.0)
        elif way in ('iadd', 'out'):
            x.set_cen(5.0, 6.0)
        elif way in ('ravel', 'T'):
            x.get_data()['p'] = 9.0
        elif way == 'slice':
            x.reset()
        else:
            x.get_data()['irr'] += 1.0
        return
    val = 7
    if x.dtype.names:
        x = x[x.dtype.names[rs.randint(3)]]
    if way == 'setitem':
        x[(0,) * x.ndim] = val
    elif way == 'iadd':
        x += val
    elif way == 'fill':
        x.fill(val)
    elif way == 'out':
        np.add(x, val, out=x, casting='unsafe')
    elif way == 'ravel':
        if x.flags.c_contiguous:
            x.ravel()[0] = val
        else:
            x[...] = val
    elif way == 'T':
        x.T[...] = val
    elif way == 'put':
        np.put(x, [0], [val])
    elif way == 'copyto':
        np.copyto(x, val, casting='unsafe')
    elif way == 'slice':
        x[1:][...] = val
        x[:1][...] = val
    elif way == 'sort':
        x.sort(axis=0)


def snap(obs):
    return canon(obs)


def execute(spec, ctx):
    w = obsmodel.World(spec, ctx)
    held = []
    prev = 'start'
    special = False
    for i, op in enumerate(spec['ops']):
        if op['op'] == 'hold':
            for t in TARGETS:
                x = grab(w.obs, t)
                if x is not None:
                    held.append((t, x, w.obs))
            continue
        if op['op'] != 'attack':
            n = sum(ctx.faults.values())
            w.apply(op)
            obsmodel.verify(w.obs, w.m, ctx, 'op %d %s' % (i, op['op']))
            prev = op['op']
            special = special or prev in ('block', 'copy') \
                or sum(ctx.faults.values()) > n
            continue
        rs = np.random.RandomState(op['seed'])
        t = op['target']
        victims = [w.obs]
        if t == 'given':
            if not w.given:
                continue
            x = w.given[rs.randint(len(w.given))][1]
        elif op['held']:
            c = [h for h in held if h[0] == t]
            if not c:
                continue
            _, x, owner = c[rs.randint(len(c))]
            if owner is not w.obs:
                victims.append(owner)
        else:
            o = w.obs
            if op['psf'] and o.has_psf():
                o = o.psf
            x = grab(o, t)
            if x is None:
                continue
        before = [snap(o) for o in victims]
        err = None

        def hit():
            try:
                strike(x, op['way'], rs)
            except Exception as e:
                return e

        if op['inblock'] and w.m.can_build() and w.m.fresh and (
                op['held'] or t == 'given'):
            # the object was obtained while no block was open
            with w.obs.writeable():
                if op['nested']:
                    with w.obs.writeable():
                        pass
                err = hit()
        else:
            err = hit()
        after = [snap(o) for o in victims]
        for b, a in zip(before, after):
            d = diff(b, a)
            ctx.check(d is None, 'written-outside-block',
                      '%s by %s (after %s): %s' % (t, op['way'], prev, d))
        ctx.step()
        ctx.fault('write attempt')
        ctx.state(t, op['held'], prev, err is None, op['inblock'])
        ctx.log('attack', t, op['way'], type(err).__name__)
        if special:
            ctx.count('nontrivial')
            ctx.count('probe:attack after block/copy/reject')
    obsmodel.verify(w.obs, w.m, ctx, 'end')
