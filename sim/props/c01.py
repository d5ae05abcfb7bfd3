"""C01: all views of an observation describe the same current data"""
from .. import obsmodel, world

ID = 'C01'
RUNS = {'quick': 12000, 'thorough': 200000}
RULE = ('a run is a random history of 1-10 edits of one observation (setters '
        'with valid and invalid arguments, writing blocks with in-place '
        'edits, nesting and exceptions, option switches, copies, pickling); '
        'all public views are compared with a reference model after each. '
        'Non-trivial: at least one edit was rejected, interrupted or made in '
        'a block')
STATE_MEASURE = ('signature (options, planes present, psf/mixture presence, '
                 'fresh/dead pixel list, last operation)')
REAL = ['ngmix.observation', 'ngmix.pixels', 'ngmix.jacobian', 'ngmix.gmix']
STUB = []
ASSUME = ['arrays handed to the observation are not edited by their owner '
          'afterwards (the package documents no copy)',
          'an update explicitly declined with update_pixels=False leaves the '
          'pixel list old until the next update']


def warm():
    import random
    from .. import core
    rng = random.Random(5)
    for _ in range(20):
        core.run_one(__import__('sys').modules[__name__],
                     generate(rng, 'quick'))


def generate(rng, tier):
    dims = [rng.randrange(1, 9), rng.randrange(1, 9)]
    n = rng.randrange(1, 11)
    d = dict(
        dims=dims, seed=rng.randrange(1 << 30), holes=rng.random() < .4,
        store=rng.random() < .85, izw=rng.random() < .75,
        planes=[p for p in obsmodel.PLANES if rng.random() < .4],
        jac=world.jac_spec(rng) if rng.random() < .8 else None,
        psf=rng.random() < .5, gmix=rng.random() < .4,
        ops=[obsmodel.gen_edit(rng) for _ in range(n)])
    obsmodel.gen_units(rng, d)
    return d


def execute(spec, ctx):
    w = obsmodel.World(spec, ctx)
    obsmodel.verify(w.obs, w.m, ctx, 'construction')
    for i, op in enumerate(spec['ops']):
        w.apply(op)
        obsmodel.verify(w.obs, w.m, ctx, 'op %d %s' % (i, op['op']))
        m = w.m
        ctx.state(m.store, m.izw, tuple(sorted(m.planes)), m.psf is None,
                  m.gmix is None, m.fresh, m.dead, op['op'])
        ctx.log(i, op['op'], 0 if w.obs.pixels is None else w.obs.pixels.size)
    if any(o['op'] == 'block' for o in spec['ops']) or ctx.faults:
        ctx.count('nontrivial')
