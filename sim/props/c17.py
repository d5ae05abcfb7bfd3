"""C17: checkpoint, crash and restart"""
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import pristine, samplers, world, zoo
from ..canon import canon, canon_gmix, canon_jac, canon_obs, diff
from ..core import REPO
from ..inject import count_statements, run_with_fault

ID = 'C17'
RUNS = {'quick': 2200, 'thorough': 40000}
MISMATCH_IS_VIOLATION = True
TECH = ('a simulated pipeline measures a list of objects, saving its whole '
        'state to a simulated disk; it is killed at statements chosen by the '
        'seed, checkpoints are torn or lost, and it is restarted from the '
        'last durable one in a fresh process state or on other workers; the '
        'catalogue must be that of the uninterrupted run')
RULE = ('a run is a pipeline of 2-5 objects with 1-2 shared tools and up to '
        'four lives, or one saved and restored object used on. Non-trivial: '
        'at least one restart from a checkpoint or restored object compared')
STATE_MEASURE = 'signature (mode, operations, lives, kills, checkpoints)'
REAL = ['ngmix (every measuring, simulating and guessing operation)',
        'galsim', 'scipy', 'pickle']
STUB = ['disk (bytes in memory, torn and lost writes)', 'process restart '
        '(module state of a fresh process; some runs use a real new '
        'process)']
ASSUME = ['the kernel density prior, which scipy makes unpicklable, is left '
          'out',
          'the pipeline renames a complete checkpoint into place, so a torn '
          'write leaves the previous one']
TIME_UNIT = 'measurements'

THINGS = ('obs', 'list', 'mb', 'gmix', 'model', 'jac', 'shape', 'prior',
          'prior', 'prior', 'guesser', 'kobs', 'gmixnd')


def warm():
    zoo.warm()


def can_save():
    # scipy's density estimator cannot be pickled
    return [n for n in samplers.names() if n != 'kde']


def generate(rng, tier):
    x = rng.random()
    if x < 0.3:
        return dict(mode='thing', k=rng.choice(THINGS),
                    s=rng.randrange(1 << 31), proto=rng.choice([2, 4, 5]),
                    p=samplers.gen(rng, only=can_save()), n1=rng.choice([0, 1, 3]),
                    used=rng.random() < 0.6, d=zoo.data_spec(rng),
                    model=rng.choice(['gauss', 'exp', 'dev', 'turb', 'bdf',
                                      'coellip']),
                    pre=[rng.randrange(5) for _ in range(rng.randrange(4))],
                    post=[rng.randrange(5) for _ in range(rng.randrange(4))])
    if x < 0.305:
        return dict(mode='fresh', s=rng.randrange(1 << 31),
                    ps=[samplers.gen(rng, only=can_save())
                        for _ in range(6)],
                    d=zoo.data_spec(rng), hs=rng.randrange(1000))
    mode = 'workers' if x > 0.75 else 'seq'
    ntool = rng.choice([1, 1, 2])
    tools = []
    for _ in range(ntool):
        op = zoo.pick(rng)
        tools.append(dict(op=op.name, t=op.gen_t(rng)))
    n = rng.choice([2, 3, 3, 4, 5])
    jobs = []
    for i in range(n):
        k = rng.randrange(ntool)
        op = zoo.OPS[tools[k]['op']]
        j = dict(tool=k, d=op.gen_d(rng, tools[k]['t']),
                 s=rng.randrange(1 << 30), same=None)
        if mode == 'seq' and i and rng.random() < 0.25 and \
                not op.stores_psf:
            c = [m for m in range(i) if jobs[m]['tool'] == k
                 and jobs[m]['same'] is None]
            if c:
                j['same'] = rng.choice(c)
        jobs.append(j)
    spec = dict(mode=mode, tools=tools, jobs=jobs, s=rng.randrange(1 << 30),
                proto=rng.choice([2, 4, 5]), caches=rng.random() < 0.15)
    if mode == 'seq':
        spec['lives'] = [dict(after=rng.randrange(n), f=round(rng.random(), 6))
                         for _ in range(rng.choice([1, 1, 2, 3]))]
        spec['ckpt'] = [rng.choice(['ok', 'ok', 'ok', 'none', 'torn',
                                    'lost']) for _ in range(8)]
    else:
        nw = rng.choice([1, 2, 3])
        spec['work'] = [[rng.randrange(n) for _ in range(rng.randrange(
            1, n + 1))] for _ in range(nw)]
        spec['kills'] = [round(rng.random(), 6) if rng.random() < 0.4 else
                         None for _ in range(nw)]
    return spec


KEEP = ('tools', 'jobs', 'ckpt', 'ps')


def shrink(spec):
    if spec['mode'] not in ('seq', 'workers'):
        return
    n = len(spec['jobs'])
    if n > 1:
        for i in range(n):
            if any(j['same'] == i for j in spec['jobs']):
                continue
            jobs = []
            for k, j in enumerate(spec['jobs']):
                if k != i:
                    j = dict(j)
                    if j['same'] is not None and j['same'] > i:
                        j['same'] -= 1
                    jobs.append(j)
            s = dict(spec, jobs=jobs)
            if 'work' in s:
                s['work'] = [[a - (a > i) for a in w if a != i] or [0]
                             for w in s['work']]
            yield s
    if spec['caches']:
        yield dict(spec, caches=False)


# ---------------------------------------------------------------------------

def start(spec):
    """the state of the pipeline before the first object"""
    rng = np.random.RandomState(spec['s'])
    tools = []
    for t in spec['tools']:
        op = zoo.OPS[t['op']]
        tools.append(op.tool(t['t'], rng, op.ctor(t['t'])))
    data = {}
    for i, j in enumerate(spec['jobs']):
        if j['same'] is None:
            t = spec['tools'][j['tool']]
            data[i] = zoo.OPS[t['op']].inputs(j['d'], t['t'])
    return dict(rng=rng, tools=tools, data=data, results=[], next=0)


def fresh_process(spec):
    pristine.restore()
    if spec['caches']:
        from ngmix import prepsfmom
        from ngmix.metacal import metacal
        prepsfmom.turn_on_fft_caching()
        prepsfmom.turn_on_kernel_caching()
        metacal.turn_on_galsim_caching()


def measure(spec, st, i):
    """(result, None) or (None, how it failed)"""
    j = spec['jobs'][i]
    t = spec['tools'][j['tool']]
    op = zoo.OPS[t['op']]
    inp = st['data'][i if j['same'] is None else j['same']]
    try:
        return op.call(st['tools'][j['tool']], inp, st['rng'], t['t']), None
    except Exception as e:
        if type(e).__module__.startswith('ngmix'):
            return None, ('raised', type(e).__name__)
        return None, ('raised', type(e).__name__, str(e)[:60])


def form(spec, i, r):
    if r[1] is not None:
        return r[1]
    t = spec['tools'][spec['jobs'][i]['tool']]
    return zoo.OPS[t['op']].out(r[0])


def reseed(st, j):
    st['rng'].set_state(np.random.RandomState(j['s']).get_state())


def reference(spec):
    """the catalogue of the uninterrupted run, and its lengths"""
    fresh_process(spec)
    st = start(spec)
    cat = []
    for i, j in enumerate(spec['jobs']):
        if spec['mode'] == 'workers':
            reseed(st, j)
        cat.append(measure(spec, st, i))
    # compared at the end, as the restarted one is
    return [form(spec, i, r) for i, r in enumerate(cat)]


def lengths(spec, want):
    out = {}
    fresh_process(spec)
    st = start(spec)
    for i, j in enumerate(spec['jobs']):
        if spec['mode'] == 'workers':
            reseed(st, j)
        if i in want:
            out[i] = count_statements(lambda: measure(spec, st, i))[0]
        else:
            measure(spec, st, i)
    return out


def execute(spec, ctx):
    if spec['mode'] == 'thing':
        return run_thing(spec, ctx)
    if spec['mode'] == 'fresh':
        return run_fresh(spec, ctx)
    ref = reference(spec)
    names = [spec['tools'][j['tool']]['op'] for j in spec['jobs']]
    for n in set(names):
        ctx.count('op-' + n)
    ctx.count('mode-' + spec['mode'])
    ctx.count('nontrivial')
    if spec['mode'] == 'seq':
        run_seq(spec, ctx, ref, names)
    else:
        run_workers(spec, ctx, ref, names)
    pristine.restore()


def run_seq(spec, ctx, ref, names):
    n = len(ref)
    disk = [pickle.dumps(start(spec), protocol=spec['proto'])]
    nck = 0
    lens = lengths(spec, set(range(n)))
    life = 0
    while True:
        fresh_process(spec)
        st = pickle.loads(disk[-1])
        kill = spec['lives'][life] if life < len(spec['lives']) else None
        ctx.log('life', life, 'from', st['next'])
        done = 0
        dead = False
        while st['next'] < n:
            i = st['next']
            if kill is not None and done >= kill['after']:
                at = 1 + int(kill['f'] * lens[i])
                tr, _, exc = run_with_fault(
                    lambda: measure(spec, st, i), at, 'Interrupt')
                ctx.fault('kill')
                ctx.log('killed in', i, tr.where, st['rng'].get_state()[2])
                dead = True
                break
            st['results'].append(measure(spec, st, i))
            st['next'] += 1
            done += 1
            ctx.step()
            ck = spec['ckpt'][nck % len(spec['ckpt'])]
            nck += 1
            if ck == 'none':
                continue
            data = pickle.dumps(st, protocol=spec['proto'])
            ctx.log('checkpoint', ck, st['next'])
            if ck == 'ok':
                disk.append(data)
            else:
                ctx.fault('write-' + ck)
        if not dead:
            break
        life += 1
    cat = [form(spec, i, r) for i, r in enumerate(st['results'])]
    compare(spec, ctx, ref, cat, names, 'after %d restarts' % life)
    # and once more from the last durable checkpoint of all
    if len(disk) > 1:
        fresh_process(spec)
        st = pickle.loads(disk[-1])
        cat = [form(spec, i, r) for i, r in enumerate(st['results'])]
        compare(spec, ctx, ref[:len(cat)], cat, names, 'as saved')
    ctx.state('seq', tuple(names), life, len(disk))


def compare(spec, ctx, ref, cat, names, what):
    ctx.check(len(ref) == len(cat), 'catalogue', lambda: '%d of %d objects '
              '%s' % (len(cat), len(ref), what))
    for i, (a, b) in enumerate(zip(ref, cat)):
        d = diff(a, b)
        ctx.check(d is None, 'catalogue', lambda: 'object %d of %s, %s: %s' % (
            i, names, what, d))
        ctx.log(i, names[i], a[:2] if a[0] == 'raised' else 'ok')


def run_workers(spec, ctx, ref, names):
    n = len(ref)
    saved = pickle.dumps(start(spec), protocol=spec['proto'])
    todo = set(range(n))
    lens = lengths(spec, set(range(n))) if any(
        k is not None for k in spec['kills']) else {}
    got = {}
    work = [list(w) for w in spec['work']]
    kills = list(spec['kills'])
    while work or todo:
        if not work:
            # a last worker does what is left, last object first
            work.append(sorted(todo, reverse=True))
            kills.append(None)
        jobs, kill = work.pop(0), kills.pop(0)
        fresh_process(spec)
        st = pickle.loads(saved)
        for k, i in enumerate(jobs):
            reseed(st, spec['jobs'][i])
            if kill is not None and k == len(jobs) - 1:
                tr, _, exc = run_with_fault(
                    lambda: measure(spec, st, i), 1 + int(kill * lens[i]),
                    'Interrupt')
                ctx.fault('kill')
                ctx.log('worker killed in', i, tr.where)
                break
            # each worker measures its own copy once
            if k and i in jobs[:k]:
                continue
            r = measure(spec, st, i)
            f = form(spec, i, r)
            back = pickle.loads(pickle.dumps(r, protocol=spec['proto']))
            fb = form(spec, i, back)
            d = diff(f, fb)
            ctx.check(d is None, 'result-saved', lambda: 'the result of '
                      'object %d of %s is another one after it was saved: %s'
                      % (i, names, d))
            d = diff(ref[i], fb)
            ctx.check(d is None, 'catalogue', lambda: 'object %d of %s on a '
                      'worker given %s: %s' % (i, names, jobs, d))
            got[i] = True
            todo.discard(i)
            ctx.step()
            ctx.log(i, names[i], f[:2] if f[0] == 'raised' else 'ok')
    ctx.check(len(got) == n, 'catalogue', 'objects missing')
    ctx.state('workers', tuple(names), tuple(map(tuple, spec['work'])))


# ---------------------------------------------------------------------------
# single objects

def again(x, spec):
    b = pickle.dumps(x, protocol=spec['proto'])
    pristine.restore()
    return pickle.loads(b)


def frozen(ctx, o, what):
    for o in zoo.epochs_of(o):
        for n in ('image', 'weight', 'noise', 'mfrac', 'bmask', 'ormask'):
            if n in ('image', 'weight') or getattr(o, 'has_' + n)():
                ctx.check(not getattr(o, n).flags.writeable, 'writeable',
                          lambda: '%s: %s of a restored observation can be '
                          'written to' % (what, n))


def run_thing(spec, ctx):
    k = spec['k']
    ctx.count('nontrivial')
    ctx.count('thing-' + k)
    what = 'restored %s' % k
    ctx.state('thing', k, tuple(spec['pre']), tuple(spec['post']),
              spec['p']['k'] if k == 'prior' else spec['model'])
    f = globals()['thing_' + {'list': 'obs', 'mb': 'obs', 'model': 'gmix',
                              'gmixnd': 'prior'}.get(k, k)]
    f(spec, ctx, what)
    ctx.step()
    ctx.log(k)


def thing_obs(spec, ctx, what):
    import ngmix
    o = zoo.make_data(spec['d'])
    if spec['k'] == 'mb':
        o = ngmix.observation.get_mb_obs(o)
    if isinstance(o, list):
        o.meta['kept'] = [1, np.arange(3)]
    r = again(o, spec)
    c = canon_any(o)
    d = diff(c, canon_any(r))
    ctx.check(d is None, 'not-equal', lambda: '%s: %s' % (what, d))
    ctx.check(o == r and r == o, 'not-equal', lambda: '%s by ==' % what)
    frozen(ctx, r, what)
    for a, b in zip(zoo.epochs_of(o), zoo.epochs_of(r)):
        for x in (a, b):
            with x.writeable():
                x.image *= 2
                x.weight[0, 0] = 0.0
    d = diff(canon_any(o), canon_any(r))
    ctx.check(d is None, 'not-equal', lambda: '%s, edited: %s' % (what, d))
    ctx.check(o.get_s2n() == r.get_s2n(), 'not-equal', lambda: what)
    o2 = again(r, spec)
    d = diff(canon_any(o), canon_any(o2))
    ctx.check(d is None, 'not-equal', lambda: '%s twice: %s' % (what, d))
    frozen(ctx, o2, what)


def canon_any(o):
    if isinstance(o, list):
        return (type(o).__name__, canon(o.meta)) + tuple(
            canon_any(x) for x in o)
    return canon_obs(o)


def gm_do(g, n, m):
    """one step of a history of a mixture"""
    import ngmix
    if n == 0:
        g.set_flux(3.0 + m)
    elif n == 1:
        g.set_cen(0.1 * m, -0.2)
    elif n == 2:
        return g.get_e1e2T()
    elif n == 3:
        if m % 2 and g.get_e1e2T()[2] > 0:
            g.set_norms()
    else:
        j = ngmix.DiagonalJacobian(row=3, col=3, scale=0.4)
        return g.make_image([7, 7], jacobian=j)


def thing_gmix(spec, ctx, what):
    import ngmix
    rs = np.random.RandomState(spec['s'])
    g = [rs.uniform(-.3, .3), rs.uniform(-.3, .3)]
    if spec['k'] == 'gmix':
        n = 1 + spec['n1']
        pars = []
        for i in range(n):
            pars += [rs.uniform(0.1, 2), 0.1 * i, -0.1, 1.0 + i, 0.1,
                     0.8 + i]
        gm = ngmix.GMix(pars=pars)
    elif spec['model'] == 'coellip':
        gm = ngmix.GMixCoellip([0.1, 0.2] + g + [1.0, 2.0, 0.4, 0.6])
    else:
        pars = [0.1, 0.2] + g + [1.5]
        if spec['model'] == 'bdf':
            pars += [0.4]
        gm = ngmix.GMixModel(pars + [2.0], spec['model'])
    for m, n in enumerate(spec['pre']):
        gm_do(gm, n, m)
    r = again(gm, spec)
    for m, n in enumerate([None] + spec['post'] + [2, 4]):
        a = b = 0
        if n is not None:
            a, b = gm_do(gm, n, m), gm_do(r, n, m)
        ctx.check(type(gm) is type(r), 'not-equal', lambda: what)
        d = diff(canon_gmix(gm), canon_gmix(r)) or diff(canon(a), canon(b))
        ctx.check(d is None, 'not-equal', lambda: '%s after %s: %s' % (
            what, spec['post'][:m], d))
        ctx.check(gm == r, 'not-equal', lambda: '%s by ==' % what)
        d = diff(canon([gm.get_cen(), gm.get_flux(), gm.get_e1e2T()]),
                 canon([r.get_cen(), r.get_flux(), r.get_e1e2T()]))
        ctx.check(d is None, 'not-equal', lambda: '%s: %s' % (what, d))
    d = diff(canon_gmix(gm.copy()), canon_gmix(r.copy()))
    ctx.check(d is None, 'not-equal', lambda: '%s copied: %s' % (what, d))
    d = diff(canon_gmix(gm.make_round()), canon_gmix(r.make_round()))
    ctx.check(d is None, 'not-equal', lambda: '%s made round: %s' % (what, d))


def thing_jac(spec, ctx, what):
    import random
    j = world.make_jac(world.jac_spec(random.Random(spec['s'])), [9, 9])
    r = again(j, spec)
    for n in range(2):
        d = diff(canon_jac(j), canon_jac(r))
        ctx.check(d is None and j == r, 'not-equal', lambda: '%s: %s' % (
            what, d))
        ctx.check(j.get_vu(1.5, 2.0) == r.get_vu(1.5, 2.0) and
                  j.get_rowcol(.5, .1) == r.get_rowcol(.5, .1) and
                  j.area == r.area, 'not-equal', lambda: what)
        j.set_cen(row=1.0, col=2.5)
        r.set_cen(row=1.0, col=2.5)


def thing_shape(spec, ctx, what):
    import ngmix
    s = ngmix.Shape(0.1 * spec['n1'], 0.2)
    r = again(s, spec)
    ctx.check((s.g1, s.g2) == (r.g1, r.g2), 'not-equal', lambda: what)
    a, b = s.get_sheared(0.1, 0.05), r.get_sheared(0.1, 0.05)
    ctx.check((a.g1, a.g2) == (b.g1, b.g2), 'not-equal', lambda: what)


def thing_prior(spec, ctx, what):
    p = dict(spec['p'])
    if spec['k'] == 'gmixnd' and 'gmixnd' in samplers.names():
        import random
        p = samplers.gen(random.Random(spec['s']), only=['gmixnd'])
    rng = np.random.RandomState(spec['s'])
    obj = samplers.make(p, rng)
    what += ' %s' % p['k']
    if spec['used']:
        samplers.draw(p, obj)
    # the generator goes with it
    r, rrng = again((obj, rng), spec)
    for n in range(3):
        a, b = samplers.draw(p, obj), samplers.draw(p, r)
        d = diff(canon(a), canon(b))
        ctx.check(d is None, 'not-equal', lambda: '%s, draw %d of %s: %s' % (
            what, n, p['m'], d))
    a, b = rng.uniform(), rrng.uniform()
    ctx.check(a == b, 'not-equal', lambda: '%s has a generator of its own' %
              what)
    k = samplers.KINDS[p['k']]
    if k.ndim != 1 or p['k'] in ('joint', 'gba', 'zdisk'):
        return
    v = samplers.draw(dict(p, n=None), obj)
    samplers.draw(dict(p, n=None), r)
    for m in ('get_lnprob_scalar', 'get_prob_array', 'get_fdiff',
              'get_lnprob_array'):
        if not hasattr(obj, m):
            continue
        if p['k'] == 'gmixnd':
            if m == 'get_fdiff':
                continue
            x = np.array(v, ndmin=1)
            if m.endswith('array'):
                x = x.reshape(1, -1)
        else:
            x = np.array([v]) if m.endswith('array') else v
        out = []
        for o in (obj, r):
            try:
                out.append(canon(getattr(o, m)(x)))
            except Exception as e:
                out.append(type(e).__name__)
        d = diff(out[0], out[1])
        ctx.check(d is None, 'not-equal', lambda: '%s, %s: %s' % (
            what, m, d))


def thing_guesser(spec, ctx, what):
    import random
    op = zoo.OPS['guess']
    rr = random.Random(spec['s'])
    t = op.gen_t(rr)
    d = op.gen_d(rr, t)
    rng = np.random.RandomState(3)
    tool = op.tool(t, rng, op.ctor(t))
    inp = op.inputs(d, t)
    if spec['used']:
        op.call(tool, inp, rng, t)
    rtool, rinp, rrng = again((tool, inp, rng), spec)
    for n in range(2):
        a = op.out(op.call(tool, inp, rng, t))
        b = op.out(op.call(rtool, rinp, rrng, t))
        x = diff(a, b)
        ctx.check(x is None, 'not-equal', lambda: '%s %s: %s' % (
            what, t, x))


def thing_kobs(spec, ctx, what):
    import random
    op = zoo.OPS['kobs']
    rr = random.Random(spec['s'])
    t = op.gen_t(rr)
    d = op.gen_d(rr, t)
    k = op.call(None, op.inputs(d, t), None, t)
    r = again(k, spec)
    x = diff(op.out(k), op.out(r))
    ctx.check(x is None, 'not-equal', lambda: '%s: %s' % (what, x))


# ---------------------------------------------------------------------------
# a real new process

CHILD = '''
import sys, pickle
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
from sim.props import c17
sys.stdout.buffer.write(pickle.dumps(c17.go_on(pickle.loads(
    sys.stdin.buffer.read()))))
'''


def go_on(st):
    """what is done with the saved state, here or there"""
    out = []
    for p, o in st['priors']:
        for n in range(2):
            out.append(canon(samplers.draw(p, o)))
    out.append(canon_any(st['obs']))
    out.append(canon(st['obs'].get_s2n_sums()))
    out.append(canon(st['rng'].uniform(size=3)))
    return out


def run_fresh(spec, ctx):
    rng = np.random.RandomState(spec['s'])
    st = dict(rng=rng, priors=[
        (p, samplers.make(p, rng)) for p in spec['ps']],
        obs=zoo.make_data(spec['d']))
    go_on(st)
    data = pickle.dumps(st)
    env = dict(os.environ, PYTHONHASHSEED=str(spec['hs']),
               PYTHONDONTWRITEBYTECODE='1')
    here = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    r = subprocess.run([sys.executable, '-c', CHILD, REPO, here],
                       input=data, capture_output=True, env=env, timeout=300)
    if r.returncode != 0:
        ctx.fail('new-process', r.stderr.decode()[-300:])
    d = diff(go_on(st), pickle.loads(r.stdout))
    ctx.check(d is None, 'new-process', lambda: 'a state used on in a new '
              'process gives another result: %s' % d)
    ctx.fault('new-process')
    ctx.count('nontrivial')
    ctx.count('mode-fresh')
    ctx.step()
    ctx.log('fresh')
