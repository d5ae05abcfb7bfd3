"""C11: measurements do not depend on what else shares the process"""
import copy

import numpy as np

from .. import pristine, zoo
from ..canon import canon, diff
from ..inject import count_statements, exc_of, run_with_fault
from ..sched import Scheduler

ID = 'C11'
RUNS = {'quick': 2400, 'thorough': 40000}
MISMATCH_IS_VIOLATION = True
TECH = ('measurements that share fitters, runners, guessers, models and '
        'inputs run one after another and as caller threads switched at '
        'statements chosen by the seed, some of them ended half way; each '
        'is compared with the same measurement alone in a fresh process '
        'state')
RULE = ('a run is a group of 2 to 6 measurements made by shared tools, in '
        'sequence or as threads under the seeded scheduler, with seeded '
        'interruptions. Non-trivial: two measurements shared a tool or an '
        'input, or two threads overlapped')
STATE_MEASURE = 'signature (mode, operations, sharing, faults, switches)'
REAL = ['ngmix (every measuring, simulating and guessing operation)',
        'galsim', 'scipy', 'threads of the caller (real threads, one running '
        'at a time)']
STUB = ['thread switching (seeded scheduler)', 'the state of a fresh process '
        '(module state put back)']
ASSUME = ['threads switch at statement boundaries of the package; switches '
          'inside compiled kernels are not made',
          'tools that hold a generator are not shared between threads']


def warm():
    zoo.warm()


def twin(rng, d):
    """another object observed in the same way: every size is the same"""
    d = copy.deepcopy(d)
    if 'bands' not in d:
        return d
    e1 = round(rng.uniform(-.3, .3), 3)
    f = rng.choice([0.5, 1.5, 3.0])
    for eps in d['bands']:
        for ep in eps:
            ep['seed'] = rng.randrange(1 << 30)
            ep['wt'] = 'flat' if ep['wt'] == 'holes' else ep['wt']
            ep['gal']['e1'] = e1
            ep['gal']['flux'] *= f
    return d


def generate(rng, tier):
    mode = rng.choice(['seq', 'seq', 'threads'])
    caches = rng.random() < 0.25
    ntool = rng.choice([1, 1, 2])
    tools = []
    for _ in range(ntool):
        while True:
            op = zoo.pick(rng)
            if caches and rng.random() < 0.8:
                op = zoo.OPS[rng.choice(['premom', 'metacal'])]
            elif rng.random() < 0.25:
                op = zoo.OPS['guess']
            if mode == 'threads' and op.name in ('gsfit', 'mboot'):
                continue
            break
        tools.append(dict(op=op.name, t=op.gen_t(rng)))
    twins = rng.random() < 0.5
    njob = rng.choice([2, 3, 3, 4, 5]) if mode == 'seq' else \
        rng.choice([2, 2, 3])
    jobs = []
    for i in range(njob):
        k = rng.randrange(ntool)
        op = zoo.OPS[tools[k]['op']]
        j = dict(tool=k, d=op.gen_d(rng, tools[k]['t']),
                 s=rng.randrange(1 << 30), same=None, kill=None)
        if op.name == 'gsfit' and rng.random() < 0.5:
            j['d']['k'] = rng.choice(['mb', 'list', 'one'])
        if twins:
            first = [x for x in jobs if x['tool'] == k]
            if first:
                j['d'] = twin(rng, first[0]['d'])
            elif 'bands' in j['d']:
                for eps in j['d']['bands']:
                    for ep in eps:
                        ep['wt'] = 'vary'
        if i and rng.random() < 0.4 and not op.stores_psf:
            c = [m for m in range(i) if jobs[m]['tool'] == k
                 and jobs[m]['same'] is None]
            if c:
                j['same'] = rng.choice(c)
                # the object is changed in place before it is measured again
                j['edit'] = mode == 'seq' and rng.random() < 0.5
        if rng.random() < (0.25 if i < njob - 1 else 0.1):
            j['kill'] = round(rng.random(), 6)
            j['exc'] = rng.choice(['MemoryError', 'KeyboardInterrupt',
                                   'GMixRangeError', 'ValueError',
                                   'LinAlgError'])
        if mode == 'seq' and rng.random() < 0.12:
            j['damage'] = zoo.damage_spec(rng)
        jobs.append(j)
    spec = dict(mode=mode, tools=tools, jobs=jobs, caches=caches)
    if mode == 'threads':
        # chunks of a few statements or of many
        big = rng.choice([3, 20, 200, 1000])
        spec['schedule'] = [
            [rng.randrange(njob), 1 + int(rng.expovariate(1.0 / big))]
            for _ in range(rng.choice([5, 20, 60]))]
    return spec


KEEP = ('tools', 'jobs')


def shrink(spec):
    n = len(spec['jobs'])
    if n > 2:
        for i in range(n):
            jobs = []
            for k, j in enumerate(spec['jobs']):
                if k == i:
                    continue
                j = dict(j)
                if j['same'] == i:
                    j['same'] = None
                    j['d'] = spec['jobs'][i]['d']
                elif j['same'] is not None and j['same'] > i:
                    j['same'] -= 1
                jobs.append(j)
            s = dict(spec, jobs=jobs)
            if 'schedule' in s:
                s['schedule'] = [[a - (a > i), b] for a, b in s['schedule']
                                 if a != i]
            yield s
    for i, j in enumerate(spec['jobs']):
        for k, v in (('kill', None), ('same', None)):
            if j.get(k) is not None:
                jobs = [dict(x) for x in spec['jobs']]
                jobs[i][k] = v
                yield dict(spec, jobs=jobs)
    if spec['caches']:
        yield dict(spec, caches=False)


def edit(inp):
    if 'obs' in inp:
        for o in zoo.epochs_of(inp['obs']):
            with o.writeable():
                o.image *= 1.25
                o.weight *= 0.64


def inputs(spec, i):
    """what measurement i is given, made new"""
    k = data_of(spec, i)
    inp = fresh(spec, k)
    if k != i:
        for j in spec['jobs'][k + 1:i + 1]:
            if j['same'] == k and j.get('edit'):
                edit(inp)
    return inp


def fresh(spec, i):
    j = spec['jobs'][i]
    t = spec['tools'][j['tool']]
    op = zoo.OPS[t['op']]
    inp = op.inputs(j['d'], t['t'])
    if j.get('damage') and 'obs' in inp:
        zoo.apply_damage(inp['obs'], j['damage'])
    return inp


def data_of(spec, i):
    j = spec['jobs'][i]
    return i if j['same'] is None else j['same']


def attempt(op, tool, inp, rng, t):
    """the result and its canonical form, or how it failed"""
    try:
        res = op.call(tool, inp, rng, t)
    except Exception as e:
        if type(e).__module__.startswith('ngmix'):
            return None, ('raised', type(e).__name__)
        return None, ('raised', type(e).__name__, str(e)[:60])
    return res, op.out(res)


def set_caches(on):
    from ngmix import prepsfmom
    from ngmix.metacal import metacal
    if on:
        prepsfmom.turn_on_fft_caching()
        prepsfmom.turn_on_kernel_caching()
        metacal.turn_on_galsim_caching()


def execute(spec, ctx):
    tools, jobs = spec['tools'], spec['jobs']
    n = len(jobs)
    # alone, as in a process of its own
    alone, lengths = [], []
    for i, j in enumerate(jobs):
        pristine.restore()
        if spec['caches']:
            set_caches(True)
        t = tools[j['tool']]
        op = zoo.OPS[t['op']]
        rng = np.random.RandomState(3)
        tool = op.tool(t['t'], rng, op.ctor(t['t']))
        rng.set_state(np.random.RandomState(j['s']).get_state())
        inp = inputs(spec, i)
        alone.append(attempt(op, tool, inp, rng, t['t'])[1])
        if j['kill'] is not None:
            pristine.restore()
            rng.set_state(np.random.RandomState(j['s']).get_state())
            inp = inputs(spec, i)
            lengths.append(count_statements(
                lambda: attempt(op, tool, inp, rng, t['t']))[0])
        else:
            lengths.append(None)
    pristine.restore()
    if spec['caches']:
        set_caches(True)
    inps = {}
    for i, j in enumerate(jobs):
        if j['same'] is None:
            inps[i] = fresh(spec, i)
    names = [tools[j['tool']]['op'] for j in jobs]
    shared = len(set(j['tool'] for j in jobs)) < n
    ctx.count('mode-' + spec['mode'])
    for a in set(names):
        ctx.count('op-' + a)
    if spec['mode'] == 'seq':
        if shared:
            ctx.count('nontrivial')
        run_seq(spec, ctx, names, inps, alone, lengths)
    else:
        run_threads(spec, ctx, names, inps, alone, lengths)


def what(spec, names, i):
    j = spec['jobs'][i]
    return 'measurement %d of %s%s' % (
        i, names, ' (%s)' % spec['mode'])


def products(res):
    """arrays handed out by a result"""
    out = []
    for r in res if isinstance(res, (list, tuple)) else [res]:
        if not (hasattr(r, 'calc_fdiff') and r.get('flags') == 0):
            continue
        try:
            out.append(r.calc_fdiff(np.array(r['pars'])))
            out.append(r.make_image())
        except Exception:
            pass
    return out


def held_check(spec, ctx, names, held):
    for k, (op, r, form, made, mform) in held.items():
        d = diff(form, op.out(r)) or diff(mform, canon(made))
        ctx.check(d is None, 'result-changed', lambda: 'the result of %s was '
                  'changed by later work: %s' % (what(spec, names, k), d))


def run_seq(spec, ctx, names, inps, alone, lengths):
    tools, jobs = spec['tools'], spec['jobs']
    made = []
    for t in tools:
        op = zoo.OPS[t['op']]
        rng = np.random.RandomState(3)
        made.append((op, op.tool(t['t'], rng, op.ctor(t['t'])), rng))
    held = {}
    for i, j in enumerate(jobs):
        op, tool, rng = made[j['tool']]
        t = tools[j['tool']]['t']
        rng.set_state(np.random.RandomState(j['s']).get_state())
        inp = inps[data_of(spec, i)]
        if j.get('edit'):
            edit(inp)
            # some results give images from the data they were made with
            for k in list(held):
                if data_of(spec, k) == data_of(spec, i):
                    del held[k]
        if j['kill'] is not None:
            at = 1 + int(j['kill'] * max(1, lengths[i]))
            tr, _, exc = run_with_fault(
                lambda: op.call(tool, inp, rng, t), at, j['exc'])
            if tr.fired:
                ctx.fault(j['exc'])
            ctx.log(i, 'killed', tr.where, type(exc).__name__)
            continue
        res, got = attempt(op, tool, inp, rng, t)
        ctx.step()
        d = diff(alone[i], got)
        ctx.check(d is None, 'crosstalk', lambda: '%s gives another result '
                  'than alone: %s' % (what(spec, names, i), d))
        ctx.log(i, names[i], got[:2] if got[0] == 'raised' else 'ok',
                rng.get_state()[2])
        held_check(spec, ctx, names, held)
        if res is not None:
            made_ = products(res)
            held[i] = (op, res, got, made_, canon(made_))
    held_check(spec, ctx, names, held)
    ctx.state('seq', tuple(names), tuple(
        (j['tool'], j['same'], j['kill'] is not None) for j in jobs))


def run_threads(spec, ctx, names, inps, alone, lengths):
    tools, jobs = spec['tools'], spec['jobs']
    common = {}
    fns, kills, args = [], {}, []
    for i, j in enumerate(jobs):
        t = tools[j['tool']]
        op = zoo.OPS[t['op']]
        rng = np.random.RandomState(3)
        tool = op.tool(t['t'], rng, op.ctor(t['t']))
        if not op.tool_rng:
            tool = common.setdefault(j['tool'], tool)
        rng.set_state(np.random.RandomState(j['s']).get_state())
        inp = inps[data_of(spec, i)]

        def fn(op=op, tool=tool, inp=inp, rng=rng, t=t['t']):
            try:
                return (op.call(tool, inp, rng, t), None)
            except Exception as e:
                return (None, e)
        fns.append(fn)
        args.append(op)
        if j['kill'] is not None:
            kills[i] = (1 + int(j['kill'] * max(1, lengths[i])),
                        exc_of(j['exc']))
    s = Scheduler(fns, spec['schedule'], kills)
    done = s.run()
    if s.overlapped:
        ctx.count('nontrivial')
    ctx.fault('thread-switch', s.switches)
    for i, (t, j) in enumerate(zip(done, jobs)):
        op = args[i]
        ctx.step()
        if t.killed:
            ctx.fault(j['exc'])
            ctx.log(i, 'killed', t.nlines)
            continue
        if t.error is not None:
            raise t.error
        res, exc = t.result
        if exc is None:
            got = op.out(res)
        elif type(exc).__module__.startswith('ngmix'):
            got = ('raised', type(exc).__name__)
        else:
            got = ('raised', type(exc).__name__, str(exc)[:60])
        d = diff(alone[i], got)
        ctx.check(d is None, 'crosstalk', lambda: '%s gives another result '
                  'than alone: %s' % (what(spec, names, i), d))
        ctx.log(i, names[i], got[:2] if got[0] == 'raised' else 'ok',
                t.nlines)
    ctx.interleaving(tuple(s.order))
    ctx.state('threads', tuple(names), tuple(s.order[:12]))
