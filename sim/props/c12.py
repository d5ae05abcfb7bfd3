"""C12: switching caches on, off or clearing them never changes a value"""
import numpy as np

from .. import pristine, world, zoo
from ..canon import canon, diff
from ..inject import count_statements, exc_of, run_with_fault
from ..sched import Scheduler

ID = 'C12'
RUNS = {'quick': 1500, 'thorough': 40000}
MISMATCH_IS_VIOLATION = True
TECH = ('seeded histories of measurements, edits in place, cache switches, '
        'evictions, interruptions and caller threads; every value is '
        'compared with that of the same history with no caching')
RULE = ('a run is a history of 4 to 25 steps over a few objects that differ '
        'little from one another. Non-trivial: a cache held an entry when a '
        'measurement was made')
STATE_MEASURE = ('signature (steps since the last switch, switches, cache '
                 'hits)')
REAL = ['ngmix.prepsfmom', 'ngmix.metacal', 'galsim']
STUB = ['thread switching (seeded scheduler)']
ASSUME = ['values are compared exactly: a cache holds what would be computed']


def warm():
    import random
    r = random.Random(5)
    for name in ('premom', 'metacal'):
        for _ in range(4):
            op = zoo.OPS[name]
            try:
                op.out(zoo.run_op(op.gen(r))[2])
            except Exception:
                pass


# how the objects differ from the first
LIKE = ['copy', 'ulp', 'swap', 'roll', 'transpose', 'flip', 'scaled',
        'center', 'wcs', 'wcsrot', 'weight', 'psf', 'psfulp', 'pcenter',
        'same-psf', 'psf-as-image', 'sum', 'negzero', 'bigger', 'holes']
CACHES = ['fft', 'kernel', 'galsim']


def generate(rng, tier):
    op = zoo.OPS['premom']
    base = op.gen_d(rng, {})
    base['bands'][0][0]['planes'] = []
    nobj = rng.choice([2, 3, 4])
    objs = [dict(like=rng.choice(LIKE), a=rng.randrange(1000),
                 b=rng.randrange(1000)) for _ in range(nobj - 1)]
    # a few fixed configurations and neighbours of them
    s = zoo.scale_of(base)
    confs = []
    for _ in range(rng.choice([1, 2, 3])):
        c = dict(kind=rng.choice(['ksigma', 'pgauss']),
                 fwhm=rng.choice([4, 6, 8, 12]) * s, pad=rng.choice([2, 4]),
                 ap=rng.choice([0, 1.5, 1.5, 3]), sm=rng.choice([0, 0, 2 * s]))
        confs.append(c)
        if rng.random() < 0.6:
            d = dict(c)
            k = rng.choice(['kind', 'fwhm', 'pad', 'ap', 'sm'])
            d[k] = {'kind': 'pgauss' if c['kind'] == 'ksigma' else 'ksigma',
                    'fwhm': c['fwhm'] * 1.0001, 'pad': 3,
                    'ap': c['ap'] + 0.25, 'sm': c['sm'] + 0.5 * s}[k]
            confs.append(d)
    steps = []
    for c in CACHES:
        if rng.random() < 0.75:
            steps.append(dict(op='on', c=c))
    w = [rng.choice([1, 5, 20]), rng.choice([0, 1, 4]),
         rng.choice([0, 1, 4]), rng.choice([0, 2, 5]),
         1 if rng.random() < 0.06 else 0, rng.choice([0, 1]),
         rng.choice([0, 1])]
    for _ in range(rng.choice([3, 6, 10, 20])):
        k = rng.choices(['mom', 'mcal', 'switch', 'edit', 'flood', 'spoil',
                         'threads'], weights=w)[0]
        if k == 'mom':
            st = mom_step(rng, nobj, confs)
        elif k == 'mcal':
            st = mcal_step(rng, nobj)
        elif k == 'switch':
            st = dict(op=rng.choice(['on', 'off', 'clear', 'offon']),
                      c=rng.choice(CACHES))
        elif k == 'edit':
            st = dict(op='edit', o=rng.randrange(nobj),
                      like=rng.choice(LIKE), a=rng.randrange(1000),
                      b=rng.randrange(1000),
                      how=rng.choice(['writeable', 'set']))
        elif k == 'flood':
            st = dict(op='flood', n=rng.choice([40, 140]),
                      what=rng.choice(['mom', 'mcal']), f=rng.choice(confs))
        elif k == 'spoil':
            st = dict(op='spoil', o=rng.randrange(nobj),
                      f=rng.choice(confs), s=rng.randrange(1 << 20),
                      what=rng.choice(['mom', 'mcal']))
        else:
            a, b = mom_step(rng, nobj, confs), mom_step(rng, nobj, confs)
            if rng.random() < 0.3:
                b = mcal_step(rng, nobj)
            a['kill'] = b['kill'] = None
            n = rng.choice([3, 8])
            st = dict(op='threads', steps=[a, b], schedule=[
                [rng.randrange(2), 1 + int(rng.expovariate(
                    rng.choice([0.5, 0.05])))] for _ in range(n)])
        steps.append(st)
    return dict(base=base, objs=objs, steps=steps)


KEEP = ('objs',)


def mom_step(rng, nobj, confs):
    return dict(op='mom', o=rng.randrange(nobj), f=rng.choice(confs),
                no_psf=rng.random() < 0.15, rk=rng.random() < 0.25,
                kill=round(rng.random(), 6) if rng.random() < .12 else None,
                exc=rng.choice(['MemoryError', 'KeyboardInterrupt',
                                'LinAlgError']))


def mcal_step(rng, nobj):
    psf = rng.choice(['gauss', 'fitgauss', 'dilate', 'gs'])
    ts = rng.choice([['1p'], ['1p', 'noshear'], ['1m', '2p']])
    if psf == 'dilate' and rng.random() < 0.5:
        ts = ['1p_psf', '2m']
    return dict(op='mcal', o=rng.randrange(nobj), psf=psf, types=ts,
                fix=rng.random() < 0.3, s=rng.randrange(1 << 20),
                kill=round(rng.random(), 6) if rng.random() < .12 else None,
                exc=rng.choice(['MemoryError', 'KeyboardInterrupt',
                                'LinAlgError']))


def shrink(spec):
    for i, st in enumerate(spec['steps']):
        for k, v in (('kill', None), ('rk', False), ('no_psf', False),
                     ('fix', False)):
            if st.get(k):
                steps = list(spec['steps'])
                steps[i] = dict(st)
                steps[i][k] = v
                yield dict(spec, steps=steps)


def alter(obs, d, how='writeable'):
    """give the observation the difference d names"""
    import ngmix
    like, a, b = d['like'], d['a'], d['b']
    im = obs.image.copy()
    wt = obs.weight.copy()
    pim = obs.psf.image.copy()
    n, m = im.shape[0], pim.shape[0]
    r, c = a % n, b % n
    rs = np.random.RandomState(a)

    def jac(j, **kw):
        k = dict(row=j.row0, col=j.col0, dvdrow=j.dvdrow, dvdcol=j.dvdcol,
                 dudrow=j.dudrow, dudcol=j.dudcol)
        for x, f in kw.items():
            k[x] = f(k[x])
        return ngmix.Jacobian(**k)

    newj = newp = None
    if like == 'ulp':
        im[r, c] = np.nextafter(im[r, c], np.inf)
    elif like == 'swap':
        r2, c2 = (r + 1 + b % 3) % n, (c + a % 3) % n
        im[r, c], im[r2, c2] = im[r2, c2], im[r, c]
    elif like == 'roll':
        im = np.roll(im, 1 + a % 3, axis=b % 2)
    elif like == 'transpose':
        im = im.T.copy()
    elif like == 'flip':
        im = im[::-1].copy()
    elif like == 'scaled':
        im *= 1.0 + a * 1e-4
    elif like == 'center':
        newj = jac(obs.jacobian, row=lambda x: x + a * 1e-4)
    elif like == 'pcenter':
        newp = jac(obs.psf.jacobian, col=lambda x: x + a * 1e-4)
    elif like == 'wcs':
        f = 1 + a * 1e-7
        newj = jac(obs.jacobian, dvdrow=lambda x: x * f)
        newp = jac(obs.psf.jacobian, dvdrow=lambda x: x * f)
    elif like == 'wcsrot':
        t = a * 1e-3
        cs, sn = np.cos(t), np.sin(t)

        def rot(j):
            return ngmix.Jacobian(
                row=j.row0, col=j.col0,
                dvdrow=cs * j.dvdrow - sn * j.dudrow,
                dvdcol=cs * j.dvdcol - sn * j.dudcol,
                dudrow=sn * j.dvdrow + cs * j.dudrow,
                dudcol=sn * j.dvdcol + cs * j.dudcol)
        newj, newp = rot(obs.jacobian), rot(obs.psf.jacobian)
    elif like == 'weight':
        wt[r, c] *= 1.5
    elif like == 'holes':
        wt[r, c] = 0.0
    elif like == 'psf':
        pim = pim * (1 + 0.02 * rs.uniform(size=pim.shape))
    elif like == 'psfulp':
        pim[a % m, b % m] = np.nextafter(pim[a % m, b % m], np.inf)
    elif like == 'psf-as-image':
        k = min(n, m)
        im[:k, :k] = pim[:k, :k]
    elif like == 'sum':
        # same total, same diagonal
        im[r, c] += 0.5
        im[r, (c + 1) % n] -= 0.5
    elif like == 'negzero':
        im[r, c] = 0.0 if a % 2 else -0.0
    elif like == 'bigger':
        return bigger(obs)
    if how == 'set':
        obs.image = im
        obs.weight = wt
        obs.psf.image = pim
    else:
        with obs.writeable():
            obs.image[:, :] = im
            obs.weight[:, :] = wt
        with obs.psf.writeable():
            obs.psf.image[:, :] = pim
    if newj is not None:
        obs.jacobian = newj
    if newp is not None:
        obs.psf.jacobian = newp
    return obs


def bigger(obs):
    """the same pixels with a border of nothing"""
    import ngmix
    n = obs.image.shape[0]
    im = np.zeros((n + 2, n + 2))
    im[:n, :n] = obs.image
    wt = np.full((n + 2, n + 2), obs.weight.max())
    return ngmix.Observation(im, weight=wt, jacobian=obs.jacobian,
                             psf=obs.psf.copy())


def make_objs(spec):
    first = zoo.make_data(spec['base'])
    out = [first]
    for d in spec['objs']:
        out.append(alter(first.copy(), d))
    return out


def mod_of(c):
    from ngmix import prepsfmom
    from ngmix.metacal import metacal
    return {'fft': (prepsfmom.turn_on_fft_caching,
                    prepsfmom.turn_off_fft_caching),
            'kernel': (prepsfmom.turn_on_kernel_caching,
                       prepsfmom.turn_off_kernel_caching),
            'galsim': (metacal.turn_on_galsim_caching,
                       metacal.turn_off_galsim_caching)}[c]


def fitter(f):
    from ngmix import prepsfmom
    cls = {'ksigma': prepsfmom.KSigmaMom, 'pgauss': prepsfmom.PGaussMom}
    return cls[f['kind']](fwhm=f['fwhm'], pad_factor=f['pad'],
                          ap_rad=f['ap'], fwhm_smooth=f['sm'])


def measure(st, objs):
    """a function that makes the measurement"""
    import galsim
    import ngmix
    obs = objs[st['o'] % len(objs)]
    if st['op'] == 'mom':
        fit = fitter(st['f'])
        return lambda: fit.go(obs, return_kernels=st['rk'],
                              no_psf=st['no_psf'])
    psf = st['psf']
    if psf == 'gs':
        psf = galsim.Gaussian(fwhm=5 * obs.jacobian.scale)
    rng = np.random.RandomState(st['s'])
    types = list(st['types'])
    return lambda: ngmix.metacal.get_all_metacal(
        obs, psf=psf, types=types, fixnoise=st['fix'], rng=rng)


def value(st, res):
    if st['op'] == 'mom':
        return canon(res)
    return zoo.canon_odict(res)


def attempt(fn, st):
    """(result, canonical form)"""
    try:
        res = fn()
    except Exception as e:
        return None, ('raised', type(e).__name__)
    return res, value(st, res)


def plain_pass(spec):
    """the values with no caching, and how long each step is"""
    objs = make_objs(spec)
    out = []
    for st in spec['steps']:
        k = st['op']
        if k == 'edit':
            i = st['o'] % len(objs)
            objs[i] = alter(objs[i], st, st['how'])
            out.append(None)
        elif k in ('mom', 'mcal'):
            v = attempt(measure(st, objs), st)[1]
            n = None
            if st['kill'] is not None:
                fn = measure(st, objs)
                n = count_statements(lambda: attempt(fn, st))[0]
            out.append((v, n))
        elif k == 'threads':
            out.append([attempt(measure(s, objs), s)[1]
                        for s in st['steps']])
        else:
            out.append(None)
    return out


def spoil(st, objs):
    """edit in place everything a measurement returned"""
    obs = objs[st['o'] % len(objs)]
    if st['what'] == 'mom':
        try:
            r = fitter(st['f']).go(obs, return_kernels=True)
        except Exception:
            return
        for v in list(r.values()) + list(r.get('kernels', {}).values()):
            if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
                v *= 0
                v += 7
        return
    import ngmix
    try:
        od = ngmix.metacal.get_all_metacal(
            obs, psf='dilate', types=['1p'], fixnoise=False,
            rng=np.random.RandomState(st['s']))
    except Exception:
        return
    for o in od.values():
        with o.writeable():
            o.image[:, :] = 3
            o.weight[:, :] = 5
        with o.psf.writeable():
            o.psf.image[:, :] = 3


def flood(st, spec):
    """enough other entries to push out all of the earlier ones"""
    from ngmix.metacal.metacal import MetacalDilatePSF
    d = dict(spec['base'])
    obs = zoo.make_data(d)
    for i in range(st['n']):
        with obs.writeable():
            obs.image[0, 0] = 10.0 + i
        try:
            if st['what'] == 'mom':
                f = dict(st['f'], fwhm=st['f']['fwhm'] * (1 + 1e-3 * i))
                fitter(f).go(obs)
            else:
                MetacalDilatePSF(obs)
        except Exception:
            pass


def execute(spec, ctx):
    zoo.reset_caches()
    plain = plain_pass(spec)
    pristine.restore()
    zoo.reset_caches()
    objs = make_objs(spec)
    held = []
    on = set()
    warm_since = 0
    for i, (st, ref) in enumerate(zip(spec['steps'], plain)):
        k = st['op']
        ctx.step()
        if k in ('on', 'off', 'clear', 'offon'):
            f_on, f_off = mod_of(st['c'])
            if k == 'on':
                f_on()
                on.add(st['c'])
            elif k == 'off':
                f_off()
                on.discard(st['c'])
            else:
                # emptied, and used again if it was in use
                f_off()
                if k == 'offon' or st['c'] in on:
                    f_on()
                    on.add(st['c'])
            warm_since = 0
            ctx.fault('switch-' + k)
            ctx.log(i, k, st['c'])
        elif k == 'edit':
            j = st['o'] % len(objs)
            objs[j] = alter(objs[j], st, st['how'])
            ctx.log(i, 'edit', j, st['like'])
        elif k == 'flood':
            flood(st, spec)
            ctx.fault('eviction')
        elif k == 'spoil':
            spoil(st, objs)
            ctx.fault('spoiled')
        elif k == 'threads':
            threads(st, ref, objs, ctx, i, on)
            warm_since += 1
        else:
            if on and warm_since:
                ctx.count('nontrivial')
            fn = measure(st, objs)
            if st['kill'] is not None:
                at = 1 + int(st['kill'] * ref[1])
                tr, _, e = run_with_fault(fn, at, st['exc'])
                if tr.fired:
                    ctx.fault(st['exc'])
                ctx.log(i, 'killed', tr.where, type(e).__name__)
                fn = measure(st, objs)
            res, got = attempt(fn, st)
            d = diff(ref[0], got)
            ctx.check(d is None, 'cached-value', lambda: 'step %d (%s, '
                      'caches %s): value differs from the uncached one: %s' %
                      (i, k, sorted(on), d))
            if res is not None:
                held.append((i, st, res, got))
            ctx.log(i, k, got[:2] if got[0] == 'raised' else 'ok',
                    sorted(on))
            warm_since += 1
    for i, st, res, got in held:
        d = diff(got, value(st, res))
        ctx.check(d is None, 'result-changed', lambda: 'the result of step '
                  '%d was changed by later steps: %s' % (i, d))
    ctx.state(tuple((s['op'], s.get('c'), s.get('like'), s.get('o'))
                    for s in spec['steps']))


def threads(st, ref, objs, ctx, i, on):
    fns = []
    for s in st['steps']:
        fn = measure(s, objs)
        fns.append(lambda fn=fn, s=s: attempt(fn, s)[1])
    sch = Scheduler(fns, st['schedule'])
    done = sch.run()
    ctx.fault('thread-switch', sch.switches)
    for t, r, s in zip(done, ref, st['steps']):
        if t.error is not None:
            raise t.error
        d = diff(r, t.result)
        ctx.check(d is None, 'cached-value', lambda: 'step %d (%s in threads, '
                  'caches %s): value differs from the uncached one: %s' % (
                      i, s['op'], sorted(on), d))
    if sch.overlapped and on:
        ctx.count('nontrivial')
    ctx.interleaving(tuple(sch.order))
    ctx.log(i, 'threads', sch.order)


assert world and exc_of  # noqa
