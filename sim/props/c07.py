"""C07: point-spread bootstrapping keeps exactly the good epochs"""
import sys

import numpy as np

from .. import zoo, scripted
from ..canon import canon, canon_gmix, canon_obs, diff
from ..inject import count_statements, run_with_fault
from ..scripted import Script, ScriptFitter, ScriptGuesser, gen_lines
from .c06 import make_data

ID = 'C07'
RUNS = {'quick': 9000, 'thorough': 200000}
RULE = ('a run bootstraps the same observation, list or multi-band list one '
        'to four times, each time with scripted outcomes per epoch (success '
        'with or without a mixture, flag, error, failing guess), or with '
        'real point-spread fits of damaged images, or through the metacal '
        'bootstrapper, some calls interrupted at a statement chosen by the '
        'seed; per-epoch records, attached mixtures, what the object '
        'measurement was shown, and the caller\'s collections are compared '
        'with a reference after each. Non-trivial: some epoch failed, or a '
        'fault fired')
STATE_MEASURE = 'signature (mode, kind, good pattern per band, outcome)'
REAL = ['ngmix.bootstrap', 'ngmix.runners', 'ngmix.observation',
        'ngmix.metacal.bootstrap (metacal mode)',
        'point-spread fitters (real mode)']
STUB = ['fitters and guessers in the scripted mode']
ASSUME = ['each epoch has its own point-spread observation',
          'every epoch has a point-spread observation']
EXC = ['MemoryError', 'Interrupt', 'OSError']


def warm():
    import random
    from .. import core
    zoo.warm()
    rng = random.Random(5)
    for _ in range(20):
        core.run_one(sys.modules[__name__], generate(rng, 'quick'))


def generate(rng, tier):
    r = rng.random()
    mode = 'real' if r < .06 else ('mcal' if r < .10 else 'script')
    if mode == 'script':
        kind = rng.choice(['obs', 'list', 'list', 'mb', 'mb'])
        nb = rng.randrange(1, 4) if kind == 'mb' else 1
        data = dict(kind=kind, psf=True,
                    nep=[1 if kind == 'obs' else rng.randrange(1, 5)
                         for _ in range(nb)],
                    eq=rng.random() < .2)
        if kind != 'obs' and rng.random() < .08:
            # many bands, long bands, bands without epochs
            if kind == 'mb' and rng.random() < .5:
                data['nep'] = [rng.randrange(1, 3)
                               for _ in range(rng.choice([4, 6, 11]))]
            i = rng.randrange(len(data['nep']))
            data['nep'][i] = rng.choice([0, 0, 8, 13, 21])
        n = sum(data['nep'])
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            p_ok = rng.choice([.3, .6, .85])
            c = dict(lines=gen_lines(rng, 3 * n + 3, p_ok,
                                     rng.choice([0, 0, .1]), .25),
                     ignore=rng.random() < .75, fault=None,
                     way=rng.choice(['boot', 'boot', 'func', 'psfonly',
                                     'remove']))
            if rng.random() < .25:
                c['fault'] = dict(at=round(rng.random(), 5),
                                  exc=rng.choice(EXC))
            calls.append(c)
        return dict(mode=mode, data=data, calls=calls,
                    pntry=rng.choice([1, 1, 2, 3]),
                    pre=rng.random() < .4, npflags=rng.random() < .3)
    if mode == 'real':
        t = zoo.OPS['boot'].gen_t(rng)
        t['ntry'] = 1
        if rng.random() < .3:
            t['starve'] = rng.choice([2, 3, 5])
        d = zoo.OPS['boot'].gen_d(rng, t)
        return dict(mode=mode, t=t, d=d, s=rng.randrange(1 << 30),
                    damage=zoo.damage_spec(rng, rng.choice([0, 1, 2, 3]),
                                           zoo.PSF_DAMAGE))
    d = zoo.data_spec(rng, kind=rng.choice(['obs', 'list', 'mb']),
                      square=True)
    d['bands'] = [eps[:2] for eps in d['bands'][:2]]
    return dict(mode=mode, d=d, s=rng.randrange(1 << 30),
                types=rng.choice([['noshear', '1p'], ['1m'], ['noshear', '1p',
                                                              '2m']]),
                ignore=rng.random() < .8, pntry=rng.choice([1, 2]),
                lines=gen_lines(rng, 40, rng.choice([.5, .75]), 0, .2))


class Structure(object):
    """the caller's collections, as they were handed over"""

    def __init__(self, obs):
        self.obs = obs
        self.snap = self.shot()

    def shot(self):
        import ngmix
        o = self.obs
        if isinstance(o, ngmix.Observation):
            return ('obs', id(o))
        if isinstance(o, ngmix.ObsList):
            return ('list', tuple(id(x) for x in o), canon(o.meta))
        return ('mb', tuple((id(ol), tuple(id(x) for x in ol),
                             canon(ol.meta)) for ol in o), canon(o.meta))

    def check(self, ctx, what):
        now = self.shot()
        ctx.check(now == self.snap, 'collection-altered', lambda: '%s: %s '
                  'was %s' % (what, now, self.snap))


def bands_of(obs):
    import ngmix
    if isinstance(obs, ngmix.Observation):
        return [[obs]]
    if isinstance(obs, ngmix.ObsList):
        return [list(obs)]
    return [list(ol) for ol in obs]


def check_shown(ctx, shown, data, good, ignore, what):
    """what the object measurement saw"""
    import ngmix
    if not ignore or isinstance(data, ngmix.Observation):
        if not ignore:
            want = bands_of(data)
        else:
            want = [[data]]
    else:
        want = []
        i = 0
        for b in bands_of(data):
            want.append([o for o, g in zip(b, good[i:i + len(b)]) if g])
            i += len(b)
    ctx.check(type(shown) is type(data), 'wrong-kind-shown', lambda: '%s: %s'
              % (what, type(shown)))
    got = bands_of(shown)
    ok = len(got) == len(want) and all(
        len(a) == len(b) and all(x is y for x, y in zip(a, b))
        for a, b in zip(got, want))
    ctx.check(ok, 'wrong-epochs-shown', lambda: '%s: bands of %s epochs, '
              'reference %s (good %s)' % (what, [len(b) for b in got],
                                          [len(b) for b in want], good))
    ctx.check(diff(canon(shown.meta), canon(data.meta)) is None,
              'metadata-lost', what)
    if isinstance(data, ngmix.MultiBandObsList):
        for a, b in zip(shown, data):
            ctx.check(isinstance(a, ngmix.ObsList) and diff(
                canon(a.meta), canon(b.meta)) is None, 'metadata-lost',
                lambda: '%s: a band' % what)


def check_records(ctx, eps, recs, what):
    """recs: per epoch (result, mixture or None)"""
    for i, (o, (res, gm)) in enumerate(zip(eps, recs)):
        got = o.psf.meta.get('result')
        ctx.check(got is res, 'wrong-record', lambda: '%s: epoch %d holds '
                  '%r, its fit gave %r' % (what, i, got, res))
        has = o.psf.has_gmix()
        ctx.check(has == (gm is not None), 'mixture-attached' if has else
                  'mixture-missing', lambda: '%s: epoch %d' % (what, i))
        if has:
            d = diff(canon_gmix(gm), canon_gmix(o.psf.gmix))
            ctx.check(d is None, 'wrong-mixture', lambda: '%s: epoch %d: %s'
                      % (what, i, d))


def rest_of(o):
    """all of an epoch but its psf record and mixture"""
    from .c05 import strip_psf
    return strip_psf(('x', canon_obs(o)))


def execute(spec, ctx):
    zoo.reset_caches()
    globals()['run_' + spec['mode']](spec, ctx)


def run_script(spec, ctx):
    import ngmix
    R, B = ngmix.runners, ngmix.bootstrap
    data = make_data(spec['data'], 0)
    eps = zoo.epochs_of(data)
    if not isinstance(data, ngmix.Observation):
        data.meta['top'] = {'a': [1, 2]}
        if isinstance(data, ngmix.MultiBandObsList):
            for i, ol in enumerate(data):
                ol.meta['band'] = i
    recs = [(None, None)] * len(eps)
    if spec['pre']:
        for i, o in enumerate(eps):
            gm = ngmix.GMixModel([0., 0., 0., 0., 3.0 + i, 1.0], 'gauss')
            o.psf.set_gmix(gm)
            recs[i] = (None, gm)
    st = Structure(data)
    rests = [rest_of(o) for o in eps]
    for ic, c in enumerate(spec['calls']):
        what = 'call %d (%s)' % (ic, c['way'])
        s = Script(c['lines'])
        s2 = Script(['ok'] * 4)
        pfit = ScriptFitter(s, spec['npflags'])
        ofit = ScriptFitter(s2)
        prunner = R.PSFRunner(fitter=pfit, guesser=ScriptGuesser(s),
                              ntry=spec['pntry'])
        runner = R.Runner(fitter=ofit, guesser=ScriptGuesser(s2))

        def go():
            if c['way'] == 'boot':
                return B.Bootstrapper(
                    runner=runner, psf_runner=prunner,
                    ignore_failed_psf=c['ignore']).go(obs=data)
            if c['way'] == 'func':
                return B.bootstrap(obs=data, runner=runner,
                                   psf_runner=prunner,
                                   ignore_failed_psf=c['ignore'])
            res = prunner.go(obs=data)
            if c['way'] == 'remove':
                return res, B.remove_failed_psf_obs(data)
            return res
        exc = res = None
        fired = None
        if c['fault']:
            def dry():
                # count on a twin, with its own script
                d2 = make_data(spec['data'], 0)
                a = Script(c['lines'])
                b = Script(['ok'] * 4)
                try:
                    B.bootstrap(
                        obs=d2, runner=R.Runner(fitter=ScriptFitter(b),
                                                guesser=ScriptGuesser(b)),
                        psf_runner=R.PSFRunner(
                            fitter=ScriptFitter(a), guesser=ScriptGuesser(a),
                            ntry=spec['pntry']),
                        ignore_failed_psf=c['ignore'])
                except BaseException as e:
                    if isinstance(e, (KeyboardInterrupt, SystemExit)):
                        raise
            n, _ = count_statements(dry)
            at = 1 + int(c['fault']['at'] * n)
            tr, res, exc = run_with_fault(go, at, c['fault']['exc'])
            if tr.fired:
                fired = tr.where
                ctx.fault(c['fault']['exc'])
                ctx.count('nontrivial')
        else:
            try:
                res = go()
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                exc = e
        ctx.step(len(s.events) + len(s2.events))
        st.check(ctx, what)
        for o, r in zip(eps, rests):
            d = diff(r, rest_of(o))
            ctx.check(d is None, 'epoch-altered', lambda: '%s: %s' % (
                what, d))
        # what each epoch's own fit gave
        fits = {}
        for e in s.events:
            if e[0] == 'fit' and e[3] is not None:
                fits.setdefault(id(e[1]), []).append(e[3])
        raised = s.raised is not None
        finals = []
        for i, o in enumerate(eps):
            fs = fits.get(id(o.psf), [])
            finals.append(fs[-1] if fs else None)
        if fired is not None:
            # each epoch holds what it held, or what its own fit gave
            new = []
            for i, o in enumerate(eps):
                got = o.psf.meta.get('result')
                own = fits.get(id(o.psf), [])
                ok = got is recs[i][0] or any(got is f for f in own)
                ctx.check(ok, 'wrong-record', lambda: '%s interrupted in %s: '
                          'epoch %d holds %r' % (what, fired, i, got))
                gm = recs[i][1]
                if o.psf.has_gmix():
                    cands = [gm] if gm is not None else []
                    cands += [ngmix.GMix.copy(f.get_gmix()) for f in own
                              if f['flags'] == 0 and hasattr(f, 'get_gmix')]
                    cg = canon_gmix(o.psf.gmix)
                    ctx.check(any(diff(canon_gmix(x), cg) is None
                                  for x in cands), 'wrong-mixture',
                              lambda: '%s interrupted in %s: epoch %d' % (
                                  what, fired, i))
                    gm = o.psf.gmix
                else:
                    ctx.check(gm is None, 'mixture-lost', what)
                new.append((got, gm))
            recs = new
            ctx.log(what, 'interrupted', fired)
            ctx.state('fault', c['way'], fired, spec['data']['kind'])
            continue
        # epochs up to the error have their record
        stop = len(eps)
        if raised:
            # the epoch being fit when the error came
            e = s.events[-1]
            stop = [i for i, o in enumerate(eps) if o.psf is e[1]][0]
        for i in range(stop):
            f = finals[i]
            ctx.check(f is not None, 'epoch-not-fit', lambda: '%s: epoch %d'
                      % (what, i))
            gm = recs[i][1]
            if f['flags'] == 0 and hasattr(f, 'get_gmix'):
                gm = f.get_gmix()
            recs[i] = (f, gm)
        check_records(ctx, eps, recs, what)
        for i, o in enumerate(eps[:stop]):
            if recs[i][0] is not None and recs[i][0]['flags'] != 0:
                ctx.fault('flag')
                ctx.count('nontrivial')
        if raised:
            ctx.fault('raise')
            ctx.count('nontrivial')
            ctx.check(exc is s.raised, 'error-lost', lambda: '%s: %r' % (
                what, exc))
            ctx.check(not s2.events, 'object-fit-after-error', what)
            ctx.state('raised', c['way'], spec['data']['kind'], stop)
            continue
        good = [r[0]['flags'] == 0 for r in recs]
        nb = [len(b) for b in bands_of(data)]
        bands, i = [], 0
        for n in nb:
            bands.append(good[i:i + n])
            i += n
        dead = not all(any(b) for b in bands)
        ctx.state('done', c['way'], spec['data']['kind'],
                  tuple(map(tuple, bands)), c['ignore'])
        ctx.log(what, good, type(exc).__name__)
        if c['way'] in ('boot', 'func'):
            if c['ignore'] and dead:
                ctx.check(isinstance(exc, ngmix.gexceptions.BootPSFFailure),
                          'no-boot-failure', lambda: '%s: %r, good %s' % (
                              what, exc, bands))
                ctx.check(not s2.events, 'object-fit-without-epochs', what)
                continue
            if exc is not None:
                raise exc
            shown = [e[1] for e in s2.events]
            ctx.check(len(shown) >= 1, 'object-not-measured', what)
            for sh in shown:
                check_shown(ctx, sh, data, good, c['ignore'], what)
            ctx.check(res is s2.events[-1][3], 'wrong-result', what)
        else:
            if c['way'] == 'remove':
                if dead:
                    ctx.check(isinstance(exc, ngmix.gexceptions.
                                         BootPSFFailure), 'no-boot-failure',
                              lambda: '%s: %r' % (what, exc))
                    continue
                if exc is not None:
                    raise exc
                res, left = res
                check_shown(ctx, left, data, good, True, what)
            elif exc is not None:
                raise exc
            # shape and order of the results
            k = spec['data']['kind']
            if k == 'obs':
                shaped = [[res]]
            elif k == 'list':
                shaped = [res]
            else:
                shaped = res
            ctx.check([len(x) for x in shaped] == nb, 'wrong-shape', what)
            flat = [x for xs in shaped for x in xs]
            ctx.check(all(a is b for a, b in zip(flat, finals)),
                      'wrong-order', what)


class Rec(object):
    """a real fitter, recorded"""

    def __init__(self, real):
        self.real, self.log = real, []

    def go(self, obs, **kw):
        r = self.real.go(obs=obs, **kw)
        self.log.append((obs, r))
        return r


def run_real(spec, ctx):
    import ngmix
    t = spec['t']
    rng = np.random.RandomState(spec['s'])
    fitter, gu, pf, pg = zoo.OPS['boot'].parts(t, rng)
    data = zoo.make_data(spec['d'])
    for k in zoo.apply_damage(data, spec['damage']):
        ctx.fault('data:' + k)
        ctx.count('nontrivial')
    eps = zoo.epochs_of(data)
    st = Structure(data)
    rests = [rest_of(o) for o in eps]
    P, O = Rec(pf), Rec(fitter)
    R = ngmix.runners
    B = ngmix.bootstrap.Bootstrapper(
        runner=R.Runner(fitter=O, guesser=gu, ntry=1),
        psf_runner=R.PSFRunner(fitter=P, guesser=pg, ntry=t['pntry']),
        ignore_failed_psf=t['ignore'])
    exc = res = None
    try:
        res = B.go(obs=data)
    except Exception as e:
        exc = e
    st.check(ctx, 'real')
    ctx.step(len(P.log))
    for o, r in zip(eps, rests):
        d = diff(r, rest_of(o))
        ctx.check(d is None, 'epoch-altered', lambda: 'real: %s' % d)
    last = {}
    for o, r in P.log:
        last[id(o)] = r
    good = []
    for i, o in enumerate(eps):
        r = last.get(id(o.psf))
        if r is None:
            # an error ended the fits before it
            ctx.check(exc is not None, 'epoch-not-fit', i)
            ctx.check('result' not in o.psf.meta, 'wrong-record', i)
            ctx.check(not o.psf.has_gmix(), 'mixture-attached', i)
            good.append(None)
            continue
        ok = r['flags'] == 0
        good.append(bool(ok))
        got = o.psf.meta.get('result')
        if got is None and exc is not None and not any(
                id(x.psf) in last for x in eps[i + 1:]):
            good[-1] = None
            continue
        ctx.check(got is r, 'wrong-record', lambda: 'epoch %d' % i)
        ctx.check(o.psf.has_gmix() == bool(ok), 'mixture-attached'
                  if o.psf.has_gmix() else 'mixture-missing',
                  lambda: 'real %s: epoch %d, flags %s' % (
                      t['psf'], i, r['flags']))
        if ok:
            d = diff(canon_gmix(r.get_gmix()), canon_gmix(o.psf.gmix))
            ctx.check(d is None, 'wrong-mixture', lambda: '%d: %s' % (i, d))
    ctx.log('real', t['psf'], good, type(exc).__name__)
    ctx.state('real', t['psf'], tuple(good), t['ignore'],
              type(exc).__name__)
    if None in good:
        return
    bands, i = [], 0
    for b in bands_of(data):
        bands.append(good[i:i + len(b)])
        i += len(b)
    if t['ignore'] and not all(any(b) for b in bands):
        ctx.check(isinstance(exc, ngmix.gexceptions.BootPSFFailure),
                  'no-boot-failure', lambda: repr(exc))
        ctx.check(not O.log, 'object-fit-without-epochs')
        return
    for sh, _ in O.log:
        check_shown(ctx, sh, data, good, t['ignore'], 'real')
    if exc is None:
        ctx.check(O.log and res is O.log[-1][1], 'wrong-result')


def run_mcal(spec, ctx):
    import ngmix
    R = ngmix.runners
    data = zoo.make_data(spec['d'])
    rng = np.random.RandomState(spec['s'])
    s = Script(spec['lines'])
    s2 = Script(['ok'] * 40)
    prunner = R.PSFRunner(fitter=ScriptFitter(s), guesser=ScriptGuesser(s),
                          ntry=spec['pntry'])
    runner = R.Runner(fitter=ScriptFitter(s2), guesser=ScriptGuesser(s2))
    st = Structure(data)
    snap = canon(data)
    mb = ngmix.metacal.MetacalBootstrapper(
        runner=runner, psf_runner=prunner, rng=rng,
        ignore_failed_psf=spec['ignore'], psf='gauss',
        types=list(spec['types']))
    exc = None
    try:
        resd, obsd = mb.go(data)
    except ngmix.gexceptions.BootPSFFailure as e:
        exc = e
    st.check(ctx, 'metacal')
    d = diff(snap, canon(data))
    ctx.check(d is None, 'input-altered', lambda: d)
    ctx.step(len(s.events))
    # the epochs, in the order they were fit
    finals = {}
    for e in s.events:
        if e[0] == 'fit':
            finals[id(e[1])] = e[3]
    if any(f['flags'] for f in finals.values()):
        ctx.count('nontrivial')
        ctx.fault('flag')
    if exc is not None:
        ctx.check(spec['ignore'] and any(
            f['flags'] for f in finals.values()), 'needless-boot-failure')
        ctx.log('metacal', 'failed')
        return
    ctx.check(set(resd) == set(obsd), 'wrong-types', lambda: '%s %s' % (
        sorted(resd), sorted(obsd)))
    shown = {}
    for e in s2.events:
        if e[0] == 'fit':
            shown[id(e[3])] = e[1]
    for k in resd:
        eps = zoo.epochs_of(obsd[k])
        recs = []
        good = []
        for o in eps:
            ctx.check(id(o.psf) in finals, 'epoch-not-fit', k)
            f = finals[id(o.psf)]
            ok = f['flags'] == 0
            good.append(ok)
            gm = f.get_gmix() if ok and hasattr(f, 'get_gmix') else None
            if gm is None and o.psf.has_gmix():
                # nothing from this fit: what metacal itself had attached
                gm = o.psf.gmix
            recs.append((f, gm))
        check_records(ctx, eps, recs, k)
        ctx.check(id(resd[k]) in shown, 'wrong-result', k)
        check_shown(ctx, shown[id(resd[k])], obsd[k], good, spec['ignore'],
                    k)
        ctx.state('mcal', k, tuple(good))
    ctx.log('metacal', sorted(resd))


assert scripted
