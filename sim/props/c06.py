"""C06: retries are bounded, fresh, stop at success and give the last result"""
import sys

import numpy as np

from .. import zoo, scripted
from ..canon import canon, diff
from ..scripted import (Script, ScriptFitter, ScriptGuesser, Watch,
                        gen_lines, predict_unit)

ID = 'C06'
RUNS = {'quick': 6000, 'thorough': 160000}
RULE = ('a run makes several calls through one way of configuring tries '
        '(run_fitter, Runner, run_psf_fitter, PSFRunner, bootstrap, '
        'Bootstrapper) on observations, lists and multi-band lists, with '
        'fitters and guessers that succeed, flag or raise as the seed '
        'scripted it (or real ones, starved of iterations and watched); the '
        'recorded sequence of guesses and attempts must be the one the '
        'reference makes from the script. Non-trivial: at least one attempt '
        'failed or raised')
STATE_MEASURE = 'signature (way, tries, outcome pattern of each unit)'
REAL = ['ngmix.runners', 'ngmix.bootstrap', 'ngmix.guessers and fitters in '
        'the watched mode']
STUB = ['fitters and guessers in the scripted mode']
ASSUME = ['tries >= 1']
WAYS = ['run_fitter', 'Runner', 'run_psf_fitter', 'PSFRunner', 'bootstrap',
        'Bootstrapper']


def warm():
    import random
    from .. import core
    zoo.warm()
    rng = random.Random(5)
    for _ in range(30):
        core.run_one(sys.modules[__name__], generate(rng, 'quick'))


def generate(rng, tier):
    if rng.random() < .12:
        t = zoo.OPS['boot'].gen_t(rng)
        t['ignore'] = True
        t['starve'] = rng.choice([2, 3, 4, 6, 30])
        t['ntry'] = rng.choice([1, 2, 3, 4])
        t['pntry'] = rng.choice([1, 2, 3, 4])
        t['nb'] = 1
        return dict(mode='real', t=t, calls=[
            dict(d=zoo.OPS['boot'].gen_d(rng, t))
            for _ in range(rng.choice([1, 2]))], s=rng.randrange(1 << 30))
    n = rng.choice([1, 2, 3, 5])
    p_ok = rng.choice([.15, .4, .7])
    p_exc = rng.choice([0, .05, .25])
    calls = []
    for _ in range(n):
        kind = rng.choice(['obs', 'list', 'mb'])
        nb = rng.randrange(1, 4) if kind == 'mb' else 1
        calls.append(dict(
            kind=kind, nep=[1 if kind == 'obs' else rng.randrange(1, 4)
                            for _ in range(nb)],
            psf=rng.random() < .8, same=rng.random() < .3,
            eq=rng.random() < .15))
        if kind != 'obs' and rng.random() < .04:
            # long lists, bands without epochs
            calls[-1]['nep'][-1] = rng.choice([0, 9, 17])
    return dict(mode='script', way=rng.choice(WAYS), calls=calls,
                ntry=rng.choice([1, 2, 2, 3, 4, 7, 7, 25]),
                pntry=rng.choice([1, 2, 3]), guesser=rng.random() < .8,
                pguesser=rng.random() < .8, npflags=rng.random() < .3,
                set_result=rng.random() < .7, ignore=rng.random() < .7,
                lines=gen_lines(rng, 40, p_ok, p_exc))


def small_obs(k, psf):
    import ngmix
    j = ngmix.DiagonalJacobian(row=1, col=1, scale=0.3)
    p = None
    if psf:
        p = ngmix.Observation(np.full((3, 3), 0.5 + k), jacobian=j,
                              meta={'p': k})
    return ngmix.Observation(np.full((3, 3), 1.0 + k), jacobian=j, psf=p,
                             meta={'o': k})


def make_data(c, base):
    import ngmix
    if c['kind'] == 'obs':
        return small_obs(base, c['psf'])
    lists = []
    for n in c['nep']:
        ol = ngmix.ObsList()
        for _ in range(n):
            ol.append(small_obs(base, c['psf']))
            if not c.get('eq'):
                # otherwise epochs are equal copies of one another
                base += 1
        lists.append(ol)
    if c['kind'] == 'list':
        return lists[0]
    mb = ngmix.MultiBandObsList()
    for ol in lists:
        mb.append(ol)
    return mb


def execute(spec, ctx):
    zoo.reset_caches()
    if spec['mode'] == 'real':
        return real(spec, ctx)
    import ngmix
    way = spec['way']
    lines = spec['lines']
    s = Script(lines)
    fitter = ScriptFitter(s, spec['npflags'])
    guesser = ScriptGuesser(s) if spec['guesser'] else None
    pguesser = ScriptGuesser(s) if spec['pguesser'] else None
    R = ngmix.runners
    runner = R.Runner(fitter=fitter, guesser=guesser, ntry=spec['ntry'])
    prunner = R.PSFRunner(fitter=fitter, guesser=pguesser,
                          ntry=spec['pntry'], set_result=spec['set_result'])
    boot = ngmix.bootstrap.Bootstrapper(
        runner=runner, psf_runner=prunner, ignore_failed_psf=spec['ignore'])
    isboot = way in ('bootstrap', 'Bootstrapper')
    if isboot:
        # the psf results must be there to be judged
        prunner = R.PSFRunner(fitter=fitter, guesser=pguesser,
                              ntry=spec['pntry'])
        boot = ngmix.bootstrap.Bootstrapper(
            runner=runner, psf_runner=prunner,
            ignore_failed_psf=spec['ignore'])
    kref = 0
    data = None
    for ic, c in enumerate(spec['calls']):
        if data is None or not c['same']:
            data = make_data(c, 10 * ic)
            cur = c
        c = cur
        if isboot and not all(o.has_psf() for o in zoo.epochs_of(data)):
            continue
        n0 = len(s.events)
        s.raised = None

        def go():
            if way == 'run_fitter':
                return R.run_fitter(obs=data, fitter=fitter, guesser=guesser,
                                    ntry=spec['ntry'])
            if way == 'Runner':
                return runner.go(obs=data)
            if way == 'run_psf_fitter':
                return R.run_psf_fitter(
                    obs=data, fitter=fitter, guesser=pguesser,
                    ntry=spec['pntry'], set_result=spec['set_result'])
            if way == 'PSFRunner':
                return prunner.go(obs=data)
            if way == 'bootstrap':
                return ngmix.bootstrap.bootstrap(
                    obs=data, runner=runner, psf_runner=prunner,
                    ignore_failed_psf=spec['ignore'])
            return boot.go(obs=data)
        res = exc = None
        try:
            res = go()
        except BaseException as e:
            exc = e
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
        got = s.events[n0:]
        ctx.step(len(got))

        # the reference
        units = []
        psfway = way in ('run_psf_fitter', 'PSFRunner')
        if psfway or isboot:
            for o in zoo.epochs_of(data):
                units.append((o.psf if o.has_psf() else o, spec['pntry'],
                              spec['pguesser']))
        else:
            units.append((data, spec['ntry'], spec['guesser']))
        want, outs = [], []
        for obs, ntry, gs in units:
            ev, out, kref = predict_unit(lines, kref, ntry, gs, obs)
            want += ev
            outs.append(out)
            if out[0] == 'exc':
                break
        wexc = outs[-1] if outs and outs[-1][0] == 'exc' else None
        objout = None
        if isboot and wexc is None:
            good = [o[2] == 0 for o in outs]
            bands = []
            i = 0
            for nb in c['nep']:
                bands.append(good[i:i + nb])
                i += nb
            if spec['ignore'] and not all(any(b) for b in bands):
                wexc = ('exc', None, 'BootPSFFailure')
            else:
                ev, objout, kref = predict_unit(
                    lines, kref, spec['ntry'], spec['guesser'],
                    data)
                want += ev
                if objout[0] == 'exc':
                    wexc = objout
        kref_now = kref
        # what was seen, in the same form; the object data of a bootstrap may
        # be a new collection without the bad epochs: identity is for C07
        pids = set(id(u[0]) for u in units)
        seen = []
        for e in got:
            oid = id(e[1])
            if isboot and oid not in pids:
                oid = id(data)
            seen.append((e[0], oid, e[3] if e[0] == 'guess' else e[4]))
        ctx.log(way, c['kind'], [(a, n) for a, _, n in seen],
                type(exc).__name__)
        ctx.check(len(seen) == len(want), 'wrong-number-of-attempts',
                  lambda: '%s: guesses and attempts made %s, reference %s' % (
                      way, [(a, n) for a, _, n in seen],
                      [(a, n) for a, _, n in want]))
        ctx.check(seen == want, 'wrong-attempts', lambda: '%s: %s, reference '
                  '%s' % (way, [(a, n) for a, _, n in seen],
                          [(a, n) for a, _, n in want]))
        # every attempt got the guess just made
        last = None
        for e in got:
            if e[0] == 'guess':
                last = e[2]
            else:
                g = e[2]
                if last is None:
                    ctx.check(g is None, 'guess-from-nowhere', way)
                else:
                    ctx.check(g is not None and np.array_equal(g, last),
                              'stale-guess', lambda: '%s: attempt %d used '
                              '%r, the guess drawn for it is %r' % (
                                  way, e[4], g, last))
                last = None
        if any(o[0] == 'exc' or o[2] for o in outs):
            ctx.count('nontrivial')
        for o in outs + ([objout] if objout else []):
            if o[0] == 'exc':
                ctx.fault('raise:' + o[2])
            elif o[2]:
                ctx.fault('flag')
        ctx.state(way, c['kind'], spec['ntry'], spec['pntry'],
                  tuple((o[0], o[2] != 0) for o in outs),
                  None if objout is None else objout[0])
        if wexc is not None:
            if wexc[1] is None:
                ctx.check(isinstance(exc, ngmix.gexceptions.BootPSFFailure),
                          'no-boot-failure', lambda: '%s: %r' % (way, exc))
            else:
                ctx.check(exc is not None, 'error-swallowed',
                          lambda: '%s: %s of attempt %d did not reach the '
                          'caller' % (way, wexc[2], wexc[1]))
                ctx.check(exc is s.raised, 'error-replaced', lambda:
                          '%s: got %r, the attempt raised %r' % (
                              way, exc, s.raised))
            continue
        if exc is not None:
            raise exc
        # the result is that of the last attempt of each unit
        fits = {e[4]: e[3] for e in got if e[0] == 'fit'}
        if psfway:
            flat = flatten(res, c, ctx, way)
            for o, r in zip(outs, flat):
                ctx.check(r is fits[o[1]], 'not-the-last-result',
                          lambda: '%s: %r, last attempt gave %r' % (
                              way, r, fits[o[1]]))
        else:
            o = objout if isboot else outs[0]
            ctx.check(res is fits[o[1]], 'not-the-last-result',
                      lambda: '%s: %r, last attempt gave %r' % (
                          way, res, fits[o[1]]))
        assert kref_now == s.k


def flatten(res, c, ctx, way):
    """results in the nesting of the input -> flat list"""
    if c['kind'] == 'obs':
        ctx.check(isinstance(res, dict), 'wrong-shape', way)
        return [res]
    ctx.check(isinstance(res, list), 'wrong-shape', way)
    if c['kind'] == 'list':
        ctx.check(len(res) == c['nep'][0], 'wrong-shape', lambda: '%s %d' % (
            way, len(res)))
        return res
    ctx.check([len(r) for r in res] == c['nep'], 'wrong-shape', way)
    return [r for rl in res for r in rl]


# ---------------------------------------------------------------------------

def real(spec, ctx):
    """real fitters and guessers, watched"""
    import ngmix
    t = spec['t']
    boot = zoo.OPS['boot']
    rng = np.random.RandomState(spec['s'])
    log = []
    fitter, gu, pf, pg = boot.parts(t, rng)

    class G(Watch):
        def __init__(self, real, which):
            Watch.__init__(self, real, log, 'guess')
            self.which = which

        def __call__(self, obs, **kw):
            st = rng.get_state()
            try:
                g = self.real(obs=obs, **kw)
            except Exception as e:
                log.append(('guess', obs, e))
                raise
            log.append(('guess', obs, g))
            # a new guesser with the same random state says the same
            rng2 = np.random.RandomState(1)
            fresh = boot.parts(t, rng2)[self.which]
            rng2.set_state(st)
            d = diff(canon(fresh(obs=obs, **kw)), canon(g))
            ctx.check(d is None, 'guess-not-of-these-data', lambda: '%s: %s'
                      % (type(self.real).__name__, d))
            return g

    class F(Watch):
        def go(self, obs, **kw):
            g = kw.get('guess')
            gc = canon(g)
            log.append(['fit', obs, gc, None])
            r = self.real.go(obs=obs, **kw)
            log[-1][3] = r
            return r

    R = ngmix.runners
    runner = R.Runner(fitter=F(fitter, log, 'fit'), guesser=G(gu, 1),
                      ntry=t['ntry'])
    prunner = R.PSFRunner(fitter=F(pf, log, 'fit'), guesser=G(pg, 3),
                          ntry=t['pntry'])
    for c in spec['calls']:
        data = zoo.make_data(c['d'])
        for what, run, ntry, units in (
                ('psf', prunner, t['pntry'],
                 [o.psf for o in zoo.epochs_of(data)]),
                ('object', runner, t['ntry'], [data])):
            del log[:]
            if what == 'object' and not all(
                    o.psf.has_gmix() for o in zoo.epochs_of(data)):
                continue
            exc = res = None
            try:
                res = run.go(obs=data)
            except (ngmix.gexceptions.NGmixBaseException,) as e:
                exc = e
            ctx.step(len(log))
            # split by unit
            pos = 0
            for u in units:
                n = 0
                guesses = []
                last = None
                while pos < len(log) and log[pos][1] is u:
                    e = log[pos]
                    pos += 1
                    if e[0] == 'guess':
                        ctx.check(last is None or last['flags'] != 0,
                                  'attempt-after-success', what)
                        if isinstance(e[2], Exception):
                            break
                        guesses.append(canon(e[2]))
                    else:
                        n += 1
                        ctx.check(len(guesses) == n, 'no-fresh-guess', what)
                        ctx.check(diff(guesses[-1], e[2]) is None,
                                  'stale-guess', what)
                        last = e[3]
                        if last is None:
                            break
                if last is None:
                    break
                ctx.check(n <= ntry, 'too-many-attempts', lambda: '%s %d of '
                          '%d' % (what, n, ntry))
                ctx.check(last['flags'] == 0 or n == ntry,
                          'too-few-attempts', lambda: '%s: gave up after %d '
                          'of %d' % (what, n, ntry))
                ctx.check(len(set(map(repr, guesses))) == n,
                          'repeated-guess', what)
                ctx.log(what, n, last['flags'])
                ctx.state(what, t['psf'], t['guesser'], n, ntry,
                          last['flags'] == 0)
                if n > 1 or last['flags'] != 0:
                    ctx.count('nontrivial')
                    ctx.fault('starved', n - (last['flags'] == 0))
            if exc is None:
                ctx.check(pos == len(log), 'extra-attempts', what)
                flat = [res]
                while isinstance(flat[0], list):
                    flat = [x for r in flat for x in r]
                lastof = {}
                for e in log:
                    if e[0] == 'fit':
                        lastof[id(e[1])] = e[3]
                ctx.check(len(flat) == len(units) and all(
                    r is lastof[id(u)] for r, u in zip(flat, units)),
                    'not-the-last-result', what)


assert scripted
