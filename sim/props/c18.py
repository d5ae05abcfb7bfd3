"""C18: batch aperture fluxes and combined moments isolate bad objects"""
import numpy as np

from ..canon import canon, diff
from ..inject import count_statements, run_with_fault
from ..sched import Scheduler

ID = 'C18'
RUNS = {'quick': 4500, 'thorough': 200000}
TECH = ('seeded batches with bad, masked and out-of-range members in any '
        'place and order, statement-level faults and overlapping batches; '
        'every entry is compared with the same entry alone and with plain '
        'formulas, and sums of several images with sums over their pixels')
RULE = ('a run is a history of up to six batch or moment operations on one '
        'pool of members. Non-trivial: a bad or masked member, a fault or an '
        'overlap was in it')
STATE_MEASURE = 'signature (operation, model, bands, kinds of bad members)'
REAL = ['ngmix.gaussap', 'ngmix.gmix', 'ngmix.moments', 'ngmix.gaussmom']
STUB = ['the interruption and failing call (statement injection)',
        'thread scheduling']
ASSUME = ['sizes and fluxes within 1e+-30 of one',
          'renormalisation is defined for the six basic sums',
          'a failing matrix inverse inside a composite means an aperture '
          'factor of one, as documented in the code']
TIME_UNIT = 'objects'

MODELS = ['exp', 'dev', 'gauss', 'turb', 'cm', 'bdf']
BAD = ['g1', 'gbig', 'gnan', 'ginf', 'Tnan', 'Tinf', 'Fnan', 'Finf', 'Fninf',
       'cennan', 'fdnan', 'tdnan', 'fdinf', 'tdinf']
ODD = ['T0', 'Tneg', 'Ttiny', 'F0', 'Fneg', 'td0', 'tdneg', 'td-1', 'fd2',
       'fd-1', 'gedge']
NO_ATTEMPT, NONPOS_FLUX, NONPOS_SIZE, NONPOS_VAR, RANGE, NONPOS_SHAPE = \
    1, 4, 8, 64, 128, 256
MBAD = ['nansum', 'nanvar', 'zerovar', 'negvar', 'zeroflux', 'negflux',
        'negT', 'zeroT', 'zeroM', 'infsum', 'nancen', 'nanM', 'hugecov']
FAULTS = ['GMixRangeError', 'MemoryError', 'Interrupt', 'KeyboardInterrupt']


def warm():
    import random
    r = random.Random(8)
    for _ in range(150):
        try:
            execute(generate(r, 'quick'), _Null())
        except Exception:
            pass


class _Null(object):
    def __getattr__(self, k):
        return lambda *a, **kw: None


def generate(rng, tier):
    kind = rng.choice(['gap', 'gap', 'mom'])
    n = rng.choice([1, 2, 3, 5, 8, 13])
    pbad = rng.choice([0.1, 0.35, 0.8])
    mem = []
    for _ in range(n):
        b = None
        if rng.random() < pbad:
            if kind == 'gap':
                b = rng.choice(BAD if rng.random() < 0.65 else ODD)
            else:
                b = rng.choice(MBAD)
        mem.append(dict(s=rng.randrange(1 << 31), b=b,
                        band=rng.randrange(3)))
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        if kind == 'gap':
            op = dict(k=rng.choice(['batch', 'batch', 'batch', 'threads']),
                      form=rng.choice(['f8', 'f8', 'f4', 'list', 'fortran',
                                       'strided', 'readonly']),
                      mask=[] if rng.random() < 0.5 else
                      [rng.randrange(n) for _ in range(rng.choice(
                          [1, 1, 2, n]))],
                      mform=rng.choice(['bool', 'int', 'list', 'flags', 'float']),
                      verbose=rng.random() < 0.3)
            op['fwhm'] = rng.choice([1.2, 0.3, 4.0, 2.5])
        else:
            op = dict(k=rng.choice(['results', 'results', 'regularize',
                                    'regularize', 'coadd', 'coadd',
                                    'measure', 'measure']),
                      norm=rng.random() < 0.5, ho=rng.random() < 0.3)
            op['fwhm'] = rng.choice([1.2, 0.3, 0.8, 0.0, 2.5])
            op['off'] = rng.random() < 0.3
            op['maxrad'] = rng.choice([None, None, 1.0, 0.6, 0.05])
        perm = list(range(n))
        if rng.random() < 0.7:
            rng.shuffle(perm)
        if rng.random() < 0.3:
            perm = [rng.randrange(n) for _ in range(rng.choice([1, 2, n]))]
        if kind == 'gap' and op['k'] == 'batch' and rng.random() < .01:
            # a long batch, the same members again and again
            big = rng.choice([120, 300, 1003, 2100])
            perm = [rng.randrange(n) for _ in range(big)]
            op['long'] = True
        op['perm'] = perm
        if op['k'] == 'threads':
            op['sched'] = [[rng.randrange(2), rng.choice([1, 3, 9, 40])]
                           for _ in range(rng.randrange(1, 12))]
        elif 'long' not in op and rng.random() < 0.3:
            op['inject'] = dict(f=rng.random(), e=rng.choice(FAULTS))
        ops.append(op)
    return dict(kind=kind, model=rng.choice(MODELS), nb=rng.choice([1, 2, 3]),
                mem=mem, ops=ops)


def shrink(spec):
    for i, o in enumerate(spec['ops']):
        if 'inject' in o:
            p = dict(o)
            del p['inject']
            yield dict(spec, ops=spec['ops'][:i] + [p] + spec['ops'][i + 1:])
        if o.get('mask'):
            yield dict(spec, ops=spec['ops'][:i] + [dict(o, mask=[])] +
                       spec['ops'][i + 1:])
        if len(o['perm']) > 30:
            h = len(o['perm']) // 2
            for p in (o['perm'][:h], o['perm'][h:]):
                yield dict(spec, ops=spec['ops'][:i] + [dict(o, perm=p)] +
                           spec['ops'][i + 1:])
        elif len(o['perm']) > 1:
            for j in range(len(o['perm'])):
                p = o['perm'][:j] + o['perm'][j + 1:]
                yield dict(spec, ops=spec['ops'][:i] + [dict(o, perm=p)] +
                           spec['ops'][i + 1:])
    for i, m in enumerate(spec['mem']):
        if m['b']:
            yield dict(spec, mem=spec['mem'][:i] + [dict(m, b=None)] +
                       spec['mem'][i + 1:])


def execute(spec, ctx):
    np.seterr(all='ignore')
    if any(m['b'] for m in spec['mem']):
        ctx.count('nontrivial')
        for m in spec['mem']:
            if m['b']:
                ctx.count('bad:%s' % m['b'])
    if spec['kind'] == 'gap':
        run_gap(spec, ctx)
    else:
        run_mom(spec, ctx)


# ---------------------------------------------------------------- fluxes

def gap_member(m, model, nb):
    """(parameters, fracdev, TdByTe) of one object"""
    rs = np.random.RandomState(m['s'])
    g = rs.uniform(0, 0.9)
    th = rs.uniform(0, 2 * np.pi)
    p = [rs.normal(), rs.normal(), g * np.cos(th), g * np.sin(th),
         10 ** rs.uniform(-3, 1.5)]
    if model == 'bdf':
        p.append(rs.uniform(0, 1))
    p += list(10 ** rs.uniform(-2, 4, size=nb))
    fd, td = rs.uniform(0, 1), 10 ** rs.uniform(-1, 1)
    b = m['b']
    fl = len(p) - nb + m['band'] % nb
    nan, inf = np.nan, np.inf
    if b == 'g1':
        p[2:4] = [1.0, 0.0]
    elif b == 'gbig':
        p[2:4] = [0.9, -0.9]
    elif b == 'gedge':
        p[2:4] = [0.9999, 0.0]
    elif b == 'gnan':
        p[2 + m['s'] % 2] = nan
    elif b == 'ginf':
        p[2 + m['s'] % 2] = inf
    elif b == 'Tnan':
        p[4] = nan
    elif b == 'Tinf':
        p[4] = inf
    elif b in ('Fnan', 'Finf', 'Fninf'):
        p[fl] = {'Fnan': nan, 'Finf': inf, 'Fninf': -inf}[b]
    elif b == 'cennan':
        p[m['s'] % 2] = nan
    elif b == 'T0':
        p[4] = 0.0
    elif b == 'Tneg':
        p[4] = -2.0
    elif b == 'Ttiny':
        p[4] = 1e-25
    elif b == 'F0':
        p[fl] = 0.0
    elif b == 'Fneg':
        p[fl] = -7.0
    elif b in ('fdnan', 'fdinf', 'fd2', 'fd-1'):
        fd = {'fdnan': nan, 'fdinf': inf, 'fd2': 2.0, 'fd-1': -1.0}[b]
        if model == 'bdf':
            p[5] = fd
    elif b in ('tdnan', 'tdinf', 'td0', 'tdneg', 'td-1'):
        td = {'tdnan': nan, 'tdinf': inf, 'td0': 0.0, 'tdneg': -0.3,
              'td-1': -1.0}[b]
        if b == 'td-1':
            fd = 0.5
    return p, fd, td


def gap_expect(m, model, nb, par):
    """per band: 'bad', 'good' or 'odd' (judged against itself alone)"""
    b = m['b']
    if b is None or b in ('T0', 'Tneg', 'Ttiny', 'F0', 'Fneg', 'gedge'):
        return ['good'] * nb
    if b[:2] in ('fd', 'td'):
        if model == 'cm':
            return ['bad' if b[2:] in ('nan', 'inf') else 'odd'] * nb
        if model == 'bdf' and b[:2] == 'fd':
            return ['bad' if b[2:] in ('nan', 'inf') else 'odd'] * nb
        return ['good'] * nb
    if b[0] == 'F':
        i = m['band'] % nb
        return ['bad' if j == i else 'good' for j in range(nb)]
    if b == 'cennan':
        return ['odd'] * nb
    return ['bad'] * nb


def gap_formula(par, fd, td, model, band, nb, fwhm):
    """aperture flux of one object from the gaussians of its model"""
    import ngmix
    p = np.zeros(7 if model == 'bdf' else 6)
    p[:-1] = par[:len(p) - 1]
    p[-1] = par[len(p) - 1 + band]
    p[4] = max(p[4], 0.0001)
    if model == 'cm':
        gm = ngmix.gmix.GMixCM(fd, td, p)
    else:
        gm = ngmix.GMixModel(p, model)
    d = gm.get_data()
    s2 = (fwhm / (2 * np.sqrt(2 * np.log(2)))) ** 2
    tot = 0.0
    for c in d:
        det = (1 + c['irr'] / s2) * (1 + c['icc'] / s2) \
            - (c['irc'] / s2) ** 2
        tot += c['p'] / np.sqrt(det)
    scale = np.abs(d['p']).sum()
    return tot, scale


def as_form(a, form):
    a = np.array(a, dtype='f8')
    if form == 'f4':
        return a.astype('f4')
    if form == 'list':
        return a.tolist()
    if form == 'fortran':
        return np.asfortranarray(a)
    if form == 'strided':
        b = np.zeros(tuple(2 * x for x in a.shape))
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    if form == 'readonly':
        a.setflags(write=False)
    return a


def gap_call(spec, op, perm, masked):
    """arguments of one batch"""
    model, nb = spec['model'], spec['nb']
    mem = [gap_member(spec['mem'][i], model, nb) for i in perm]
    pars = as_form([m[0] for m in mem], op['form'])
    kw = {}
    if model == 'cm':
        kw['fracdev'] = as_form([m[1] for m in mem], op['form'])
        kw['TdByTe'] = as_form([m[2] for m in mem], op['form'])
    if op['mask']:
        mask = np.array([i not in masked for i in perm])
        if op['mform'] == 'int':
            mask = mask.astype('i4')
        elif op['mform'] == 'flags':
            # any number but zero stands for true
            mask = mask * np.array([(2, 4, 1, 7)[i % 4] for i in perm])
        elif op['mform'] == 'float':
            mask = mask * 0.5
        elif op['mform'] == 'list':
            mask = mask.tolist()
        kw['mask'] = mask
    if not op['verbose']:
        kw['verbose'] = False
    return (pars, model, op['fwhm']), kw


def run_gap(spec, ctx):
    from ngmix.gaussap import get_gaussap_flux
    model, nb = spec['model'], spec['nb']
    alone = {}

    def single(i, op):
        k = (i, op['form'] == 'f4', op['fwhm'])
        if k not in alone:
            o = dict(op, mask=[], form='f4' if op['form'] == 'f4' else 'f8')
            a, kw = gap_call(spec, o, [i], ())
            alone[k] = get_gaussap_flux(*a, **kw)
        return alone[k]

    def judge(op, perm, masked, out):
        flux, flags = out
        ctx.check(flux.shape == (len(perm), nb) and
                  flags.shape == (len(perm), nb), 'shape',
                  lambda: 'batch of %d gives %s %s' % (
                      len(perm), flux.shape, flags.shape))
        for r, i in enumerate(perm):
            m = spec['mem'][i]
            ctx.step()
            if i in masked:
                ctx.check(np.all(flags[r] == NO_ATTEMPT) and
                          np.all(np.isnan(flux[r])), 'masked-entry',
                          lambda: 'masked: %s %s' % (flux[r], flags[r]))
                continue
            sf, sl = single(i, op)
            ctx.check(np.array_equal(flux[r], sf[0], equal_nan=True) and
                      np.array_equal(flags[r], sl[0]), 'not-isolated',
                      lambda: 'entry %d (%s) is %s %s, alone %s %s' % (
                          r, m['b'], flux[r], flags[r], sf[0], sl[0]))
            par, fd, td = gap_member(m, model, nb)
            if op['form'] == 'f4':
                par = list(np.array(par, dtype='f4').astype('f8'))
                fd, td = float(np.float32(fd)), float(np.float32(td))
            for b, e in enumerate(gap_expect(m, model, nb, par)):
                f, fl = flux[r, b], flags[r, b]
                ctx.check((fl == 0) == bool(np.isfinite(f)), 'flag-and-value',
                          lambda: '%s: flux %s flags %s' % (m['b'], f, fl))
                if e == 'bad':
                    ctx.check(fl == RANGE, 'bad-not-flagged',
                              lambda: '%s %s: flux %s flags %s' % (
                                  model, m['b'], f, fl))
                elif e == 'good':
                    ctx.check(fl == 0, 'good-flagged',
                              lambda: '%s %s %s' % (m['b'], fl, par))
                    ref, sc = gap_formula(par, fd, td, model, b, nb,
                                          op['fwhm'])
                    ctx.check(abs(f - ref) <= 1e-7 * sc, 'wrong-flux',
                              lambda: '%s %s: %r is not %r' % (
                                  model, par, f, ref))

    for op in spec['ops']:
        perm = [i for i in op['perm'] if i < len(spec['mem'])]
        if not perm:
            continue
        masked = set(op['mask'])
        if masked:
            ctx.count('nontrivial')
        args, kw = gap_call(spec, op, perm, masked)
        before = canon([list(args), kw])
        if op['k'] == 'threads':
            outs = [None, None]
            args2, kw2 = gap_call(spec, op, perm[::-1], masked)

            def job(j, a, k):
                def f():
                    outs[j] = get_gaussap_flux(*a, **k)
                return f
            sch = Scheduler([job(0, args, kw), job(1, args2, kw2)],
                            [tuple(x) for x in op['sched']])
            sch.run()
            if sch.overlapped:
                ctx.count('nontrivial')
                ctx.count('overlap')
                ctx.interleaving(tuple(sch.order))
            judge(op, perm, masked, outs[0])
            judge(op, perm[::-1], masked, outs[1])
        elif 'inject' in op:
            n, ref = count_statements(lambda: get_gaussap_flux(*args, **kw))
            judge(op, perm, masked, ref)
            at = 1 + int(op['inject']['f'] * n)
            t, out, exc = run_with_fault(
                lambda: get_gaussap_flux(*args, **kw), at, op['inject']['e'])
            if t.fired:
                ctx.count('nontrivial')
                ctx.fault(op['inject']['e'])
            if exc is None:
                nd = ~((ref[0] == out[0]) | (np.isnan(ref[0]) &
                                             np.isnan(out[0]))) | \
                    (ref[1] != out[1])
                ctx.check(nd.sum() <= 1, 'fault-spreads',
                          lambda: '%s entries changed by one %s' % (
                              nd.sum(), op['inject']['e']))
                if nd.any():
                    ctx.check(np.all(out[1][nd] == RANGE) and np.all(
                        np.isnan(out[0][nd]) | (out[0] == ref[0])[nd]),
                              'fault-hidden',
                              lambda: '%s in %s gives %s flags %s' % (
                                  op['inject']['e'], t.where, out[0][nd],
                                  out[1][nd]))
                    ctx.check(op['inject']['e'] == 'GMixRangeError',
                              'fault-hidden', lambda: '%s in %s caught' % (
                                  op['inject']['e'], t.where))
            again = get_gaussap_flux(*args, **kw)
            judge(op, perm, masked, again)
            ctx.log('inject', at, type(exc).__name__)
        else:
            out = get_gaussap_flux(*args, **kw)
            judge(op, perm, masked, out)
            ctx.log('batch', canon(list(out)))
        d = diff(before, canon([list(args), kw]))
        ctx.check(d is None, 'input-changed', lambda: d)
        ctx.count('op:' + op['k'])
        ctx.state((op['k'], model, nb, op['form'], tuple(sorted(
            {str(spec['mem'][i]['b']) for i in perm})), bool(masked)))


# --------------------------------------------------------------- moments

NAMES = {'Mv': 0, 'Mu': 1, 'M1': 2, 'M2': 3, 'MT': 4, 'MF': 5, 'M00': 5,
         'M10': 1, 'M01': 0, 'M11': 4, 'M20': 2, 'M02': 3, 'M21': 6,
         'M12': 7, 'M30': 8, 'M03': 9, 'M22': 10, 'M31': 11, 'M13': 12,
         'M40': 13, 'M14': 14, 'M33': 15, 'M44': 16}


def mom_sums(m, n):
    """sums and their covariance of one object"""
    rs = np.random.RandomState(m['s'])
    f = 10 ** rs.uniform(-1, 4)
    T = 10 ** rs.uniform(-1, 1)
    s = rs.normal(size=n) * f
    s[:6] = [rs.normal() * f * 0.1, rs.normal() * f * 0.1,
             f * T * rs.uniform(-.5, .5), f * T * rs.uniform(-.5, .5),
             f * T, f]
    a = rs.normal(size=(n, n)) * f * 10 ** rs.uniform(-3, -0.5)
    c = a @ a.T + np.eye(n) * 1e-12
    b = m['b']
    i = m['s'] % 6
    if b == 'nansum':
        s[i] = np.nan
    elif b == 'infsum':
        s[i] = np.inf
    elif b == 'nanvar':
        c[i, i] = np.nan
    elif b == 'zerovar':
        c[i, :] = 0
        c[:, i] = 0
    elif b == 'negvar':
        c[i, i] = -c[i, i]
    elif b == 'zeroflux':
        s[5] = 0.0
    elif b == 'negflux':
        s[5] = -s[5]
    elif b == 'negT':
        s[4] = -s[4]
    elif b == 'zeroT':
        s[4] = 0.0
    elif b == 'zeroM':
        s[2 + i % 2] = 0.0
    elif b == 'nanM':
        s[2 + i % 2] = np.nan
    elif b == 'nancen':
        s[0:2] = np.nan
    elif b == 'hugecov':
        c *= 1e30
    return s, c


def ratio_err(a, b, va, vb, cab):
    """error of a/b, and the size of the terms it is made from"""
    r2 = (a / b) ** 2
    t = np.array([va / a ** 2, vb / b ** 2, -2 * cab / (a * b)])
    v = r2 * t.sum()
    return (np.sqrt(max(v, 0.0)) if v == v else np.nan), \
        r2 * np.abs(t).sum()


def mom_reference(s, c, norm):
    """what one set of sums has to give, from its own numbers alone"""
    r = {}
    nan = np.nan
    F, T = s[5], s[4]
    vF, vT = c[5, 5], c[4, 4]
    r['flux'] = F
    r['sums'], r['sums_cov'] = s, c
    r['sums_norm'] = norm
    r['flux_flags'] = 0
    r['flux_err'] = r['s2n'] = nan
    if vF > 0:
        r['flux_err'] = np.sqrt(vF)
        r['s2n'] = F / np.sqrt(vF)
    else:
        r['flux_flags'] |= NONPOS_VAR
    if not np.isfinite(F):
        r['flux_flags'] |= NONPOS_FLUX
    r['T'] = r['T_err'] = nan
    r['T_flags'] = 0
    scale = {}
    if not (vF > 0 and vT > 0):
        r['T_flags'] |= NONPOS_VAR
    elif not F > 0:
        r['T_flags'] |= NONPOS_FLUX
    else:
        r['T'] = T / F
        r['T_err'], scale['T_err'] = ratio_err(T, F, vT, vF, c[4, 5])
        if not np.isfinite(r['T']):
            r['T_flags'] |= NONPOS_SIZE
    r['flags'] = 0
    d = np.diagonal(c)
    r['sums_err'] = np.full(6, nan)
    r['e'] = np.full(2, nan)
    r['e_err'] = np.full(2, nan)
    if np.all(d > 0):
        r['sums_err'] = np.sqrt(d)
        if not F > 0:
            r['flags'] |= NONPOS_FLUX
        elif not r['T'] > 0:
            r['flags'] |= NONPOS_SIZE
        else:
            r['e'] = s[2:4] / T
            e = [ratio_err(s[i], T, c[i, i], vT, c[i, 4]) for i in (2, 3)]
            ee = np.array([x[0] for x in e])
            if np.all(np.isfinite(ee)):
                r['e_err'] = ee
                scale['e_err'] = np.array([x[1] for x in e])
            else:
                r['flags'] |= NONPOS_SHAPE
    else:
        r['flags'] |= NONPOS_VAR
    for n, i in NAMES.items():
        if i >= len(s):
            continue
        if i == 5:
            r[n], r[n + '_err'] = F, np.sqrt(vF)
        elif F > 0:
            r[n] = s[i] / F
            r[n + '_err'], scale[n + '_err'] = ratio_err(
                s[i], F, c[i, i], vF, c[i, 5])
        else:
            r[n] = r[n + '_err'] = nan
    return r, scale


def same_result(ctx, got, want, scale, what, skip=(), rtol=1e-9):
    for k, w in want.items():
        if k in skip:
            continue
        ctx.check(k in got, 'entry-missing', lambda: '%s: %s' % (what, k))
        g, w = np.asarray(got[k], dtype='f8'), np.asarray(w, dtype='f8')
        ctx.check(g.shape == w.shape, 'entry-shape', lambda: '%s: %s' % (
            what, k))
        if k in scale:
            # differences of near equal terms: compare squares
            g2, w2 = g ** 2, w ** 2
            ok = np.isclose(g2, w2, rtol=1e-6, atol=0, equal_nan=True) | \
                (np.abs(g2 - w2) <= 1e-9 * np.asarray(scale[k]))
        else:
            ok = np.isclose(g, w, rtol=rtol, atol=0, equal_nan=True)
        ctx.check(np.all(ok), 'wrong-entry', lambda: '%s: %s is %s not %s' % (
            what, k, g, w))
    if got['flags'] != 0:
        ctx.check(not np.all(np.isfinite(got['e_err'])) and not
                  np.all(np.isfinite(np.append(got['e'], got['e_err']))),
                  'flagged-but-defined', lambda: '%s: e %s +- %s' % (
                      what, got['e'], got['e_err']))


def regular_reference(r, fwhm):
    """(T + T_reg) in place of T in the shapes; the rest as it was"""
    Treg = 2 * (fwhm / 2.3548200450309493) ** 2
    s, c = np.array(r['sums']), np.array(r['sums_cov'])
    a = np.eye(6)
    a[4, 5] = Treg
    s2 = s.copy()
    s2[4] = s[4] + Treg * s[5]
    c2 = a @ c @ a.T
    return s2, c2


def sum_reference(ctx, wt, w2, obs_list, maxrad, n):
    """sums over the used pixels of several images, in plain numpy"""
    wT, wflux, v0, u0 = wt
    s, c = np.zeros(n), np.zeros((n, n))
    wsum, npix = 0.0, 0
    mags = np.zeros(n)
    for o in obs_list:
        r, q = np.mgrid[:o.image.shape[0], :o.image.shape[1]]
        v, u = o.jacobian.get_vu(r.astype('f8'), q.astype('f8'))
        im, wg = o.image, o.weight
        use = wg > 0
        dv, du = v - v0, u - u0
        r2 = dv ** 2 + du ** 2
        use = use & (r2 < maxrad ** 2)
        v, u, dv, du, r2 = (x[use] for x in (v, u, dv, du, r2))
        chi2 = r2 / (wT / 2)
        w = wflux / (2 * np.pi * wT / 2) * np.exp(-0.5 * chi2)
        w *= o.jacobian.area
        F = [v, u, du ** 2 - dv ** 2, 2 * dv * du, r2, np.ones(v.size)]
        if n == 17:
            F += [du * r2, dv * r2, du * (du ** 2 - 3 * dv ** 2),
                  dv * (3 * du ** 2 - dv ** 2), r2 ** 2,
                  r2 * (du ** 2 - dv ** 2), r2 * 2 * du * dv,
                  du ** 4 - 6 * du ** 2 * dv ** 2 + dv ** 4,
                  (du ** 2 - dv ** 2) * 4 * du * dv, r2 ** 3, r2 ** 4]
        F = np.array(F)
        s += (F * (w * im[use])).sum(axis=1)
        mags += np.abs(F * (w * im[use])).sum(axis=1)
        c += (F * (w ** 2 / wg[use])) @ F.T
        wsum += w.sum()
        npix += w.size
    return s, c, wsum, npix, mags


def mom_obs(m):
    import ngmix
    rs = np.random.RandomState(m['s'])
    dims = (rs.randint(6, 13), rs.randint(6, 13))
    sc = rs.uniform(0.15, 0.35)
    jac = ngmix.Jacobian(
        row=(dims[0] - 1) / 2 + rs.uniform(-.5, .5),
        col=(dims[1] - 1) / 2 + rs.uniform(-.5, .5),
        dvdrow=sc * rs.uniform(.9, 1.1), dvdcol=sc * rs.uniform(-.2, .2),
        dudrow=sc * rs.uniform(-.2, .2), dudcol=sc * rs.uniform(.9, 1.1))
    r, q = np.mgrid[:dims[0], :dims[1]]
    v, u = jac.get_vu(r.astype('f8'), q.astype('f8'))
    im = 50 * np.exp(-0.5 * (v ** 2 + u ** 2 + 0.4 * u * v) / 0.15)
    im += rs.normal(size=dims)
    wt = rs.uniform(0.5, 2, size=dims)
    b = m['b']
    if b in ('nansum', 'nancen', 'nanM'):
        im[dims[0] // 2, dims[1] // 2] = np.nan
    elif b == 'infsum':
        im[dims[0] // 2, dims[1] // 2] = np.inf
    elif b in ('zeroflux', 'zeroM'):
        im[:] = 0
    elif b == 'negflux':
        im = -im
    elif b == 'negT':
        im = 5.0 - im
        im[dims[0] // 2, dims[1] // 2] = 1e5
    elif b == 'zeroT':
        wt[:, 1:] = 0
    elif b == 'zerovar':
        wt[:-1] = 0
    elif b == 'hugecov':
        wt *= 1e-30
    elif b in ('nanvar', 'negvar'):
        wt[1, 1] = -1.0
    return ngmix.Observation(im, weight=wt, jacobian=jac)


def run_mom(spec, ctx):
    import ngmix
    mm = ngmix.moments
    obs = {}

    def get_obs(i):
        if i not in obs:
            obs[i] = mom_obs(spec['mem'][i])
        return obs[i]

    done = {}

    for op in spec['ops']:
        perm = [i for i in op['perm'] if i < len(spec['mem'])]
        if not perm:
            continue
        n = 17 if op['ho'] else 6
        k = op['k']
        inj = op.get('inject')
        tool = None
        if k == 'measure':
            tool = ngmix.gaussmom.GaussMom(fwhm=op['fwhm'] or 1.2,
                                           with_higher_order=op['ho'])
        # one fault in one of the entries, the others must not notice
        hit = None
        if inj and k != 'coadd':
            hit = int(inj['f'] * 997) % len(perm)

        if k == 'coadd':
            coadd(spec, ctx, op, perm, get_obs, n)
            continue

        for r, i in enumerate(perm):
            m = spec['mem'][i]
            ctx.step()
            if k == 'measure':
                o = get_obs(i)
                inputs = [o]
                what = 'measure %s' % m['b']

                def call():
                    return tool.go(o)
            else:
                s, c = mom_sums(m, 6 if k == 'regularize' else n)
                inputs = [s, c]
                what = '%s %s' % (k, m['b'])
                norm = 3.5 if op['norm'] else None
                if k == 'results':
                    def call():
                        if op['norm']:
                            return mm.make_mom_result(s, c, norm)
                        return mm.make_mom_result(s, c)
                else:
                    res0 = mm.make_mom_result(s, c, norm)
                    inputs = [s, c, res0]

                    def call():
                        return mm.regularize_mom_shapes(res0, op['fwhm'])
            before = canon(inputs)
            if r == hit:
                cnt, _ = count_statements(call)
                at = 1 + int(inj['f'] * cnt)
                t, out, exc = run_with_fault(call, at, inj['e'])
                if t.fired:
                    ctx.count('nontrivial')
                    ctx.fault(inj['e'])
                    ctx.check(exc is not None, 'fault-hidden',
                              lambda: '%s in %s (%s) is lost' % (
                                  inj['e'], t.where, what))
                d = diff(before, canon(inputs))
                ctx.check(d is None, 'input-changed', lambda: '%s: %s' % (
                    what, d))
            out = call()
            d = diff(before, canon(inputs))
            ctx.check(d is None, 'input-changed', lambda: '%s: %s' % (what, d))
            if k == 'measure':
                key = (k, i, op['fwhm'], op['ho'])
            else:
                key = (k, i, op['fwhm'], n, op['norm'])
            cn = canon({a: b for a, b in out.items() if a != 'F'})
            if key in done:
                d = diff(done[key], cn)
                ctx.check(d is None, 'not-isolated', lambda: '%s again: %s' % (
                    what, d))
            else:
                done[key] = cn
            if k == 'results':
                ref, sc = mom_reference(s, c, np.nan if norm is None
                                        else norm)
                same_result(ctx, out, ref, sc, what)
                if m['b'] is None:
                    ctx.check(out['flags'] == 0, 'good-flagged',
                              lambda: out['flagstr'])
            elif k == 'regularize':
                if op['fwhm'] == 0:
                    cn2 = canon(res0)
                    d = diff(cn2, canon(out))
                    ctx.check(d is None, 'not-identity', lambda: d)
                    continue
                s2, c2 = regular_reference(res0, op['fwhm'])
                ref, sc = mom_reference(s2, c2, np.nan)
                for x in ('T', 'T_err', 'T_flags'):
                    ref[x] = res0[x]
                sc.pop('T_err', None)
                was = ref['flags']
                ref['flags'] = was | res0['flags']
                names = [x for x in NAMES] + [x + '_err' for x in NAMES]
                fin = np.all(np.isfinite(res0['sums'])) and \
                    np.all(np.isfinite(res0['sums_cov']))
                if fin or m['b'] == 'nancen':
                    skip = ['sums_norm'] + (names if m['b'] == 'nancen'
                                            else [])
                    same_result_reg(ctx, out, ref, sc, what, skip,
                                    bool(res0['flags']))
                ctx.check((out['flags'] & res0['flags']) == res0['flags'],
                          'flag-lost', lambda: '%s: %s then %s' % (
                              what, res0['flagstr'], out['flagstr']))
            elif k == 'measure':
                judge_measure(ctx, op, out, get_obs(i), n, what)
            ctx.log(k, i, out['flags'])
            ctx.count('op:' + k)
            ctx.state((k, n, m['b'], int(out['flags']),
                       int(out['flux_flags']), int(out['T_flags'])))


def same_result_reg(ctx, out, ref, sc, what, skip, was_bad):
    """sums with a cancelling T are compared at the size of their terms"""
    skip = set(skip) | {'sums_err'}
    same_result(ctx, dict(out, flags=0) if was_bad else out,
                {k: v for k, v in ref.items() if k != 'flags'}, sc, what,
                skip, rtol=1e-7)
    ctx.check(out['flags'] == ref['flags'], 'wrong-flags',
              lambda: '%s: %s not %s' % (what, out['flags'], ref['flags']))


def judge_measure(ctx, op, out, o, n, what):
    fwhm = op['fwhm'] or 1.2
    T = 2 * (fwhm / 2.3548200450309493) ** 2
    sig = np.sqrt(T / 2)
    with np.errstate(all='ignore'):
        s, c, wsum, npix, mags = sum_reference(
            ctx, (T, 2 * np.pi * sig ** 2, 0.0, 0.0), None, [o], 100 * sig, n)
        area = o.jacobian.area
        s, c, wsum, mags = s / area, c / area ** 2, wsum / area, mags / area
    cmp_sums(ctx, out['sums'], out['sums_cov'], out['wsum'], out['npix'],
             s, c, wsum, npix, mags, what)
    ref, sc = mom_reference(np.array(out['sums']), np.array(out['sums_cov']),
                            out['wsum'])
    same_result(ctx, out, ref, sc, what, rtol=1e-9)


def cmp_sums(ctx, s, c, wsum, npix, s2, c2, wsum2, npix2, mags, what):
    ctx.check(npix == npix2, 'wrong-pixels', lambda: '%s: %s not %s' % (
        what, npix, npix2))
    ctx.check(np.isclose(wsum, wsum2, rtol=1e-9), 'wrong-sums',
              lambda: '%s: weight sum %r not %r' % (what, wsum, wsum2))
    bad = ~np.isfinite(s2)
    ctx.check(np.all(np.isfinite(s) == ~bad), 'wrong-sums',
              lambda: '%s: %s not %s' % (what, s, s2))
    ok = np.abs(s - s2) <= 1e-8 * mags
    ctx.check(np.all(ok | bad), 'wrong-sums', lambda: '%s: %s not %s' % (
        what, s, s2))
    d = np.sqrt(np.abs(np.outer(np.diag(c2), np.diag(c2))))
    ctx.check(np.all(np.abs(c - c2) <= 1e-8 * d + 1e-300), 'wrong-sums',
              lambda: '%s: covariance differs' % what)


def coadd(spec, ctx, op, perm, get_obs, n):
    """sums of several images added up, in more than one order"""
    import ngmix
    from ngmix.gmix import get_weighted_moments_stats
    fwhm = op['fwhm'] or 1.2
    T = 2 * (fwhm / 2.3548200450309493) ** 2
    sig = np.sqrt(T / 2)
    v0, u0 = (0.13, -0.21) if op['off'] else (0.0, 0.0)
    wt = ngmix.GMixModel([v0, u0, 0.0, 0.0, T, 2 * np.pi * sig ** 2],
                         'gauss')
    maxrad = op['maxrad']
    inj = op.get('inject')
    list_ = [get_obs(i) for i in perm]
    before = canon(list_)

    def one(order, fault=False):
        res = None
        for j, o in enumerate(order):
            kw = dict(maxrad=maxrad, with_higher_order=op['ho'])
            if res is not None:
                kw['res'] = res
            if fault and j == int(inj['f'] * 997) % len(order) and \
                    res is not None:
                # the sums are either those before or those after
                was = res.copy()
                cnt, _ = count_statements(
                    lambda: wt.get_weighted_sums(o, **kw))
                after = res.copy()
                put(res, was)
                t, out, exc = run_with_fault(
                    lambda: wt.get_weighted_sums(o, **kw),
                    1 + int(inj['f'] * cnt), inj['e'])
                if t.fired:
                    ctx.count('nontrivial')
                    ctx.fault(inj['e'])
                    ctx.check(exc is not None, 'fault-hidden', 'lost')
                same = [diff(canon(strip(x)), canon(strip(res)))
                        for x in (was, after)]
                ctx.check(None in same, 'torn-sums', lambda: same[0])
                put(res, after)
            else:
                res = wt.get_weighted_sums(o, **kw)
        return res

    a = one(list_, fault=bool(inj))
    b = one(list_[::-1])
    with np.errstate(all='ignore'):
        s, c, wsum, npix, mags = sum_reference(
            ctx, (T, 2 * np.pi * sig ** 2, v0, u0), None, list_,
            maxrad if maxrad is not None else 100 * sig, n)
    for x, what in ((a, 'sum'), (b, 'sum in reverse')):
        cmp_sums(ctx, x['sums'], x['sums_cov'], x['wsum'], x['npix'],
                 s, c, wsum, npix, mags, what)
        st = get_weighted_moments_stats(x)
        ref, sc = mom_reference(np.array(x['sums']), np.array(x['sums_cov']),
                                x['wsum'])
        same_result(ctx, st, ref, sc, what)
        ctx.check(np.array_equal(st['sums'], x['sums'], equal_nan=True),
                  'not-isolated', 'sums')
    d = diff(before, canon(list_))
    ctx.check(d is None, 'input-changed', lambda: d)
    ctx.log('coadd', perm, float(a['wsum']))
    ctx.count('op:coadd')
    ctx.step()
    ctx.state(('coadd', n, len(perm), op['off'], maxrad))


def strip(res):
    return {n: np.array(res[n]) for n in res.dtype.names if n != 'F'}


def put(res, was):
    for n in res.dtype.names:
        res[n] = was[n]
