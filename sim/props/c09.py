"""C09: least squares survives a faulty objective and reports truthfully"""
import warnings

import numpy as np

from .. import zoo
from ..canon import canon

ID = 'C09'
RUNS = {'quick': 30000, 'thorough': 2000000}
TECH = ('scripted faults at chosen evaluations of the objective handed to '
        'the real least squares driver and fitters, outcome checked against '
        'the recorded evaluations')
RULE = ('a run is one least squares minimisation, of a generated objective '
        'given to the driver or of a real fit whose prior is generated, in '
        'which chosen evaluations raise, give non-finite or huge numbers, or '
        'lose rank, for one evaluation, for a while or for good, with tiny '
        'or ample limits and with or without bounds. Non-trivial: a fault '
        'was delivered or the limit was small')
STATE_MEASURE = 'signature (mode, faults delivered and when, limit, outcome)'
REAL = ['ngmix (least squares driver, bounded minimiser, fitters, fit '
        'models)', 'scipy minpack']
STUB = ['objective (raw mode)', 'prior (fitter mode)']
ASSUME = ['the guess is within the bounds and finite', 'stationarity is '
          'decided when no fault was delivered, or only faults before the '
          'first successful evaluation']
KEYS = ['errmsg', 'flags', 'ier', 'nfev', 'pars', 'pars_cov', 'pars_cov0',
        'pars_err']
EXC = {
    'zerodiv': (ZeroDivisionError, 'float division by zero'),
    'valnan': (ValueError, 'array must not contain infs or NaNs'),
    'linnan': (np.linalg.LinAlgError, 'Array must not contain infs or NaNs'),
    'value': (ValueError, 'the caller has a bug'),
    'runtime': (RuntimeError, 'cannot be computed'),
    'key': (KeyError, 'missing'),
    'memory': (MemoryError, 'no memory'),
    'os': (OSError, 'disk gone'),
    'interrupt': (KeyboardInterrupt, 'stop'),
    'type': (TypeError, 'not a number'),
    'lookup': (IndexError, 'out of range'),
    'range': (None, 'out of range'),
    'float': (FloatingPointError, 'overflow'),
}
NUMERIC = {'zerodiv': 'DIV_ZERO', 'valnan': 'LM_FUNC_NOTFINITE',
           'linnan': 'LM_FUNC_NOTFINITE'}
VALUES = ['nan', 'inf', 'ninf', 'nan1', 'inf1', 'ninf1', 'huge', 'zero',
          'const', 'dead']


def warm():
    zoo.warm()


def faults(rng, kinds):
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        k = rng.choice(kinds)
        at = rng.choice([1, 1, 2, 3, 4, 5, 7, 9, 12, 18, 25, 40])
        span = rng.choice([1, 1, 1, 2, 3, 6, 10 ** 6])
        out.append(dict(k=k, at=at, span=span))
    return out


def generate(rng, tier):
    if rng.random() < 0.15:
        return gen_fitter(rng)
    n = rng.choice([1, 2, 3, 4, 6])
    prior = rng.choice([0, 0, 0, 1, n])
    m = max(n, rng.choice([n, n + 1, n + 2, 2 * n + 1, 20, 40]))
    spec = dict(mode='raw', n=n, m=m, nprior=prior,
                seed=rng.randrange(2 ** 31), cond=rng.choice([1, 1, 10, 100]),
                nl=rng.choice([0, 0, 0.05, 0.3]),
                noise=rng.choice([0, 1, 1, 1, 1e-3]),
                off=rng.choice([0.1, 1, 1, 10]),
                kspace=rng.random() < 0.2,
                maxfev=rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 200, 4000]),
                tol=rng.choice([1e-5, 1e-5, 1e-8, 1e-3]),
                faults=faults(rng, list(EXC) + VALUES * 2),
                bounds=None, rank=rng.choice([None] * 9 + ['zero', 'same']))
    if rng.random() < 0.5:
        spec['bounds'] = [rng.choice(['none', 'lo', 'hi', 'both', 'both',
                                      'tight', 'cut', 'edge'])
                          for _ in range(n)]
    return spec


def gen_fitter(rng):
    op = zoo.OPS[rng.choice(['fit', 'fit', 'coellip', 'gsfit'])]
    p = op.gen(rng)
    p['t']['prior'] = None
    return dict(mode='fitter', p=p,
                maxfev=rng.choice([3, 8, 20, 60, 200]),
                bounds=rng.random() < 0.5,
                faults=faults(rng, list(EXC) + ['nan', 'inf', 'nan1',
                                                'inf1', 'huge']))


class Recorder(object):
    """counts evaluations and delivers the faults"""

    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.n = 0
        self.delivered = []
        self.raised = None
        self.last = None
        self.pars = []

    def which(self):
        for f in self.spec['faults']:
            if f['at'] <= self.n < f['at'] + f['span']:
                return f['k']
        return None

    def before(self, pars):
        import ngmix
        self.n += 1
        self.ctx.step()
        self.pars.append(np.array(pars, dtype='f8'))
        k = self.which()
        if k in EXC:
            cls, msg = EXC[k]
            cls = cls or ngmix.gexceptions.GMixRangeError
            self.note(k)
            self.raised = cls(msg)
            raise self.raised
        return k

    def note(self, k):
        self.delivered.append((self.n, k))
        self.ctx.fault(k)

    def spoil(self, k, r):
        r = np.array(r)
        if k is None:
            return r
        self.note(k)
        with np.errstate(all='ignore'):
            if k == 'nan':
                r[:] = np.nan
            elif k == 'inf':
                r[:] = np.inf
            elif k == 'ninf':
                r[:] = -np.inf
            elif k == 'nan1':
                r[r.size // 2] = np.nan
            elif k == 'inf1':
                r[-1] = np.inf
            elif k == 'ninf1':
                r[0] = -np.inf
            elif k == 'huge':
                r *= 1e60
            elif k == 'zero':
                r[:] = 0.0
            elif k == 'const':
                r[:] = 3.0
            elif k == 'dead':
                r[1:] = r[0]
        return r


class Objective(Recorder):
    def __init__(self, spec, ctx):
        super().__init__(spec, ctx)
        rs = np.random.RandomState(spec['seed'])
        n, m = spec['n'], spec['m']
        a = rs.normal(size=(m, n))
        q, _ = np.linalg.qr(a)
        sc = np.geomspace(1, spec['cond'], n) if n > 1 else np.ones(1)
        self.A = (q[:, :n] * sc) if m >= n else a
        if spec['rank'] == 'zero':
            self.A[:, 0] = 0.0
        elif spec['rank'] == 'same' and n > 1:
            self.A[:, 1] = self.A[:, 0]
        self.x = rs.uniform(-2, 2, size=n)
        self.b = self.A @ self.x + spec['noise'] * 0.1 * rs.normal(size=m)
        self.guess = self.x + spec['off'] * rs.uniform(-1, 1, size=n)
        self.prior = np.array(rs.normal(size=spec['nprior']))
        self.bounds = None
        if spec['bounds'] is not None:
            self.bounds = []
            for i, k in enumerate(spec['bounds']):
                lo = hi = None
                span = 3 * spec['off'] + 1
                if k in ('lo', 'both'):
                    lo = self.x[i] - span
                if k in ('hi', 'both'):
                    hi = self.x[i] + span
                if k == 'tight':
                    lo, hi = self.x[i] - 0.05, self.x[i] + 0.05
                if k == 'cut':
                    lo = self.x[i] + 0.2
                if k == 'edge':
                    lo = min(self.guess[i], self.x[i] - 0.1)
                self.bounds.append((lo, hi))
                if lo is not None and hi is not None:
                    self.guess[i] = np.clip(self.guess[i], lo + 1e-3 *
                                            (hi - lo), hi - 1e-3 * (hi - lo))
                elif lo is not None:
                    self.guess[i] = max(self.guess[i],
                                        lo if k == 'edge' else lo + 1e-3)
                elif hi is not None:
                    self.guess[i] = min(self.guess[i], hi - 1e-3)

    def clean(self, p):
        d = p - self.x
        with np.errstate(all='ignore'):
            y = self.A @ p - self.b + self.spec['nl'] * (self.A @ d ** 2)
        return np.concatenate([self.prior, y])

    def __call__(self, pars):
        k = self.before(pars)
        r = self.spoil(k, self.clean(np.array(pars, dtype='f8')))
        self.last = r.copy()
        return r


def bounds_ok(ctx, rec, bounds):
    if bounds is None:
        return
    for i, p in enumerate(rec.pars):
        for v, (lo, hi) in zip(p, bounds):
            if not np.isfinite(v):
                continue
            tol = 1e-9 * (1 + abs(v))
            ctx.check((lo is None or v >= lo - tol)
                      and (hi is None or v <= hi + tol), 'out-of-bounds',
                      lambda: 'evaluation %d at %s, bounds %s, %s' % (
                          i, v, lo, hi))


def check_common(spec, ctx, rec, res, npar, nprior, kspace, bounds, maxfev):
    import ngmix
    F = ngmix.flags
    fl = res['flags']
    ctx.check(isinstance(fl, (int, np.integer)) and fl >= 0, 'result',
              lambda: 'flags %r' % (fl,))
    for k in KEYS:
        ctx.check(k in res, 'missing-entry',
                  lambda: '%s not in the result with flags %s' % (k, fl))
    ctx.check(np.shape(res['pars']) == (npar,)
              and np.shape(res['pars_err']) == (npar,)
              and np.shape(res['pars_cov']) == (npar, npar), 'shape',
              lambda: 'shapes %s %s %s flags %s' % (
                  np.shape(res['pars']), np.shape(res['pars_err']),
                  np.shape(res['pars_cov']), fl))
    limit = maxfev if maxfev else 200 * (npar + 1)
    ctx.check(rec.n <= limit + npar + 4, 'over-limit',
              lambda: '%d evaluations, limit %d' % (rec.n, limit))
    bounds_ok(ctx, rec, bounds)
    # flags and their causes
    raised = [k for _, k in rec.delivered if k in EXC]
    last = rec.delivered[-1][1] if raised else None
    if fl & F.DIV_ZERO:
        ctx.check(last == 'zerodiv', 'wrong-cause', 'DIV_ZERO without one')
    if last == 'zerodiv':
        ctx.check(fl == F.DIV_ZERO, 'wrong-cause',
                  lambda: 'division by zero gives flags %s' % fl)
    if last in ('valnan', 'linnan'):
        ctx.check(fl == F.LM_FUNC_NOTFINITE, 'wrong-cause',
                  lambda: 'a not finite error gives flags %s' % fl)
    if last is None and not rec.delivered:
        bad = F.DIV_ZERO | F.LM_FUNC_NOTFINITE | F.EIG_NOTFINITE
        if spec.get('bounds') is None:
            ctx.check(not fl & bad, 'wrong-cause',
                      lambda: 'flags %s although nothing failed' % fl)
    if fl & 1:
        ctx.check(rec.n >= limit, 'wrong-cause',
                  lambda: 'limit flag after %d of %d' % (rec.n, limit))
    if rec.last is not None and not raised:
        size = rec.last.size - nprior
        dof = (size // 2 if kspace else size) - npar
        if res['pars_cov0'] is not None and not fl & 15:
            ctx.check(bool(fl & F.ZERO_DOF) == (dof <= 0)
                      or fl & (F.LM_FUNC_NOTFINITE | F.DIV_ZERO),
                      'wrong-cause', lambda: 'flags %s, dof %s' % (fl, dof))
    if fl & F.LM_SINGULAR_MATRIX:
        ctx.check(res['pars_cov0'] is None, 'wrong-cause',
                  'singular, with a covariance')
    if fl & F.ZERO_DOF == 0 and fl & (F.LM_NEG_COV_EIG | F.LM_NEG_COV_DIAG):
        # the covariance must really be so
        with np.errstate(all='ignore'):
            c = np.asarray(res['pars_cov'], dtype='f8')
            if np.all(np.isfinite(c)):
                e = np.linalg.eigvals(c).real.min()
                ctx.check(e <= 1e-12 * np.abs(c).max() or np.diag(c).min() < 0,
                          'wrong-cause', lambda: 'flags %s for a covariance '
                          'with lowest eigenvalue %s' % (fl, e))
    if fl != 0:
        ctx.count('flagged')
        return
    ctx.count('success')
    p, c = np.asarray(res['pars']), np.asarray(res['pars_cov'])
    ctx.check(np.all(np.isfinite(p)) and np.all(np.isfinite(c))
              and np.all(np.isfinite(res['pars_err'])), 'not-finite',
              lambda: 'success with pars %s errors %s' % (
                  p, res['pars_err']))
    d = np.diag(c)
    ctx.check(np.all(d >= 0), 'negative-variance', lambda: 'diagonal %s' % d)
    ctx.check(np.allclose(np.asarray(res['pars_err']) ** 2, d, rtol=1e-9,
                          atol=0), 'inconsistent',
              lambda: 'errors %s diagonal %s' % (res['pars_err'], d))
    ctx.check(1 <= res['ier'] <= 4, 'unconverged-success',
              lambda: 'success with ier %s' % res['ier'])
    if bounds is not None:
        for v, (lo, hi) in zip(p, bounds):
            tol = 1e-9 * (1 + abs(v))
            ctx.check((lo is None or v >= lo - tol)
                      and (hi is None or v <= hi + tol), 'out-of-bounds',
                      lambda: 'result %s, bounds %s %s' % (v, lo, hi))
    if rec.last is not None and not raised:
        size = rec.last.size - nprior
        dof = (size // 2 if kspace else size) - npar
        ctx.check(dof > 0, 'wrong-cause', lambda: 'success, dof %s' % dof)
        s = (rec.last[nprior:] ** 2).sum() / dof
        ctx.check(np.isfinite(s), 'not-finite',
                  'success for an objective that is not finite')
        want = np.asarray(res['pars_cov0']) * s
        ctx.check(np.allclose(c, want, rtol=1e-9, atol=0), 'inconsistent',
                  lambda: 'covariance %s, expected %s' % (
                      c.ravel()[:3], want.ravel()[:3]))
        if s > 0:
            ctx.check(np.all(d > 0), 'negative-variance',
                      lambda: 'diagonal %s' % d)


def expect_passed_on(ctx, rec, exc):
    """an error came out: it must be the one delivered, and not numerical"""
    if rec.raised is None or exc is not rec.raised:
        if rec.raised is not None and type(exc) is type(rec.raised) \
                and str(exc) == str(rec.raised):
            return
        raise exc
    k = rec.delivered[-1][1]
    ctx.check(k not in NUMERIC, 'numerical-error-escaped',
              lambda: '%s reached the caller' % k)


def raw(spec, ctx):
    from ngmix.fitting.leastsqbound import run_leastsq
    rec = Objective(spec, ctx)
    guess = rec.guess.copy()
    g0 = guess.copy()
    keys = dict(maxfev=spec['maxfev'], ftol=spec['tol'], xtol=spec['tol'])
    if spec['bounds'] is not None or spec['seed'] % 2:
        keys['bounds'] = rec.bounds
    if spec['kspace']:
        keys['k_space'] = True
    b0 = canon(rec.bounds)
    res = exc = None
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res = run_leastsq(rec, guess, spec['nprior'], **keys)
    except BaseException as e:
        exc = e
    ctx.check(np.array_equal(guess, g0) and canon(rec.bounds) == b0,
              'inputs-changed', 'the guess or bounds changed')
    when = tuple(sorted(set((k, min(n, 12)) for n, k in rec.delivered)))
    if exc is not None:
        if isinstance(exc, TypeError) and 'Improper input' in str(exc) and \
                rec.last is not None and rec.last.size < spec['n']:
            return
        expect_passed_on(ctx, rec, exc)
        bounds_ok(ctx, rec, rec.bounds)
        ctx.log('passed on', type(exc).__name__)
        ctx.state('raw', when, type(exc).__name__)
        return
    if rec.raised is not None:
        k = rec.delivered[-1][1]
        ctx.check(k in NUMERIC, 'swallowed',
                  lambda: 'an error %s was swallowed' % k)
    check_common(spec, ctx, rec, res, spec['n'], spec['nprior'],
                 spec['kspace'], rec.bounds, spec['maxfev'])
    ctx.log('flags', res['flags'], 'evaluations', rec.n,
            ['%.9g' % x for x in np.ravel(res['pars'])])
    ctx.state('raw', when, spec['maxfev'], res['flags'],
              spec['bounds'] is not None)
    ctx.check(set(res) == set(KEYS), 'entries',
              lambda: 'entries %s' % sorted(res))
    if res['flags'] == 0 and not rec.delivered and spec['rank'] is None:
        stationary(spec, ctx, rec, res)
    if spec['rank'] == 'zero' and spec['bounds'] is None \
            and not rec.delivered:
        ctx.check(res['flags'] != 0, 'unconstrained-success',
                  'a parameter without influence is reported as measured')


def stationary(spec, ctx, rec, res):
    """Gauss-Newton has nothing left to gain within the tolerance"""
    p = np.asarray(res['pars'])

    if rec.bounds is not None:
        if any(k in ('cut', 'tight', 'edge') for k in spec['bounds']):
            return
    if spec['nl'] and (spec['off'] > 1 or spec['cond'] > 10):
        return
    J = rec.A + 2 * spec['nl'] * rec.A * (p - rec.x)[None, :]
    y = rec.clean(p)[spec['nprior']:]
    dx, *_ = np.linalg.lstsq(J, -y, rcond=None)
    gain = (y ** 2).sum() - ((y + J @ dx) ** 2).sum()
    tot = (y ** 2).sum() + (rec.prior ** 2).sum()
    tol = spec['tol']
    scale = np.linalg.norm(p) + 1
    small = np.linalg.norm(dx) <= max(30 * tol, 3e-6) * scale \
        * max(spec['cond'], 1)
    ctx.check(gain <= max(30 * tol, 1e-6) * tot + 1e-12 or small,
              'not-stationary', lambda: 'a step of %s gains %s of %s' % (
                  dx, gain, tot))

    if tol > 1e-8 or spec['noise'] < 1 or spec['off'] > 1:
        # the derivatives are those of the step before
        ctx.count('stationary')
        return
    c0 = np.linalg.inv(J.T @ J)
    sc = np.sqrt(np.outer(np.diag(c0), np.diag(c0)))
    got = np.asarray(res['pars_cov0'])
    ctx.check(np.all(np.abs(got - c0) <= 0.05 * sc), 'covariance',
              lambda: 'covariance %s, expected %s' % (
                  got.ravel()[:4], c0.ravel()[:4]))
    ctx.count('stationary')


class FaultyPrior(Recorder):
    """a prior a user might write: a wide gaussian on every parameter"""

    def __init__(self, spec, ctx, guess, nslots, bounds):
        super().__init__(spec, ctx)
        self.mean = np.array(guess)
        self.sig = 10 * (np.abs(self.mean) + 1)
        self.nslots = nslots
        if bounds:
            self.bounds = [(m - 3 * s, m + 3 * s)
                           for m, s in zip(self.mean, self.sig)]

    def fill_fdiff(self, pars, fdiff):
        k = self.before(pars)
        v = ((np.asarray(pars) - self.mean) / self.sig)[:self.nslots]
        fdiff[:] = 0.0
        n = min(self.nslots, fdiff.size, v.size)
        v = self.spoil(k, v)
        fdiff[:n] = v[:n]
        return self.nslots

    def get_lnprob_scalar(self, pars):
        return -0.5 * float((((np.asarray(pars) - self.mean) / self.sig)
                             ** 2).sum())


def fitter(spec, ctx):
    zoo.reset_caches()
    p = spec['p']
    op = zoo.OPS[p['op']]
    t = p['t']
    if t.get('kind') in ('spergel', 'moffat'):
        t = dict(t, kind='exp')
    if op.name == 'coellip' and t.get('prior'):
        t = dict(t, prior=None)
    inp = op.inputs(p['d'], t)
    guess = np.array(inp['guess'], dtype='f8')
    n = guess.size
    ng = (n - 4) // 2
    slots = n - 1 if op.name != 'coellip' else 3 + 2 * ng
    prior = FaultyPrior(spec, ctx, guess, slots, spec['bounds'])
    rng = np.random.RandomState(p['s'])
    ca = op.ctor(t)
    ca['fit_pars'] = {'maxfev': spec['maxfev'], 'ftol': 1e-5, 'xtol': 1e-5}
    tool = op.tool(t, rng, ca)
    tool.prior = prior
    res = exc = None
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res = tool.go(obs=inp['obs'], guess=guess)
    except BaseException as e:
        exc = e
    when = tuple(sorted(set((k, min(m, 12)) for m, k in prior.delivered)))
    if exc is not None:
        expect_passed_on(ctx, prior, exc)
        ctx.log('passed on', type(exc).__name__)
        ctx.state(op.name, when, type(exc).__name__)
        return
    bad = [k for _, k in prior.delivered
           if k in EXC and k not in NUMERIC and k != 'range']
    ctx.check(not bad, 'swallowed', lambda: 'errors %s were swallowed' % bad)
    fl = res['flags']
    for k in KEYS:
        ctx.check(k in res, 'missing-entry',
                  lambda: '%s not in the result with flags %s' % (k, fl))
    ctx.check(prior.n <= spec['maxfev'] + n + 8, 'over-limit',
              lambda: '%d evaluations, limit %d' % (prior.n, spec['maxfev']))
    bounds_ok(ctx, prior, getattr(prior, 'bounds', None))
    if fl == 0:
        ctx.count('success')
        x = np.asarray(res['pars'])
        ctx.check(np.all(np.isfinite(x))
                  and np.all(np.isfinite(res['pars_cov']))
                  and np.all(np.diag(res['pars_cov']) >= 0), 'not-finite',
                  lambda: 'success with pars %s errors %s' % (
                      x, res['pars_err']))
        bounds_ok(ctx, type('R', (), {'pars': [x]}),
                  getattr(prior, 'bounds', None))
    else:
        ctx.count('flagged')
    ctx.log(op.name, 'flags', fl, 'evaluations', prior.n)
    ctx.state(op.name, when, spec['maxfev'], fl)


def execute(spec, ctx):
    if spec['maxfev'] and spec['maxfev'] <= 30:
        ctx.count('nontrivial')
        ctx.fault('small-limit')

    (raw if spec['mode'] == 'raw' else fitter)(spec, ctx)

    if spec['faults']:
        ctx.count('nontrivial')


