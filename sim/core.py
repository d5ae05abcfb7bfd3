"""
Core of the simulator: one seed -> one spec -> one exactly repeatable run.

A *spec* is a plain JSON value (operations, faults, schedule, knobs) drawn by a
property module's generate() from a random.Random seeded from
(property, VERIF_SEED, run index).  execute(spec, ctx) runs the real ngmix code
under that spec and raises Violation when an oracle fails.  Nothing else
decides what happens, so a spec *is* the replay file.
"""
import hashlib
import os
import random
import traceback

REPO = os.environ.get('NGMIX_REPO', '/repo')
PKG = os.path.join(REPO, 'ngmix') + os.sep


class Violation(Exception):
    """an oracle failed"""

    def __init__(self, kind, detail='', key=None):
        super().__init__('%s: %s' % (kind, detail))
        self.kind = kind
        if isinstance(detail, str) and len(detail) > 500:
            detail = detail[:500] + '...'
        self.detail = detail
        # narrow identifier used to match known findings
        self.key = key if key is not None else kind


class StepLimit(BaseException):
    """the simulated operation did not end within its step budget"""


class Injected(Exception):
    """base of exceptions the harness injects (besides real kinds)"""


class InjectedInterrupt(BaseException):
    """an asynchronous interrupt (like KeyboardInterrupt) from the simulator"""


def run_seed(prop, seed, index):
    h = hashlib.sha256(('%s:%d:%d' % (prop, seed, index)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng_for(prop, seed, index):
    return random.Random(run_seed(prop, seed, index))


class Ctx(object):
    """what one run records; logging never draws randomness or reads a clock"""

    def __init__(self, known=()):
        self.h = hashlib.sha256()
        self.nevents = 0
        self.counts = {}
        self.faults = {}
        self.states = set()
        self.inter = set()
        self.simtime = 0
        self.known = {(k['property'], k['key']): k for k in known}
        self.known_hit = {}
        self.prop = None
        self.trace = None     # list when verbose

    def log(self, *what):
        s = '|'.join(map(str, what))
        self.h.update(s.encode())
        self.h.update(b'\n')
        self.nevents += 1
        if self.trace is not None:
            self.trace.append(s)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n
        self.log('fault', name)

    def state(self, *sig):
        """record an abstract state reached"""
        d = hashlib.blake2b(repr(sig).encode(), digest_size=8).digest()
        self.states.add(int.from_bytes(d, 'big'))

    def interleaving(self, sig):
        d = hashlib.blake2b(repr(sig).encode(), digest_size=8).digest()
        self.inter.add(int.from_bytes(d, 'big'))

    def step(self, n=1):
        self.simtime += n

    def fail(self, kind, detail='', key=None):
        v = Violation(kind, detail, key)
        k = (self.prop, v.key)
        if k in self.known:
            self.known_hit[v.key] = self.known_hit.get(v.key, 0) + 1
            return
        raise v

    def check(self, ok, kind, detail='', key=None):
        if not ok:
            if callable(detail):
                detail = detail()
            self.fail(kind, detail, key)

    def digest(self):
        return self.h.hexdigest()


def in_package(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(PKG):
            return True
        tb = tb.tb_next
    return False


class HarnessError(Exception):
    pass


def run_one(mod, spec, known=(), trace=False):
    """
    run one spec.  Returns (ctx, violation or None).  Exceptions that never
    touched the package are errors of the harness and are raised
    """
    import numpy as np
    from . import pristine
    pristine.restore()
    ctx = Ctx(known)
    ctx.prop = mod.ID
    if trace:
        ctx.trace = []
    # ambient state is fixed per run, so that a run is a function of its spec
    random.seed(12345)
    np.random.seed(54321)
    olderr = np.geterr()
    np.seterr(all='ignore')
    try:
        mod.execute(spec, ctx)
        viol = None
    except Violation as v:
        viol = v
    except StepLimit as e:
        viol = Violation('no-progress', 'step budget exhausted: %s' % (e,))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        if in_package(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)
            where = [f for f in last if f.filename.startswith(PKG)][-1]
            viol = Violation(
                'unexpected-%s' % type(e).__name__,
                '%s (in %s)' % (str(e)[:200], where.name))
            viol.tb = traceback.format_exc()
        elif isinstance(e, (KeyError, AttributeError, TypeError, IndexError,
                            ValueError)) and not os.environ.get('SIM_DEBUG'):
            # an oracle could not read what the package returned: on the
            # current tree this does not happen, so the result has lost its
            # documented form
            viol = Violation('malformed-%s' % type(e).__name__, str(e)[:200])
            viol.tb = traceback.format_exc()
        else:
            raise
    finally:
        np.seterr(**olderr)
    if viol is not None:
        ctx.log('violation', viol.kind)
    return ctx, viol
