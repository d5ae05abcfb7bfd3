"""
Command line:

    python -m sim.main check C01 [--tier quick|thorough] [--runs N] [--wall S]
    python -m sim.main replay FILE [-v]
    python -m sim.main digest C01 SEED I J K ...   (event log digests)

Exit status of check and replay: 0 property held, 1 VIOLATION, 2 error of the
harness itself.
"""
import argparse
import copy
import importlib
import json
import multiprocessing as mp
import os
import queue as queuemod
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

NWORK = int(os.environ.get('SIM_WORKERS', '8'))
HANG_S = float(os.environ.get('SIM_HANG_S', '150'))


def setup_path():
    from . import core
    sys.path.insert(0, core.REPO)


def load(prop):
    return importlib.import_module('sim.props.%s' % prop.lower())


def load_known(prop):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        data = json.load(f)
    return [k for k in data.get('findings', []) if k['property'] == prop]


# ---------------------------------------------------------------------------
# running batches of specs in forked children

def _run_sequence(mod, specs, known, trace=False):
    """run specs in order in this process, return results of the last"""
    from . import core
    ctx = viol = None
    for s in specs:
        ctx, viol = core.run_one(mod, s, known, trace)
        if viol is not None:
            break
    return ctx, viol


NOWARM = False
CRASHES = ('SIGSEGV', 'SIGABRT', 'SIGBUS', 'SIGFPE', 'SIGILL')


def _crash_name(sig):
    """the signal of an interpreter that destroyed its own memory, else None
    (one that was killed says nothing)"""
    try:
        name = signal.Signals(sig).name
    except ValueError:
        return None
    return name if name in CRASHES else None


def _warm(mod):
    """what is compiled stays, the package's other state is noted before"""
    from . import pristine
    pristine.snapshot()
    if NOWARM:
        return
    mod.warm()
    pristine.restore()


def _child(fn, conn):
    try:
        out = ('ok', fn())
    except BaseException:
        out = ('err', traceback.format_exc())
    try:
        conn.send(out)
        conn.close()
    finally:
        os._exit(0)


def in_child(fn, timeout):
    """run fn in a forked child; ('ok',v) ('err',tb) ('hang',None)"""
    rd, wr = mp.Pipe(duplex=False)
    pid = os.fork()
    if pid == 0:
        rd.close()
        _child(fn, wr)
    wr.close()
    out = ('hang', None)
    if rd.poll(timeout):
        try:
            out = rd.recv()
        except EOFError:
            out = ('err', 'child died')
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    _, how = os.waitpid(pid, 0)
    rd.close()
    if out == ('err', 'child died') and os.WIFSIGNALED(how):
        name = _crash_name(os.WTERMSIG(how))
        if name:
            out = ('crash', name)
    return out


def _viol_of(mod, specs, known, timeout):
    """the violation specs give, as (kind, detail, key, digest) or None"""
    def f():
        ctx, v = _run_sequence(mod, specs, known)
        if v is None:
            return None
        return (v.kind, str(v.detail), v.key, ctx.digest())
    st, out = in_child(f, timeout)
    if st == 'ok':
        return out
    if st == 'hang':
        return ('hang', 'run did not end', 'hang', '')
    if st == 'crash':
        return ('crash', 'the interpreter died of %s' % out, 'crash', '')
    return ('harness', out, 'harness', '')


def shrink_candidates(mod, spec):
    """simpler specs, most aggressive first"""
    if hasattr(mod, 'shrink'):
        for s in mod.shrink(spec):
            yield s
    lists = [k for k, v in spec.items()
             if isinstance(v, list) and k not in getattr(mod, 'KEEP', ())]
    for k in lists:
        n = len(spec[k])
        size = n
        while size >= 1:
            for a in range(0, n, size):
                s = dict(spec)
                s[k] = spec[k][:a] + spec[k][a + size:]
                if len(s[k]) < getattr(mod, 'MINLEN', {}).get(k, 0):
                    continue
                yield s
            size //= 2
    # simplify arguments of the steps
    for k in lists:
        for i, el in enumerate(spec[k]):
            if isinstance(el, dict):
                for kk, vv in el.items():
                    for simp in _simpler(vv):
                        s = copy.deepcopy(spec)
                        s[k][i][kk] = simp
                        yield s
    for k, v in spec.items():
        if k in lists:
            continue
        for simp in _simpler(v):
            s = dict(spec)
            s[k] = simp
            yield s
        if isinstance(v, dict):
            for kk, vv in v.items():
                for simp in _simpler(vv):
                    s = copy.deepcopy(spec)
                    s[k][kk] = simp
                    yield s


def _simpler(v):
    if isinstance(v, bool):
        if v:
            yield False
    elif isinstance(v, int):
        for x in (0, 1, v // 2):
            if abs(x) < abs(v):
                yield x


def minimise(mod, specs, kind, known, budget):
    t0 = time.time()
    best = list(specs)
    tries = 0

    def ok(cand):
        v = _viol_of(mod, cand, known, 60)
        return v is not None and v[0] == kind

    # drop whole runs first (only when state leaked between runs)
    size = len(best) // 2
    while size >= 1 and len(best) > 1 and time.time() - t0 < budget / 2:
        i = 0
        while i < len(best) - 1 and time.time() - t0 < budget / 2:
            cand = best[:i] + best[min(i + size, len(best) - 1):]
            tries += 1
            if ok(cand):
                best = cand
            else:
                i += size
        size //= 2
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for s in shrink_candidates(mod, best[-1]):
            if time.time() - t0 > budget:
                break
            if s == best[-1]:
                continue
            tries += 1
            if ok(best[:-1] + [s]):
                best = best[:-1] + [s]
                progress = True
                break
    return best, tries


def worker(mod, tier, seed, indices, known, out, beat, deadline):
    """runs its share of the seeds; never waits on anything"""
    from . import core
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    agg = dict(runs=0, nontrivial=set(), counts={}, faults={}, states=set(),
               inter=set(), simtime=0, events=0, known={}, samples=[],
               stopped=False)
    done = []
    status = None
    for i in indices:
        if time.time() > deadline:
            agg['stopped'] = True
            break
        beat[0], beat[1] = i, time.time()
        spec = None
        try:
            rng = core.rng_for(mod.ID, seed, i)
            spec = mod.generate(rng, tier)
            # a spec is JSON; what runs is what the replay file will hold
            spec = json.loads(json.dumps(spec))
            ctx, v = core.run_one(mod, spec, known)
        except BaseException:
            status = ('harness', i, spec, traceback.format_exc())
            break
        done.append(i)
        agg['runs'] += 1
        agg['events'] += ctx.nevents
        agg['simtime'] += ctx.simtime
        for name in ('counts', 'faults'):
            d = agg[name]
            for k, n in getattr(ctx, name).items():
                d[k] = d.get(k, 0) + n
        for k, n in ctx.known_hit.items():
            agg['known'][k] = agg['known'].get(k, 0) + n
        agg['states'] |= ctx.states
        agg['inter'] |= ctx.inter
        if ctx.counts.get('nontrivial'):
            agg['nontrivial'].add(ctx.digest()[:16])
        if len(agg['samples']) < 2:
            agg['samples'].append({'run': i, 'spec': spec,
                                   'log_digest': ctx.digest()[:16]})
        if v is not None:
            status = ('viol', i, list(done),
                      (v.kind, str(v.detail), v.key,
                       getattr(v, 'tb', None)))
            break
    beat[1] = 0.0
    out.put((status, agg))


def fresh_replay(path, timeout=170):
    env = dict(os.environ)
    try:
        p = subprocess.run(
            [sys.executable, '-m', 'sim.main', 'replay', path],
            cwd=VERIF, env=env, capture_output=True, text=True,
            timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'hang', None
    kind = dig = None
    for line in p.stdout.splitlines():
        if line.startswith('REPLAY kind='):
            parts = dict(x.split('=', 1) for x in line.split()[1:])
            kind, dig = parts.get('kind'), parts.get('log')
    return kind, dig


def fresh_digests(prop, seed, idx, hashseed, tier, timeout=170):
    env = dict(os.environ)
    env['VERIF_TIER'] = tier
    env['PYTHONHASHSEED'] = str(hashseed)
    try:
        p = subprocess.run(
            [sys.executable, '-m', 'sim.main', 'digest', prop, str(seed)]
            + [str(i) for i in idx],
            cwd=VERIF, env=env, capture_output=True, text=True,
            timeout=timeout)
    except subprocess.TimeoutExpired:
        return {}
    out = {}
    for line in p.stdout.splitlines():
        if line.startswith('DIGEST '):
            _, i, d = line.split()
            out[int(i)] = d
    return out


def check(prop, tier, seed, runs=None, wall=None, replay_dir=None):
    t0 = time.time()
    from . import core
    mod = load(prop)
    known = load_known(prop)
    if runs is None:
        runs = mod.RUNS[tier]
    if wall is None:
        wall = {'quick': 420, 'thorough': 3000}[tier]
        wall = getattr(mod, 'WALL', {}).get(tier, wall)
    print('check %s tier=%s VERIF_SEED=%d runs=%d workers=%d' % (
        prop, tier, seed, runs, NWORK), flush=True)

    replay_dir = replay_dir or os.path.join(VERIF, 'replays')
    os.makedirs(replay_dir, exist_ok=True)

    # compile everything once; the workers are forked from here
    try:
        _warm(mod)
    except BaseException as e:
        if core.in_package(e.__traceback__) and not isinstance(
                e, KeyboardInterrupt):
            # ordinary use of the package fails outright: let the runs decide
            # whether that breaks the property
            print('note: warm-up failed: %r' % (e,), file=sys.stderr)
        else:
            raise
    twarm = time.time() - t0

    # listed findings are probed first, so each is reported on every run
    known_lines = []
    for k in known:
        probe = k.get('probe')
        if probe is None:
            continue
        v = _viol_of(mod, [probe], [], 120)
        if v is not None and v[2] == k['key']:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (
                prop, k['what']))
        elif v is not None and v[0] == 'harness':
            print(v[1], file=sys.stderr)
            return 2
    for line in known_lines:
        print(line, flush=True)

    deadline = t0 + wall
    out = mp.Queue()
    procs, beats = [], []
    todo = set()
    for w in range(NWORK):
        beat = mp.Array('d', [-1.0, 0.0], lock=False)
        p = mp.Process(target=worker, args=(
            mod, tier, seed, range(w, runs, NWORK), known, out, beat,
            deadline), daemon=True)
        p.start()
        procs.append(p)
        beats.append(beat)
        todo.add(w)

    results = []
    hang = crash = None
    first = None
    ndone = 0
    while ndone < NWORK:
        try:
            st, agg = out.get(timeout=1.0)
            ndone += 1
            results.append(agg)
            if st is not None and (first is None or st[1] < first[1]):
                first = st
        except queuemod.Empty:
            now = time.time()
            for w, b in enumerate(beats):
                if b[1] and now - b[1] > HANG_S and procs[w].is_alive():
                    hang = int(b[0])
                    procs[w].kill()
                    ndone += 1
                elif not procs[w].is_alive() and b[1]:
                    # died (killed, out of memory, crashed interpreter)
                    name = _crash_name(-(procs[w].exitcode or 0))
                    if name and (crash is None or int(b[0]) < crash[0]):
                        crash = (int(b[0]), name, w)
                    hang = int(b[0]) if hang is None else hang
                    b[1] = 0.0
                    ndone += 1
        if first is not None:
            # let the others end their current run, but not go on for long
            deadline_now = time.time() + 5
            while ndone < NWORK and time.time() < deadline_now:
                try:
                    st, agg = out.get(timeout=0.2)
                    ndone += 1
                    results.append(agg)
                    if st is not None and (first is None or st[1] < first[1]):
                        first = st
                except queuemod.Empty:
                    pass
            break
    for p in procs:
        if p.is_alive():
            p.kill()
    for p in procs:
        p.join(5)

    if first is None and crash is not None:
        i, name, w = crash
        first = ('viol', i, list(range(w, i + 1, NWORK)), (
            'crash', 'the interpreter died of %s' % name, 'crash', None))
    if first is None and hang is not None:
        first = ('viol', hang, [hang], ('hang', 'run %d did not end within '
                                        '%g s' % (hang, HANG_S), 'hang', None))

    tot = dict(runs=0, nontrivial=set(), counts={}, faults={}, states=set(),
               inter=set(), simtime=0, events=0, known={}, samples=[],
               stopped=False)
    for a in results:
        for k in ('runs', 'simtime', 'events'):
            tot[k] += a[k]
        for k in ('nontrivial', 'states', 'inter'):
            tot[k] |= a[k]
        for k in ('counts', 'faults', 'known'):
            for n, c in a[k].items():
                tot[k][n] = tot[k].get(n, 0) + c
        tot['samples'] += a['samples']
        tot['stopped'] |= a['stopped']
    tot['samples'].sort(key=lambda s: s['run'])
    tot['samples'] = tot['samples'][:3]

    rc = 0
    violation = None
    if first is not None and first[0] == 'harness':
        print('HARNESS ERROR in run %d\n%s' % (first[1], first[3]),
              file=sys.stderr)
        rc = 2
    elif first is not None:
        violation = report(mod, tier, seed, first, known, replay_dir)
        rc = 1 if violation else 2

    # determinism of the simulator itself: same seeds, other interpreter
    ndet = {'quick': 4, 'thorough': 40}[tier]
    det = {'reruns': 0, 'mismatches': 0}
    if rc == 0 and time.time() - t0 < wall - 60:
        idx = [int(i * max(1, runs // ndet)) for i in range(ndet)]
        idx = sorted(set(i for i in idx if i < runs))

        def mine():
            o = {}
            for i in idx:
                spec = json.loads(json.dumps(
                    mod.generate(core.rng_for(mod.ID, seed, i), tier)))
                ctx, v = core.run_one(mod, spec, known)
                o[i] = ctx.digest()
            return o
        st, a = in_child(mine, 170)
        b = fresh_digests(prop, seed, idx, 4242, tier)
        if st == 'ok':
            for i in idx:
                if i in b:
                    det['reruns'] += 1
                    if a[i] != b[i]:
                        det['mismatches'] += 1
                        print('note: run %d gave different event logs in a '
                              'fresh process' % i, file=sys.stderr)
    if (rc == 0 and det['mismatches']
            and getattr(mod, 'MISMATCH_IS_VIOLATION', False)):
        i = [i for i in idx if a[i] != b.get(i, a[i])][0]
        rc = 1
        path = os.path.join(replay_dir, '%s-%d-%d.json' % (prop, seed, i))
        spec = json.loads(json.dumps(
            mod.generate(core.rng_for(mod.ID, seed, i), tier)))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'specs': [spec], 'kind':
                       'differs-between-processes', 'hashseeds': [0, 4242],
                       'digests': [a[i], b[i]]}, f, indent=1)
        print('run %d: same seed, different event log in another process'
              % i)
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        violation = 'differs-between-processes'

    wall_s = time.time() - t0
    hours = max(wall_s - twarm, 1e-3) / 3600.0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(tot['nontrivial']),
            'rule': mod.RULE,
            'samples': tot['samples'],
            'runs_requested': runs,
            'stopped_by_wall_cap': tot['stopped'],
            'runs_per_hour': round(tot['runs'] / hours),
            'seeds_per_hour': round(tot['runs'] / hours),
            'simulated_time': {'steps': tot['simtime'],
                               'events_logged': tot['events'],
                               'unit': getattr(mod, 'TIME_UNIT',
                                               'simulated operations')},
            'faults_injected': dict(sorted(tot['faults'].items())),
            'probes': dict(sorted(tot['counts'].items())),
            'distinct_states': len(tot['states']),
            'state_measure': getattr(mod, 'STATE_MEASURE',
                                     'abstract state signatures'),
            'distinct_interleavings': len(tot['inter']),
            'real_components': mod.REAL,
            'stubbed_components': mod.STUB,
            'determinism_self_check': det,
            'known_findings_seen': tot['known'],
        },
        'assumptions': mod.ASSUME,
        'wall_s': round(wall_s, 2),
        'violations': 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    fn = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(fn + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    os.replace(fn + '.tmp', fn)
    print('%s: %d runs, %d non-trivial, %d states, faults %s, %.1f s%s' % (
        prop, tot['runs'], len(tot['nontrivial']), len(tot['states']),
        sum(tot['faults'].values()), wall_s,
        '' if rc == 0 else ' -> exit %d' % rc), flush=True)
    return rc


def report(mod, tier, seed, first, known, replay_dir):
    from . import core
    _, i, done, (kind, detail, key, tb) = first

    def gen(j):
        return json.loads(json.dumps(
            mod.generate(core.rng_for(mod.ID, seed, j), tier)))
    path = os.path.join(replay_dir, '%s-%d-%d.json' % (mod.ID, seed, i))
    specs = [gen(i)]
    note = 'single run'
    v = _viol_of(mod, specs, known, 150)
    if v is None and len(done) > 1:
        # the run fails only after earlier ones: hidden state carried over
        specs = [gen(j) for j in done]
        note = 'needs the runs before it in the same process'
        v = _viol_of(mod, specs, known, 240)
    repro = v is not None and v[0] not in ('harness',)
    tries = 0
    if kind == 'hang' and not repro:
        print('run %d was killed or stalled, and does not do so again: '
              'no verdict' % i, file=sys.stderr)
        return None
    if repro:
        kind, detail, key = v[0], v[1], v[2]
        if kind != 'hang':
            specs, tries = minimise(mod, specs, kind, known,
                                    {'quick': 60, 'thorough': 240}[tier])
            v = _viol_of(mod, specs, known, 150)
            if v is not None:
                kind, detail, key = v[0], v[1], v[2]

    def write():
        with open(path, 'w') as f:
            json.dump({
                'property': mod.ID, 'seed': seed, 'run': i, 'kind': kind,
                'detail': detail, 'key': key, 'note': note,
                'log_digest': v[3] if v else None,
                'minimisation_tries': tries, 'reproducible': repro,
                'specs': specs}, f, indent=1)
            f.write('\n')
    write()
    if repro and kind != 'hang':
        rkind, rdig = fresh_replay(path)
        if rkind != kind:
            repro = False
            note += '; a fresh process gave %s' % rkind
            write()
    print('run %d of VERIF_SEED=%d: %s: %s' % (i, seed, kind, detail))
    if tb:
        print(tb, file=sys.stderr)
    print('minimised in %d tries (%s), fresh-process replay %s' % (
        tries, note, 'reproduces it' if repro else 'does NOT reproduce it'))
    print('VIOLATION property=%s replay=%s' % (mod.ID, path), flush=True)
    return kind


def replay(path, verbose=False, in_fork=False):
    with open(path) as f:
        data = json.load(f)
    mod = load(data['property'])
    known = load_known(data['property'])
    global NOWARM
    if not in_fork:
        # as the check itself: see supervised
        for NOWARM in (False, True):
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    rc = replay(path, verbose, True)
                except BaseException:
                    traceback.print_exc()
                    rc = 2
                sys.stdout.flush()
                os._exit(rc)
            _, how = os.waitpid(pid, 0)
            if not os.WIFSIGNALED(how):
                return os.WEXITSTATUS(how)
        name = _crash_name(os.WTERMSIG(how))
        print('the interpreter died of %s' % (name or os.WTERMSIG(how)))
        if not name:
            return 2
        print('REPLAY kind=crash log=')
        print('VIOLATION property=%s replay=%s' % (data['property'], path))
        return 1
    try:
        _warm(mod)
    except Exception:
        pass
    ctx, v = _run_sequence(mod, data['specs'], known, trace=verbose)
    if verbose and ctx is not None:
        for line in ctx.trace:
            print('  ' + line)
    if v is None:
        print('REPLAY kind=none log=%s' % (ctx.digest() if ctx else ''))
        return 0
    print('%s: %s' % (v.kind, v.detail))
    print('REPLAY kind=%s log=%s' % (v.kind, ctx.digest()))
    if verbose and getattr(v, 'tb', None):
        print(v.tb)
    print('VIOLATION property=%s replay=%s' % (data['property'], path))
    return 1


def digest(prop, seed, idx, tier='quick'):
    from . import core
    mod = load(prop)
    known = load_known(prop)
    _warm(mod)
    for i in idx:
        spec = json.loads(json.dumps(
            mod.generate(core.rng_for(mod.ID, seed, i), tier)))
        ctx, v = core.run_one(mod, spec, known)
        print('DIGEST %d %s' % (i, ctx.digest()), flush=True)
    return 0


def supervised(a):
    """the check, in a process of its own: should compiling and ordinary use
    already destroy the interpreter, the runs are made without that and the
    crash is found in one of them"""
    global NOWARM
    for NOWARM in (False, True):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                rc = check(a.prop, a.tier, a.seed, a.runs, a.wall)
            except KeyboardInterrupt:
                rc = 2
            except BaseException:
                traceback.print_exc()
                rc = 2
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)

        def stop(*_):
            os.kill(pid, signal.SIGTERM)
        signal.signal(signal.SIGTERM, stop)
        try:
            _, how = os.waitpid(pid, 0)
        except KeyboardInterrupt:
            os.kill(pid, signal.SIGINT)
            _, how = os.waitpid(pid, 0)
        if not os.WIFSIGNALED(how):
            return os.WEXITSTATUS(how)
        if not _crash_name(os.WTERMSIG(how)):
            return 2
        print('note: the interpreter died of %s while compiling and warming '
              'up' % _crash_name(os.WTERMSIG(how)), file=sys.stderr)
    return 2


def main():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    setup_path()
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('prop')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    c.add_argument('--seed', type=int,
                   default=int(os.environ.get('VERIF_SEED', '1')))
    c.add_argument('--runs', type=int)
    c.add_argument('--wall', type=float)
    r = sub.add_parser('replay')
    r.add_argument('path')
    r.add_argument('-v', action='store_true')
    d = sub.add_parser('digest')
    d.add_argument('prop')
    d.add_argument('seed', type=int)
    d.add_argument('idx', type=int, nargs='+')
    a = ap.parse_args()
    if a.cmd == 'check':
        return supervised(a)
    if a.cmd == 'replay':
        return replay(a.path, a.v)
    return digest(a.prop, a.seed, a.idx,
                  os.environ.get('VERIF_TIER', 'quick'))


if __name__ == '__main__':
    try:
        rc = main()
    except KeyboardInterrupt:
        rc = 2
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
