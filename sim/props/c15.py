"""C15: reading of multi-epoch files"""
import numpy as np

from .. import fakemeds
from ..inject import count_statements, run_with_fault
from ..sched import Scheduler

ID = 'C15'
RUNS = {'quick': 12000, 'thorough': 200000}
TECH = ('seeded histories of reads from files on a simulated disk whose reads '
        'fail, come short or are interrupted at any call, with the file or '
        'earlier observations changed in between and readers used by '
        'interleaved threads; every observation is compared with the planes '
        'and tables it should have come from')
RULE = ('a run is a catalogue of 1-3 bands and up to 8 reads or changes. '
        'Non-trivial: a fault fired, or the file or an earlier observation '
        'changed before another read, or two threads overlapped')
STATE_MEASURE = ('signature (planes present, operation, weight type, fault '
                 'and plane it hit, cutouts without weight)')
REAL = ['ngmix.medsreaders', 'ngmix.observation', 'ngmix.jacobian']
STUB = ['the meds package (simulated disk, catalogue tables)']
ASSUME = ['the file reader gives new arrays for every read',
          'point-spread images are finite with a positive maximum']
TIME_UNIT = 'reads from disk'

OPT = ('bmask', 'ormask', 'noise', 'mfrac')
WTS = ('weight', 'uberseg', 'cweight', 'cseg', 'cseg-canonical')
KINDS = ('OSError', 'OSError', 'short', 'MemoryError', 'ValueError',
         'KeyboardInterrupt')
R = None


def warm():
    global R
    fakemeds.install()
    import ngmix.medsreaders
    R = ngmix.medsreaders


def reader():
    if R is None:
        warm()
    return R


# ---------------------------------------------------------------------------

def gen_op(rng, nobj, nb, ncut):
    k = rng.choice(['obs', 'obs', 'list', 'list', 'list', 'mb', 'mb',
                    'mblist', 'mblist', 'psf', 'jac', 'edit', 'disk',
                    'reopen', 'badwt', 'pair', 'far'])
    op = dict(k=k, b=rng.randrange(nb), i=rng.randrange(nobj),
              j=rng.choice([0, 1, 2, 3, 0, 1, 2, 3, 9]), wt=rng.choice(WTS + (None, None)))
    if k in ('mblist', 'pair'):
        op['idx'] = rng.choice([None, [], 'some', 'some', 'array'])
        op['objs'] = [rng.randrange(nobj) for _ in range(rng.choice([1, 2,
                                                                     3]))]
    if k == 'pair':
        op['i2'] = rng.randrange(nobj)
        op['sched'] = [[rng.randrange(2), rng.choice([1, 2, 4, 9, 30])]
                       for _ in range(rng.randrange(1, 40))]
    elif rng.random() < 0.45:
        if rng.random() < 0.7:
            op['fault'] = dict(at=rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 11,
                                              17, 25]),
                               kind=rng.choice(KINDS),
                               ext=rng.choice([None, None] + [
                                   'image', 'weight', 'seg', 'psf',
                                   'bmask', 'ormask', 'noise', 'mfrac']))
        else:
            op['inject'] = dict(f=rng.random(), e=rng.choice(
                ['MemoryError', 'OSError', 'ValueError', 'Interrupt']))
    return op


def generate(rng, tier):
    nb = rng.choice([1, 1, 2, 3] * 6 + [5])
    nobj = rng.choice([1, 2, 3, 5] * 8 + [12])
    bands = []
    for _ in range(nb):
        bands.append(dict(
            ncut=[rng.choice([0, 1, 1, 2, 3, 4] * 6 + [11])
                  for _ in range(nobj)],
            box=[rng.choice([5, 6, 8] * 15 + [32, 48]) for _ in range(nobj)],
            pbox=[rng.choice([5, 7] * 20 + [33]) for _ in range(nobj)],
            prect=rng.choice([None, None, 'tall', 'wide']),
            pcen=rng.choice(['mid', 'mid', 'far']),
            opt=[p for p in OPT if rng.random() < 0.6],
            psf=rng.random() < 0.8,
            cols=[c for c in ('flux_auto', 'x2', 'y2', 'number')
                  if rng.random() < 0.8 or c == 'number'],
            gap=rng.choice([0, 0, 3]),
            dark=[[rng.choice(['ok', 'ok', 'ok', 'zero', 'part', 'neg',
                               'one']) for _ in range(11)]
                  for _ in range(nobj)],
            rev=rng.random() < 0.3, s=rng.randrange(1 << 31)))
    return dict(nobj=nobj, bands=bands, ops=[
        gen_op(rng, nobj, nb, None) for _ in range(rng.randrange(1, 9))])


KEEP = ('bands',)


def shrink(spec):
    for i, o in enumerate(spec['ops']):
        for k in ('fault', 'inject'):
            if k in o:
                p = dict(o)
                del p[k]
                yield dict(spec, ops=spec['ops'][:i] + [p]
                           + spec['ops'][i + 1:])
    if len(spec['bands']) > 1:
        for b in spec['bands']:
            yield dict(spec, bands=[b], ops=[dict(o, b=0)
                                             for o in spec['ops']])


# ---------------------------------------------------------------------------
# the file

def make_file(spec, b):
    t = spec['bands'][b]
    rng = np.random.RandomState(t['s'])
    nobj, mx = spec['nobj'], max([4] + list(t['ncut']))
    dt = [('id', 'i8'), ('box_size', 'i4'), ('ncutout', 'i4'),
          ('file_id', 'i4', mx), ('start_row', 'i8', mx),
          ('cutout_row', 'f8', mx), ('cutout_col', 'f8', mx),
          ('dudrow', 'f8', mx), ('dudcol', 'f8', mx),
          ('dvdrow', 'f8', mx), ('dvdcol', 'f8', mx),
          ('orig_row', 'f8', mx), ('orig_col', 'f8', mx),
          ('orig_start_row', 'i8', mx), ('orig_start_col', 'i8', mx)]
    for c in t['cols']:
        dt.append((c, 'i4' if c == 'number' else 'f4'))
    if t['psf']:
        if t.get('prect'):
            dt += [('psf_row_size', 'i4'), ('psf_col_size', 'i4')]
        else:
            dt += [('psf_box_size', 'i4')]
        dt += [('psf_start_row', 'i8', mx),
               ('psf_cutout_row', 'f8', mx), ('psf_cutout_col', 'f8', mx)]
    cat = np.zeros(nobj, dtype=dt)
    for n in cat.dtype.names:
        cat[n] = -9999
    cat['id'] = 1000 * (b + 1) + rng.permutation(100)[:nobj]
    cat['box_size'] = t['box']
    cat['ncutout'] = t['ncut']
    for n in ('orig_row', 'orig_col'):
        cat[n] = rng.uniform(0, 500, size=(nobj, mx))
    for n in ('orig_start_row', 'orig_start_col'):
        cat[n] = rng.randint(0, 500, size=(nobj, mx))
    for n, v in (('dudrow', -0.01), ('dudcol', 0.26), ('dvdrow', 0.263),
                 ('dvdcol', 0.01)):
        cat[n] = v + rng.uniform(-.01, .01, size=(nobj, mx))
    for n in ('cutout_row', 'cutout_col'):
        cat[n] = (cat['box_size'][:, None] - 1) / 2 + rng.uniform(
            -.5, .5, size=(nobj, mx))
    cat['file_id'] = rng.randint(0, 6, size=(nobj, mx))
    if 'number' in t['cols']:
        cat['number'] = 1 + rng.permutation(50)[:nobj]
    for n in ('flux_auto', 'x2', 'y2'):
        if n in t['cols']:
            cat[n] = rng.uniform(1, 50, size=nobj)
    if t['psf']:
        shapes = np.array([(n + 6, n) if t.get('prect') == 'tall' else
                           (n, n + 6) if t.get('prect') == 'wide' else (n, n)
                           for n in t['pbox']])
        if t.get('prect'):
            cat['psf_row_size'], cat['psf_col_size'] = shapes.T
        else:
            cat['psf_box_size'] = t['pbox']
        for k, n in enumerate(('psf_cutout_row', 'psf_cutout_col')):
            size = shapes[:, k][:, None]
            cat[n] = (size - 1) / 2 + rng.uniform(
                -.5, .5, size=(nobj, mx))
            if t.get('pcen') == 'far':
                cat[n] = rng.uniform(-1, size, size=(nobj, mx))
    place, pos, ppos = [], 0, 0
    order = [(i, j) for i in range(nobj) for j in range(t['ncut'][i])]
    if t['rev']:
        order = order[::-1]
    for i, j in order:
        cat['start_row'][i, j] = pos
        pos += t['box'][i] ** 2 + t['gap']
        if t['psf']:
            cat['psf_start_row'][i, j] = ppos
            ppos += int(shapes[i].prod()) + t['gap']
        place.append((i, j))
    d = fakemeds.Disk()
    d.tables['object_data'] = cat
    ii = np.zeros(6, dtype=[('image_path', 'U30'), ('scale', 'f8')])
    for k in range(6):
        ii['image_path'][k] = '/data/b%d/im%d.fits ' % (b, k)
        ii['scale'][k] = 1.0 + 0.1 * k
    d.tables['image_info'] = ii
    d.planes['image_cutouts'] = rng.normal(size=pos).astype('f4')
    w = rng.uniform(0.5, 2, size=pos).astype('f4')
    seg = rng.choice([0, 0, 1, 2], size=pos).astype('i2')
    for i, j in place:
        a = cat['start_row'][i, j]
        n = t['box'][i] ** 2
        how = t['dark'][i][j]
        if how == 'zero':
            w[a:a + n] = 0
        elif how == 'part':
            w[a:a + n:2] = 0
        elif how == 'neg':
            w[a:a + n] = 0
            w[a + n // 3] = -1
        elif how == 'one':
            w[a:a + n] = 0
            w[a + n // 2] = 1.5
        sl = seg[a:a + n]
        if 'number' in t['cols']:
            sl[sl == 1] = cat['number'][i]
            sl[sl == 2] = 99
    d.planes['weight_cutouts'] = w
    d.planes['seg_cutouts'] = seg
    for p in OPT:
        if p not in t['opt']:
            continue
        if p in ('bmask', 'ormask'):
            d.planes[p + '_cutouts'] = rng.randint(
                0, 2 ** 10, size=pos).astype('i4')
        else:
            d.planes[p + '_cutouts'] = rng.uniform(size=pos).astype('f4')
    if t['psf']:
        d.planes['psf'] = rng.uniform(1e-3, 1, size=ppos).astype('f4')
    return d


# what should come out, straight from the planes

def plane(d, name, i, j):
    c = d.tables['object_data']
    if name == 'psf':
        if 'psf_row_size' in c.dtype.names:
            m, n = c['psf_row_size'][i], c['psf_col_size'][i]
        else:
            m = n = c['psf_box_size'][i]
        a = c['psf_start_row'][i, j]
        return d.planes['psf'][a:a + m * n].reshape(m, n)
    n, a = c['box_size'][i], c['start_row'][i, j]
    return d.planes[name + '_cutouts'][a:a + n * n].reshape(n, n)


def weight_of(d, i, j, wt):
    c = d.tables['object_data']
    w = plane(d, 'weight', i, j).astype('f8')
    if wt == 'weight':
        return w
    s = plane(d, 'seg', i, j)
    num = c['number'][i]
    if wt == 'uberseg':
        return np.where((s == 0) | (s == num), w, 0)
    if wt == 'cweight':
        return np.where(s == num, w, 0)
    n = w.shape[0]
    r, k = np.mgrid[:n, :n]
    if wt == 'cseg':
        r0, k0 = c['cutout_row'][i, j], c['cutout_col'][i, j]
    else:
        r0 = k0 = (n - 1) / 2
    return np.where((r - r0) ** 2 + (k - k0) ** 2 > (n / 3.0) ** 2, 0, w)


def usable(d, i, j, wt):
    return bool((weight_of(d, i, j, wt) > 0).any())


def jac_of(d, i, j):
    c = d.tables['object_data']
    return [float(c[n][i, j]) for n in (
        'cutout_row', 'cutout_col', 'dudrow', 'dudcol', 'dvdrow', 'dvdcol')]


def meta_of(d, i, j):
    c, ii = d.tables['object_data'], d.tables['image_info']
    f = c['file_id'][i, j]
    m = dict(id=c['id'][i], index=i, icut=j, cutout_index=j, file_id=f,
             file_path=str(ii['image_path'][f]).split('/')[-1].strip(),
             scale=ii['scale'][f])
    for n in ('orig_row', 'orig_col', 'orig_start_row', 'orig_start_col'):
        m[n] = c[n][i, j]
    names = c.dtype.names
    if 'flux_auto' in names:
        m['flux'] = c['flux_auto'][i]
    if 'x2' in names and 'y2' in names:
        m['T'] = c['x2'][i] + c['y2'][i]
    if 'number' in names:
        m['number'] = c['number'][i]
    return m


def jac_list(j):
    return [float(x) for x in (j.row0, j.col0, j.dudrow, j.dudcol,
                               j.dvdrow, j.dvdcol)]


class Oracle(object):
    """compares what was read with the file; lost: {(b, i, j): planes}"""

    def __init__(self, ctx, disks, lost, what, anyone=False):
        self.ctx = ctx
        self.disks = disks
        self.lost = lost
        self.what = what
        # one plane, wherever, may be missing
        self.spare = 1 if anyone else 0

    def obs(self, o, b, i, j, wt):
        import ngmix
        d, ctx = self.disks[b], self.ctx
        w = '%s, cutout %d of object %d, band %d' % (self.what, j, i, b)
        ctx.check(type(o) is ngmix.Observation, 'not-faithful',
                  lambda: '%s: %r' % (w, type(o)))
        self.same(o.image, plane(d, 'image', i, j), w, 'image')
        self.same(o.weight, weight_of(d, i, j, wt), w, 'weight')
        got = jac_list(o.jacobian)
        ctx.check(got == jac_of(d, i, j), 'not-faithful', lambda: '%s: '
                  'mapping %s, not %s' % (w, got, jac_of(d, i, j)))
        for p in OPT:
            have = getattr(o, 'has_' + p)()
            want = p + '_cutouts' in d.planes
            if want and not have:
                if p in self.lost.get((b, i, j), ()):
                    continue
                if self.spare:
                    self.spare -= 1
                    continue
            ctx.check(have == want, 'plane', lambda: '%s: %s is %s' % (
                w, p, 'there' if have else 'missing'))
            if have:
                self.same(getattr(o, p), plane(d, p, i, j), w, p)
        m, want = o.meta, meta_of(d, i, j)
        ctx.check(set(m) == set(want) and all(
            m[k] == want[k] for k in want), 'not-faithful', lambda: '%s: '
            'metadata %s, not %s' % (w, m, want))
        ctx.check(o.has_psf() == ('psf' in d.planes), 'not-faithful',
                  lambda: '%s: psf' % w)
        if o.has_psf():
            self.psf(o.psf, b, i, j)
        ctx.check(not o.has_gmix(), 'not-faithful', lambda: '%s: gmix' % w)

    def psf(self, p, b, i, j):
        d, ctx = self.disks[b], self.ctx
        c = d.tables['object_data']
        w = '%s, psf of cutout %d of object %d, band %d' % (
            self.what, j, i, b)
        im = plane(d, 'psf', i, j)
        self.same(p.image, im, w, 'image')
        want = 1.0 / (float(im.max()) / 1000.0) ** 2
        ctx.check(p.weight.shape == im.shape and np.allclose(
            p.weight, want, rtol=1e-4), 'not-faithful',
            lambda: '%s: weight %s' % (w, p.weight))
        want = [c['psf_cutout_row'][i, j], c['psf_cutout_col'][i, j]] \
            + jac_of(d, i, j)[2:]
        got = jac_list(p.jacobian)
        ctx.check(got == [float(x) for x in want], 'not-faithful',
                  lambda: '%s: mapping %s, not %s' % (w, got, want))

    def same(self, a, b, w, name):
        self.ctx.check(
            a.shape == b.shape and np.array_equal(
                np.asarray(a, dtype='f8'), np.asarray(b, dtype='f8')),
            'not-faithful', lambda: '%s: another %s than in the file' % (
                w, name))

    def obslist(self, ol, b, i, wt):
        import ngmix
        d, ctx = self.disks[b], self.ctx
        c = d.tables['object_data']
        js = [j for j in range(c['ncutout'][i]) if usable(d, i, j, wt)]
        w = '%s, object %d, band %d' % (self.what, i, b)
        ctx.check(type(ol) is ngmix.ObsList and len(ol) == len(js),
                  'wrong-cutouts', lambda: '%s: %s of %s cutouts' % (
                      w, len(ol), len(js)))
        for o, j in zip(ol, js):
            self.obs(o, b, i, j, wt)
        want = {}
        if js:
            m = meta_of(d, i, js[0])
            want = {k: m[k] for k in ('flux', 'T') if k in m}
        ctx.check(dict(ol.meta) == want, 'not-faithful', lambda: '%s: '
                  'list metadata %s, not %s' % (w, ol.meta, want))

    def mb(self, mb, i, wt):
        import ngmix
        self.ctx.check(type(mb) is ngmix.MultiBandObsList and
                       len(mb) == len(self.disks), 'wrong-cutouts',
                       lambda: '%s, object %d: %d bands' % (
                           self.what, i, len(mb)))
        for b, ol in enumerate(mb):
            self.obslist(ol, b, i, wt)

    def jac(self, jac, b, i, j):
        got = jac_list(jac)
        want = jac_of(self.disks[b], i, j)
        self.ctx.check(got == want, 'not-faithful', lambda: '%s: mapping '
                       '%s, not %s' % (self.what, got, want))


# ---------------------------------------------------------------------------

class Faults(object):
    """fails the at-th read (of an extension) during one operation"""

    def __init__(self, disks, f):
        self.f = f
        self.n = 0
        self.fired = None
        self.exc = None
        self.reads = 0
        for b, d in enumerate(disks):
            d.fault = lambda e, s, n, x, b=b: self.read(b, e, s, n, x)

    def read(self, b, ext, start, n, data):
        self.reads += 1
        f = self.f
        if f is None:
            return data
        name = ext.replace('_cutouts', '')
        if f['ext'] is not None and f['ext'] != name:
            return data
        self.n += 1
        if self.n != f['at']:
            return data
        self.fired = (b, name, start)
        if f['kind'] == 'short':
            return data[:-1]
        self.exc = {'OSError': OSError, 'MemoryError': MemoryError,
                    'ValueError': ValueError,
                    'KeyboardInterrupt': KeyboardInterrupt}[f['kind']](
                        'read failed')
        raise self.exc


def locate(d, name, start):
    """the cutout at a position of a plane"""
    c = d.tables['object_data']
    col = 'psf_start_row' if name == 'psf' else 'start_row'
    for i in range(c.size):
        for j in range(c['ncutout'][i]):
            if c[col][i, j] == start:
                return i, j
    return None


def kw(op):
    return {} if op['wt'] is None else {'weight_type': op['wt']}


def indices(op):
    if op['idx'] is None:
        return None
    if op['idx'] == 'array':
        return np.array(op['objs'])
    if op['idx'] == 'some':
        return list(op['objs'])
    return []


def execute(spec, ctx):
    M = reader()
    nb = len(spec['bands'])
    disks = [make_file(spec, b) for b in range(nb)]
    readers = [M.NGMixMEDS(d) for d in disks]
    multi = M.MultiBandNGMixMEDS(readers)
    ctx.check(multi.nband == nb and multi.size == spec['nobj'],
              'wrong-cutouts', 'size of the catalogue')
    held = []
    changed = interesting = False
    for n, op in enumerate(spec['ops']):
        k = op['k']
        what = 'step %d (%s %s)' % (n, k, op['wt'])
        b, i = op['b'] % nb, op['i'] % spec['nobj']
        d = disks[b]
        ncut = int(d.tables['object_data']['ncutout'][i])
        j = op['j'] % ncut if ncut else None
        wt = op['wt'] or 'weight'
        ctx.count('op-' + k)
        if k == 'edit':
            if held:
                o = held[op['j'] % len(held)]
                with o.writeable():
                    o.image += 1.0
                    o.weight *= 2.0
                    if o.has_bmask():
                        o.bmask[:] = 0
                o.meta['id'] = 'mine'
                o.jacobian = jac_moved(o)
                if o.has_psf():
                    with o.psf.writeable():
                        o.psf.image *= 3
                changed = True
            continue
        if k == 'disk':
            p = sorted(d.planes)[op['j'] % len(d.planes)]
            x = d.planes[p]
            if x.size and p != 'seg_cutouts':
                if p == 'weight_cutouts' and op['i'] % 2:
                    x[:] = x[::-1].copy()
                else:
                    x[:] = np.roll(x, 1 + op['i'])
                changed = True
            continue
        if k == 'reopen':
            readers[b] = M.NGMixMEDS(d)
            multi = M.MultiBandNGMixMEDS(readers)
            continue
        if k in ('obs', 'psf', 'jac', 'badwt') and j is None:
            continue
        if k == 'psf' and 'psf' not in d.planes:
            continue
        interesting = interesting or changed
        if k == 'pair':
            interesting = run_pair(ctx, disks, readers, multi, op, i,
                                   op['i2'] % spec['nobj'], wt, what
                                   ) or interesting
            continue
        fn = {
            'obs': lambda: readers[b].get_obs(i, j, **kw(op)),
            'list': lambda: readers[b].get_obslist(i, **kw(op)),
            'mb': lambda: multi.get_mbobs(i, **kw(op)),
            'mblist': lambda: multi.get_mbobs_list(indices(op), **kw(op)),
            'psf': lambda: readers[b].get_psf_obs(i, j),
            'jac': lambda: readers[b].get_ngmix_jacobian(i, j),
            'badwt': lambda: readers[b].get_obs(i, j, weight_type='wght'),
            'far': lambda: readers[b].get_obs(i, ncut + op['j']),
        }[k]
        inj = None
        if 'inject' in op:
            f = Faults(disks, None)
            try:
                nst, _ = count_statements(fn)
            except Exception:
                nst = 40
            at = 1 + int(op['inject']['f'] * nst)
            tr, res, exc = run_with_fault(fn, at, op['inject']['e'])
            if tr.fired:
                inj = op['inject']['e']
                ctx.fault('statement-' + inj)
                interesting = True
        else:
            f = Faults(disks, op.get('fault'))
            res = exc = None
            try:
                res = fn()
            except Exception as e:
                exc = e
            except KeyboardInterrupt as e:
                if e is not f.exc:
                    raise
                exc = e
        ctx.step(f.reads)
        lost = {}
        if f.fired:
            ctx.fault(f.f['kind'] + '-' + f.fired[1])
            interesting = True
            at = locate(disks[f.fired[0]], *f.fired[1:])
            if at is not None and f.fired[1] in OPT:
                lost[(f.fired[0],) + at] = (f.fired[1],)
        ctx.state(k, wt, f.fired and f.f['kind'], f.fired and f.fired[1],
                  inj, tuple(sorted(d.planes)),
                  None if j is None else usable(d, i, j, wt))
        if exc is not None:
            expected_error(ctx, exc, f, inj, k, d, i, j, wt, what)
            ctx.log(what, type(exc).__name__)
            continue
        ora = Oracle(ctx, disks, lost, what, anyone=inj is not None)
        ctx.log(what, 'ok', lost)
        if k == 'obs':
            ctx.check(usable(d, i, j, wt), 'wrong-cutouts', lambda: '%s '
                      'gives an observation without usable weight' % what)
            ora.obs(res, b, i, j, wt)
            held.append(res)
        elif k == 'list':
            ora.obslist(res, b, i, wt)
            held.extend(res)
        elif k == 'mb':
            ora.mb(res, i, wt)
            held.extend(o for ol in res for o in ol)
        elif k == 'mblist':
            objs = list(range(spec['nobj'])) if op['idx'] is None else (
                [] if op['idx'] == [] else op['objs'])
            ctx.check(isinstance(res, list) and len(res) == len(objs),
                      'wrong-cutouts', lambda: '%s: %d of %d objects' % (
                          what, len(res), len(objs)))
            for r, i2 in zip(res, objs):
                ora.mb(r, i2, wt)
        elif k == 'psf':
            ora.psf(res, b, i, j)
            held.append(res)
        elif k == 'jac':
            ora.jac(res, b, i, j)
        else:
            ctx.fail('no-error', '%s gives %r' % (what, type(res)))
    for d in disks:
        d.fault = None
    if interesting:
        ctx.count('nontrivial')


def jac_moved(o):
    j = o.jacobian.copy()
    j.set_cen(row=0.0, col=0.0)
    return j


def expected_error(ctx, exc, f, inj, k, d, i, j, wt, what):
    from ngmix.gexceptions import GMixFatalError
    if inj is not None and 'injected by the simulator' in str(exc):
        return
    if f.fired:
        if exc is f.exc:
            return
        if f.f['kind'] == 'short' and isinstance(exc, ValueError):
            return
    if k == 'obs' and isinstance(exc, GMixFatalError):
        ctx.check(not usable(d, i, j, wt), 'wrong-cutouts', lambda: '%s '
                  'refuses a cutout with usable weight' % what)
        return
    if k == 'badwt' and isinstance(exc, ValueError):
        return
    if k == 'far' and isinstance(exc, (ValueError, IndexError)):
        return
    ctx.fail('unexpected-%s' % type(exc).__name__, '%s: %s' % (what, exc))


def run_pair(ctx, disks, readers, multi, op, i, i2, wt, what):
    """two threads read through the same readers"""
    Faults(disks, None)
    b = op['b'] % len(disks)
    s = Scheduler([lambda: multi.get_mbobs(i, **kw(op)),
                   lambda: readers[b].get_obslist(i2, **kw(op))],
                  op['sched'])
    a, c = s.run()
    for t in (a, c):
        if t.error is not None:
            raise t.error
    ora = Oracle(ctx, disks, {}, what)
    ora.mb(a.result, i, wt)
    ora.obslist(c.result, b, i2, wt)
    ctx.interleaving(tuple(s.order))
    ctx.fault('thread-switch', s.switches)
    ctx.log(what, s.order)
    return s.overlapped
