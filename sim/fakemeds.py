"""
Stand-in for the `meds` package, which is not installed: the file is a set of
flat planes and tables in memory, behind a simulated disk which counts every
read and can fail it.  Only what the real reader class offers is here, with
its names; images are always handed out as new arrays, as a read from disk is.
"""
import sys
import types

import numpy as np


class Disk(object):
    """the planes of one file, and the faults to come"""

    def __init__(self):
        self.planes = {}
        self.tables = {}
        self.fault = None        # called with (extension, start, n, data)

    def read(self, ext, start, n):
        if ext not in self.planes:
            raise ValueError('extension not found: %s' % ext)
        data = self.planes[ext][start:start + n].copy()
        if self.fault is not None:
            data = self.fault(ext, start, n, data)
        return data


class MEDS(object):
    def __init__(self, filename):
        self._filename = filename
        # here the file itself
        self._disk = filename
        self._cat = self._disk.tables['object_data']
        self._image_info = self._disk.tables['image_info']
        self._meta = None

    @property
    def size(self):
        return self._cat.size

    def has_psf(self):
        return 'psf' in self._disk.planes

    def get_cat(self):
        return self._cat

    def get_image_info(self):
        return self._image_info

    def get_meta(self):
        return self._meta

    def _check(self, iobj, icutout):
        if iobj >= self._cat.size:
            raise ValueError('object index should be within [0,%d)'
                             % self._cat.size)
        if icutout >= self._cat['ncutout'][iobj]:
            raise ValueError('requested cutout index %s out of range'
                             % icutout)

    def get_cutout(self, iobj, icutout, type='image'):
        if type == 'psf':
            return self.get_psf(iobj, icutout)
        self._check(iobj, icutout)
        b = self._cat['box_size'][iobj]
        start = self._cat['start_row'][iobj, icutout]
        flat = self._disk.read(type + '_cutouts', start, b * b)
        return flat.reshape(b, b)

    def get_cutout_list(self, iobj, type='image'):
        return [self.get_cutout(iobj, i, type=type)
                for i in range(self._cat['ncutout'][iobj])]

    def get_psf(self, iobj, icut):
        self._check(iobj, icut)
        c = self._cat
        if 'psf_row_size' in c.dtype.names:
            shape = c['psf_row_size'][iobj], c['psf_col_size'][iobj]
        else:
            shape = (c['psf_box_size'][iobj],) * 2
        start = c['psf_start_row'][iobj, icut]
        return self._disk.read(
            'psf', start, shape[0] * shape[1]).reshape(shape)

    def get_psf_list(self, iobj):
        return [self.get_psf(iobj, i)
                for i in range(self._cat['ncutout'][iobj])]

    def _seg(self, iobj, icutout):
        return self.get_cutout(iobj, icutout, type='seg')

    def get_uberseg(self, iobj, icutout, fast=True):
        w = self.get_cutout(iobj, icutout, type='weight')
        s = self._seg(iobj, icutout)
        w[(s != 0) & (s != self._cat['number'][iobj])] = 0
        return w

    def get_cweight_cutout(self, iobj, icutout, restrict_to_seg=False):
        w = self.get_cutout(iobj, icutout, type='weight')
        s = self._seg(iobj, icutout)
        ok = s == self._cat['number'][iobj]
        if not restrict_to_seg:
            ok |= s == 0
        w[~ok] = 0
        return w

    def get_cseg_weight(self, iobj, icutout, use_canonical_cen=False):
        w = self.get_cutout(iobj, icutout, type='weight')
        b = w.shape[0]
        if use_canonical_cen:
            r = c = (b - 1) / 2
        else:
            r = self._cat['cutout_row'][iobj, icutout]
            c = self._cat['cutout_col'][iobj, icutout]
        rows, cols = np.mgrid[:b, :b]
        w[(rows - r) ** 2 + (cols - c) ** 2 > (b / 3.0) ** 2] = 0
        return w

    def get_jacobian(self, iobj, icutout):
        self._check(iobj, icutout)
        c = self._cat
        return dict(
            row0=c['cutout_row'][iobj, icutout],
            col0=c['cutout_col'][iobj, icutout],
            dudrow=c['dudrow'][iobj, icutout],
            dudcol=c['dudcol'][iobj, icutout],
            dvdrow=c['dvdrow'][iobj, icutout],
            dvdcol=c['dvdcol'][iobj, icutout])

    def get_jacobian_list(self, iobj):
        return [self.get_jacobian(iobj, i)
                for i in range(self._cat['ncutout'][iobj])]


def install():
    """make `import meds` give this"""
    try:
        import meds  # noqa
        if getattr(meds, 'SIMULATED', False):
            return
    except ImportError:
        pass
    m = types.ModuleType('meds')
    m.MEDS = MEDS
    m.SIMULATED = True
    sys.modules['meds'] = m
    # the package was perhaps imported without it
    sys.modules.pop('ngmix.medsreaders', None)
