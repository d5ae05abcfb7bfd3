"""
Stand-in for the `fitsio` package, which is not installed: files are
dictionaries in memory; a write or read may be made to fail, leaving what was
written so far, as a full or failing disk does.
"""
import sys
import types

import numpy as np

files = {}
# what to do at the next accesses: None or (kind, countdown)
fault = None


def _access():
    global fault
    if fault is None:
        return
    fault = (fault[0], fault[1] - 1)
    if fault[1] == 0:
        kind, fault = fault[0], None
        raise kind('simulated disk')


class _HDU(object):
    def __init__(self, data):
        self.data = data

    def read(self):
        _access()
        # FITS holds big-endian numbers
        return self.data.astype(self.data.dtype.newbyteorder('>'))


class FITS(object):
    def __init__(self, fname, mode='r', clobber=False):
        _access()
        self.fname = fname
        if mode == 'rw':
            if clobber:
                files[fname] = {}
            files.setdefault(fname, {})
        elif fname not in files:
            raise OSError('no such file: %s' % fname)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, data, extname=None):
        _access()
        files[self.fname][extname] = np.array(data)

    def __getitem__(self, ext):
        if ext not in files[self.fname]:
            raise OSError('extension not found: %s' % ext)
        return _HDU(files[self.fname][ext])

    def __contains__(self, ext):
        return ext in files[self.fname]


def read(fname, ext=None):
    with FITS(fname) as f:
        return f[ext].read()


def write(fname, data, extname=None, clobber=False):
    with FITS(fname, 'rw', clobber=clobber) as f:
        f.write(data, extname=extname)


def install():
    global fault
    fault = None
    files.clear()
    m = types.ModuleType('fitsio')
    m.FITS, m.read, m.write = FITS, read, write
    m.SIMULATED = True
    sys.modules['fitsio'] = m
