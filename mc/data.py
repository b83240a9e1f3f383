"""Input arrays: special bit patterns, memory layouts, data sources."""
import os
import struct
import numpy as np
from . import lib

DTYPES = ['int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'float32', 'float64']
OTHER = ['int64', 'uint64', 'float16', 'bool']


def specials(name):
    dt = np.dtype(name)
    if dt.kind == 'f':
        n = dt.itemsize * 8
        u = np.dtype(f"uint{n}")
        e, m = {16: (5, 10), 32: (8, 23), 64: (11, 52)}[n]
        inf = ((1 << e) - 1) << m
        pats = [0, 1 << (n - 1), 1, (1 << m) - 1, 1 << m, inf - 1, inf, inf | 1 << (n - 1),
                inf | 1 << (m - 1), inf | 1 << (m - 1) | 0x2a5, inf | 1 << (n - 1) | 1 << (m - 1) | 3, inf | 1, inf | 0x155,
                0x0102030405060708 & ((1 << n) - 1) & ~inf | (1 << (m + 2)), ((1 << (e - 1)) - 1) << m]
        return np.array(pats, dtype=u).view(dt)
    if dt.kind == 'b':
        return np.array([False, True, True, False, True] * 3)
    i = np.iinfo(dt)
    n = dt.itemsize * 8
    pat = 0x0102030405060708 >> (64 - n)
    return np.array([0, 1, i.max, i.min, i.max - 1, i.min + 1, pat, i.max // 3, i.max ^ 0x55, 2, 3, 100, i.max // 2, i.max // 2 + 1, 5],
                    dtype=dt)


def base(name, rows, width, off=0):
    """rows x width array (1-D if width is None) cycling through the special values."""
    sp = specials(name)
    n = rows * (width or 1)
    a = sp[(np.arange(n) + off) % len(sp)]
    return a.copy() if width is None else a.reshape(rows, width).copy()


LAYOUTS = ['C', 'fortran', 'row stride', 'reversed', 'column', 'struct field', 'offset', 'read-only', 'zero stride', 'transposed']


def layout(a, kind):
    """The same values in another memory layout; None if there is no such layout for this array."""
    if kind == 'C':
        return a
    if kind == 'fortran':
        return np.asfortranarray(a) if a.ndim == 2 else None
    if kind == 'row stride':
        b = np.zeros((a.shape[0] * 3,) + a.shape[1:], a.dtype)
        b[1::3] = a
        return b[1::3]
    if kind == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    if kind == 'column':
        if a.ndim == 1:
            b = np.zeros((a.shape[0], 3), a.dtype)
            b[:, 1] = a
            return b[:, 1]
        b = np.zeros((a.shape[0], 2 * a.shape[1] + 1), a.dtype)
        b[:, 1::2] = a
        return b[:, 1::2]
    if kind == 'struct field':
        d = np.dtype([('pad', 'u1'), ('v', a.dtype, a.shape[1:]), ('q', 'u1', (3,))])
        b = np.zeros(a.shape[0], d)
        b['v'] = a
        return b['v']
    if kind == 'offset':
        raw = bytearray(1 + a.nbytes)
        b = np.frombuffer(raw, a.dtype, a.size, 1).reshape(a.shape)
        b[...] = a
        return b
    if kind == 'read-only':
        b = a.copy()
        b.setflags(write=False)
        return b
    if kind == 'zero stride':
        return np.broadcast_to(a[:1], a.shape)
    if kind == 'transposed':
        return np.ascontiguousarray(a.T).T if a.ndim == 2 else None
    raise AssertionError(kind)


SOURCES = ['inline', 'dict', 'structured', 'hdf5']


def make_source(kind, arrays, path=None, extra=None, order=None):
    """arrays: dataset name -> array.  Returns the object to pass as `data` (None for inline)."""
    if kind == 'inline':
        return None
    items = list(arrays.items())
    if order == 'reversed':
        items = items[::-1]
    if extra:
        items = items[:1] + list(extra.items()) + items[1:]
    if kind == 'dict':
        return dict(items)
    if kind == 'structured':
        rows = len(items[0][1])
        b = np.zeros(rows, np.dtype([(k, v.dtype, v.shape[1:]) for k, v in items]))
        for k, v in items:
            b[k] = v
        return b
    if kind == 'hdf5':
        import h5py
        path = path or os.path.join(os.path.dirname(lib.ENV.path), 'src.h5')
        try:
            os.unlink(path)
        except OSError:
            pass
        with h5py.File(path, 'w') as f:
            for k, v in items:
                f.create_dataset(k, data=v)
        return path
    raise AssertionError(kind)
