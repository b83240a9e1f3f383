"""C19 Writing never alters the caller's data."""
import os
import numpy as np
from .. import lib, data as D
from ..engine import Scenario, Prune
from ..large import pow2
from ..lib import Session

BOUNDS = {'quick': '7 dtypes x 2 byte orders x 2 widths x 7 kinds of source x (10 memory layouts, casts, chunk sizes, windows and 13 '
                   'ways of failing: deviation bound 2); aliased and overlapping arrays; '
                   'histories of up to 3 writes (deviation bound 2); rows 2^k-1, 2^k, 2^k+1 (k = 7, 10, 13, 16) x dtypes x sources x casts',
          'thorough': '12 dtypes x 3 widths x 10 memory layouts without a bound, deviation bound 2 (the rest)'}
ASSUMPTIONS = ['compared after every write(): all bytes of every underlying buffer (padding and gaps of views included), dtype, shape, strides, '
               'writeable flag, identity, order and keys of dicts, bytes of HDF5 and memory-mapped files']

FAILS = ['no failure', 'unsupported dtype', 'three dimensions', 'missing dataset', 'unequal rows', 'bad directory', 'output chunk too small', 'window too far',
         'input chunk invalid', 'row fails', 'last row fails', 'name too long', 'open fails late', 'dimension mismatch']


def raw(a):
    """All bytes of the buffer behind an array."""
    b = a
    while isinstance(b, np.ndarray) and isinstance(b.base, np.ndarray):
        b = b.base
    root = b.base if b.base is not None and not isinstance(b.base, np.ndarray) else b
    try:
        mv = memoryview(root)
        if not mv.c_contiguous:
            return mv.tobytes()
        return bytes(mv)
    except (TypeError, ValueError, BufferError):
        return np.asarray(b).tobytes()


def snap(a):
    return (raw(a), a.tobytes(), str(a.dtype), a.dtype.descr if a.dtype.names else None, a.shape, a.strides, a.flags.writeable, id(a.base), a.ctypes.data)


class Owned:
    """Everything the caller owns."""

    def __init__(self, s):
        self.s, self.arrays, self.dicts, self.files = s, [], [], []

    def array(self, n, a):
        self.arrays.append((n, a, snap(a)))

    def dict(self, d):
        self.dicts.append((d, [(k, id(v)) for k, v in d.items()]))

    def file(self, p):
        with open(p, 'rb') as f:
            self.files.append((p, f.read()))

    def check(self, when):
        for n, a, sn in self.arrays:
            now = snap(a)
            if now != sn:
                what = ['buffer', 'values', 'dtype', 'fields', 'shape', 'strides', 'writeable flag', 'base', 'address'][
                    next(i for i, (x, y) in enumerate(zip(sn, now)) if x != y)]
                self.s.fail('altered', f"{when}: {what} of the caller's array {n} changed")
        for d, items in self.dicts:
            if [(k, id(v)) for k, v in d.items()] != items:
                self.s.fail('dict', f"{when}: the dict passed as data had {[k for k, _ in items]}, now {list(d)} (or its values were replaced)")
        for p, b in self.files:
            with open(p, 'rb') as f:
                if f.read() != b:
                    self.s.fail('file', f"{when}: the file {os.path.basename(p)} changed")


def fields(name, w, order, rows, off=0):
    a = D.base(name, rows, w, off)
    return a.astype(a.dtype.newbyteorder(order))


SRC = ['inline', 'dict', 'structured exact', 'structured', 'hdf5', 'memmap', 'half']


def run(tier):
    def fn(ctx):
        q = tier == 'quick'
        name = ctx.choose('dtype', ['int8', 'int16', 'uint32', 'float32', 'float64', 'int64', 'float16'] if q else D.DTYPES + D.OTHER)
        order = ctx.choose('byte order', ['<', '>'] if np.dtype(name).itemsize > 1 else ['='])
        width = ctx.choose('width', [None, 3] if q else [None, 1, 3])
        src = ctx.choose('source', SRC)
        lay = ctx.choose('layout', D.LAYOUTS, dev=q or src in ('structured', 'structured exact', 'hdf5', 'memmap'))
        if lay != 'C' and src in ('structured', 'structured exact', 'hdf5', 'memmap'):
            raise Prune('layout is lost')
        cast = ctx.choose('cast', [None, 'float64', 'int32', 'same', 'same, big-endian', 'uint8'], dev=True)
        chunk = ctx.choose('input_chunk_size', [None, 1, 2, 5], dev=True)
        win = ctx.choose('window', [(0, None), (1, 3), (2, None)], dev=True)
        idx = ctx.choose('index type', [None, 'BOREHOLE-DEPTH'], dev=True)
        fail = ctx.choose('failure', FAILS, dev=True)
        twice = ctx.choose('writes', [1, 2], dev=True)
        rows = 5
        a = D.layout(fields(name, width, order, rows), lay)
        b = D.layout(fields(name, width, order, rows, 7), lay)
        if a is None:
            raise Prune('no such layout')
        c = None
        if cast and cast.startswith('same') and name in D.OTHER:
            raise Prune('not a dtype one can cast to')
        if cast:
            if cast == 'uint8' and np.dtype(name).kind == 'f' or cast == 'int32' and np.dtype(name).kind == 'f':
                from .c03 import castable
                v = castable(name, cast)
                n = rows * (width or 1)
                if lay in ('read-only', 'zero stride'):
                    raise Prune('no such values')
                a[...] = v[np.arange(n) % len(v)].reshape(a.shape)
            c = np.dtype(name).newbyteorder('>' if 'big' in cast else '=') if cast.startswith('same') else np.dtype(cast)
        elif name in D.OTHER and fail == 'no failure':
            pass    # an unsupported dtype: fails on its own
        arrays = {'A': a, 'B': b}
        s = Session()
        own = Owned(s)
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        inl = {'inline': 'AB', 'half': 'A'}.get(src, '')
        for k, v in arrays.items():
            own.array(k, v)
        extra = None
        if fail == 'unsupported dtype':
            extra = np.array([b'abc'] * rows)
        elif fail == 'three dimensions':
            extra = np.zeros((rows, 2, 2))
        elif fail == 'unequal rows':
            extra = np.zeros(rows - 3)
        elif fail == 'dimension mismatch':
            extra = np.zeros((rows, 2))
        if extra is not None:
            if src in ('structured', 'structured exact', 'memmap') and len(extra) != rows:
                raise Prune('not possible')
            arrays['X'] = extra
            own.array('X', extra)
            inl += 'X' if src in ('inline', 'half') else ''
        cs = []
        for k, v in arrays.items():
            kw = {'dimension': [3]} if fail == 'dimension mismatch' and k == 'X' else {}
            cs.append(s.add(lf, 'channel', k, data=v if k in inl else None, cast_dtype=c if k == 'A' else None, **kw))
        if fail == 'missing dataset':
            cs.append(s.add(lf, 'channel', 'MISSING'))
        if fail == 'name too long':
            s.add(lf, 'comment', 'n' * 300)
        s.add(lf, 'frame', 'F', channels=cs, index_type=idx)
        passed = {k: v for k, v in arrays.items() if k not in inl}
        d = None
        if src in ('dict', 'half'):
            d = dict(passed)
            d['unused'] = np.arange(3)
            own.dict(d)
            own.array('unused', d['unused'])
        elif src.startswith('structured') or src == 'memmap':
            it = list(passed.items())
            if src == 'structured':
                it = it[::-1] + [('unused', np.arange(rows))]
            dt = np.dtype([(k, v.dtype, v.shape[1:]) for k, v in it])
            if src == 'memmap':
                p = os.path.join(os.path.dirname(ctx.path()), 'm.dat')
                with open(p, 'wb') as f:
                    f.write(bytes(dt.itemsize * rows))
                d = np.memmap(p, dtype=dt, mode='r+', shape=(rows,))
            else:
                d = np.zeros(rows, dt)
            for k, v in it:
                d[k] = v
            if src == 'memmap':
                d.flush()
                own.file(p)
            else:
                own.array('source', d)
        elif src == 'hdf5':
            if any(v.dtype.kind == 'S' for v in passed.values()):
                raise Prune('not possible')
            d = D.make_source('hdf5', passed)
            own.file(d)
        kw = dict(data=d, input_chunk_size=chunk, from_idx=win[0], to_idx=win[1])
        path = None
        if fail == 'bad directory':
            path = os.path.join(os.path.dirname(ctx.path()), 'no such directory', 'x.dlis')
        if fail == 'output chunk too small':
            kw['output_chunk_size'] = 100
        if fail == 'window too far':
            kw['from_idx'] = 77
        if fail == 'input chunk invalid':
            kw['input_chunk_size'] = 0
        for i in range(twice):
            cls, cnt = lib.row_class(), [0]
            oi = cls.__init__ if cls else None
            if fail in ('row fails', 'last row fails'):
                if cls is None:
                    raise Prune('no class of rows')
                n = 1 if fail == 'row fails' else len(range(rows)[win[0]:win[1]])

                def boom(self, *x, **y):
                    cnt[0] += 1
                    oi(self, *x, **y)
                    if cnt[0] == n:
                        raise RuntimeError('injected')
                cls.__init__ = boom
            try:
                st, r = s.write(path=path, **kw)
            finally:
                if cls:
                    cls.__init__ = oi
            own.check(f"write {i + 1} ({'successful' if st == 'ok' else 'failed: ' + type(r).__name__})")
            ctx.outcome('intact after a successful write' if st == 'ok' else 'intact after a failed write')
        ctx.step(len(own.arrays) * twice)
    return fn


def alias(tier):
    """Channels whose arrays are the same object, overlapping views or views of one structured array."""
    def fn(ctx):
        how = ctx.choose('arrays', ['same object', 'overlapping', 'fields', 'reversed view', 'bytes view', 'broadcast'])
        order = ctx.choose('byte order', ['<', '>'])
        c1 = ctx.choose('cast of the first', [None, 'float32', 'float64', '>f8'])
        c2 = ctx.choose('cast of the second', [None, 'float32', 'int16'])
        src = ctx.choose('given', ['inline', 'dict'])
        frames = ctx.choose('frames', [1, 2])
        chunk = ctx.choose('input_chunk_size', [None, 1, 3])
        base = np.arange(12, dtype=np.float64).astype(f'{order}f8')
        base[3] = 0.1
        if how == 'same object':
            a = b = base[:6]
        elif how == 'overlapping':
            a, b = base[0:6], base[3:9]
        elif how == 'fields':
            z = np.zeros(6, [('p', f'{order}f8'), ('q', f'{order}f8'), ('r', 'u1')])
            z['p'], z['q'] = base[:6], base[6:]
            a, b = z['p'], z['q']
        elif how == 'reversed view':
            a, b = base[:6], base[5::-1]
        elif how == 'bytes view':
            a, b = base[:6], base.view('u1')[:6]
        else:
            a, b = np.broadcast_to(base[:1], (6,)), base[:6]
        s = Session()
        own = Owned(s)
        own.array('A', a)
        own.array('B', b)
        own.array('base', base)
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        x = s.add(lf, 'channel', 'A', data=a if src == 'inline' else None, cast_dtype=np.dtype(c1) if c1 else None)
        y = s.add(lf, 'channel', 'B', data=b if src == 'inline' else None, cast_dtype=np.dtype(c2) if c2 else None)
        if frames == 1:
            s.add(lf, 'frame', 'F', channels=[x, y])
        else:
            s.add(lf, 'frame', 'F', channels=[x], index_type='BOREHOLE-DEPTH')
            s.add(lf, 'frame', 'G', channels=[y])
        d = None
        if src == 'dict':
            d = {'A': a, 'B': b}
            own.dict(d)
        r = lib.write_ok(s, data=d, input_chunk_size=chunk)
        own.check('write')
        arrays = {'A': a, 'B': b}
        for v in lib.match(s, lib.parse(s, r)):
            lib.check_frame_data(v, arrays)
        ctx.outcome('intact')
    return fn


def histories(tier):
    """Several writes, with the data passed or not, of one or two files sharing arrays: nothing sticks to the caller's dict."""
    def fn(ctx):
        n = ctx.choose('writes', [2, 3])
        chunk = ctx.choose('input_chunk_size', [None, 2])
        s = Session()
        own = Owned(s)
        base = {k: D.base('float64', 6, None, i) for i, k in enumerate('ABC')}
        inl = ctx.choose('inline', ['', 'A', 'AB', 'ABC'])
        for k, v in base.items():
            own.array(k, v)
        s2 = Session()
        for q in (s, s2):
            lf = q.lf()
            q.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
            cs = [q.add(lf, 'channel', k, data=base[k] if k in inl else None) for k in 'ABC']
            q.add(lf, 'frame', 'F', channels=cs)
        d = {k: v for k, v in base.items() if k not in inl}
        e = {k: v[::-1] for k, v in base.items()}
        st_ = np.zeros(6, [(k, 'f8') for k in 'ABC'])
        for k in 'ABC':
            st_[k] = base[k]
        own.array('structured', st_)
        own.dict(d)
        own.dict(e)
        for i in range(n):
            q = ctx.choose(f'write {i} of', [s, s2], names=['first file', 'second file'])
            what = ctx.choose(f'write {i} data', ['needed', 'all', 'structured', 'none', 'wrong'])
            data = {'needed': d, 'all': e, 'structured': st_, 'none': None, 'wrong': {'A': base['A'][:2]}}[what]
            if what == 'wrong':
                own.dict(data)
            st, r = q.write(data=data, input_chunk_size=chunk)
            own.check(f"write {i + 1} ({what}, {'ok' if st == 'ok' else type(r).__name__})")
            if st == 'ok':
                arr = dict(base)
                if isinstance(data, dict):
                    arr.update(data)
                for v in lib.match(q, lib.parse(q, r)):
                    lib.check_frame_data(v, arr)
            ctx.outcome('intact')
    return fn


def long(tier):
    """Arrays of every size 2^k - 1, 2^k, 2^k + 1: what is done in place to save memory or time would be done to the large ones."""
    def fn(ctx):
        n = ctx.choose('rows', pow2(7, 16 if tier == 'quick' else 18, 3))
        dt = ctx.choose('dtype', ['<f8', '>f8', '>i4', 'u1'] if tier == 'quick' else ['<f8', '>f8', '>i4', '<i2', '>u2', 'u1', '>f4'])
        src = ctx.choose('source', ['inline', 'dict', 'structured exact', 'hdf5'])
        cast = ctx.choose('cast', [None, 'float32', 'same, other order'])
        chunk = ctx.choose('input_chunk_size', [None, 1000])
        wide = ctx.choose('width', [None, 1 << 12]) if n < 1100 else None
        if n > 10000 and tier == 'quick' and (src == 'structured exact' or chunk and cast):
            raise Prune('costly')
        a = (np.arange(n * (wide or 1)) * 7 % 251).astype(dt).reshape((n, wide) if wide else (n,))
        if wide and n > 10:
            a = a[:5]
        s = Session()
        own = Owned(s)
        own.array('A', a)
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        c = None if cast is None else np.dtype(cast) if cast == 'float32' else np.dtype(dt).newbyteorder('S')
        ch = s.add(lf, 'channel', 'A', data=a if src == 'inline' else None, cast_dtype=c)
        s.add(lf, 'frame', 'F', channels=[ch], index_type=None if wide else 'BOREHOLE-DEPTH')
        d = None
        if src == 'dict':
            d = {'A': a}
            own.dict(d)
        elif src == 'structured exact':
            d = np.zeros(len(a), [('A', a.dtype, a.shape[1:])])
            d['A'] = a
            own.array('source', d)
        elif src == 'hdf5':
            d = D.make_source('hdf5', {'A': a})
            own.file(d)
        st, r = s.write(data=d, input_chunk_size=chunk, output_chunk_size=1 << 16)
        own.check(f"write ({'successful' if st == 'ok' else 'failed: ' + type(r).__name__})")
        ctx.outcome('intact')
    return fn


def scenarios(tier):
    q = tier == 'quick'
    return [Scenario('run', run(tier), bound=2), Scenario('alias', alias(tier)), Scenario('histories', histories(tier)),
            Scenario('long', long(tier))]
