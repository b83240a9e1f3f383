"""C03 Channel data round-trips bit-exactly, one numbered record per row."""
import itertools
import numpy as np
from .. import data as D, large, lib
from ..engine import Scenario, Prune
from ..lib import Session

LARGE = ['rows', 'narrow rows', 'row width', 'row bytes', 'channels', 'frames', 'shared channel']
BOUNDS = {'quick': 'all products of 8 dtypes x 2 byte orders x 10 memory layouts x 4 widths x 4 sources x chunk sizes on 15 special bit '
                   'patterns per dtype; 12 source dtypes x 8 casts x 3 spellings; all ordered selections of 3 channels out of 4; '
                   'frame numbers through the 1/2/4-byte boundaries',
          'thorough': 'more widths, row counts and chunk sizes; ordered selections of 4 out of 5'}
BOUNDS['quick'] += '; ' + large.bounds(LARGE)
ASSUMPTIONS = ['expected slots computed from the input by numpy astype and byte-order conversion of a private copy']


def setup(s, chans, inline):
    """chans: list of (name, array, cast)."""
    lf = s.lf()
    s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
    cs = [s.add(lf, 'channel', n, data=a if inline else None, cast_dtype=c) for n, a, c in chans]
    return lf, cs


def judge(s, r, md=None, **kw):
    f = lib.parse(s, r)
    vs = lib.match(s, f)
    for v in vs:
        lib.check_frame_data(v, md, **kw)
        lib.check_descriptors(v, md)
    return f


def bits(tier):
    widths = [None, 1, 3, 8] if tier == 'quick' else [None, 1, 2, 3, 5, 8, 16, 33]
    rows_ = [5] if tier == 'quick' else [1, 2, 5, 15]
    chunks = [None, 2] if tier == 'quick' else [None, 1, 2, 3, 4, 15, 100]

    def fn(ctx):
        name = ctx.choose('dtype', D.DTYPES)
        order = ctx.choose('byte order', ['<', '>'] if np.dtype(name).itemsize > 1 else ['='])
        width = ctx.choose('width', widths)
        lay = ctx.choose('layout', D.LAYOUTS)
        src = ctx.choose('source', D.SOURCES)
        if src in ('structured', 'hdf5') and lay not in ('C', 'row stride'):
            raise Prune('layout is lost in this source')
        rows = ctx.choose('rows', rows_)
        chunk = ctx.choose('input_chunk_size', chunks)
        # several offsets into the table of specials, so that every pattern occurs in every combination
        chans = []
        for off in range(0, 15, rows * (width or 1)):
            a = D.layout(D.base(name, rows, width, off).astype(np.dtype(name).newbyteorder(order)), lay)
            if a is None:
                raise Prune('no such layout')
            if lay == 'zero stride':
                a = D.layout(D.base(name, rows, width, off).astype(np.dtype(name).newbyteorder(order)), lay)
            chans.append((f"C{off}", a, None))
        s = Session()
        lf, cs = setup(s, chans, src == 'inline')
        s.add(lf, 'frame', 'F', channels=cs)
        arrays = {n: a for n, a, _ in chans}
        d = D.make_source(src, arrays)
        r = lib.write_ok(s, input_chunk_size=chunk, data=d)
        judge(s, r, arrays)
        ctx.validated_trace(rows)
        ctx.outcome('exact')
    return fn


def castable(src, dst):
    """Values of dtype src whose cast to dst is well defined (in range for floats to integers)."""
    a = D.specials(src)
    if a.dtype.kind == 'f':
        a = a.copy()
        if np.dtype(dst).kind in 'iu':
            i = np.iinfo(dst)
            a = np.array([0.0, 1.0, 1.5, 2.75, 100.0, 3.0, 126.99, 7.0, 0.5, 11.0, 12.0, 13.25, 14.0, 15.0, 16.0], a.dtype)
            if i.min < 0:
                a[::2] = -a[::2]
        else:
            q = np.array([0.0, -0.0, 1.5, -2.5, np.inf, -np.inf, np.nan, 0.1, 1e-3, 65504.0, 3.0, -1.0, 2.0, 1e-7, 5.0], a.dtype)
            a = q
    return a


def casts(tier):
    spell = ['type', 'dtype', 'big-endian dtype', 'little-endian dtype']

    def fn(ctx):
        src = ctx.choose('source dtype', D.DTYPES + D.OTHER)
        so = ctx.choose('source byte order', ['<', '>'] if np.dtype(src).itemsize > 1 else ['='])
        dst = ctx.choose('cast', D.DTYPES)
        how = ctx.choose('spelled', spell)
        kind = ctx.choose('source', D.SOURCES, dev=tier == 'quick')
        width = ctx.choose('width', [None, 3], dev=tier == 'quick')
        chunk = ctx.choose('input_chunk_size', [None, 4], dev=tier == 'quick')
        a = castable(src, dst).astype(np.dtype(src).newbyteorder(so))
        if width:
            a = a.reshape(-1, 3)
        c = {'type': getattr(np, dst), 'dtype': np.dtype(dst), 'big-endian dtype': np.dtype(dst).newbyteorder('>'),
             'little-endian dtype': np.dtype(dst).newbyteorder('<')}[how]
        s = Session()
        # next to an uncast channel, so that the cast cannot leak into it
        b = D.base('float64', len(a), None)
        lf, cs = setup(s, [('A', a, c), ('B', b, None)], kind == 'inline')
        s.add(lf, 'frame', 'F', channels=ctx.choose('order', [cs, cs[::-1]], dev=True, names=['AB', 'BA']))
        arrays = {'A': a, 'B': b}
        r = lib.write_ok(s, data=D.make_source(kind, arrays), input_chunk_size=chunk)
        judge(s, r, arrays)
        ctx.validated_trace(len(a))
        ctx.outcome('exact after the cast')
    return fn


def frames(tier):
    pool = [('P', 'uint8', None), ('Q', 'float64', 3), ('R', 'int16', None), ('S', 'float32', 2), ('T', 'uint32', 1)]
    pool = pool[:4] if tier == 'quick' else pool
    n = 3 if tier == 'quick' else 4

    def fn(ctx):
        k = ctx.choose('channels in the frame', list(range(1, n + 1)))
        left = list(range(len(pool)))
        sel = []
        for i in range(k):
            j = ctx.choose(f'channel {i}', left)
            left = [x for x in left if x != j]
            sel.append(j)
        src = ctx.choose('source', D.SOURCES)
        rows = ctx.choose('rows', [1, 2, 3])
        chunk = ctx.choose('input_chunk_size', [None, 1, 2], dev=True)
        cast = ctx.choose('cast', [None] + list(range(k)), dev=True)
        s = Session()
        chans = []
        for i, (nm, dt, w) in enumerate(pool):
            c = np.float64 if cast is not None and sel[cast] == i else None
            a = D.base(dt, rows, w, i)
            chans.append((nm, np.nan_to_num(a) if c else a, c))
        lf, cs = setup(s, chans, src == 'inline')
        s.add(lf, 'frame', 'F', channels=[cs[j] for j in sel])
        rest = [cs[j] for j in left]
        if rest and ctx.choose('rest in a second frame', [False, True]):
            s.add(lf, 'frame', 'G', channels=rest[::-1])
        arrays = {nm: a for nm, a, _ in chans}
        r = lib.write_ok(s, data=D.make_source(src, arrays), input_chunk_size=chunk)
        judge(s, r, arrays)
        ctx.state((tuple(sel), src, rows))
        ctx.outcome('exact')
    return fn


def numbers(tier):
    counts = [1, 2, 126, 127, 128, 129, 130, 255, 256, 257, 1000, 16382, 16383, 16384, 16385, 16390]
    if tier != 'quick':
        counts += [32767, 32768, 65535, 65536, 65537, 70000]

    def fn(ctx):
        n = ctx.choose('rows', counts)
        src = ctx.choose('source', D.SOURCES if n < 2000 or tier != 'quick' else ['inline', 'structured'])
        chunk = ctx.choose('input_chunk_size', [None, 1, 127, 128, 1000, n, n + 1] if n < 2000 else [None, 128, 16384])
        s = Session()
        a = (np.arange(n) * 7 % 251).astype('uint8')
        lf, cs = setup(s, [('A', a, None)], src == 'inline')
        s.add(lf, 'frame', 'F', channels=cs)
        r = lib.write_ok(s, data=D.make_source(src, {'A': a}), input_chunk_size=chunk)
        judge(s, r, {'A': a})
        ctx.validated_trace(n)
        ctx.outcome('numbered 1..N')
    return fn


def scenarios(tier):
    q = tier == 'quick'
    return [Scenario('bits', bits(tier)), Scenario('casts', casts(tier), bound=1 if q else 10),
            Scenario('frames', frames(tier), bound=1 if q else 4), Scenario('numbers', numbers(tier), timeout=300),
            large.scenario(lambda ctx, s, r: judge(s, r), LARGE, tier)]
