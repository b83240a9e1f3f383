"""C08 A frame's channel descriptors match the layout of its data records."""
import numpy as np
from .. import data as D, large, lib
from ..engine import Scenario, Prune
from ..lib import Session, A

LARGE = ['row width', 'dimensions', 'channels', 'frames', 'shared channel', 'rows']
BOUNDS = {'quick': '1 channel: 12 dtypes x 6 widths x 9 casts x 7 declared dimensions x 9 declared element limits x 3 routes x 4 sources x 5 orders of datasets '
                   '(deviation bound 4); all frames of 1..3 channels out of 5 templates in every order, 1 or 2 frames, shared '
                   'channels, axes; all pairs of writes with data of other dtypes/widths, casts and sources (datasets in every order, exact structured arrays)',
          'thorough': 'unbounded products; 4 channels'}
BOUNDS['quick'] += '; ' + large.bounds(LARGE)
ASSUMPTIONS = ['a declared dimension or element limit which contradicts the data may be rejected, never written']

WIDTHS = [None, 1, 2, 3, 130, 300]


def dims(width):
    w = width or 1
    return [None, w, [w], (w,), [w + 1], [1, w], [w, 1], [0], []]


def limits(width):
    w = width or 1
    return [None, w, [w], [w + 1], [w + 200], [w, 5], [max(0, w - 1)], [5, w], [w + 20000, 3, 2], []]


def one(tier):
    def fn(ctx):
        dt = ctx.choose('dtype', D.DTYPES + D.OTHER)
        width = ctx.choose('width', WIDTHS)
        cast = ctx.choose('cast', [None] + D.DTYPES, dev=True)
        dim = ctx.choose('declared dimension', dims(width), dev=True)
        lim = ctx.choose('declared element limit', limits(width), dev=True)
        route = ctx.choose('declared', ['at creation', 'AttrSetup', 'later', 'after the frame'], dev=True)
        src = ctx.choose('source', D.SOURCES, dev=True, cost=1 if tier == 'quick' else 0)
        sord = ctx.choose('datasets in the source', ['frame order', 'C first', 'reversed', 'with others', 'big-endian'], dev=True)
        clate = ctx.choose('cast assigned', ['at creation', 'later'], dev=True)
        a = D.base(dt, 3, width)
        if cast:
            from .c03 import castable
            v = castable(dt, cast)
            n = 3 * (width or 1)
            a = v[np.arange(n) % len(v)]
            a = a if width is None else a.reshape(3, width)
        s = Session()
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        w = list(a.shape[1:]) or [1]
        legal = (cast or dt in D.DTYPES) and (dim is None or dim == w[0] or list(np.atleast_1d(dim)) == w) and \
            (lim is None or (len(np.atleast_1d(lim)) >= 1 and np.atleast_1d(lim)[0] >= w[0]))
        kw = {}
        if route in ('at creation', 'AttrSetup'):
            kw = dict(dimension=dim, element_limit=lim)
            if route == 'AttrSetup':
                kw = {k: A(v) for k, v in kw.items() if v is not None}
        inline = a if src == 'inline' else None
        try:
            c = s.add(lf, 'channel', 'C', data=inline, cast_dtype=np.dtype(cast).type if cast and clate == 'at creation' else None, **kw)
            # a neighbour in front and behind, whose slots move if the size of C is wrong
            n1 = s.add(lf, 'channel', 'N1', data=D.base('uint8', 3, None, 2) if src == 'inline' else None)
            n2 = s.add(lf, 'channel', 'N2', data=D.base('uint16', 3, 2, 2) if src == 'inline' else None)
            if cast and clate == 'later':
                c.real.cast_dtype = np.dtype(cast).type
                c.cast = np.dtype(cast).type
            if route == 'later':
                for k, v in (('dimension', dim), ('element_limit', lim)):
                    if v is not None:
                        s.set(c, k, 'value', v)
            s.add(lf, 'frame', 'F', channels=[n1, c, n2])
            if route == 'after the frame':
                for k, v in (('element_limit', lim), ('dimension', dim)):
                    if v is not None:
                        s.set(c, k, 'value', v)
        except Exception as e:
            if legal:
                s.fail('rejected', f"{type(e).__name__}: {e}")
            ctx.outcome('rejected when set')
            return
        arrays = {'N1': D.base('uint8', 3, None, 2), 'C': a, 'N2': D.base('uint16', 3, 2, 2)}
        if sord == 'C first':
            arrays = {k: arrays[k] for k in ('C', 'N1', 'N2')}
        if sord == 'big-endian':
            arrays = {k: v.astype(v.dtype.newbyteorder('>')) for k, v in arrays.items()}
        st, r = s.write(data=D.make_source(src, arrays, order=sord, extra={'X': np.ones((3, 2))} if sord == 'with others' else None))
        if st == 'err':
            if legal:
                s.fail('rejected', f"{type(r).__name__}: {r}")
            ctx.outcome('rejected when written')
            return
        judge(s, r, arrays)
        if legal and lim is not None and list(np.atleast_1d(lim)):
            f = lib.parse(s, r)
            v = lib.match(s, f)[0]
            el = v.map[c].attrs['ELEMENT-LIMIT'].value
            if el != [int(x) for x in np.atleast_1d(lim)]:
                s.fail('limit-lost', f"ELEMENT-LIMIT {el}, the user set {lim}")
        ctx.outcome('consistent')
    return fn


def judge(s, r, arrays):
    f = lib.parse(s, r)
    for v in lib.match(s, f):
        lib.check_descriptors(v, arrays)
        lib.check_frame_data(v, arrays)


TEMPL = [('float64', None, None), ('uint8', None, None), ('int16', 3, None), ('float32', 1, None), ('int32', 2, 'float64'),
         ('uint16', None, 'uint32')]


def many(tier):
    n = 3 if tier == 'quick' else 4

    def fn(ctx):
        k = ctx.choose('channels', list(range(1, n + 1)))
        ts = [ctx.choose(f'channel {i}', list(range(len(TEMPL)))) for i in range(k)]
        src = ctx.choose('source', D.SOURCES, dev=True, cost=0 if k < 3 or tier != 'quick' else 1)
        two = ctx.choose('frames', ['one', 'two', 'shared channel', 'reversed twice', 'same channel twice'], dev=True)
        names = ctx.choose('names', ['distinct', 'all the same'], dev=True)
        lim = ctx.choose('element limits', [None, 'larger'], dev=True)
        ax = ctx.choose('axis', [None, 'right', 'wrong'], dev=True)
        s = Session()
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        cs = []
        arrays = {}
        for i, t in enumerate(ts):
            dt, w, cast = TEMPL[t]
            a = arrays[i] = D.base(dt, 4, w, i)
            kw = {}
            if lim:
                kw['element_limit'] = [(w or 1) + i + 1]
            if ax:
                nax = (w or 1) + (1 if ax == 'wrong' else 0)
                kw['axis'] = s.add(lf, 'axis', f'X{i}', coordinates=[float(x) for x in range(nax)])
            cs.append(s.add(lf, 'channel', 'C' if names != 'distinct' else f"C{i}", data=a if src == 'inline' else None,
                            cast_dtype=np.dtype(cast).type if cast else None, **kw))
        legal = ax != 'wrong' and (names == 'distinct' or k == 1)
        if two == 'two' and k > 1:
            s.add(lf, 'frame', 'F', channels=cs[:1])
            s.add(lf, 'frame', 'G', channels=cs[1:][::-1])
            legal = ax != 'wrong' and (names == 'distinct' or k <= 2)
        else:
            if two == 'same channel twice':
                legal = False
            s.add(lf, 'frame', 'F', channels=cs + ([cs[0]] if two == 'same channel twice' else []))
            if two in ('shared channel', 'reversed twice'):
                s.add(lf, 'frame', 'G', channels=cs[:1] if two == 'shared channel' else cs[::-1])
        for c in cs:
            c.dataset_name = c.real.dataset_name
        md = {c.dataset_name: arrays[i] for i, c in enumerate(cs)}
        if src == 'inline':
            st, r = s.write()
        else:
            if names != 'distinct':
                for c, a in zip(cs, arrays.values()):
                    c.data = md[c.dataset_name]
            st, r = s.write(data=D.make_source(src, md))
        if st == 'err':
            if legal:
                s.fail('rejected', f"{type(r).__name__}: {r}")
            ctx.outcome('rejected')
            return
        judge(s, r, None if src == 'inline' else md)
        ctx.state((tuple(ts), two, names))
        ctx.outcome('consistent')
    return fn


def again(tier):
    """The same specification written with data of another dtype or width: the descriptors follow the data written."""
    def fn(ctx):
        d1 = ctx.choose('first dtype', D.DTYPES)
        d2 = ctx.choose('second dtype', D.DTYPES)
        w1 = ctx.choose('first width', [None, 1, 3])
        w2 = ctx.choose('second width', [None, 1, 3])
        cast = ctx.choose('cast', [None, 'float64', 'float32'], dev=True)
        src = [ctx.choose(f"{x} source", D.SOURCES[1:], dev=True) for x in ('first', 'second')]
        s = Session()
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        c = s.add(lf, 'channel', 'C', cast_dtype=np.dtype(cast).type if cast else None)
        n = s.add(lf, 'channel', 'N')
        s.add(lf, 'frame', 'F', channels=[c, n])
        for d, w, sk in ((d1, w1, src[0]), (d2, w2, src[1])):
            arrays = {'C': D.base(d, 3, w), 'N': D.base('uint8', 3, None)}
            if cast and np.dtype(d).kind == 'f':
                arrays['C'] = np.clip(np.nan_to_num(arrays['C']), -1e6, 1e6).astype(d)
            st, r = s.write(data=D.make_source(sk, arrays))
            if st == 'err':
                s.fail('rejected', f"{d}, width {w}: {type(r).__name__}: {r}")
            judge(s, r, arrays)
        ctx.outcome('consistent')
    return fn


def scenarios(tier):
    q = tier == 'quick'
    return [Scenario('one', one(tier), bound=2 if q else 4), Scenario('many', many(tier), bound=1 if q else 2), Scenario('again', again(tier), bound=1 if q else 3),
            large.scenario(lambda ctx, s, r: judge(s, r, None), LARGE, tier)]
