"""C12 Fail-closed: a write either raises or yields a faithful, well-formed file."""
import itertools
import os
from datetime import datetime, date

import numpy as np

from .. import lib, data as D, values
from ..engine import Scenario, Prune
from ..lib import A, Session
from ..schema import KINDS
from ..values import ATTRS, Bench, catalogue, host_kw, units_ok
from .c04 import attempt, bare
from .c05 import chosen

BOUNDS = {'quick': 'every attribute of every object type x every value class (admissible, degenerate, unrepresentable) x route x surrounding '
                   'content; all pairs of degenerate/unrepresentable values over the value kinds of each object type; invalid units, '
                   'names, set names, labels, header fields, storage unit label fields; row counts 0..3 of up to 3 channels x source x '
                   'chunk size; row counts 2^k against nearby and doubled ones (to 2^16); dtypes x ranks x widths x casts x sources; windows over -3..n+3; missing datasets; missing parts of '
                   'the specification x logical file; write arguments; origin references and copy numbers out of range',
          'thorough': 'value pairs over all attributes; row counts 0..4 of up to 4 channels; faults in pairs'}
ASSUMPTIONS = ['degenerate but representable inputs may be rejected', 'a value of an unexpected type may be written if it says the same']

DECODE = 'decode'


def norm(v):
    """What an oddly typed value says, in plain types."""
    if isinstance(v, np.ndarray):
        return v.tolist() if v.ndim else v.item()
    if isinstance(v, (set, frozenset)):
        return sorted(v)
    if isinstance(v, range):
        return list(v)
    if isinstance(v, (bytes, bytearray)):
        try:
            return bytes(v).decode('ascii')
        except UnicodeDecodeError:
            return v
    if isinstance(v, np.datetime64):
        return v.astype('datetime64[us]').item()
    if isinstance(v, date) and not isinstance(v, datetime):
        return datetime(v.year, v.month, v.day)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def judge(ctx, s, bad=None, **kw):
    """Write; a file that comes out must decode to the specification, and must not come out at all if `bad`."""
    fk = {k: kw.pop(k) for k in ('frame_kw',) if k in kw}
    st, r = s.write(**kw)
    if st == 'err':
        ctx.outcome('write raised: ' + lib.exc_name(r))
        return False
    if bad:
        s.fail('accepted', f"{bad}: write() returned normally")
    for m in s.lfs:
        for h in m.objs:
            for k, v in list(h.vals.items()):
                h.vals[k] = norm(v)
    try:
        lib.check_all(s, r, **fk)
    except (TypeError, ValueError, AttributeError, KeyError, OverflowError) as e:
        s.fail('unfaithful', f"what was written cannot be compared with what was given: {type(e).__name__}: {e}")
    ctx.validated_trace()
    ctx.outcome('faithful')
    return True


def rich(s, b, what):
    """Valid content around the faulty part."""
    if what == 'alone':
        return
    if what == 'one of each type':
        for kind in KINDS:
            kw = dict(host_kw(b, kind))
            for k in KINDS[kind][2]:
                ent = chosen(kind, k, 0)
                if ent is not None and (kind, k) != ('origin', 'file_set_number'):
                    kw[k] = ent[1](b)
            if kind == 'frame':
                kw['channels'] = [s.add(b.lf, 'channel', 'RICH-C', data=np.arange(4.))]
            if kind == 'origin':
                kw['file_set_number'] = 55
            h = s.add(b.lf, kind, 'RICH-' + kind.upper(), **kw)
            if kind == 'no_format':
                s.nofmt(b.lf, h, 'payload')
    elif what == 'second logical file':
        lf2 = s.lf(fh_id='SECOND', fh_sequence_number=2)
        lib.minimal(s, lf2, sets='L2', name='2')


SURROUND = ['alone', 'one of each type', 'second logical file']


def singles(ctx):
    kind = ctx.choose('type', list(KINDS))
    kw = ctx.choose('attribute', list(KINDS[kind][2]))
    l = catalogue(kind, kw)
    name, build, status, comp = ctx.choose('value', l, names=[x[0] for x in l])
    status = values.status_of(kind, kw, name, status)
    route = ctx.choose('route', ['keyword', 'AttrSetup', 'later'])
    around = ctx.choose('around', SURROUND) if status == 'bad' and route != 'AttrSetup' else 'alone'
    s = Session()
    b = Bench(s)
    rich(s, b, around)
    v = build(b)
    k2 = dict(host_kw(b, kind, kw))
    for ck, cb in comp.items():
        cv = cb(b)
        if cv is not None:
            k2[ck] = cv
    if route == 'later':
        if (kind, kw) == ('frame', 'channels'):
            k2[kw] = [b.ref('CHANNEL', 5)]
        h = attempt(ctx, s.add, b.lf, kind, 'HOST', **k2)
        if h is None:
            s.fail('rejected', 'object with admissible values only')
        try:
            s.set(h, kw, 'value', v)
        except Exception as e:
            ctx.outcome('rejected: ' + lib.exc_name(e))
            judge(ctx, s) or s.fail('rejected', 'write after a rejected assignment')
            return
    else:
        k2[kw] = A(v) if route == 'AttrSetup' else v
        if attempt(ctx, s.add, b.lf, kind, 'HOST', **k2) is None:
            if kind == 'frame' and kw == 'channels':
                return
            judge(ctx, s)
            return
    judge(ctx, s, bad=f"{kind}.{kw} = {v!r:.80}" if status == 'bad' else None)


def pairs(tier):
    def reps(kind):
        seen, out = set(), []
        for k, (lab, vk) in KINDS[kind][2].items():
            key = (vk, (kind, k) in values.ENUMS)
            if tier == 'thorough' and len(KINDS[kind][2]) < 17 or key not in seen:
                seen.add(key)
                out.append(k)
        return out

    def odd(kind, kw):
        l = catalogue(kind, kw)
        return [x for x in l if x[2] == 'maybe'] + [x for x in l if x[2] == 'ok'][:2] + [x for x in l if x[2] == 'bad'][:3]

    def fn(ctx):
        kind = ctx.choose('type', [k for k in KINDS if len(reps(k)) > 1])
        kws = reps(kind)
        i = ctx.choose('first', kws[:-1])
        j = ctx.choose('second', kws[kws.index(i) + 1:])
        a = ctx.choose('first value', odd(kind, i), names=[x[0] for x in odd(kind, i)])
        c = ctx.choose('second value', odd(kind, j), names=[x[0] for x in odd(kind, j)])
        s = Session()
        b = Bench(s)
        kw = dict(host_kw(b, kind, i))
        if kind == 'frame' and 'channels' not in kw:
            kw['channels'] = [b.ref('CHANNEL', 5)]
        if (kind, i) == ('origin', 'file_set_number') and j != 'creation_time':
            kw['creation_time'] = lib.CT
        for e in (a, c):
            for ck, cb in e[3].items():
                cv = cb(b)
                if cv is not None and ck not in (i, j):
                    kw[ck] = cv
        kw[i], kw[j] = a[1](b), c[1](b)
        bad = [f"{k} = {kw[k]!r:.60}" for k, e in ((i, a), (j, c)) if values.status_of(kind, k, e[0], e[2]) == 'bad']
        if attempt(ctx, s.add, b.lf, kind, 'HOST', **kw) is None:
            return
        judge(ctx, s, bad=bad and f"{kind}: {bad}")
    return fn


BAD_UNITS = [('u' * 256, True), ('\xb5m', True), (5, True), (b'm', False), (['m'], False), (1.5, True), ('', False), (values.Own.RED, False),
             (values.StrSub('m'), False), (True, True), (np.str_('ft'), False)]


def units(ctx):
    kind, kw = ctx.choose('attribute', ATTRS)
    u, bad = ctx.choose('units', BAD_UNITS, names=[repr(x[0])[:20] for x in BAD_UNITS])
    when = ctx.choose('when', ['with value', 'without value', 'later'])
    s = Session()
    b = Bench(s)
    k2 = dict(host_kw(b, kind, kw))
    ent = values.e('c', lambda b: [b.ref('CHANNEL', 5)]) if (kind, kw) == ('frame', 'channels') else chosen(kind, kw, 0)
    for ck, cb in ent[3].items():
        if cb(b) is not None:
            k2[ck] = cb(b)
    v = ent[1](b)
    if when == 'later' or (kind, kw) == ('frame', 'channels'):
        h = s.add(b.lf, kind, 'HOST', **{**k2, kw: v})
        if attempt(ctx, s.set, h, kw, 'units', u) is None and not h.units.get(kw):
            return
        if kw not in h.units:
            return
    else:
        if attempt(ctx, s.add, b.lf, kind, 'HOST', **{**k2, kw: A(v if when == 'with value' else None, u)}) is None:
            return
    if when == 'without value':
        bad = False             # nothing to write
    judge(ctx, s, bad=bad and f"units {u!r:.40} of {kind}.{kw}")


BAD_NAMES = [('x' * 256, True), ('x' * 257, True), ('y' * 16384, True), ('caf\xe9', True), ('\u65e5', True), ('a' * 254 + '\xe9', True), (5, True),
             (None, True), (b'AB', True), (['A'], True), (('A',), True), ('x' * 255, False), ('', False), (' ', False), ('a\nb', False),
             (values.StrSub('S'), False), (values.Own.RED, False), (np.str_('NP'), False), (True, True), (1.0, True), ('\x00', False)]


def norm_name(n):
    return lib.plain(n) if isinstance(n, str) else n


def names(ctx):
    n, bad = ctx.choose('name', BAD_NAMES, names=[repr(x[0])[:24] for x in BAD_NAMES])
    where = ctx.choose('of', ['object', 'set', 'renamed object', 'referenced object', 'header id', 'header identifier', 'set identifier',
                              'renamed header id', 'channel dataset'])
    s = None
    if where == 'set identifier':
        if isinstance(n, str) and 60 < len(n):
            bad = True
        try:
            s = Session(set_identifier=n)
        except Exception as e:
            ctx.outcome('rejected: ' + lib.exc_name(e))
            return
        if n == '':
            raise Prune('an empty identifier is replaced by nothing in particular')
        lib.minimal(s)
        judge(ctx, s, bad=bad and f"set identifier {n!r:.40}")
        return
    s = Session()
    if where.startswith('header'):
        if isinstance(n, str):
            bad = not str(n).isascii() or len(n) > (65 if where == 'header id' else 1)
        lf = attempt(ctx, s.lf, **{'fh_id' if where == 'header id' else 'fh_identifier': n})
        if lf is None:
            return
        if attempt(ctx, lib.minimal, s, lf) is None:
            return
        lf.fh = {k: norm_name(v) for k, v in lf.fh.items()}
        judge(ctx, s, bad=bad and f"{where} {n!r:.40}")
        return
    if where == 'renamed header id':
        if isinstance(n, str) and len(n) > 65:
            bad = True
        lf, c, f = lib.minimal(s)
        try:
            lf.real.file_header.header_id = n
        except Exception as e:
            ctx.outcome('rejected: ' + lib.exc_name(e))
            return
        lf.fh['id'] = norm_name(n)
        judge(ctx, s, bad=bad and f"header id {n!r:.40}")
        return
    lf, c, fr = lib.minimal(s)
    kind = ctx.choose('type', [k for k in KINDS if k not in ('frame',)])
    b = Bench(s, lf)
    kw = dict(host_kw(b, kind))
    if where == 'channel dataset':
        if kind != 'channel':
            raise Prune('channels only')
        h = attempt(ctx, s.add, lf, 'channel', 'NEW', dataset_name=n, data=np.arange(3.))
        if h is None:
            return
        if isinstance(n, str) and not isinstance(n, values.StrSub):
            if attempt(ctx, s.add, lf, 'frame', 'FN', channels=[h]) is None:
                return
            judge(ctx, s)
        return
    if where == 'set':
        if n is None:
            raise Prune('default')
        h = attempt(ctx, s.add, lf, kind, 'OBJ', set_name=n, **kw)
        if h is None:
            return
        h.set_name = norm_name(n) if isinstance(n, str) else n
    elif where == 'renamed object':
        h = s.add(lf, kind, 'OBJ', **kw)
        try:
            h.real.name = n
            h.name = norm_name(n)
        except Exception as e:
            ctx.outcome('rejected: ' + lib.exc_name(e))
            return
    else:
        h = attempt(ctx, s.add, lf, kind, n, **kw)
        if h is None:
            return
        h.name = norm_name(n)
        if where == 'referenced object':
            s.add(lf, 'group', 'G', object_list=[h])
    judge(ctx, s, bad=bad and f"{where} of type {kind} named {n!r:.40}")


SRC = ['inline', 'dict', 'hdf5']


def passed(kind, arrays, tag='src'):
    """Like data.make_source, for faulty arrays: None if the source cannot even hold them."""
    if kind == 'inline':
        return None
    try:
        return D.make_source(kind, arrays, path=os.path.join(os.path.dirname(lib.ENV.path), tag + '.h5'))
    except Exception:
        raise Prune('no such source')


def rows(tier):
    n = 3 if tier == 'quick' else 4

    def fn(ctx):
        k = ctx.choose('channels', [2, 3] if tier == 'quick' else [2, 3, 4])
        counts = [ctx.choose(f'rows {i}', list(range(n + 1))) for i in range(k)]
        wide = ctx.choose('wide channel', [None] + list(range(k)))
        kind = ctx.choose('source', SRC)
        chunk = ctx.choose('input_chunk_size', [None, 1, 2])
        win = ctx.choose('window', [(0, None), (0, 1), (1, None), (1, 2), (0, 2)])
        arrays = {f"C{i}": (np.arange(c * 2, dtype=np.float32).reshape(c, 2) if i == wide else np.arange(c, dtype=np.float64) + 10 * i)
                  for i, c in enumerate(counts)}
        s = Session()
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        if ctx.choose('other frame', ['none', 'before']) == 'before':
            s.add(lf, 'frame', 'OK', channels=[s.add(lf, 'channel', 'OK', data=np.arange(4.))])
        cs = [attempt(ctx, s.add, lf, 'channel', nm, data=a if kind == 'inline' else None) for nm, a in arrays.items()]
        if None in cs:
            return
        s.add(lf, 'frame', 'F', channels=cs)
        src = passed(kind, arrays)
        a, z = win
        sel = {len(range(c)[a:z]) for c in counts}
        bad = None
        if len(sel) > 1:
            bad = 'selected row counts ' + str([len(range(c)[a:z]) for c in counts])
        elif sel == {0}:
            bad = None          # no rows at all: rejected or an empty frame
        elif z is not None and z > min(counts):
            bad = None
        if kind != 'inline':
            for c in cs:
                c.data = arrays[c.name]
        judge(ctx, s, bad=bad, data=src, input_chunk_size=chunk, from_idx=a, to_idx=z, frame_kw=dict(from_idx=a, to_idx=z))
    return fn


def long_rows(tier):
    """Row counts which differ by little or by a power of two, at large sizes."""
    ns = [1 << k for k in ((7, 8, 10, 12, 14, 16) if tier == 'quick' else range(5, 19))] + [1000]

    def fn(ctx):
        n = ctx.choose('rows', ns)
        d = ctx.choose('more rows', [-1, 1, n, n - 1, 1000, 256])
        kind = ctx.choose('source', ['inline', 'dict', 'inline and dict'])
        chunk = ctx.choose('input_chunk_size', [None, n, 1000, n + 1])
        first = ctx.choose('longer first', [True, False])
        win = ctx.choose('window', [(0, None), (n // 2, None)])
        arrays = {'A': np.arange(n, dtype=np.uint8 if n < 256 else np.float32), 'B': np.zeros(n + d, dtype=np.uint8)}
        if not first:
            arrays = dict(list(arrays.items())[::-1])
        s = Session()
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        inl = {'inline': 'AB', 'dict': '', 'inline and dict': 'A'}[kind]
        cs = [attempt(ctx, s.add, lf, 'channel', k, data=v if k in inl else None) for k, v in arrays.items()]
        if None in cs:
            return
        s.add(lf, 'frame', 'F', channels=cs)
        src = {k: v for k, v in arrays.items() if k not in inl} or None
        judge(ctx, s, bad=f"row counts {n} and {n + d}", data=src, input_chunk_size=chunk, from_idx=win[0], to_idx=win[1])
        s.log.append(f"{n} and {n + d} rows")
    return fn


def mk(dt, shape):
    n = int(np.prod(shape)) if shape else 1
    if dt == 'object':
        a = np.empty(n, object)
        a[:] = [1.5] * n
    elif dt == 'struct':
        a = np.zeros(n, [('x', 'f8'), ('y', 'i2')])
    elif dt[0] in 'SU':
        a = np.array(['7'] * max(n, 1))[:n].astype(dt)
    elif dt.startswith(('datetime', 'timedelta')):
        a = np.arange(n).astype(dt)
    else:
        a = np.arange(n).astype(dt)
    return a.reshape(shape)


DTYPES = D.DTYPES + ['int64', 'uint64', 'float16', 'bool', 'complex64', 'complex128', 'longdouble', 'object', 'struct', 'S3', 'U3',
                     'datetime64[s]', 'timedelta64[ms]', '>f8', '>i2', '>u4', '>i8', '>c8', '>f2']
SHAPES = [(3,), (3, 1), (3, 2), (3, 0), (0,), (0, 2), (3, 2, 2), (3, 1, 1), (), (1,), (1, 3), (3, 2, 2, 2), (2, 2)]
CASTS = [None, np.float32, np.int32, 'float64', np.dtype('>f4'), np.int64, 'bool', np.complex64, float, int, str, object, 'nonsense', 5, np.float16,
         'uint8', np.dtype([('a', 'f4')])]


def kinds_of_data(ctx):
    dt = ctx.choose('dtype', DTYPES)
    shape = ctx.choose('shape', SHAPES)
    cast = ctx.choose('cast', CASTS) if shape in ((3,), (3, 2), ()) else None
    kind = ctx.choose('source', SRC + ['structured'])
    pos = ctx.choose('position', ['alone', 'first', 'second'])
    idx = ctx.choose('index', [None, 'BOREHOLE-DEPTH'])
    arr = mk(dt, shape)
    s = Session()
    lf = s.lf()
    s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
    good = np.arange(shape[0] if shape else 3, dtype=np.float64)
    arrays = {'X': arr}
    if pos == 'first':
        arrays['G'] = good
    elif pos == 'second':
        arrays = {'G': good, 'X': arr}
    cs = [attempt(ctx, s.add, lf, 'channel', nm, data=a if kind == 'inline' else None, cast_dtype=cast if nm == 'X' else None)
          for nm, a in arrays.items()]
    if None in cs:
        return
    if attempt(ctx, s.add, lf, 'frame', 'F', channels=cs, index_type=idx) is None:
        return
    if kind == 'structured' and not shape:
        raise Prune('no such source')
    src = passed(kind, arrays)
    base = arr.dtype
    try:
        target = np.dtype(cast) if cast is not None else base
    except TypeError:
        target = None
    bad = None
    if target is None or target.name not in lib.NP2CODE:
        bad = f"dtype {base} cast to {cast}"
    elif len(shape) > 2 or not shape:
        bad = f"rank {len(shape)}"
    elif cast is None and base.name not in lib.NP2CODE:
        bad = f"dtype {base}"
    for c in cs:
        c.data = arrays[c.name]
        if c.name == 'X' and cast is not None and target is not None:
            c.cast = target.newbyteorder('=')
    if not bad and (dt in ('object', 'struct', 'S3', 'U3') or dt.startswith(('datetime', 'timedelta')) or 'c' in np.dtype(base).kind):
        st, r = s.write(data=src)       # an unsupported dtype cast to a supported one: rejected, or the values numpy makes of it
        if st == 'err':
            ctx.outcome('write raised: ' + lib.exc_name(r))
            return
        lib.parse(s, r)
        ctx.outcome('converted')
        return
    judge(ctx, s, bad=bad, data=src)


def windows(ctx):
    n = ctx.choose('rows', [1, 2, 3, 4])
    a = ctx.choose('from_idx', list(range(-3, n + 4)) + [1.0, '1', None, True, np.int64(1), 10 ** 20])
    z = ctx.choose('to_idx', [None] + list(range(-3, n + 4)) + [2.0, '2', np.int64(2), 10 ** 20])
    kind = ctx.choose('source', SRC + ['structured'])
    chunk = ctx.choose('input_chunk_size', [None, 1, 2])
    two = ctx.choose('channels', [1, 2])
    arrays = {'A': np.arange(n) + 0.5}
    if two == 2:
        arrays['B'] = np.arange(2 * n, dtype=np.int16).reshape(n, 2)
    s = Session()
    lf = s.lf()
    s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
    cs = [s.add(lf, 'channel', k, data=v if kind == 'inline' else None) for k, v in arrays.items()]
    s.add(lf, 'frame', 'F', channels=cs)
    for c in cs:
        c.data = arrays[c.name]
    src = passed(kind, arrays)
    bad = None
    try:
        sel = list(range(n))[a:z]
        if not all(isinstance(x, (int, np.integer)) for x in (a,)):
            bad = None
    except TypeError:
        bad = f"window [{a!r}, {z!r})"
    judge(ctx, s, bad=bad, data=src, from_idx=a, to_idx=z, input_chunk_size=chunk, frame_kw=dict(from_idx=a, to_idx=z))


def missing_data(ctx):
    """Every combination of channels with data given inline, passed, both, nowhere, under the wrong name or of the wrong type."""
    kind = ctx.choose('source', ['none', 'dict', 'structured', 'hdf5'])
    opts = ['inline', 'passed', 'nowhere', 'wrong name', 'list', 'lower case']
    w = [ctx.choose(f'channel {i}', opts) for i in range(3)]
    frames = ctx.choose('frames', [['012'], ['01', '2'], ['0', '1', '2'], ['12']])
    s = Session()
    lf = s.lf()
    s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
    cs, src, bad = [], {}, []
    for i, x in enumerate(w):
        a = np.arange(3.) + 10 * i
        inl = x == 'inline'
        c = attempt(ctx, s.add, lf, 'channel', f'C{i}', data=a if inl else None)
        if c is None:
            return
        c.data = a
        cs.append(c)
        if x == 'passed':
            src[f'C{i}'] = a
        elif x == 'wrong name':
            src[f'D{i}'] = a
        elif x == 'lower case':
            src[f'c{i}'] = a
        elif x == 'list':
            src[f'C{i}'] = list(a)
        if str(i) in ''.join(frames) and (x in ('nowhere', 'wrong name', 'lower case') or x in ('passed', 'list') and kind == 'none'):
            bad.append(f"no data for C{i}")
        if x == 'list' and kind == 'dict' and str(i) in ''.join(frames):
            pass                # rejected or converted
    for j, f in enumerate(frames):
        s.add(lf, 'frame', f'F{j}', channels=[cs[int(i)] for i in f])
    data = None
    if kind == 'dict':
        data = src
    elif kind != 'none':
        if not src:
            raise Prune('empty source')
        data = passed(kind, {k: np.asarray(v) for k, v in src.items()})
        if 'inline' in w:
            bad = bad
    judge(ctx, s, bad=bad and '; '.join(bad), data=data)


WRONG_SOURCES = [('list', [1, 2]), ('plain array', np.arange(3.)), ('2-D structured', np.zeros((3, 1), [('A', 'f8')])), ('path', 'no-such.h5'),
                 ('not hdf5', '/etc/hostname'), ('number', 5), ('dict of lists', {'A': [1.0, 2.0]}), ('int keys', {0: np.arange(3.)}),
                 ('empty structured', np.zeros(0, [('A', 'f8')])), ('0-d structured', np.zeros((), [('A', 'f8')])), ('tuple', (np.arange(3.),)),
                 ('string', 'A'), ('nested dict', {'A': {'A': np.arange(3.)}}), ('masked', {'A': np.ma.masked_array(np.arange(3.), [0, 1, 0])}),
                 ('memmap-like', {'A': np.arange(3.).view()}), ('matrix', {'A': np.asmatrix(np.arange(3.)).T})]


def wrong_sources(ctx):
    nm, src = ctx.choose('source', WRONG_SOURCES, names=[x[0] for x in WRONG_SOURCES])
    inline = ctx.choose('inline data', [False, True])
    s = Session()
    lf = s.lf()
    s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
    arr = np.arange(3.)
    c = s.add(lf, 'channel', 'A', data=arr if inline else None)
    s.add(lf, 'frame', 'F', channels=[c])
    c.data = arr
    if isinstance(src, dict) and isinstance(src.get('A'), np.ndarray):
        c.data = np.asarray(src['A'])
    elif not inline or isinstance(src, dict) and 'A' in src:
        st, r = s.write(data=src)
        if st != 'err':
            s.fail('accepted', f"data={nm}: write() returned normally")
        ctx.outcome('write raised: ' + lib.exc_name(r))
        return
    judge(ctx, s, data=src)


PARTS = ['origin', 'channel', 'frame']


def structure(ctx):
    """Which of origin, channel and frame each logical file has; in which sets; what else it has."""
    n = ctx.choose('logical files', [0, 1, 2, 3])
    s = Session()
    bad = []
    if n == 0:
        bad.append('no logical file')
    for i in range(n):
        have = ctx.choose(f'parts of {i}', [c for m in range(4) for c in itertools.combinations(PARTS, m)])
        lf = s.lf(fh_sequence_number=i + 1)
        extra = ctx.choose(f'extra of {i}', ['nothing', 'zone first', 'parameter last']) if n == 1 else 'nothing'
        sn = f'S{i}'
        if extra == 'zone first':
            s.add(lf, 'zone', 'Z', set_name=sn)
        if 'origin' in have:
            s.add(lf, 'origin', 'O', set_name=sn, **lib.BASE_ORIGIN)
        c = None
        if 'channel' in have:
            c = s.add(lf, 'channel', 'C', set_name=sn, data=np.arange(3.))
        if 'frame' in have:
            attempt(ctx, s.add, lf, 'frame', 'F', set_name=sn, channels=[c] if c else ctx.choose('channels of the frame', [[], None]))
        if extra == 'parameter last':
            s.add(lf, 'parameter', 'P', set_name=sn, values=[1.5])
        if len(have) < 3:
            bad.append(f"logical file {i} has only {have}")
    judge(ctx, s, bad=bad and '; '.join(bad))


def frames(ctx):
    """Frames over channels of the same, another or no logical file, repeated channels, channels in two frames."""
    s = Session()
    lf, c, fr = lib.minimal(s)
    c2 = s.add(lf, 'channel', 'C2', data=np.arange(2.) + 7)
    lf2, d, fr2 = lib.minimal(s, None, sets='L2', name='X', fh_sequence_number=2)
    t = Session()
    tlf, e, _ = lib.minimal(t, name='FOREIGN')
    what = ctx.choose('channels', ['own', 'other file', 'own and other file', 'foreign', 'twice', 'of two frames', 'no channel', 'none in list',
                                   'zone', 'string', 'unregistered', 'same name'])
    how = ctx.choose('how', ['at creation', 'assigned'])
    dwm = lib.dw()
    from dliswriter.logical_record import eflr_types
    ch = {'own': [c2], 'other file': [d], 'own and other file': [c2, d], 'foreign': [e], 'twice': [c2, c2], 'of two frames': [c2, c], 'no channel': [],
          'none in list': [c2, None], 'string': ['C2']}.get(what)
    if what == 'zone':
        ch = [s.add(lf, 'zone', 'Z')]
    if what == 'unregistered':
        h = lib.H(lf, 'channel', 'U', None, 99)
        h.real = eflr_types.ChannelItem('U', parent=eflr_types.ChannelSet())
        ch = [h]
    if what == 'same name':
        ch = [c2, s.add(lf, 'channel', 'C2', data=np.arange(2.) + 70)]
    if how == 'at creation':
        if attempt(ctx, s.add, lf, 'frame', 'F9', channels=ch) is None:
            return
    else:
        f9 = s.add(lf, 'frame', 'F9', channels=[c2])
        try:
            s.set(f9, 'channels', 'value', ch)
        except Exception as ex:
            ctx.outcome('rejected: ' + lib.exc_name(ex))
            return
    bad = what in ('other file', 'own and other file', 'foreign', 'no channel', 'none in list', 'zone', 'string', 'unregistered')
    judge(ctx, s, bad=bad and f"frame over {what}")


def numbers(ctx):
    """Integers outside the ranges of their codes, outside attributes."""
    what = ctx.choose('what', ['origin reference of object', 'origin reference of origin', 'copy number', 'file set number', 'sul sequence',
                               'header sequence', 'max record length', 'origin reference assigned'])
    vals = [-1, -5, 2 ** 30 - 1, 2 ** 30, 2 ** 31, 2 ** 32, 10 ** 20, 1.5, '1', None, True, np.int64(3), 0, 127, 128, 16383, 16384, float('nan')]
    s = Session()
    if what == 'copy number':
        n = ctx.choose('objects', [255, 256, 257, 258])
        lf, c, f = lib.minimal(s)
        last = None
        for i in range(n):
            last = attempt(ctx, s.add, lf, 'zone', 'SAME')
            if last is None:
                return
        s.add(lf, 'group', 'G', object_list=[last])
        judge(ctx, s, bad=n > 256 and f"{n} objects of the same name")
        return
    v = ctx.choose('value', vals)
    okint = isinstance(v, (int, np.integer)) and not isinstance(v, bool)
    if what == 'origin reference of object':
        lf, c, f = lib.minimal(s)
        h = attempt(ctx, s.add, lf, 'zone', 'Z', origin_reference=v)
        if h is None:
            return
        judge(ctx, s, bad=v not in (0, None) and f"origin reference {v!r}, no such origin")
    elif what == 'origin reference assigned':
        lf, c, f = lib.minimal(s)
        h = s.add(lf, 'zone', 'Z')
        try:
            h.real.origin_reference = v
        except Exception as e:
            ctx.outcome('rejected: ' + lib.exc_name(e))
            return
        h.origin = v
        judge(ctx, s, bad=v not in (0, None) and f"origin reference {v!r}, no such origin")
    elif what == 'origin reference of origin':
        lf = s.lf()
        h = attempt(ctx, s.add, lf, 'origin', 'O', origin_reference=v, **lib.BASE_ORIGIN)
        if h is None:
            return
        c = s.add(lf, 'channel', 'C', data=np.arange(2.))
        s.add(lf, 'frame', 'F', channels=[c])
        judge(ctx, s, bad=not (v is None or isinstance(v, bool) or okint and 0 <= v < 2 ** 30) and f"origin reference {v!r}")
    elif what == 'file set number':
        lf = s.lf()
        h = attempt(ctx, s.add, lf, 'origin', 'O', file_set_number=v, creation_time=lib.CT)
        if h is None:
            return
        c = s.add(lf, 'channel', 'C', data=np.arange(2.))
        s.add(lf, 'frame', 'F', channels=[c])
        judge(ctx, s, bad=not (v is None or isinstance(v, bool) or okint and 0 <= v < 2 ** 30) and f"file set number {v!r}")
    elif what == 'header sequence':
        lf = attempt(ctx, s.lf, fh_sequence_number=v)
        if lf is None:
            return
        lib.minimal(s, lf)
        judge(ctx, s, bad=not (okint and 0 <= v < 10 ** 10 and not isinstance(v, bool)) and f"header sequence number {v!r}")
    elif what == 'sul sequence':
        try:
            s = Session(sul_sequence_number=v)
        except Exception as e:
            ctx.outcome('rejected: ' + lib.exc_name(e))
            return
        lib.minimal(s)
        judge(ctx, s, bad=not (okint and 0 <= v < 10 ** 4 or isinstance(v, bool)) and f"storage unit sequence number {v!r}")
    elif what == 'max record length':
        try:
            s = Session(max_record_length=v)
        except Exception as e:
            ctx.outcome('rejected: ' + lib.exc_name(e))
            return
        lib.minimal(s)
        judge(ctx, s, bad=not (okint and 20 <= v <= 16384) and f"maximum record length {v!r}")


def arguments(ctx):
    """Arguments of write()."""
    ics = ctx.choose('input_chunk_size', [None, 1, 3, 0, -1, 1.5, '2', True, np.int64(2), 10 ** 9])
    ocs = ctx.choose('output_chunk_size', [1 << 15, -1, 1, 100, 8191, 8192, 8193, 8192.0, 20000.5, '8192', True, float('nan'), np.int64(9000), 1 << 20])
    rows_ = ctx.choose('rows', [1, 3, 4000])
    s = Session()
    lib.minimal(s, rows=rows_)
    judge(ctx, s, input_chunk_size=ics, output_chunk_size=ocs)


PAY = [('empty', ''), ('ascii', 'abc'), ('non-ascii', 'caf\xe9'), ('bytes', b'\x00\xff'), ('bytearray', bytearray(b'xy')), ('number', 5), ('none', None),
       ('list', [1, 2]), ('memoryview', memoryview(b'pq')), ('array', np.arange(3, dtype=np.uint8)), ('str-sub', values.StrSub('plain')),
       ('enum', values.Own.RED), ('big', 'z' * 20000)]


def payloads(ctx):
    nm, p = ctx.choose('payload', PAY, names=[x[0] for x in PAY])
    target = ctx.choose('under', ['own object', 'object of another logical file', 'foreign object', 'zone', 'none', 'string'])
    s = Session()
    lf, c, f = lib.minimal(s)
    nf = s.add(lf, 'no_format', 'NF')
    if ctx.choose('another payload', [False, True]):
        s.nofmt(lf, nf, 'first')
    t = nf
    if target == 'object of another logical file':
        lf2, _, _ = lib.minimal(s, None, sets='L2', name='2')
        t = s.add(lf2, 'no_format', 'NF', set_name='L2')
    elif target == 'foreign object':
        s2 = Session()
        l2, _, _ = lib.minimal(s2)
        t = s2.add(l2, 'no_format', 'NF')
    elif target == 'zone':
        t = s.add(lf, 'zone', 'Z')
    elif target == 'none':
        t = None
    elif target == 'string':
        t = 'NF'
    bad = []
    if target != 'own object':
        bad.append(target)
    if nm in ('non-ascii', 'number', 'none', 'list'):
        bad.append(nm)
    try:
        lf.real.add_no_format_frame_data(lib.real(t), p)
    except Exception as e:
        ctx.outcome('rejected: ' + lib.exc_name(e))
        judge(ctx, s)
        return
    s.log.append(f"add_no_format_frame_data({t}, {p!r:.40})")
    try:
        pb = lib.plain(p).encode('ascii') if isinstance(p, str) else bytes(p)
    except (TypeError, UnicodeError):
        pb = None
    if isinstance(t, lib.H):
        lf.nofmt.append((t, pb))
    judge(ctx, s, bad=bad and f"payload {nm} under {target}")


LABELS = [('set_identifier', 'x' * 60), ('set_identifier', 'x' * 61), ('set_identifier', 'caf\xe9'), ('fh', 'x' * 66), ('fh', '\xe9')]


def header_items(ctx):
    """StorageUnitLabel / FileHeaderItem objects made by the user, changed after creation."""
    from dliswriter.logical_record.misc import StorageUnitLabel
    what = ctx.choose('what', ['set_identifier', 'sequence_number', 'max_record_length', 'header name', 'header sequence'])
    vals = {'set_identifier': ['x' * 60, 'x' * 61, 'caf\xe9', 5, None, ''], 'sequence_number': [0, 9999, 10000, -1, 1.5, '7', None],
            'max_record_length': [20, 16384, 16385, 16386, 100000, 18, 19, 21, 8191, 0, -2, 100.5, '8192', None],
            'header name': ['A', 'AB', '\xe9', 5, None, ''], 'header sequence': [1, 10 ** 10, -1, 1.5, '7', None]}[what]
    v = ctx.choose('value', vals)
    s = Session()
    lf, c, f = lib.minimal(s)
    try:
        if what.startswith('header'):
            setattr(lf.real.file_header, {'header name': 'name', 'header sequence': 'sequence_number'}[what], v)
            lf.fh['identifier' if 'name' in what else 'seq'] = v
        else:
            setattr(s.real.storage_unit_label, what, v)
            s.kw[{'sequence_number': 'sul_sequence_number'}.get(what, what)] = v
    except Exception as e:
        ctx.outcome('rejected: ' + lib.exc_name(e))
        return
    judge(ctx, s)


def scenarios(tier):
    out = [Scenario('singles', singles), Scenario('pairs', pairs(tier)), Scenario('units', units), Scenario('names', names),
           Scenario('rows', rows(tier)), Scenario('long rows', long_rows(tier)), Scenario('data kinds', kinds_of_data), Scenario('windows', windows), Scenario('missing data', missing_data),
           Scenario('wrong sources', wrong_sources), Scenario('structure', structure), Scenario('frames', frames), Scenario('numbers', numbers),
           Scenario('arguments', arguments), Scenario('payloads', payloads), Scenario('changed labels', header_items)]
    return out
