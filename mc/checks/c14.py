"""C14 Output depends only on the current specification, not on process history."""
import gc
import itertools
import os
from datetime import datetime, timezone, timedelta

import numpy as np

from .. import fresh, lib, values
from ..engine import Scenario, Prune, Violation, h64
from ..schema import KINDS, ATTR_NAME
from ..values import Bench, catalogue, host_kw, ATTRS
from .c05 import rep
from .c09 import REJECT

BOUNDS = {'quick': 'every ordered pair (file handled before, final file) over a table of specifications which differ in one thing (names, '
                   'origins, copy numbers, types, values, data, dtypes, sources, options, mode) x 8 ways of handling the former; every '
                   'triple over a reduced table; every ordered pair of values of one attribute of each kind; equal values over pairs '
                   'of attributes of different kinds; one file object: every history of operation, write, operation, write over tables '
                   'of 34 operations and 8 writes; all interleavings of building two files; '
                   'up to 257 files or writes, 70000 values, rows or texts and 2049 objects handled before; every specification also in interpreters '
                   'started from scratch with different hash seeds and working directories',
          'thorough': 'full tables in triples; histories of two more operations; all pairs of collision-prone values over pairs of attributes'}
ASSUMPTIONS = ['a child forked from a process which only imported the library is as good as a fresh process (confirmed on '
               'interpreters started from scratch, for every specification)',
               'file set number and creation time are given (their defaults are random and the current time)']

CT = lib.CT
UTC = timezone.utc


class Other:
    pass


# ------------------------------------------------------------------------------------------------- specifications
BASE = dict(sul='STORAGE', seq=1, mrl=8192, hid='FILE-HEADER', hseq=1, hident='0', origin='ORIGIN', oref=None, fsn=7, ct=CT, second_origin=None,
            c0='DEPTH', c1='CH1', c2='IMG', fr='FRAME', zone='ZN', par='PAR', tool='TL', ax='AX', nf='NF', cset=None, zset=None, dup=(),
            pval=[1.5], punits='m', zmax=100.0, height=2.5, tstatus=1, ln='LN', itype=None, dt0='float64', dt1='float32', dt2='uint8',
            width=3, rows=4, data0=0.0, data1=0.0, cast1=None, spacing=None, cunits='m', desc='Text', payload='payload', mtime=CT,
            src='inline', ics=None, ocs=1 << 15, frm=0, to=None, hc=False, order=False, dim=None, two_lf=False, axspacing=1.0, ds1=None,
            count=5, imin=None, second_frame=False, override=None)

DELTAS = [
    ('base', {}),
    ('SUL id', dict(sul='OTHER')), ('SUL number', dict(seq=2)), ('record length 20', dict(mrl=20)), ('record length 100', dict(mrl=100)),
    ('header id', dict(hid='OTHER-HEADER')), ('header number', dict(hseq=2)), ('header identifier', dict(hident='9')),
    ('origin name', dict(origin='ORIGIN2')), ('origin ref 5', dict(oref=5)), ('origin ref 300', dict(oref=300)), ('origin ref 0', dict(oref=0)),
    ('file set number', dict(fsn=70000)), ('two origins', dict(second_origin=9)),
    ('time +1 h', dict(ct=CT + timedelta(hours=1))), ('time other zone', dict(ct=CT.astimezone(timezone(timedelta(hours=5))))),
    ('time naive', dict(ct=CT.replace(tzinfo=None))), ('time text', dict(ct='2020/01/02 03:04:05')),
    ('names swapped', dict(c0='CH1', c1='DEPTH')), ('names across types', dict(zone='PAR', par='ZN', tool='AX', ax='TL')),
    ('all the same name', dict(c0='X', zone='X', par='X', tool='X', ax='X', nf='X', fr='X', origin='X', ln='X')),
    ('longer name', dict(par='PARAMETER')), ('channel set', dict(cset='CSET')), ('zone set', dict(zset='ZSET')),
    ('same-named before', dict(dup=('channel', 'zone', 'parameter', 'tool', 'axis'))), ('same-named zone before', dict(dup=('zone',))),
    ('value 1', dict(pval=[1])), ('value 1.0', dict(pval=[1.0])), ('value text 1', dict(pval=['1x'])), ('value numpy 1', dict(pval=[np.int64(1)])),
    ('value 0.0', dict(pval=[0.0])), ('value -0.0', dict(pval=[-0.0])), ('value nan', dict(pval=[float('nan')])), ('value units', dict(punits='ft')),
    ('no value units', dict(punits=None)), ('zone number 1', dict(zmax=1)), ('zone number 1.0', dict(zmax=1.0)), ('zone time', dict(zmax=CT)),
    ('zone -0.0', dict(zmax=-0.0)), ('zone 0.0', dict(zmax=0.0)), ('height 1', dict(height=1)), ('height True', dict(height=True)),
    ('tool status 0', dict(tstatus=0)), ('tool status False', dict(tstatus=False)), ('index by depth', dict(itype='BOREHOLE-DEPTH')),
    ('index non-standard', dict(itype='NON-STANDARD')), ('given spacing', dict(itype='BOREHOLE-DEPTH', spacing=0.5)),
    ('given minimum', dict(itype='BOREHOLE-DEPTH', imin=-5.0)),
    ('index float32', dict(dt0='float32')), ('channel int16', dict(dt1='int16')), ('channel float64', dict(dt1='float64')),
    ('channel big-endian', dict(dt1='>f4')), ('channel cast', dict(cast1='float64')), ('image 2 wide', dict(width=2)), ('image scalar', dict(width=None)),
    ('image int32', dict(dt2='int32')), ('one row', dict(rows=1)), ('200 rows', dict(rows=200)), ('other data', dict(data1=1.0)),
    ('other index data', dict(data0=10.0, itype='BOREHOLE-DEPTH')), ('channel units', dict(cunits='s')), ('description', dict(desc='Other')),
    ('payload', dict(payload='another')), ('payload bytes', dict(payload=b'\x00\xff')), ('source dict', dict(src='dict')),
    ('source structured', dict(src='structured')), ('source hdf5', dict(src='hdf5')), ('source hdf5 other data', dict(src='hdf5', data1=5.0, rows=3)),
    ('dataset name', dict(src='dict', ds1='other')), ('dict replaces inline', dict(override=3.0)),
    ('row chunks', dict(ics=1)), ('small output chunks', dict(ocs=8192, rows=200)), ('window', dict(frm=1, to=3)), ('window start', dict(frm=2)),
    ('mode', dict(hc=True)), ('mode, name refused', dict(hc=True, par='lower case')), ('lower case', dict(par='lower case')),
    ('reverse additions', dict(order=True)), ('two logical files', dict(two_lf=True)), ('two frames', dict(second_frame=True)),
    ('dimension given', dict(dim=[3])), ('dimension contradicts', dict(dim=[4])), ('bad value', dict(pval=['caf\xe9'])), ('integer count', dict(count=1)),
]
D = dict(DELTAS)
NAMES = [n for n, _ in DELTAS]
REDUCED = ['base', 'origin ref 5', 'all the same name', 'same-named before', 'value 1', 'value 0.0', 'index by depth', 'channel int16', 'image 2 wide',
           'source hdf5', 'window', 'mode', 'two logical files', 'dimension contradicts']


def arrays(P):
    n, w = P['rows'], P['width']
    a0 = (np.arange(n) * 0.5 + 10 + P['data0']).astype(P['dt0'])
    a1 = (np.arange(n) + 1 + P['data1']).astype(P['dt1'])
    a2 = (np.arange(n * (w or 1)) % 200).astype(P['dt2'])
    return a0, a1, a2 if w is None else a2.reshape(n, w)


def steps(P):
    """Build the file of the specification P step by step (a generator: buildings of two files can be interleaved); yields
    and finally returns (file, write options)."""
    dw = lib.dw()
    f = dw.DLISFile(set_identifier=P['sul'], sul_sequence_number=P['seq'], max_record_length=P['mrl'])
    data = None
    inline = P['src'] == 'inline'
    src = {}
    for k in range(2 if P['two_lf'] else 1):
        x = '' if not k else '2'
        lf = f.add_logical_file(fh_id=P['hid'], fh_identifier=P['hident'], fh_sequence_number=P['hseq'] + k)
        yield
        o = {} if P['oref'] is None else dict(origin_reference=P['oref'])
        lf.add_origin(P['origin'], file_set_number=P['fsn'], creation_time=P['ct'], set_name=x or None, **o)
        z2 = {}
        if P['second_origin'] is not None:
            lf.add_origin(P['origin'], file_set_number=3, creation_time=P['ct'], origin_reference=P['second_origin'], set_name=x or None)
            z2 = dict(origin_reference=P['second_origin'])
        yield

        def sn(a):
            return (a + x if a else x) or None

        def objects():
            if 'zone' in P['dup']:
                lf.add_zone(P['zone'], set_name=sn(P['zset']))
            zn = lf.add_zone(P['zone'], description=P['desc'], maximum=P['zmax'], minimum=type(P['zmax'])(0) if not isinstance(P['zmax'], datetime) else CT,
                             set_name=sn(P['zset']), **z2)
            ln = lf.add_long_name(P['ln'], quantity=P['desc'], set_name=sn(None))
            if 'parameter' in P['dup']:
                lf.add_parameter(P['par'], set_name=sn(None))
            p = lf.add_parameter(P['par'], values={'value': P['pval'], 'units': P['punits']} if P['punits'] else P['pval'], zones=[zn], long_name=ln,
                                 set_name=sn(None))
            eq = lf.add_equipment('EQ', height=P['height'], serial_number='1', set_name=sn(None))
            if 'tool' in P['dup']:
                lf.add_tool(P['tool'], set_name=sn(None))
            lf.add_tool(P['tool'], status=P['tstatus'], parts=[eq], parameters=[p], description=P['desc'], set_name=sn(None))
            nf = lf.add_no_format(P['nf'], description=P['desc'], set_name=sn(None))
            lf.add_no_format_frame_data(nf, P['payload'])
            lf.add_message('MSG', time=P['mtime'], text=['a', 'b'], set_name=sn(None))
            lf.add_comment('COM', text=[P['desc']], set_name=sn(None))
            lf.add_calibration_measurement('CM', sample_count=P['count'], begin_time=1.0, set_name=sn(None))

        def channels():
            a0, a1, a2 = arrays(P)
            if 'axis' in P['dup']:
                lf.add_axis(P['ax'], set_name=sn(None))
            ax = lf.add_axis(P['ax'], coordinates=[1, 2, 3][:P['width'] or 1], spacing=P['axspacing'], set_name=sn(None))
            if 'channel' in P['dup']:
                lf.add_channel(P['c0'], dataset_name='unused', set_name=sn(P['cset']))
            cs = sn(P['cset'])
            kw = [{}, {}, {}]
            if P['ds1']:
                kw[1]['dataset_name'] = P['ds1']
            if P['cast1']:
                kw[1]['cast_dtype'] = np.dtype(P['cast1']).type
            if P['dim']:
                kw[2]['dimension'] = P['dim']
            for i, a in enumerate((a0, a1, a2)):
                if inline and not (i == 1 and P['override'] is not None):
                    kw[i]['data'] = a
            c0 = lf.add_channel(P['c0'], units=P['cunits'], set_name=cs, **kw[0])
            c1 = lf.add_channel(P['c1'], set_name=cs, **kw[1])
            c2 = lf.add_channel(P['c2'], axis=ax, set_name=cs, **kw[2])
            for c, a in zip((c0, c1, c2), (a0, a1, a2)):
                if not inline:
                    src[c.dataset_name] = a
            if P['override'] is not None:
                src[c1.dataset_name] = a1 + np.asarray(P['override'], a1.dtype)
            fk = {}
            if P['itype']:
                fk['index_type'] = P['itype']
            if P['spacing'] is not None:
                fk['spacing'] = P['spacing']
            if P['imin'] is not None:
                fk['index_min'] = P['imin']
            lf.add_frame(P['fr'], channels=[c0, c1, c2], description=P['desc'], set_name=sn(None), **fk)
            if P['second_frame']:
                e = lf.add_channel('E', data=a1 * 2, set_name=cs) if inline else None
                if e is not None:
                    lf.add_frame('FRAME2', channels=[e], set_name=sn(None))
        for g in ([channels, objects] if not P['order'] else [objects, channels]):
            g()
            yield
    if not inline:
        from .. import data as mdata
        data = mdata.make_source(P['src'], src, path=os.path.join(os.path.dirname(lib.ENV.path), 'src.h5'))
    elif src:
        data = src
    return f, dict(data=data, input_chunk_size=P['ics'], output_chunk_size=P['ocs'], from_idx=P['frm'], to_idx=P['to'])


def run(gen):
    while True:
        try:
            next(gen)
        except StopIteration as e:
            return e.value


def do_write(f, opts):
    path = lib.ENV.path
    f.write(path, **opts)
    with open(path, 'rb') as h:
        return h.read()


class Null:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def mode(on):
    return lib.dw().high_compatibility_mode() if on else Null()


def attempt(fn, *a):
    """('ok', bytes) or ('err', type of the exception)."""
    try:
        return ('ok', fn(*a))
    except (Violation, Prune):
        raise
    except (Exception, AssertionError) as e:
        return ('err', lib.exc_name(e))


def whole(P):
    with mode(P['hc']):
        return do_write(*run(steps(P)))


def spec(over):
    return dict(BASE, **over)


def final(name):
    return attempt(whole, spec(D[name]))


_base = {}


def baseline(key, fn, *a):
    if key not in _base:
        _base[key] = fresh.child(fn, *a)
    return _base[key]


def diff(a, b):
    if a[0] != b[0]:
        return f"{b[:2] if b[0] == 'err' else 'a file'} instead of {a[:2] if a[0] == 'err' else 'a file'}"
    if a[0] == 'err':
        return f"{b[1]} instead of {a[1]}"
    x, y = a[1], b[1]
    if len(x) != len(y):
        i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
        return f"{len(y)} bytes instead of {len(x)}, first difference at {i}: {y[max(0, i - 24):i + 16]!r} instead of {x[max(0, i - 24):i + 16]!r}"
    i = next(i for i in range(len(x)) if x[i] != y[i])
    return f"byte {i} differs: {y[max(0, i - 24):i + 16]!r} instead of {x[max(0, i - 24):i + 16]!r}"


def check(ctx, want, got, what='the output differs from that of a fresh process'):
    if want != got:
        raise Violation('history:' + ('outcome' if want[0] != got[0] else want[0]), f"{what}: {diff(want, got)}")
    ctx.validated_trace()
    ctx.outcome('as in a fresh process' if got[0] == 'ok' else f"rejected as in a fresh process: {got[1]}")


KEEP = []
HOWS = ['written', 'built only', 'written twice', 'write fails', 'write fails half-way', 'written in the mode', 'dropped', 'rejected additions']


def handle(P, how):
    """Something done with another file before."""
    dw = lib.dw()
    try:
        with mode(P['hc'] or how == 'written in the mode'):
            f, opts = run(steps(P))
            KEEP.append(f)
            if how == 'built only':
                return
            if how == 'write fails':
                try:
                    f.write(os.path.join(os.path.dirname(lib.ENV.path), 'nowhere', 'x.dlis'), **opts)
                except Exception:
                    pass
                return
            if how == 'write fails half-way':
                lf = f.logical_files[0]
                lf.add_no_format_frame_data(nfitem(lf), 'caf\xe9')
                try:
                    do_write(f, opts)
                except Exception:
                    pass
                return
            if how == 'rejected additions':
                lf = f.logical_files[0]
                for k, kw in REJECT.items():
                    try:
                        getattr(lf, 'add_' + k)('REJECTED', **kw)
                    except Exception:
                        pass
            do_write(f, opts)
            if how == 'written twice':
                do_write(f, opts)
    except (Violation, Prune):
        raise
    except (Exception, AssertionError):
        pass
    finally:
        if how == 'dropped':
            KEEP.clear()
            f = opts = None
            gc.collect()


def nfitem(lf):
    return lib.payload_list(lf)[0].no_format_object


def pair(th):
    def fn(ctx):
        how = ctx.choose('how', HOWS if th else ['written', 'built only', 'write fails half-way', 'written in the mode', 'dropped'])
        first = ctx.choose('handled before', NAMES)
        last = ctx.choose('final file', NAMES if th or how == 'written' else REDUCED)
        want = baseline(last, final, last)

        def work():
            handle(spec(D[first]), how)
            return final(last)
        ctx.state((first, how, last))
        ctx.step(2)
        check(ctx, want, fresh.child(work))
    return fn


def triple(names, hows):
    def fn(ctx):
        a = ctx.choose('first', names)
        b = ctx.choose('second', names)
        how = ctx.choose('how', hows)
        c = ctx.choose('final file', names)
        want = baseline(c, final, c)

        def work():
            handle(spec(D[a]), how)
            handle(spec(D[b]), how)
            return final(c)
        ctx.state((a, b, how, c))
        ctx.step(3)
        check(ctx, want, fresh.child(work))
    return fn


def long(th):
    """Much before the final file: many files, objects, distinct values (more than any cache holds), rows, writes of one file."""
    cases = [(w, n) for w in ('files', 'files kept', 'writes', 'failed writes') for n in ((2, 3, 7, 32, 128, 257) if not th else (2, 3, 7, 32, 64, 128, 129, 256, 257, 513))]
    cases += [(w, n) for w in ('values', 'rows', 'texts') for n in ((127, 4097, 65535, 65536, 65537, 70000) if not th else (127, 1025, 4097, 16385, 65535, 65536, 65537, 70000, 131073))]
    cases += [('names', n) for n in (100, 1025, 2049)]
    cases.sort(key=lambda c: -c[1])
    finals = ['base', REDUCED[1], REDUCED[-1]] if 'base' in D else [REDUCED[0], REDUCED[1], REDUCED[-1]]

    def fn(ctx):
        what, n = ctx.choose('before', cases)
        c = ctx.choose('final file', finals if n < 4000 else finals[:1])
        want = baseline(c, final, c)

        def work():
            if what.startswith('files'):
                names = list(D)
                for i in range(n):
                    handle(spec(D[names[i * 7 % len(names)]] if i % 3 else D[c]), 'written' if what == 'files' or i % 2 else 'built only')
            elif what == 'writes':
                s = lib.Session()
                lib.minimal(s)
                for i in range(n):
                    s.write(input_chunk_size=[None, 1][i % 2])
            elif what == 'failed writes':
                s = lib.Session()
                lib.minimal(s)
                for i in range(n):
                    s.write(from_idx=9) if i % 2 else s.write(path=os.path.join(os.path.dirname(lib.ENV.path), 'nowhere', 'x'))
            else:
                s = lib.Session()
                lf, ch, fr = lib.minimal(s)
                if what == 'values':
                    s.add(lf, 'axis', 'A', coordinates=[i * 0.5 for i in range(n)])
                    s.add(lf, 'axis', 'B', coordinates=list(range(n)))
                elif what == 'rows':
                    x = s.add(lf, 'channel', 'X', data=np.arange(n) * 0.5)
                    s.add(lf, 'frame', 'X', channels=[x], index_type='BOREHOLE-DEPTH')
                elif what == 'texts':
                    s.add(lf, 'comment', 'A', text=[f"text {i}" for i in range(n)])
                else:
                    for i in range(n):
                        s.add(lf, 'zone', f"Z{i}", description=f"d{i}")
                s.write()
            return final(c)
        ctx.state((what, n, c))
        ctx.step(n)
        check(ctx, want, fresh.child(work))
    return fn


def interpreters(ctx):
    """A fresh process is a fresh process: new interpreters with other hash seeds and working directories."""
    n = ctx.choose('specification', NAMES)
    seed = ctx.choose('hash seed', ['1', '123'])
    want = baseline(n, final, n)
    d = os.path.join(os.path.dirname(lib.ENV.path), 'cwd' + seed)
    os.makedirs(d, exist_ok=True)
    got = fresh.real('mc.checks.c14', 'final', n, os.path.join(d, 'out.dlis'), hashseed=seed, cwd=d)
    check(ctx, want, got, 'two fresh processes write different files')


# ------------------------------------------------------------------------------------------------- values
def one_value(kind, kw, entry):
    """A file with one object of `kind` with the value."""
    s = lib.Session()
    b = Bench(s)
    v = entry[1](b)
    k2 = dict(host_kw(b, kind, kw))
    for ck, cb in entry[3].items():
        cv = cb(b)
        if cv is not None:
            k2[ck] = cv
    k2.pop(kw, None)
    if kind == 'origin':
        k2.setdefault('file_set_number', 11)
        k2.setdefault('creation_time', lib.CT)
    s.add(b.lf, kind, 'HOST', **{**k2, kw: v})
    return do_write(s.real, dict(output_chunk_size=1 << 15))


TH = False
REPS = []
seen = set()
for _k, _kw in ATTRS:
    _c = (KINDS[_k][2][_kw][1], (_k, _kw) in values.ENUMS and (_k, _kw))
    if _c not in seen:
        seen.add(_c)
        REPS.append((_k, _kw))


LONG = {'127', '128', '255', '256', '16384', 'list200', 'list130', 'nul', 'del', 'printable', 'multi-line', 'blanks'}


def value_pairs(ctx):
    kind, kw = ctx.choose('attribute', REPS)
    l = catalogue(kind, kw)
    if not TH:
        l = [e for e in l if e[2] != 'bad' and e[0] not in LONG]
    x = ctx.choose('before', l, names=[e[0] for e in l])
    y = ctx.choose('final value', l, names=[e[0] for e in l])
    iy = [i for i, e in enumerate(l) if e is y][0]
    want = baseline((kind, kw, iy), attempt, one_value, kind, kw, y)

    def work():
        attempt(one_value, kind, kw, x)
        return attempt(one_value, kind, kw, y)
    check(ctx, want, fresh.child(work))


class Sub(int):
    pass


class SubF(float):
    pass


COLL = [('1', 1), ('1.0', 1.0), ('True', True), ('np.int64(1)', np.int64(1)), ('np.float32(1)', np.float32(1)), ('np.uint8(1)', np.uint8(1)),
        ('0', 0), ('0.0', 0.0), ('-0.0', -0.0), ('False', False), ('"1"', '1'), ('[1]', [1]), ('[1.0]', [1.0]), ('Sub(1)', Sub(1)), ('SubF(0)', SubF(0.0)),
        ('M', lambda: lib.dw().enums.Unit.METER), ('"m"', 'm'), ('CT', CT), ('CT+5', CT.astimezone(timezone(timedelta(hours=5))))]


QUICK = ['1', '1.0', 'True', 'np.int64(1)', '0', '-0.0', '"1"', '[1]', 'M', 'CT']


def cross(x_is_y):
    """A value in one attribute before, the same (or an equal) value in an attribute of another kind after."""
    def fn(ctx):
        a = ctx.choose('attribute before', REPS)
        b = ctx.choose('attribute', REPS)
        l = COLL if TH else [c for c in COLL if c[0] in QUICK]
        x = ctx.choose('value before', l, names=[c[0] for c in l])
        y = x if x_is_y else ctx.choose('value', l, names=[c[0] for c in l])

        def entry(c):
            v = c[1]
            return (c[0], (lambda bb: v()) if callable(v) else (lambda bb: v), '', {})
        want = baseline((b, y[0]), attempt, one_value, *b, entry(y))
        if want[0] == 'err':
            raise Prune('rejected in any case')

        def work():
            attempt(one_value, *a, entry(x))
            return attempt(one_value, *b, entry(y))
        check(ctx, want, fresh.child(work))
    return fn


# ------------------------------------------------------------------------------------------------- one file object
class One:
    """A file with two frames and a bit of everything, and the operations on it."""

    def __init__(self):
        self.a = [np.arange(6) * 0.5 + 1, np.arange(6).astype('float32') * 3, np.arange(12).reshape(6, 2).astype('uint8'),
                  np.arange(5).astype('float64') ** 2, np.arange(5).astype('uint16')]
        f = self.f = lib.dw().DLISFile(set_identifier='SET')
        lf = self.lf = f.add_logical_file()
        self.o = lf.add_origin('O', **lib.BASE_ORIGIN)
        lf.add_origin('O2', origin_reference=40, file_set_number=8, creation_time=CT)
        self.z = lf.add_zone('Z', maximum=10.0)
        self.p = lf.add_parameter('P', values=[1.5], zones=[self.z])
        self.ax = lf.add_axis('AX', coordinates=[1.0, 2.0])
        self.c = [lf.add_channel(n, data=x, dataset_name='d' + n) for n, x in zip('ABC', self.a)]
        self.c += [lf.add_channel(n, data=x, dataset_name='d' + n) for n, x in zip('DE', self.a[3:])]
        self.fr = lf.add_frame('F', channels=self.c[:3], index_type='BOREHOLE-DEPTH')
        self.fr2 = lf.add_frame('G', channels=self.c[3:])
        self.nf = lf.add_no_format('N')
        lf.add_no_format_frame_data(self.nf, 'abc')
        self.t = lf.add_tool('T', channels=self.c[:1], parameters=[self.p])
        self.g = lf.add_group('GR', object_list=[self.z])


def op_val(path, v):
    obj, attr, part = path
    return lambda s: setattr(getattr(eval('s.' + obj, {'s': s}), attr), part, v)


def inplace(s):
    s.a[1][2] = 77.5


def renamed(s):
    s.p.name = 'RENAMED'


# name -> (key of what it sets or None if it adds something, function)
OPS = {
    'values 1': ('pv', op_val(('p', 'values', 'value'), [1])), 'values 1.0': ('pv', op_val(('p', 'values', 'value'), [1.0])),
    'values -0.0': ('pv', op_val(('p', 'values', 'value'), [-0.0])), 'values text': ('pv', op_val(('p', 'values', 'value'), ['x'])),
    'values None': ('pv', op_val(('p', 'values', 'value'), None)), 'units ft': ('pu', op_val(('p', 'values', 'units'), 'ft')),
    'units None': ('pu', op_val(('p', 'values', 'units'), None)), 'zone 10': ('zm', op_val(('z', 'maximum', 'value'), 10)),
    'zone time': ('zm', op_val(('z', 'maximum', 'value'), CT)),
    'rename parameter': ('pn', renamed), 'rename channel': ('cn', lambda s: setattr(s.c[1], 'name', 'B2')),
    'rename frame': ('fn', lambda s: setattr(s.fr, 'name', 'F2')), 'rename zone': ('zn', lambda s: setattr(s.z, 'name', 'Z' * 200)),
    'zone origin': ('zo', lambda s: setattr(s.z, 'origin_reference', 40)), 'frame origin': ('fo', lambda s: setattr(s.fr, 'origin_reference', 40)),
    'channel origin': ('co', lambda s: setattr(s.c[0], 'origin_reference', 40)), 'no-format origin': ('no', lambda s: setattr(s.nf, 'origin_reference', 40)),
    'cast float32': ('ca', lambda s: setattr(s.c[0], 'cast_dtype', np.float32)), 'cast float64': ('ca', lambda s: setattr(s.c[0], 'cast_dtype', np.float64)),
    'cast None': ('ca', lambda s: setattr(s.c[0], 'cast_dtype', None)), 'data in place': ('da', inplace),
    'index type None': ('it', op_val(('fr', 'index_type', 'value'), None)), 'index type G': ('ig', op_val(('fr2', 'index_type', 'value'), 'BOREHOLE-DEPTH')),
    'spacing 3': ('sp', op_val(('fr', 'spacing', 'value'), 3)), 'spacing None': ('sp', op_val(('fr', 'spacing', 'value'), None)),
    'minimum 1': ('mi', op_val(('fr', 'index_min', 'value'), 1)), 'channel units': ('cu', op_val(('c[0]', 'units', 'value'), 'm')),
    'frame channels': ('fc', lambda s: setattr(s.fr.channels, 'value', s.c[:2])),
    'frame channels reversed': ('fc', lambda s: setattr(s.fr.channels, 'value', s.c[1::-1] + s.c[2:3])),
    'set id': ('si', lambda s: setattr(s.f.storage_unit_label, 'set_identifier', 'OTHER')),
    'record length': ('rl', lambda s: setattr(s.f.storage_unit_label, 'max_record_length', 60)),
    'header identifier': ('hi', lambda s: setattr(s.lf.file_header, 'name', '7')),
    'header number': ('hn', lambda s: setattr(s.lf.file_header, 'sequence_number', 33)),
    'list in place': (None, lambda s: s.t.channels.value.append(s.c[1])),
    'add zone': (None, lambda s: s.lf.add_zone('Z', maximum=1)), 'add parameter': (None, lambda s: s.lf.add_parameter('Q', values=[True + 0])),
    'add channel and frame': (None, lambda s: s.lf.add_frame('H', channels=[s.lf.add_channel('A', data=np.arange(3.0))])),
    'add payload': (None, lambda s: s.lf.add_no_format_frame_data(s.nf, 'def')), 'dimension': ('di', op_val(('c[2]', 'dimension', 'value'), [2])),
    'element limit': ('el', op_val(('c[2]', 'element_limit', 'value'), [7])), 'axis': ('xa', lambda s: setattr(s.c[2].axis, 'value', [s.ax])),
    'group': ('gr', lambda s: setattr(s.g.object_list, 'value', [s.c[0], s.c[1]])), 'origin well': ('of', op_val(('o', 'well_name', 'value'), 'WELL')),
    'creation time': ('ct', op_val(('o', 'creation_time', 'value'), CT + timedelta(days=1))),
    'rejected value': (None, lambda s: setattr(s.z.maximum, 'value', 'nonsense')),
    'rejected channel': (None, lambda s: s.lf.add_channel('R', data=np.arange(2.0), cast_dtype='nonsense')),
    'rejected frame': (None, lambda s: s.lf.add_frame('R', channels=['nonsense'])),
}
WOPS = {'all': {}, 'window': dict(from_idx=1, to_idx=4), 'other data': dict(data={'dB': np.arange(6).astype('float32') + 50}),
        'data of another type': dict(data={'dB': np.arange(6).astype('int16'), 'dC': np.ones((6, 3))}), 'row by row': dict(input_chunk_size=1),
        'failing: data': dict(data={'dA': np.arange(6.0).reshape(6, 1, 1), 'dB': np.arange(3.0)}), 'failing: path': dict(path='nowhere/x'),
        'failing: half-way': 'half', 'mode': 'mode', 'failing: rows': dict(from_idx=99)}


def write_op(s, w):
    kw = WOPS[w]
    path = lib.ENV.path
    if kw == 'half':
        s.lf.add_no_format_frame_data(s.nf, 'caf\xe9')
        try:
            return attempt(do_write, s.f, dict(output_chunk_size=1 << 15))
        finally:
            del lib.payload_list(s.lf)[-1]
    if kw == 'mode':
        with mode(True):
            return attempt(do_write, s.f, dict(output_chunk_size=1 << 15))
    kw = dict(kw)
    if 'path' in kw:
        kw.pop('path')

        def bad():
            s.f.write(os.path.join(os.path.dirname(path), 'nowhere', 'x.dlis'), output_chunk_size=1 << 15, **kw)
        return attempt(bad)
    return attempt(do_write, s.f, dict(output_chunk_size=1 << 15, **kw))


def apply(hist):
    """Run the history; the outcome of the last element, which is a write."""
    s = One()
    r = None
    for k, o in hist:
        if k == 'w':
            r = write_op(s, o)
        else:
            try:
                OPS[o][1](s)
            except (Exception, AssertionError):
                pass
    return r


def normal(hist):
    """The same specification reached without writing before, and without setting what is set again later."""
    out = []
    for i, (k, o) in enumerate(hist[:-1]):
        if k == 'w':
            continue
        key = OPS[o][0]
        if key is not None and any(k2 == 'o' and OPS[o2][0] == key and o2 in ACCEPTED for k2, o2 in hist[i + 1:-1]):
            continue
        out.append((k, o))
    return tuple(out) + (hist[-1],)


ACCEPTED = set()


def accepted():
    out = set()
    for o in OPS:
        try:
            OPS[o][1](One())
            out.add(o)
        except (Exception, AssertionError):
            pass
    return out


def one_cases(depth):
    """Explicit-state search over histories of the model (specification, what was written before): sequences which end in a write and
    hold at least one write before."""
    ops, ws = list(OPS), list(WOPS)
    cases, edges = [], 0
    for w1, w2 in itertools.product(ws, ws):
        cases.append((('w', w1), ('w', w2)))
    mut = [o for o in ops]
    for o in mut:
        for w1 in ws:
            for w2 in (('all', 'window', 'mode') if depth > 1 else ('all', 'window')):
                cases.append((('w', w1), ('o', o), ('w', w2)))
                cases.append((('o', o), ('w', w1), ('w', w2)))
    for o1, o2 in itertools.product(mut, mut):
        for w1 in (ws if depth > 1 else ['all']):
            cases.append((('o', o1), ('w', w1), ('o', o2), ('w', 'all')))
    if depth > 1:
        for o1, o2 in itertools.product(mut, mut):
            for w1, w2 in itertools.product(['all', 'window', 'other data', 'failing: half-way'], repeat=2):
                cases.append((('o', o1), ('w', w1), ('o', o2), ('w', w2), ('w', 'all')))
                cases.append((('w', w1), ('o', o1), ('w', w2), ('o', o2), ('w', 'all')))
        for o1, o2, o3 in itertools.product(mut, mut, mut):
            cases.append((('o', o1), ('w', 'all'), ('o', o2), ('w', 'all'), ('o', o3), ('w', 'all')))
    states = {normal(c) for c in cases}
    return cases, len(states), sum(len(c) for c in cases)


def one(ctx):
    hist = ctx.case
    n = normal(hist)
    ctx.notes.append('history: ' + '; '.join(('write: ' if k == 'w' else '') + o for k, o in hist))
    ctx.notes.append('compared with: ' + '; '.join(('write: ' if k == 'w' else '') + o for k, o in n))
    want = baseline(n, apply, n)
    ctx.step(len(hist))
    check(ctx, want, fresh.child(apply, hist))


# ------------------------------------------------------------------------------------------------- two files at a time
def interleave(ctx):
    l = REDUCED if TH else ['base', 'all the same name', 'value 0.0', 'index by depth', 'source hdf5', 'mode']
    a = ctx.choose('first file', l)
    b = ctx.choose('second file', l)
    ga, gb = 4, 4
    i = j = 0
    order = []
    # order of the building steps of the two files, all merges
    while i < ga or j < gb:
        opts = [x for x, ok in (('a', i < ga), ('b', j < gb)) if ok]
        o = ctx.choose('next step', opts) if len(opts) > 1 else opts[0]
        order.append(o)
        if o == 'a':
            i += 1
        else:
            j += 1
    wo = ctx.choose('write', ['aba', 'ab', 'ba'] if TH else ['aba'])
    want = {x: baseline(n, final, n) for x, n in (('a', a), ('b', b))}

    def work():
        P = {'a': spec(D[a]), 'b': spec(D[b])}
        gens = {k: steps(p) for k, p in P.items()}
        res = {}
        err = {}
        for o in order:
            if o in err or o in res:
                continue
            try:
                with mode(P[o]['hc']):
                    next(gens[o])
            except StopIteration as e:
                res[o] = e.value
            except (Exception, AssertionError) as e:
                err[o] = ('err', lib.exc_name(e))
        out = []
        for k in 'ab':
            if k not in res and k not in err:
                try:
                    with mode(P[k]['hc']):
                        res[k] = run(gens[k])
                except (Exception, AssertionError) as e:
                    err[k] = ('err', lib.exc_name(e))
        for k in wo:
            if k in err:
                out.append((k, err[k]))
            else:
                with mode(P[k]['hc']):
                    out.append((k, attempt(do_write, *res[k])))
        return out
    if 'hdf5' in (D[a].get('src'), D[b].get('src')) and a != b and D[a].get('src') == D[b].get('src'):
        raise Prune('one source file for two specifications')
    for k, r in fresh.child(work):
        check(ctx, want[k], r, f"file {k} ({a if k == 'a' else b}) differs from that of a fresh process")


# ------------------------------------------------------------------------------------------------- shared inputs
def shared(ctx):
    """The same Python objects given to two files (and to two objects of a file)."""
    what = ctx.choose('shared', ['list', 'dict', 'AttrSetup', 'array', 'data dict', 'label', 'structured array', 'array changed between'])
    first = ctx.choose('in the first file', ['one row chunks', 'window', 'cast', 'plain', 'index'])

    def make(sh, k):
        dw = lib.dw()
        f = dw.DLISFile(**({'storage_unit_label': sh['label']} if what == 'label' else {}))
        lf = f.add_logical_file()
        lf.add_origin('O', **lib.BASE_ORIGIN)
        z = lf.add_zone('Z', maximum=sh['num'])
        v = {'list': sh['list'], 'dict': sh['dict'], 'AttrSetup': sh['setup']}.get(what, [3.5])
        lf.add_calibration_coefficient('CC', coefficients=v)
        lf.add_calibration_coefficient('CC', references=v)
        inl = what in ('array', 'array changed between')
        kw = {}
        if first == 'cast' and k == 0:
            kw['cast_dtype'] = np.float32
        c = lf.add_channel('C', **({'data': sh['array']} if inl else {}), **kw)
        d = lf.add_channel('D', **({'data': sh['array'] if k else sh['array'] * 2} if inl else {}))
        lf.add_frame('F', channels=[c, d], **({'index_type': 'BOREHOLE-DEPTH'} if first == 'index' and k == 0 else {}))
        data = None if inl else sh['struct'] if what == 'structured array' else sh['data']
        o = dict(output_chunk_size=1 << 15, data=data)
        if k == 0:
            o.update({'one row chunks': dict(input_chunk_size=1), 'window': dict(from_idx=1, to_idx=2)}.get(first, {}))
        return f, o

    def inputs():
        a = np.arange(4.0)
        st = np.zeros(4, np.dtype([('C', 'f8'), ('D', 'i2')]))
        st['C'] = a
        return dict(list=[1, 2.5], dict={'value': [1, 2], 'units': 'm'}, setup=lib.dw().AttrSetup([4, 5], 'ft'), num=1, array=a,
                    data={'C': a, 'D': a + 1}, struct=st, label=lib.dw().logical_record.misc.StorageUnitLabel('SHARED') if what == 'label' else None)

    def base():
        sh = inputs()
        if what == 'array changed between':
            sh['array'][1] = 9
        return attempt(do_write, *make(sh, 1))

    def work():
        sh = inputs()
        fo = make(sh, 0)
        attempt(do_write, *fo)
        if what == 'array changed between':
            sh['array'][1] = 9
        r = attempt(do_write, *make(sh, 1))
        again = attempt(do_write, *fo) if what != 'array changed between' else None
        return r, again

    def first_alone():
        return attempt(do_write, *make(inputs(), 0))
    want = baseline(('sh', what, first), base)
    r, again = fresh.child(work)
    check(ctx, want, r)
    if again is not None:
        check(ctx, baseline(('sh1', what, first), first_alone), again)


def scenarios(tier):
    global TH
    TH = th = tier == 'thorough'
    ACCEPTED.update(fresh.child(accepted))
    cases, st, tr = one_cases(2 if th else 1)
    out = [Scenario('pairs of files', pair(th)),
           Scenario('triples of files', triple(REDUCED if th else REDUCED[:3] + REDUCED[4:10], ['written'] if not th else ['written', 'dropped', 'built only'])),
           Scenario('long histories', long(th), timeout=300),
           Scenario('interpreters', interpreters, timeout=150),
           Scenario('value pairs', value_pairs),
           Scenario('values across attributes', cross(not th)),
           Scenario('one file object', one, cases=cases, model_states=st, model_transitions=tr),
           Scenario('two files at a time', interleave),
           Scenario('shared inputs', shared)]
    return out
