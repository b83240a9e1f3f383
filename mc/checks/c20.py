"""C20 A rejected call leaves no trace in later files.

A history is a list of calls on one file object.  It is run in a fresh process and the calls which raise are noted; then the history
without those calls is run in another fresh process.  Everything the two write (and the names, copy numbers, origin references and
dataset names of all objects) must be the same."""
import itertools
import os
import resource
import signal

import numpy as np

from .. import fresh, lib, values
from ..engine import Scenario, Prune, Violation
from ..lib import A
from ..schema import KINDS, ATTR_NAME
from ..values import ATTRS, catalogue, units_ok
from .c09 import REJECT

BOUNDS = {'quick': 'every attribute of every object type x every value class that is rejected x place of the rejected addition (before all, '
                   'before the origin, between same-named objects, in a set of its own, after a write), a good object of the same name added '
                   'afterwards; every other reason for a rejection (name, set name, origin reference, unknown keyword, units, dictionary '
                   'key, dataset name, data, cast, duplicates, several keywords in both orders) x type x place; every rejected assignment to every '
                   'attribute, set or unset; 33 causes of a failing write, their removal, alone and in ordered pairs; the disk full after '
                   'every number of bytes; the data source failing at every access; every kind of refused data/window/chunk argument at each place among writes; all histories of up to 3 of 21 calls; the '
                   'call rejected up to 257 times; rejected call made again, corrected (types x reasons x sets x references); all histories of 2 add_origin (12 kinds of them); '
                   'rejected logical files at each place',
          'thorough': 'pairs of rejected additions over all types; histories of up to 4 calls and of 3 add_origin; triples of failing writes'}
ASSUMPTIONS = ['a call which sets several attributes of an existing object and raises half-way (set_attributes, not an add_*) is not judged',
               'file set number and creation time are given (their defaults are random and the current time) except in the mode']


class W:
    """The file object of a history."""

    def __init__(self):
        self.dw = lib.dw()
        self.f = self.dw.DLISFile(set_identifier='SET')
        self.o = {}          # objects by key
        self.nofmt = []

    def lf(self, i=0):
        while len(self.f.logical_files) <= i:
            self.f.add_logical_file(fh_id='FILE-HEADER', fh_sequence_number=len(self.f.logical_files) + 1)
        return self.f.logical_files[i]


def observe(w):
    """What can be seen of the specification through the public interface."""
    out = []
    for lf in w.f.logical_files:
        out.append(('origin reference', lf.default_origin_reference, lf.file_header.origin_reference))
        out.append(tuple((c.name, c.dataset_name, c.copy_number, c.origin_reference, str(c.cast_dtype)) for c in lf.channels))
        out.append(tuple((x.name, x.copy_number, x.origin_reference) for x in lf.frames))
        out.append(tuple((x.name, x.copy_number, x.origin_reference) for x in lf.origins))
    for k, x in w.o.items():
        if hasattr(x, 'copy_number'):
            out.append((k, x.name, x.copy_number, x.origin_reference))
    return out


def wr(w, **kw):
    path = kw.pop('path', None) or lib.ENV.path
    if os.path.exists(lib.ENV.path):
        os.unlink(lib.ENV.path)
    kw.setdefault('output_chunk_size', 1 << 15)
    w.f.write(path, **kw)
    with open(path, 'rb') as h:
        return h.read()


def play(steps, skip=()):
    """Run the steps; (set of the indices of those which raised with the exception, the outputs)."""
    w = W()
    raised, outs = {}, {}
    for i, st in enumerate(steps):
        if i in skip:
            continue
        try:
            r = st(w)
            if isinstance(r, (bytes, str, tuple)):
                outs[i] = r
        except (Violation, Prune):
            raise
        except (Exception, AssertionError) as e:
            raised[i] = lib.exc_name(e) + ': ' + str(e)[:120]
        except KeyboardInterrupt as e:
            raised[i] = 'KeyboardInterrupt'
    return raised, outs, observe(w)


_refs = {}


def judge(ctx, steps, probe, key=None, names=None, reference=None, always=()):
    """steps: functions of W; probe: indices of the steps which this history is about (at least one must raise); always: indices of
    steps which must not raise in the end."""
    raised, outs, seen = fresh.child(play, steps)
    if not any(i in raised for i in probe):
        raise Prune('accepted')
    ctx.notes.append('raised: ' + '; '.join(f"{names[i] if names else i} -> {e}" for i, e in raised.items()))
    drop = tuple(sorted(set(raised) | set(reference or ())))
    k = None if key is None else (key, drop)
    if k is None or k not in _refs:
        ref = fresh.child(play, steps, drop)
        if k is not None:
            _refs[k] = ref
    else:
        ref = _refs[k]
    r2, o2, s2 = ref
    other = sorted(set(raised) - set(probe) - set(reference or ()))
    if other:       # calls which are not the rejected ones raise too: they would have raised anyhow
        d = tuple(sorted((set(raised) & set(probe)) | set(reference or ())))
        r3 = fresh.child(play, steps, d)[0]
        for i in other:
            if i not in r3:
                raise Violation('call-fails', f"call {i} ({names[i] if names else ''}) raises {raised[i]}; without the rejected calls it does not",
                                '\n'.join(names or ()))
    trace = '\n'.join(f"{i}: {names[i] if names else ''} {'RAISED ' + raised[i] if i in raised else ''}" for i in range(len(steps)))
    if r2:
        raise Violation('call-outcome', f"without the rejected calls, the calls {r2} raise; with them they do not", trace)
    for i in set(outs) | set(o2):
        if reference and i in reference:
            continue
        if outs.get(i) != o2.get(i):
            a, b = o2.get(i), outs.get(i)
            d = f"{b!r:.200} instead of {a!r:.200}"
            if isinstance(a, bytes) and isinstance(b, bytes):
                j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                d = f"{len(b)} bytes instead of {len(a)}; at {j}: {b[max(0, j - 30):j + 30]!r} instead of {a[max(0, j - 30):j + 30]!r}"
            raise Violation('trace-in-file', f"the file written by call {i} differs from that of the history without the rejected calls: {d}", trace)
    if seen != s2:
        d = [(a, b) for a, b in itertools.zip_longest(s2, seen) if a != b][:2]
        raise Violation('trace-in-specification', f"objects differ from those of the history without the rejected calls: {d!r:.500}", trace)
    for i in always:
        if i in raised:
            raise Violation('not-recovered', f"{names[i] if names else i} raises {raised[i]}", trace)
    ctx.step(len(steps))
    ctx.validated_trace()
    ctx.outcome('no trace')


# ------------------------------------------------------------------------------------------------- values for objects
class Tgt:
    """Supplies the catalogue with helper objects inside a history (same interface as values.Bench)."""

    def __init__(self, w, i=0):
        self.w, self.i, self.targets = w, i, {}
        self.s = self
        self.lf = None

    def add(self, lf, kind, name, **kw):
        return getattr(self.w.lf(self.i), 'add_' + kind)(name, **kw)

    def ref(self, settype, i=0):
        return values.Bench.ref(self, settype, i)


def res(v):
    """Catalogue values may hold model descriptions; here they hold real objects already."""
    return lib.real(v) if isinstance(v, A) else v


def supply(w):
    """All the objects a value could refer to, so that the rejected call itself does not need to add any."""
    t = w.o.setdefault('supply', Tgt(w))
    for st in ('CHANNEL', 'AXIS', 'ZONE', 'PARAMETER', 'COMPUTATION', 'EQUIPMENT', 'FRAME', 'WELL-REFERENCE', 'GROUP', 'CALIBRATION-COEFFICIENT',
               'CALIBRATION-MEASUREMENT', 'LONG-NAME', 'TOOL', 'PROCESS', 'MESSAGE'):
        for i in range(3 if st in ('CHANNEL', 'ZONE', 'AXIS') else 2):
            t.ref(st, i)


def host(w, kind, kw=None):
    if kind == 'origin':
        d = dict(creation_time=lib.CT)
        if kw != 'file_set_number':
            d['file_set_number'] = 11
        return d
    if kind == 'frame' and kw != 'channels':
        return dict(channels=[w.o['supply'].ref('CHANNEL', 2)])
    return {}


def add(w, kind, name='X', key=None, i=0, **kw):
    x = getattr(w.lf(i), 'add_' + kind)(name, **kw)
    if key:
        w.o[key] = x
    return x


def origin(w):
    add(w, 'origin', 'O', **lib.BASE_ORIGIN)


def content(w):
    c = add(w, 'channel', 'C', data=np.arange(3.0) * 1.5)
    add(w, 'frame', 'F', channels=[c])


def good(kind):
    """Add an ordinary object named X with some content."""
    def fn(w):
        kw = host(w, kind)
        if kind == 'channel':
            n = len(w.lf().channels)
            kw['data'] = np.arange(3.0) + n
        if kind == 'frame':
            n = len(w.lf().frames)
            kw = dict(channels=[add(w, 'channel', f'FC{n}', data=np.arange(4.0) + n)])
        x = add(w, kind, 'X', **kw)
        w.o[f'good{len(w.o)}'] = x
    fn.__name__ = f'add_{kind}(X)'
    return fn


PLACES = ['between namesakes', 'before the origin', 'before everything', 'in a set of its own', 'after a write', 'last']


def at(place, bad, kind):
    """History with the rejected call `bad(w, set_name)` at the place; indices of the probing steps."""
    b = lambda w: bad(w, None)
    b.__name__ = 'REJECTED?'
    own = lambda w: bad(w, 'OWN')
    own.__name__ = 'REJECTED? in set OWN'

    def later_own(w):
        add(w, 'zone', 'Z', set_name='OWN')
    g = good(kind)
    if place == 'between namesakes':
        s = [origin, supply, content, g, b, g, wr]
        return s, [4]
    if place == 'before the origin':
        s = [supply, content, b, g, origin, g, wr]
        return s, [2]
    if place == 'before everything':
        s = [b, origin, supply, content, wr]
        return s, [0]
    if place == 'in a set of its own':
        s = [origin, supply, content, own, wr, own, later_own, wr]
        return s, [3]
    if place == 'after a write':
        s = [origin, supply, content, g, wr, b, wr, g, wr]
        return s, [5]
    s = [origin, supply, content, g, b, wr, b, wr]
    return s, [4]


def nm(steps):
    return [f.__name__ for f in steps]


def bad_values(tier):
    def fn(ctx):
        kind, kw = ctx.choose('attribute', ATTRS)
        l = [e for e in catalogue(kind, kw) if e[2] != 'ok']
        if not l:
            raise Prune('nothing is refused')
        e = ctx.choose('value', l, names=[x[0] for x in l])
        place = ctx.choose('place', PLACES if tier == 'thorough' else PLACES[:2] + PLACES[3:5])
        units = ctx.choose('given', ['plain', 'with units']) if units_ok(kind, kw) and tier == 'thorough' else 'plain'

        def bad(w, sn):
            if place == 'before everything':
                t = Tgt(w)
            else:
                t = w.o['supply']
            v = e[1](t)
            if units != 'plain':
                v = {'value': v, 'units': 'm'}
            k = dict(host(w, kind, kw) if 'supply' in w.o else {})
            if kind == 'channel':
                k['data'] = np.arange(3.0) + 50
            k[kw] = v
            getattr(w.lf(), 'add_' + kind)('X', set_name=sn, **k)
        if place == 'before everything' and e[0] in ('one', 'bare', 'three', 'reversed', 'tuple', 'twice', 'none-in', 'name-in', 'wrong type in', 'wrong type',
                                                     'list', 'list2'):
            raise Prune('needs objects')
        steps, probe = at(place, bad, kind)
        # an accepted value can be followed by a failing write: those are judged elsewhere
        judge(ctx, steps, probe, key=('v', kind, place), names=nm(steps))
    return fn


class Rude(str):
    """A name which cannot be compared."""

    def __eq__(self, o):
        raise RuntimeError('cannot compare')

    __hash__ = str.__hash__


REASONS = ['name', 'name None', 'name bytes', 'set name', 'origin reference text', 'origin reference float', 'origin reference list', 'unknown keyword',
           'units', 'units type', 'dictionary key', 'good then bad', 'bad then good', 'AttrSetup of bad', 'units without value', 'positional',
           'mode name', 'mode value', 'all good and one bad']
SPECIFIC = {'channel': ['dataset name taken', 'dataset name of itself', 'data not an array', 'cast refused', 'cast complex', 'cast refused with data',
                        'cast of a dtype which is no dtype', 'representation code', 'source not an object', 'axis of another type', 'dimension text'],
            'origin': ['reference taken', 'reference taken by the first', 'file set number twice', 'file id', 'creation time', 'mode without number'],
            'frame': ['no list', 'channel twice', 'channel of another type in the list', 'names of channels', 'encrypted']}


def reason(kind, why, w, sn):
    """Make the call."""
    lf = w.lf()
    call = getattr(lf, 'add_' + kind)
    k = dict(set_name=sn, **(host(w, kind) if 'supply' in w.o else {}))
    if kind == 'channel':
        k['data'] = np.arange(3.0) + 70
    rej = REJECT[kind]
    rk = next(iter(rej))
    num = next((a for a, (_, vk) in KINDS[kind][2].items() if vk in ('N', 'NM', 'NMD', 'DN')), None)
    txt = next((a for a, (_, vk) in KINDS[kind][2].items() if vk in ('T', 'TM', 'I')), None)
    if why == 'name':
        return call(5, **k)
    if why == 'name None':
        return call(None, **k)
    if why == 'name bytes':
        return call(b'X', **k)
    if why == 'set name':
        return call('X', **{**k, 'set_name': 5})
    if why.startswith('origin reference'):
        return call('X', **{**k, 'origin_reference': {'text': 'x', 'float': 1.5, 'list': [1]}[why.split()[-1]]})
    if why == 'unknown keyword':
        return call('X', **k, nonsense=1)
    if why in ('units', 'units type') and num:
        return call('X', **{**k, num: {'value': 1.0, 'units': 5 if why == 'units' else [1]}})
    if why == 'dictionary key' and (num or txt):
        return call('X', **{**k, (num or txt): {'value': 1.0 if num else 'a', 'representation_code': 5}})
    if why in ('good then bad', 'bad then good', 'all good and one bad'):
        items = []
        for a, (_, vk) in KINDS[kind][2].items():
            if a == rk or a in k:
                continue
            e = [x for x in catalogue(kind, a) if x[2] == 'ok' and not x[3]]
            if e and (vk in ('T', 'I', 'N', 'S', 'TM', 'NM') or why.startswith('all')) and not vk.startswith(('R', 'RM')):
                items.append((a, e[0][1](w.o.get('supply') or Tgt(w))))
                if not why.startswith('all'):
                    break
        d = dict(items)
        d = {**d, **rej} if why != 'bad then good' else {**rej, **d}
        k.update(d)
        return call('X', **k)
    if why == 'AttrSetup of bad' and not (kind == 'channel'):
        return call('X', **{**k, rk: w.dw.AttrSetup(rej[rk], 'm')})
    if why == 'units without value' and num:
        return call('X', **{**k, num: {'units': 5}})
    if why == 'positional':
        return call('X', *[object()] * 40)
    if why == 'mode name':
        with w.dw.high_compatibility_mode():
            return call('not allowed!', **k)
    if why == 'mode value' and txt and kind not in ('channel',):
        with w.dw.high_compatibility_mode():
            return call('X', **{**k, txt: 'not in the enumeration', 'origin_reference': 'x'})
    if kind == 'channel':
        if why == 'dataset name taken':
            return call('X', **{**k, 'dataset_name': lf.channels[0].dataset_name if lf.channels else 5})
        if why == 'dataset name of itself':
            add(w, 'channel', 'DSN', dataset_name='same') if not any(c.dataset_name == 'same' for c in lf.channels) else None
            return call('X', **{**k, 'dataset_name': 'same'})
        if why == 'data not an array':
            return call('X', **{**k, 'data': [1, 2, 3]})
        if why == 'cast refused':
            return call('X', set_name=sn, cast_dtype='int64x')
        if why == 'cast complex':
            return call('X', set_name=sn, cast_dtype=np.complex128)
        if why == 'cast refused with data':
            return call('X', **k, cast_dtype=np.int64, minimum_value='x')
        if why == 'cast of a dtype which is no dtype':
            return call('X', **k, cast_dtype=object())
        if why == 'representation code':
            return call('X', **k, representation_code=2)
        if why == 'source not an object':
            return call('X', **k, source='x')
        if why == 'axis of another type':
            return call('X', **k, axis=[lf.channels[0]] if lf.channels else ['x'])
        if why == 'dimension text':
            return call('X', **k, dimension='x', properties=['AVERAGED'])
    if kind == 'origin':
        if why.startswith('reference taken'):
            r = [o.origin_reference for o in lf.origins]
            return call('X', **{**k, 'origin_reference': (r[0] if 'first' in why else r[-1]) if r else 'x'})
        if why == 'file set number twice':
            return call('X', **{**k, 'file_set_number': {'value': 5, 'units': 7}})
        if why == 'file id':
            return call('X', **k, file_id='x')
        if why == 'creation time':
            return call('X', **{**k, 'creation_time': 'never'})
        if why == 'mode without number':
            with w.dw.high_compatibility_mode():
                return call('X', creation_time=lib.CT, descent_number='x')
    if kind == 'frame':
        if why == 'no list':
            return call('X', **{**k, 'channels': 'C'})
        if why == 'channel twice':
            c = lf.channels[0] if lf.channels else 'x'
            return call('X', **{**k, 'channels': [c, c]}, index_type=5)
        if why.startswith('channel of another'):
            return call('X', **{**k, 'channels': [w.o['supply'].ref('ZONE') if 'supply' in w.o else 5]})
        if why == 'names of channels':
            return call('X', **{**k, 'channels': ['C']})
        if why == 'encrypted':
            return call('X', **k, encrypted='perhaps')
    raise Prune('does not apply')


def reasons(tier):
    def fn(ctx):
        kind = ctx.choose('type', list(KINDS))
        why = ctx.choose('reason', REASONS + SPECIFIC.get(kind, []))
        place = ctx.choose('place', PLACES)
        twice = ctx.choose('times', [1, 2] if tier == 'thorough' else [1])

        def bad(w, sn):
            for i in range(twice - 1):
                try:
                    reason(kind, why, w, sn)
                except Prune:
                    raise
                except Exception:
                    pass
            if why == 'dataset name of itself':
                pass
            reason(kind, why, w, sn)
        steps, probe = at(place, bad, kind)
        if why == 'dataset name of itself':
            def ds(w):
                add(w, 'channel', 'DSN', dataset_name='same', data=np.arange(3.0))
            steps.insert(probe[0], ds)
            probe = [probe[0] + 1]
        judge(ctx, steps, probe, key=('r', kind, place, why == 'dataset name of itself'), names=nm(steps))
    return fn


CHANNEL_REASONS = [('bad value', dict(minimum_value='x')), ('bad units', dict(units='furlong-x', minimum_value='x')), ('bad cast', dict(cast_dtype=np.complex64)),
                   ('bad reference', dict(axis='x')), ('bad origin', dict(origin_reference='x')), ('bad list', dict(properties=[5])),
                   ('unknown keyword', dict(nonsense=1)), ('bad dimension', dict(dimension='x'))]


def rejected_data(ctx):
    """Rejected channels which came with data, a dataset name or a cast; then a channel which needs data, has its own, or is given them by write()."""
    why, bk = ctx.choose('reason', CHANNEL_REASONS, names=[r[0] for r in CHANNEL_REASONS])
    bds = ctx.choose('rejected with dataset name', [None, 'DS'])
    gname, gds = ctx.choose('good channel', [('X', None), ('Y', 'X'), ('X', 'DS'), ('Y', 'DS'), ('Y', None)])
    own = ctx.choose('good channel has data', [False, True])
    passed = ctx.choose('data passed', [None, 'of the good', 'of the other', 'of both', 'none', 'structured'])
    when = ctx.choose('rejected', ['before', 'after a write', 'after the good one', 'twice before'])

    def bad(w):
        kw = dict(bk)
        if bds:
            kw['dataset_name'] = bds
        return getattr(w.lf(), 'add_channel')('X', data=np.arange(3.0) + 900, **kw)
    bad.__name__ = 'REJECTED add_channel'

    def chan(w):
        add(w, 'channel', 'X' if gname == 'X' else gname, key='g', dataset_name=gds, data=np.arange(3.0) + 40 if own else None)

    def frm(w):
        add(w, 'frame', 'G', channels=[w.o['g']])

    def out(w):
        ds = gds or gname
        d = {None: None, 'of the good': {ds: np.arange(3.0) + 7}, 'of the other': {'C': np.arange(3.0) + 8}, 'none': {},
             'of both': {'C': np.arange(3.0) + 8, ds: np.arange(3.0) + 7}}.get(passed)
        if passed == 'structured':
            d = np.zeros(3, [(ds, 'f8'), ('C', 'i4')])
        return wr(w, data=d)
    steps = {'before': [origin, content, bad, chan, frm, out], 'after a write': [origin, content, wr, bad, chan, frm, out],
             'after the good one': [origin, content, chan, bad, frm, out, bad, out],
             'twice before': [bad, origin, content, bad, chan, frm, out, out]}[when]
    judge(ctx, steps, [i for i, x in enumerate(steps) if x is bad], key=('rd', bds, gname, gds, own, passed, when), names=nm(steps))


def two_rejections(ctx):
    """Two different rejected calls, good additions of both types after them."""
    k1 = ctx.choose('first', list(KINDS))
    k2 = ctx.choose('second', list(KINDS))
    where = ctx.choose('where', ['together', 'around'])
    b1 = lambda w: getattr(w.lf(), 'add_' + k1)('X', **REJECT[k1])
    b2 = lambda w: getattr(w.lf(), 'add_' + k2)('X', **REJECT[k2])
    b1.__name__ = b2.__name__ = 'REJECTED'
    steps = [origin, supply, content, b1, b2, good(k1), good(k2), wr] if where == 'together' else [b1, origin, b2, supply, b1, content, good(k2), b2, good(k1), wr, b1, wr]
    judge(ctx, steps, [i for i, s in enumerate(steps) if s in (b1, b2)], names=nm(steps))


# ------------------------------------------------------------------------------------------------- assignments
def assignments(tier):
    def fn(ctx):
        kind, kw = ctx.choose('attribute', ATTRS)
        part = ctx.choose('part', ['value', 'units'])
        l = [e for e in catalogue(kind, kw) if e[2] != 'ok'] if part == 'value' else [('int', lambda b: 5, '', {}), ('list', lambda b: ['m'], '', {}),
                                                                                      ('object', lambda b: object(), '', {}), ('long', lambda b: 'u' * 300, '', {}),
                                                                                      ('plain', lambda b: 'm', '', {})]
        if not l:
            raise Prune('nothing is refused')
        e = ctx.choose('value', l, names=[x[0] for x in l])
        before = ctx.choose('before', ['set', 'unset'] if tier == 'thorough' or part == 'value' else ['set'])
        ok = [x for x in catalogue(kind, kw) if x[2] == 'ok' and not x[3]]
        name = ATTR_NAME.get((kind, kw), kw)

        def make(w):
            k = host(w, kind, kw if before == 'set' else None)
            if before == 'set' and ok:
                v = ok[0][1](w.o['supply'])
                k[kw] = {'value': v, 'units': 'ft'} if units_ok(kind, kw) else v
            if kind == 'channel':
                k['data'] = np.arange(3.0)
            add(w, kind, 'H', key='h', **k)

        def assign(w):
            setattr(getattr(w.o['h'], name), part, e[1](w.o['supply']))
        steps = [origin, supply, content, make, assign, wr]
        judge(ctx, steps, [4], key=('a', kind, kw, before), names=nm(steps))
    return fn


def other_assignments(ctx):
    """Things which are not attributes."""
    what, v = ctx.choose('assignment', [
        ('x.origin_reference', 'x'), ('x.origin_reference', 1.5), ('x.origin_reference', None), ('x.origin_reference', [1]), ('c.cast_dtype', 'nonsense'),
        ('c.cast_dtype', np.complex64), ('c.cast_dtype', object), ('c.cast_dtype', np.int64), ('c.values', 1), ('x.description', 'text'), ('x.copy_number', 4),
        ('x.parent', None), ('c.long_name', 'x'), ('o.file_set_number.value', 5), ('c.representation_code.value', 2), ('h.sequence_number', 'x'),
        ('h.header_id', 5), ('h.name', 5), ('h.origin_reference', 'x'), ('s.max_record_length', 'x'), ('s.max_record_length', 17), ('s.max_record_length', 10 ** 6),
        ('c.units.value', 5), ('f.channels.value', ['C']), ('f.channels.value', 'C'), ('x.set', dict(minimum='x')), ('c.set', dict(dimension='x')),
        ('c.set', dict(nonsense=1)), ('c.set', dict(units={'nonsense': 1}))])
    before = ctx.choose('before', ['plain', 'cast', 'written'])

    def make(w):
        w.o['x'] = add(w, 'zone', 'Z', description='d')
        w.o['c'] = w.lf().channels[0]
        w.o['f'] = w.lf().frames[0]
        w.o['h'] = w.lf().file_header
        w.o['oo'] = w.lf().origins[0]
        if before == 'cast':
            w.o['c'].cast_dtype = np.float32
        return wr(w) if before == 'written' else None

    def assign(w):
        p = what.split('.')
        x = {'x': w.o['x'], 'c': w.o['c'], 'f': w.o['f'], 'h': w.o['h'], 'o': w.o['oo'], 's': w.f.storage_unit_label}[p[0]]
        if p[1] == 'set':
            return x.set_attributes(**v)
        for a in p[1:-1]:
            x = getattr(x, a)
        setattr(x, p[-1], v)
    steps = [origin, supply, content, make, assign, wr]
    judge(ctx, steps, [4], names=nm(steps))


# ------------------------------------------------------------------------------------------------- failing writes
def build_all(w):
    lf = w.lf()
    w.o['or'] = add(w, 'origin', 'O', **lib.BASE_ORIGIN)
    d = w.data = [np.arange(5) * 0.5, np.arange(5).astype('float32'), np.arange(10).reshape(5, 2).astype('uint8'), np.arange(4.0)]
    c = w.c = [lf.add_channel(n, data=x) for n, x in zip('ABCD', d)]
    w.fr = lf.add_frame('F', channels=c[:3], index_type='BOREHOLE-DEPTH')
    w.fr2 = lf.add_frame('G', channels=c[3:])
    w.z = lf.add_zone('Z', maximum=4.0, description='d', domain='VERTICAL-DEPTH')
    w.p = lf.add_parameter('P', values=[1.5], zones=[w.z])
    w.cal = lf.add_calibration_measurement('CM', measurement=[1.5], dimension=[1])
    w.comp = lf.add_computation('CP', values=[1.0])
    w.nf = lf.add_no_format('N')
    w.ax = lf.add_axis('AX', coordinates=[1, 2, 3])
    w.ax1 = lf.add_axis('AX', coordinates=[1])
    lf.add_no_format_frame_data(w.nf, 'abc')


def setv(x, v):
    def do(w):
        o = w
        for a in x.split('.')[:-1]:
            o = getattr(o, a) if not a.isdigit() else o[int(a)]
        w.__dict__.setdefault('old', {}).setdefault(x, getattr(o, x.split('.')[-1]))
        setattr(o, x.split('.')[-1], v(w) if callable(v) else v)
    return do


def back(x):
    def do(w):
        o = w
        for a in x.split('.')[:-1]:
            o = getattr(o, a) if not a.isdigit() else o[int(a)]
        if x in getattr(w, 'old', {}):
            setattr(o, x.split('.')[-1], w.old[x])
    return do


def foreign(w):
    return w.dw.DLISFile().add_logical_file().add_zone('Z', origin_reference=0)


def add_payload(p):
    def do(w):
        w.lf().add_no_format_frame_data(w.nf, p)
    return do


def del_payload(w):
    del lib.payload_list(w.lf())[1:]


def nothing(w):
    pass


class BadSource(dict):
    """A dict whose k-th access fails."""


def failing_array(exc):
    class Arr(np.ndarray):
        def __getitem__(self, i):
            if exc[1] == 0:
                raise exc[0]
            exc[1] -= 1
            return super().__getitem__(i)
    return np.arange(5.0).view(Arr)


def hc(w, **kw):
    with w.dw.high_compatibility_mode():
        return wr(w, **kw)


def full_disk(n):
    def do(w):
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
        try:
            return wr(w, output_chunk_size=8192)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
    return do


# cause -> (bring it about, the write that fails, remove the cause)
CAUSES = {
    'value not ASCII': (setv('z.description.value', 'caf\xe9'), wr, setv('z.description.value', 'd')),
    'parameter text not ASCII': (setv('p.values.value', ['caf\xe9']), wr, setv('p.values.value', [1.5])),
    'identifier too long': (setv('z.domain.units', 'u' * 300), wr, setv('z.domain.units', None)),
    'name not ASCII': (setv('z.name', 'caf\xe9'), wr, setv('z.name', 'Z')),
    'name not text': (setv('p.name', 5), wr, setv('p.name', 'P')),
    'channel name unknown to the data': (setv('c.1.dataset_name', 'nowhere'), wr, setv('c.1.dataset_name', 'B')),
    'origin reference unknown': (setv('z.origin_reference', 77), wr, setv('z.origin_reference', 0)),
    'reference to a foreign object': (setv('p.zones.value', lambda w: [foreign(w)]), wr, setv('p.zones.value', lambda w: [w.z])),
    'header id': (setv('f.logical_files.0.file_header.header_id', 'CHANGED'), wr, setv('f.logical_files.0.file_header.header_id', 'FILE-HEADER')),
    'header number': (setv('f.logical_files.0.file_header.sequence_number', -5), wr, setv('f.logical_files.0.file_header.sequence_number', 1)),
    'set identifier': (setv('f.storage_unit_label.set_identifier', 'caf\xe9'), wr, setv('f.storage_unit_label.set_identifier', 'SET')),
    'cast to nonsense': (setv('c.1.cast_dtype', lambda w: np.float64), lambda w: wr(w, data={'B': np.array(['a', 'b', 'c', 'd', 'e'])}), setv('c.1.cast_dtype', None)),
    'dimension': (setv('c.2.dimension.value', [3]), wr, setv('c.2.dimension.value', [2])),
    'element limit': (setv('c.2.element_limit.value', [1]), wr, setv('c.2.element_limit.value', [2])),
    'dimension and limit': (setv('c.0.dimension.value', [1, 1]), wr, setv('c.0.dimension.value', [1])),
    'axis': (setv('c.3.axis.value', lambda w: [w.ax]), wr, setv('c.3.axis.value', lambda w: [w.ax1])),
    'index 2-D': (setv('fr.channels.value', lambda w: w.c[2:0:-1]), wr, setv('fr.channels.value', lambda w: w.c[:3])),
    'no channels in the frame': (setv('fr2.channels.value', lambda w: []), wr, setv('fr2.channels.value', lambda w: w.c[3:])),
    'parameter dimension': (setv('p.dimension.value', [4]), wr, setv('p.dimension.value', [1])),
    'measurement dimensions': (setv('cal.measurement.value', [[1, 2], [3, 4]]), lambda w: (setv('cal.dimension.value', [5])(w), wr(w))[1],
                               lambda w: (setv('cal.measurement.value', [1.5])(w), setv('cal.dimension.value', [1])(w)) and None),
    'more zones than values': (setv('comp.zones.value', lambda w: [w.z, w.z]), wr, setv('comp.zones.value', lambda w: [w.z])),
    'computation dimensions': (setv('comp.dimension.value', [3]), wr, setv('comp.dimension.value', [1])),
    'payload not ASCII': (add_payload('caf\xe9'), wr, del_payload),
    'payload of a foreign object': (lambda w: w.lf().add_no_format_frame_data(w.z, 'abc'), wr, del_payload),
    'data: one array too short': (nothing, lambda w: wr(w, data={'B': np.arange(3).astype('float32')}), nothing),
    'data: rank': (nothing, lambda w: wr(w, data={'B': np.zeros((5, 2, 2))}), nothing),
    'data: text': (nothing, lambda w: wr(w, data={'C': np.array(['a'] * 5)}), nothing),
    'data: not a source': (nothing, lambda w: wr(w, data=5), nothing),
    'data: structured array': (nothing, lambda w: wr(w, data=np.zeros(5, np.dtype([('A', 'f8')]))), nothing),
    'data: missing HDF5 file': (nothing, lambda w: wr(w, data='/nonexistent/x.h5'), nothing),
    'window': (nothing, lambda w: wr(w, from_idx=7), nothing),
    'window text': (nothing, lambda w: wr(w, to_idx='x'), nothing),
    'row chunk': (nothing, lambda w: wr(w, input_chunk_size=0), nothing),
    'row chunk text': (nothing, lambda w: wr(w, input_chunk_size='x'), nothing),
    'output chunk': (nothing, lambda w: wr(w, output_chunk_size=5), nothing),
    'no such directory': (nothing, lambda w: wr(w, path=os.path.join(os.path.dirname(lib.ENV.path), 'nowhere', 'x.dlis')), nothing),
    'path is a directory': (nothing, lambda w: wr(w, path=os.path.dirname(lib.ENV.path)), nothing),
    'path is nonsense': (nothing, lambda w: w.f.write(5.5, output_chunk_size=1 << 15), nothing),
    'device full': (nothing, lambda w: wr(w, path='/dev/full'), nothing),
    'mode: index not uniform': (nothing, lambda w: hc(w, data={'A': np.array([0.0, 1, 5, 6, 7])}), nothing),
    'mode: signed integers': (nothing, lambda w: hc(w, data={'B': np.arange(5).astype('int16')}), nothing),
    'mode: name': (setv('z.name', 'not allowed!'), hc, setv('z.name', 'Z')),
    'mode: channel in no frame': (setv('fr.channels.value', lambda w: w.c[:2]), hc, setv('fr.channels.value', lambda w: w.c[:3])),
    'disk full': (nothing, full_disk(300), nothing),
    'data array fails': (nothing, lambda w: wr(w, data={'B': failing_array([RuntimeError('no data'), 1])}, input_chunk_size=2), nothing),
    'interrupted': (nothing, lambda w: wr(w, data={'B': failing_array([KeyboardInterrupt(), 1])}, input_chunk_size=2), nothing),
}
CNAMES = list(CAUSES)


def failing_writes(n):
    def fn(ctx):
        cs = [ctx.choose(f"cause {i}", CNAMES) for i in range(n)]
        when = ctx.choose('before', ['nothing', 'a good write', 'another data type written']) if n == 1 else 'nothing'
        after = ctx.choose('then', ['same', 'more objects', 'other data', 'window']) if n == 1 else 'same'
        nested = ctx.choose('arranged', ['one after the other', 'both at once']) if n == 2 else 'one after the other'
        steps, names = [build_all], ['build']

        def s(f, name):
            steps.append(f)
            names.append(name)
        if when != 'nothing':
            s(wr if when == 'a good write' else lambda w: wr(w, data={'B': np.arange(5).astype('int32'), 'C': np.zeros((5, 4))}), when)
        probe, skip = [], []
        if nested == 'both at once':
            for c in cs:
                skip.append(len(steps))
                s(CAUSES[c][0], 'bring about: ' + c)
            for c in cs:
                probe.append(len(steps))
                s(CAUSES[c][1], 'write: ' + c)
            for c in cs[::-1]:
                s(CAUSES[c][2], 'remove: ' + c)
        else:
            for c in cs:
                skip.append(len(steps))
                s(CAUSES[c][0], 'bring about: ' + c)
                probe.append(len(steps))
                s(CAUSES[c][1], 'write: ' + c)
                s(CAUSES[c][2], 'remove: ' + c)
        if nested == 'both at once' and cs[0] == cs[1]:
            raise Prune('twice the same')
        if after == 'more objects':
            def more(w):
                add(w, 'zone', 'Z', key='z2')
                add(w, 'channel', 'A', key='a2', data=np.arange(2.0))
                add(w, 'frame', 'F', key='f2', channels=[w.o['a2']])
                add(w, 'origin', 'O', key='o2', file_set_number=5, creation_time=lib.CT)
            s(more, 'more objects')
        if after == 'other data':
            s(lambda w: wr(w, data={'A': np.arange(5)[::-1].astype('float32'), 'C': np.ones((5, 3), 'uint16')}), 'good write of other data')
        if after == 'window':
            s(lambda w: wr(w, from_idx=1, to_idx=3), 'good write of a window')
        last = len(steps)
        s(wr, 'final write')
        judge(ctx, steps, probe, key=('w', tuple(cs), when, after, nested), names=names, reference=skip + probe, always=[last])
    return fn


STRUCT = ['no logical file', 'no origin', 'no channel', 'no frame', 'no data', 'second file incomplete', 'two of it']


def incomplete(ctx):
    """Writing fails because something is missing, which is added then."""
    what = ctx.choose('missing', STRUCT)
    times = ctx.choose('failing writes', [1, 2])
    setn = ctx.choose('set', [None, 'S'])
    opt = ctx.choose('options', ['all', 'row chunks', 'mode'])

    def w_(w):
        return hc(w) if opt == 'mode' else wr(w, **(dict(input_chunk_size=1) if opt == 'row chunks' else {}))

    def o(w):
        add(w, 'origin', 'O', set_name=setn, **lib.BASE_ORIGIN)

    def c(w):
        add(w, 'channel', 'C', key='c', set_name=setn, data=np.arange(3.0))

    def c_nodata(w):
        add(w, 'channel', 'C', key='c', set_name=setn)

    def fr(w):
        add(w, 'frame', 'F', set_name=setn, channels=[w.o['c']] if 'c' in w.o else w.lf().channels)

    def wd(w):
        return wr(w, data={'C': np.arange(3.0)})
    parts = {'origin': o, 'channel': c, 'frame': fr}
    fails = [w_] * times
    if what == 'no logical file':
        steps = fails + [o, c, fr, w_]
    elif what == 'no data':
        steps = [o, c_nodata, fr] + fails + [wd]
    elif what == 'second file incomplete':
        def o2(w):
            add(w, 'origin', 'O', i=1, set_name='S2', **lib.BASE_ORIGIN)

        def r2(w):
            x = add(w, 'channel', 'C', i=1, set_name='S2', data=np.arange(4.0))
            add(w, 'frame', 'F', i=1, set_name='S2', channels=[x])
        steps = [o, c, fr, o2] + fails + [r2, w_]
    elif what == 'two of it':
        steps = [c] + fails + [fr] + fails + [o, w_]
    else:
        m = what.split()[-1]
        if m == 'channel':
            steps = [o] + fails + [c] + fails + [fr, w_]
        else:
            steps = [f for k, f in parts.items() if k != m] + fails + [parts[m], w_]
    names = nm(steps)
    judge(ctx, steps, [i for i, s in enumerate(steps[:-1]) if s is w_], names=names, always=[len(steps) - 1])


def disk(ctx):
    """The disk is full after n bytes, for every n up to the size of the file."""
    n = ctx.choose('bytes', SIZES)

    def big(w):
        pass
    steps = [build_all, full_disk(n), wr, full_disk(n), wr]
    judge(ctx, steps, [1, 3], key='disk', names=['build', f'write, full at {n}', 'write', f'write, full at {n}', 'write'], always=[2, 4])


def source_faults(ctx):
    """The data source fails at its k-th access."""
    k = ctx.choose('access', list(range(0, 14)))
    e = ctx.choose('exception', ['RuntimeError', 'OSError', 'MemoryError', 'KeyboardInterrupt', 'StopIteration'])
    ics = ctx.choose('rows per chunk', [None, 1, 2])
    which = ctx.choose('array', ['A', 'B', 'D'])
    exc = {'RuntimeError': RuntimeError, 'OSError': OSError, 'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt, 'StopIteration': StopIteration}[e]
    bad = lambda w: wr(w, data={which: failing_array([exc('x'), k])}, input_chunk_size=ics)
    more = lambda w: add(w, 'zone', 'Z', key='more')
    steps = [build_all, bad, wr, bad, more, wr]
    judge(ctx, steps, [1], key='source', names=['build', 'failing write', 'write', 'failing write', 'add_zone', 'write'], always=[2, 5])


SIZES = [0]


def sizes(tier):
    def size():
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            class E:
                path = os.path.join(d, 'x.dlis')
            lib.ENV = E
            raised, outs, _ = play([build_all, wr])
            return len(outs[1]) if not raised else 8000
    n = fresh.child(size)
    return list(range(0, n, 1 if tier == 'thorough' else 7)) + [n - 1]


# ------------------------------------------------------------------------------------------------- histories
def _pre(w):
    pass


H_CALLS = {
    'add_zone': lambda w: add(w, 'zone', 'X', key=f'k{len(w.o)}'),
    'add_zone in S': lambda w: add(w, 'zone', 'X', key=f'k{len(w.o)}', set_name='S'),
    'add_channel': lambda w: add(w, 'channel', 'X', key=f'k{len(w.o)}', data=np.arange(3.0) + len(w.o)),
    'add_frame': lambda w: add(w, 'frame', 'X', key=f'k{len(w.o)}', channels=[add(w, 'channel', 'X', data=np.arange(2.0) + len(w.o), set_name='FS')]),
    'add_origin': lambda w: add(w, 'origin', 'X', key=f'k{len(w.o)}', file_set_number=3, creation_time=lib.CT),
    'add_origin in S': lambda w: add(w, 'origin', 'X', key=f'k{len(w.o)}', set_name='S', file_set_number=4, creation_time=lib.CT),
    'other file: add_zone in S': lambda w: add(w, 'zone', 'X', i=1, set_name='S'),
    'write': wr,
    'rejected add_zone': lambda w: add(w, 'zone', 'X', maximum='nonsense'),
    'rejected add_zone in S': lambda w: add(w, 'zone', 'X', set_name='S', maximum='nonsense'),
    'rejected add_zone name': lambda w: add(w, 'zone', 5, set_name='S'),
    'rejected add_channel': lambda w: add(w, 'channel', 'X', data=np.arange(9.0), cast_dtype='nonsense'),
    'rejected add_channel in S': lambda w: add(w, 'channel', 'X', set_name='S', data=np.arange(9.0), minimum_value='nonsense'),
    'rejected add_frame': lambda w: add(w, 'frame', 'X', channels=['nonsense']),
    'rejected add_origin': lambda w: add(w, 'origin', 'X', file_set_number=3, creation_time=lib.CT, descent_number='x'),
    'rejected add_origin in S': lambda w: add(w, 'origin', 'X', set_name='S', file_set_number=3, creation_time='x'),
    'rejected add_parameter': lambda w: add(w, 'parameter', 'X', zones=['nonsense']),
    'other file: rejected add_zone in S': lambda w: add(w, 'zone', 'X', i=1, set_name='S', maximum='nonsense'),
    'rejected value': lambda w: setattr(w.lf().frames[0].spacing, 'value', 'nonsense'),
    'rejected header': lambda w: w.f.add_logical_file(fh_id=5),
    'failing write: half-way': lambda w: half(w),
    'failing write: data': lambda w: wr(w, data={'C': np.zeros((3, 2, 2))}),
}


def half(w):
    lf = w.lf()
    try:
        lf.add_no_format_frame_data(w.o['nf'], 'caf\xe9')
        return wr(w)
    finally:
        del lib.payload_list(lf)[:]


def base(w, i):
    if len(w.f.logical_files) <= i or not w.lf(i).origins:
        add(w, 'origin', 'O', i=i, set_name=f'S{i}' if i else None, **lib.BASE_ORIGIN)
        c = add(w, 'channel', 'C', i=i, set_name=f'S{i}' if i else None, data=np.arange(3.0))
        add(w, 'frame', 'F', i=i, set_name=f'S{i}' if i else None, channels=[c])


def start(w):
    base(w, 0)
    w.o['nf'] = add(w, 'no_format', 'N')


def start_late(w):
    """Without the origin."""
    c = add(w, 'channel', 'C', data=np.arange(3.0))
    add(w, 'frame', 'F', channels=[c])
    w.o['nf'] = add(w, 'no_format', 'N')


def h_cases(depth):
    """Explicit-state search: all histories to the depth; the model state is what the accepted calls added."""
    names = list(H_CALLS)
    rej = {n for n in names if 'rejected' in n or 'failing' in n}
    cases, states, edges = [], set(), 0
    frontier = [()]
    for d in range(depth):
        nxt = []
        for h in frontier:
            for n in names:
                edges += 1
                g = h + (n,)
                states.add(tuple(x for x in g if x not in rej))
                nxt.append(g)
                if any(x in rej for x in g) and (d == depth - 1 or n not in rej):
                    cases.append(g)
        frontier = nxt
    return cases, len(states), edges


def histories(ctx):
    h = ctx.case
    late = ctx.choose('origin', ['first', 'last'])
    def begin(w):
        (start if late == 'first' else start_late)(w)
        if any('other' in n for n in h):
            base(w, 1)
    steps = [begin] + [H_CALLS[n] for n in h]
    names = ['start'] + list(h)
    if late == 'last':
        if any('origin' in n or n == 'write' or 'other' in n or 'failing' in n for n in h):
            raise Prune('needs the origin')

        def org(w):
            add(w, 'origin', 'O', **lib.BASE_ORIGIN)
        steps.append(org)
        names.append('add_origin O')
    steps += [H_CALLS['add_zone in S'], H_CALLS['add_channel'], wr]
    names += ['add_zone in S', 'add_channel', 'write']
    rej = [i for i, n in enumerate(names) if 'rejected' in n or 'failing' in n]
    judge(ctx, steps, rej, key=('h', late, h), names=names, always=[len(steps) - 1])


def corrected(ctx):
    """The rejected call is made again, corrected: the same name, set, origin reference, dataset name, data and other values."""
    kind = ctx.choose('type', list(KINDS))
    why = ctx.choose('rejected for', ['value', 'unknown keyword', 'units', 'several', 'late', 'name first'])
    setn = ctx.choose('set', [None, 'S'])
    ref = ctx.choose('origin reference', [None, 5])
    times = ctx.choose('times', [1, 2])
    # values which are good, given with the rejected call and again with the corrected one
    full = ctx.choose('other values', [False, True])

    def args(w, i):
        k = dict(host(w, kind), set_name=setn)
        if kind == 'channel':
            k.update(data=np.arange(3.0) + 7, dataset_name='given')
        if ref is not None:
            k['origin_reference'] = ref
        if full:
            for a, (_, vk) in KINDS[kind][2].items():
                if a in k or a in REJECT[kind] or kind == 'channel' and a in ('dimension', 'element_limit', 'representation_code', 'axis') or a == 'channels':
                    continue
                e = [x for x in catalogue(kind, a) if x[2] == 'ok' and not x[3]]
                if e and vk in ('T', 'I', 'N', 'S', 'TM', 'NM', 'O', 'D'):
                    k[a] = e[0][1](w.o['supply'])
        return k

    def bad(w):
        k = args(w, 0)
        num = next((a for a, (_, vk) in KINDS[kind][2].items() if vk in ('N', 'NM', 'NMD', 'DN') and a not in k), None)
        if why == 'value':
            k = {**k, **REJECT[kind]}
        elif why == 'unknown keyword':
            k['nonsense'] = 1
        elif why == 'units':
            if num is None:
                raise Prune('no number')
            k[num] = {'value': 1.0, 'units': 5}
        elif why == 'several':
            k = {**k, **REJECT[kind], 'nonsense': 1}
        elif why == 'late':
            last = list(KINDS[kind][2])[-1]
            k[last] = {'value': object(), 'units': object()}
        name = 'X'
        if why == 'name first':
            name = None
        return getattr(w.lf(), 'add_' + kind)(name, **k)

    def right(w):
        w.o[f'r{len(w.o)}'] = getattr(w.lf(), 'add_' + kind)('X', **args(w, 1))

    def default(w):
        g = good(kind)
        g(w)

    def second(w):
        add(w, 'origin', 'P', origin_reference=5, file_set_number=8, creation_time=lib.CT)
    steps = [origin] + ([second] if ref is not None and kind != 'origin' else []) + [supply, content]
    probe = list(range(len(steps), len(steps) + times))
    steps += [bad] * times + [right, default, wr]
    judge(ctx, steps, probe, names=nm(steps), always=[len(steps) - 3, len(steps) - 1])


def many_rejected(ctx):
    """The same call rejected many times before the good one."""
    kind = ctx.choose('type', list(KINDS))
    n = ctx.choose('times', [10, 127, 128, 255, 256, 257])
    setn = ctx.choose('set', [None, 'S'])
    w_ = ctx.choose('what', ['value', 'name', 'write'])

    def bad(w):
        e = None
        for i in range(n):
            try:
                if w_ == 'write':
                    wr(w, from_idx=99)
                else:
                    k = dict(host(w, kind), set_name=setn, **(REJECT[kind] if w_ == 'value' else {'nonsense': 1}))
                    getattr(w.lf(), 'add_' + kind)(f"X{i % 3}" if w_ == 'name' else 'X', **k)
            except Exception as x:
                e = x
            else:
                return
        raise e

    def right(w):
        if setn:
            add(w, 'zone', 'Z', set_name=setn)
    if w_ == 'write' and (kind != 'zone' and setn or n > 130):
        raise Prune('same')
    steps = [origin, supply, content, bad, good(kind), right, wr]
    judge(ctx, steps, [3], key=('many', kind, setn), names=nm(steps), always=[6])


OREFS = [(r, b) for b in (None, 'value', 'name', 'unknown') for r in (None, 0, 1, 5)]


def origin_numbers(depth):
    def fn(ctx):
        """Histories of accepted and rejected add_origin with given and default references, in one or two sets."""
        pre = ctx.choose('first origin', [False, True])
        h = [ctx.choose(f"call {i}", OREFS) for i in range(depth)]
        setn = ctx.choose('set of the rejected ones', [None, 'S'])
        if all(b is None for _, b in h) or h[-1][1] is not None:
            raise Prune('nothing rejected, or nothing after it')

        def call(r, b, i):
            def fn(w):
                k = dict(file_set_number=7, creation_time=lib.CT)
                if r is not None:
                    k['origin_reference'] = r
                if b:
                    k['set_name'] = setn
                if b == 'value':
                    k['descent_number'] = 'x'
                if b == 'unknown':
                    k['nonsense'] = 'x'
                add(w, 'origin', None if b == 'name' else f'O{i}', **k)
            fn.__name__ = f"add_origin({r}, bad {b})"
            return fn
        steps = ([origin] if pre else []) + [call(r, b, i) for i, (r, b) in enumerate(h)]
        probe = [i + pre for i, (r, b) in enumerate(h) if b]
        steps += [call(None, None, 9), content, wr]
        judge(ctx, steps, probe, key=('on', pre, tuple(h)), names=nm(steps))
    return fn


def headers(ctx):
    """Rejected and accepted logical files."""
    bad = ctx.choose('rejected', [dict(fh_id=5), dict(fh_id='x' * 70), dict(fh_id='\xe9'), dict(fh_identifier=[1]), dict(fh_identifier='y' * 12), dict(fh_sequence_number='x'),
                                  dict(fh_sequence_number=1.5), dict(fh_sequence_number=-1), dict(fh_sequence_number=10 ** 10),
                                  dict(nonsense=1)])
    pos = ctx.choose('position', range(6))
    times = ctx.choose('times', [1, 2])
    good_ = ctx.choose('good ones', ['default', 'numbered', 'same arguments'])

    def rej(w):
        w.f.add_logical_file(**bad)

    def acc(i):
        def fn(w):
            k = {'default': {}, 'numbered': dict(fh_sequence_number=i + 3), 'same arguments': dict(fh_id='SAME', fh_identifier='9', fh_sequence_number=2)}[good_]
            w.f.add_logical_file(**k)
            base_at(w, len(w.f.logical_files) - 1)
        fn.__name__ = 'add_logical_file'
        return fn
    steps = [acc(0), acc(1), wr, acc(2), wr]
    steps[pos:pos] = [rej] * times
    steps += [wr]
    judge(ctx, steps, [i for i, s in enumerate(steps) if s is rej], key=('hd', pos, times, good_), names=nm(steps))


def base_at(w, i):
    lf = w.f.logical_files[i]
    lf.add_origin('O', set_name=f'S{i}', **lib.BASE_ORIGIN)
    lf.add_frame('F', set_name=f'S{i}', channels=[lf.add_channel('C', set_name=f'S{i}', data=np.arange(3.0) + i)])


def mode_numbers(ctx):
    """In the mode, the default file set number counts the origins."""
    why = ctx.choose('rejected', ['descent_number', 'reference', 'name', 'set', 'creation time'])
    n = ctx.choose('times', [1, 2])
    pos = ctx.choose('position', [0, 1, 2])
    setn = ctx.choose('set', [None, 'S'])

    def bad(w):
        with w.dw.high_compatibility_mode():
            k = dict(creation_time=lib.CT, set_name=setn)
            if why == 'descent_number':
                k['descent_number'] = 'x'
            elif why == 'reference':
                k['origin_reference'] = 0 if w.f.logical_files and w.lf().origins else 'x'
            elif why == 'set':
                k['set_name'] = 5
            elif why == 'creation time':
                k['creation_time'] = 'x'
            w.lf().add_origin('lower' if why == 'name' else 'X', **k)

    def org(w):
        with w.dw.high_compatibility_mode():
            w.lf().add_origin('O', creation_time=lib.CT, set_name=setn)
    steps = [org, org, content]
    steps[pos:pos] = [bad] * n
    steps += [org, wr]
    judge(ctx, steps, [i for i, s in enumerate(steps) if s is bad], names=nm(steps), always=[len(steps) - 1])


def scenarios(tier):
    global SIZES
    th = tier == 'thorough'
    cases, st, tr = h_cases(4 if th else 3)
    SIZES = sizes(tier)
    return [Scenario('rejected values', bad_values(tier)), Scenario('other reasons', reasons(tier)), Scenario('rejected data', rejected_data),
            Scenario('rejected assignments', assignments(tier)), Scenario('other assignments', other_assignments),
            Scenario('failing writes', failing_writes(1)), Scenario('pairs of failing writes', failing_writes(2)),
            Scenario('incomplete', incomplete), Scenario('full disk', disk), Scenario('failing source', source_faults),
            Scenario('histories', histories, cases=cases, model_states=st, model_transitions=tr),
            Scenario('corrected calls', corrected), Scenario('many rejected calls', many_rejected), Scenario('origin references', origin_numbers(3 if th else 2)), Scenario('logical files', headers),
            Scenario('numbers in the mode', mode_numbers)] + \
        ([Scenario('two rejections', two_rejections), Scenario('triples of failing writes', failing_writes(3))] if th else [])
