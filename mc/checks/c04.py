"""C04 Every explicitly formatted record decodes under the RP66 component grammar."""
import numpy as np

from .. import large, lib, values
from ..engine import Scenario
from ..lib import A
from ..schema import KINDS
from ..values import Bench, catalogue, host_kw, units_ok, ATTRS
from .c05 import chosen, rep

LARGE = ['numbers', 'texts', 'text', 'objects', 'sets', 'references', 'zones and values', 'channels']
BOUNDS = {'quick': 'every attribute of every object type x every value class of the catalogue, degenerate ones included (empty and '
                   'nested empty lists, lists for single-valued attributes, None in lists, arrays, mixed types ...) x position of '
                   'the object among others of the set; x units; value counts around 1/127/128/16383/16384; set and object names of '
                   'every length 0..256; 0..260 objects per set; header fields of every length; all pairs of degenerate values '
                   'over the value kinds of one object; value cleared later',
          'thorough': 'also degenerate value pairs over all attribute pairs of every type'}
BOUNDS['quick'] += '; ' + large.bounds(LARGE)
ASSUMPTIONS = ['a rejected value or write is fine here (fail-closed is C12)', 'only the grammar is judged, not the values (C05)']


def judge(ctx, s):
    st, r = s.write()
    if st == 'err':
        ctx.outcome('write raised: ' + lib.exc_name(r))
        return
    wellformed(s, r)
    ctx.validated_trace()
    ctx.outcome('well-formed')


def wellformed(s, r):
    f = lib.parse(s, r)
    for lf in f.lfs:
        for st in [lf.header] + lf.sets:
            labs = [t.label for t in st.template]
            if len(set(labs)) != len(labs) or not all(labs):
                s.fail('labels', f"template of {st.type}: {labs}")
            for o in st.objects:
                for a in o.attrs.values():
                    if not a.absent and a.code not in lib.rp66.REPC:
                        s.fail('code', f"{o}: {a}")
                    if not a.absent and a.value is not None and len(a.value) != a.count:
                        s.fail('count', f"{o}: {a}")


def attempt(ctx, f, *a, **k):
    try:
        return f(*a, **k)
    except (Exception, AssertionError) as e:
        if isinstance(e, (lib.Violation, lib.Prune)):
            raise
        ctx.outcome('rejected: ' + lib.exc_name(e))
        return None


def place(ctx, s, b, kind, kw, entry, name, route='keyword', units=None, extra=None):
    v = entry[1](b)
    k2 = dict(host_kw(b, kind, kw))
    for ck, cb in entry[3].items():
        cv = cb(b)
        if cv is not None:
            k2[ck] = cv
    k2.update(extra or {})
    if units is not None:
        return attempt(ctx, s.add, b.lf, kind, name, **{**k2, kw: A(v, units)})
    if route == 'keyword':
        return attempt(ctx, s.add, b.lf, kind, name, **{**k2, kw: v})
    if (kind, kw) == ('frame', 'channels'):
        k2 = dict(channels=[b.ref('CHANNEL', 5)])
    h = attempt(ctx, s.add, b.lf, kind, name, **k2)
    if h is not None:
        attempt(ctx, s.set, h, kw, 'value', v)
    return h


def bare(s, b, kind, name):
    kw = host_kw(b, kind)
    if kind == 'frame':
        kw = dict(channels=[s.add(b.lf, 'channel', 'C' + name, data=np.arange(3, dtype=np.float64))])
    return s.add(b.lf, kind, name, **kw)


def degenerate(ctx):
    kind = ctx.choose('type', list(KINDS))
    kw = ctx.choose('attribute', list(KINDS[kind][2]))
    l = catalogue(kind, kw)
    entry = ctx.choose('value', l, names=[x[0] for x in l])
    pos = ctx.choose('position', ['alone', 'later', 'first of two', 'second of two', 'with a good one'])
    s = lib.Session()
    b = Bench(s)
    if pos == 'second of two':
        bare(s, b, kind, 'X0')
    if pos == 'with a good one':
        place(ctx, s, b, kind, kw, rep(kind, kw), 'GOOD')
    place(ctx, s, b, kind, kw, entry, 'HOST', 'later' if pos == 'later' else 'keyword')
    if pos == 'first of two':
        bare(s, b, kind, 'X9')
    judge(ctx, s)


def with_units(ctx):
    kind, kw = ctx.choose('attribute', [a for a in ATTRS if units_ok(*a)])
    l = [x for x in catalogue(kind, kw) if x[2] != 'bad']
    entry = ctx.choose('value', l, names=[x[0] for x in l])
    u = ctx.choose('units', ['m', '', 'u' * 255, 'u' * 256, lib.dw().enums.Unit.METER, 'x' * 127, 'x' * 128, 5])
    s = lib.Session()
    b = Bench(s)
    place(ctx, s, b, kind, kw, entry, 'HOST', units=u)
    judge(ctx, s)


def units_only(ctx):
    kind, kw = ctx.choose('attribute', ATTRS)
    s = lib.Session()
    b = Bench(s)
    k2 = host_kw(b, kind)
    if (kind, kw) == ('frame', 'channels'):
        k2 = dict(channels=[b.ref('CHANNEL', 5)])
    h = s.add(b.lf, kind, 'HOST', **k2)
    attempt(ctx, s.set, h, kw, 'units', ctx.choose('units', ['m', 'zz', '', 'u' * 256]))
    judge(ctx, s)


def counts(ctx):
    kind, kw, one = ctx.choose('attribute', [('comment', 'text', 'x'), ('axis', 'coordinates', 1.5), ('axis', 'coordinates', 'y'),
                                             ('calibration_coefficient', 'coefficients', 2.0), ('computation', 'values', 3.0),
                                             ('group', 'object_list', None), ('process', 'properties', 'AVERAGED'),
                                             ('origin', 'programs', ''), ('channel', 'minimum_value', 0.5), ('frame', 'channels', 0)])
    n = ctx.choose('count', list(range(0, 6)) + [126, 127, 128, 129, 255, 256, 300, 16383, 16384, 16385])
    if kind == 'frame' and n > 300:
        raise lib.Prune('too many channels')
    s = lib.Session()
    b = Bench(s)
    if kind == 'group':
        v = [b.ref('ZONE')] * n
    elif kind == 'frame':
        v = [s.add(b.lf, 'channel', f'C{i}', data=np.arange(2, dtype=np.int16)) for i in range(n)]
    else:
        v = [one] * n
    place(ctx, s, b, kind, kw, ('', lambda b: v, '', {}), 'HOST')
    judge(ctx, s)


def names(ctx):
    which = ctx.choose('name of', ['set', 'object', 'header id', 'header identifier', 'origin', 'both'])
    n = ctx.choose('length', list(range(0, 258)) + [300, 16384])
    ch = ctx.choose('character', ['A', 'z', ' ', '\n', '\xe9'])
    nm = ch * n
    s = lib.Session()
    if which.startswith('header'):
        lf = attempt(ctx, s.lf, **({'fh_id': nm} if which == 'header id' else {'fh_identifier': nm}))
        if lf is None:
            return
        lib.minimal(s, lf)
    elif which == 'origin':
        lf = s.lf()
        if attempt(ctx, s.add, lf, 'origin', nm, **lib.BASE_ORIGIN) is None:
            return
        c = s.add(lf, 'channel', 'C', data=np.arange(2.))
        s.add(lf, 'frame', 'F', channels=[c])
    else:
        lf, c, fr = lib.minimal(s)
        attempt(ctx, s.add, lf, 'zone', 'Z' if which == 'set' else nm, set_name=nm if which in ('set', 'both') else None, domain='TIME')
        attempt(ctx, s.add, lf, 'parameter', nm, set_name=nm, values=[1.5], zones=[h for h in lf.of('zone')][:1] or None)
    judge(ctx, s)


def many(ctx):
    kind = ctx.choose('type', list(KINDS))
    n = ctx.choose('objects', [1, 2, 3, 127, 128, 129, 255, 256, 257, 260])
    same = ctx.choose('names', ['same', 'distinct'])
    s = lib.Session(max_record_length=ctx.choose('vrl', [8192, 128]))
    b = Bench(s)
    kw = {k: v for k, v in host_kw(b, kind).items()}
    for i in range(n):
        if attempt(ctx, s.add, b.lf, kind, 'N' if same == 'same' else f'N{i}', **kw) is None:
            break
    judge(ctx, s)


def headers(ctx):
    seq = ctx.choose('sequence number', [1, 2, 9, 10, 999999999, 9999999999, 10000000000, 0, -1, 1.5, '1', True, None])
    fid = ctx.choose('id', ['FILE-HEADER', '', 'x' * 65, 'x' * 66, 'caf\xe9', 5, ' '])
    ident = ctx.choose('identifier', ['0', '', 'A', '01', ' ', '\xe9', 5])
    s = lib.Session()
    lf = attempt(ctx, s.lf, fh_id=fid, fh_identifier=ident, fh_sequence_number=seq)
    if lf is None:
        return
    attempt(ctx, lib.minimal, s, lf)
    judge(ctx, s)


def degenerate_pairs(tier):
    def one_of_each(kind):
        seen, out = set(), []
        for k, (lab, vk) in KINDS[kind][2].items():
            key = (vk, (kind, k) in values.ENUMS)
            if tier == 'thorough' and len(KINDS[kind][2]) < 17 or key not in seen:
                seen.add(key)
                out.append(k)
        return out

    def odd(kind, kw):
        l = catalogue(kind, kw)
        return [x for x in l if x[2] == 'maybe'] + [x for x in l if x[2] == 'ok'][:2]

    def fn(ctx):
        kind = ctx.choose('type', [k for k in KINDS if len(one_of_each(k)) > 1])
        kws = one_of_each(kind)
        i = ctx.choose('first', kws[:-1])
        j = ctx.choose('second', kws[kws.index(i) + 1:])
        a = ctx.choose('first value', odd(kind, i), names=[x[0] for x in odd(kind, i)])
        c = ctx.choose('second value', odd(kind, j), names=[x[0] for x in odd(kind, j)])
        s = lib.Session()
        b = Bench(s)
        kw = dict(host_kw(b, kind, i))
        if kind == 'frame' and 'channels' not in kw:
            kw['channels'] = [b.ref('CHANNEL', 5)]
        if (kind, i) == ('origin', 'file_set_number') and j != 'creation_time':
            kw['creation_time'] = lib.CT
        kw.pop(i, None)
        kw.pop(j, None)
        for e in (a, c):
            for ck, cb in e[3].items():
                cv = cb(b)
                if cv is not None and ck not in (i, j):
                    kw[ck] = cv
        kw[i], kw[j] = a[1](b), c[1](b)
        if attempt(ctx, s.add, b.lf, kind, 'HOST', **kw) is not None:
            judge(ctx, s)
    return fn


def scenarios(tier):
    return [Scenario('degenerate', degenerate), Scenario('units', with_units), Scenario('units-only', units_only),
            Scenario('counts', counts), Scenario('names', names), Scenario('many', many), Scenario('headers', headers),
            Scenario('degenerate-pairs', degenerate_pairs(tier)),
            large.scenario(lambda ctx, s, r: wellformed(s, r), LARGE, tier)]
