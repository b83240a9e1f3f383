"""C05 Metadata fidelity: what the user sets is what a reader gets."""
import itertools

from .. import large, lib, values
from ..engine import Scenario, Prune
from ..lib import A
from ..schema import KINDS
from ..values import ATTRS, Bench, catalogue, host_kw, units_ok

LARGE = ['numbers', 'texts', 'text', 'objects', 'sets', 'zones and values']
BOUNDS = {'quick': 'every attribute of every object type x every representable value class of its kind x route (keyword, AttrSetup, '
                   'dict, assigned later, reassigned) ; x units (none, standard, Unit member, non-standard) x route; all pairs of '
                   'attributes of one object and over two objects of a set; all attributes of all types at once; all '
                   'histories of up to 4 set/clear/units/write operations on one attribute of each type and kind',
          'thorough': 'the same, histories of up to 5 operations, on every attribute; triples of attributes'}
BOUNDS['quick'] += '; ' + large.bounds(LARGE)
ASSUMPTIONS = ['naive date-times are local time; date-times may be rounded to the millisecond',
               'strings which look like numbers may be stored as numbers where the library documents that (coordinates, values)']

ROUTES = ['keyword', 'AttrSetup', 'dict', 'later', 'changed']
PLAIN = ['keyword', 'later']


def unit_values():
    U = lib.dw().enums.Unit
    return [None, 'm', U.METER, 'furlong', U.DEGREE_CELSIUS, 'u' * 255]


def oks(kind, kw):
    return [x for x in catalogue(kind, kw) if values.status_of(kind, kw, x[0], x[2]) == 'ok']


def rep(kind, kw, i=0):
    """A representative value (the first ones of the catalogue)."""
    l = oks(kind, kw)
    return l[min(i, len(l) - 1)]


def put(s, b, kind, kw, entry, route, units=None, name='HOST', set_name=None, other=None, extra=None):
    """Make an object of `kind` on which `kw` has been set to the entry's value by the given route."""
    nm, build, st, comp = entry
    v = build(b)
    k2 = dict(host_kw(b, kind, kw))
    for ck, cb in comp.items():
        cv = cb(b)
        if cv is not None:
            k2[ck] = cv
    k2.update(extra or {})
    k2.pop(kw, None)
    must = lambda *a, **k: lib.must(s, 'rejected', *a, **k)
    if route == 'keyword':
        h = must(s.add, b.lf, kind, name, set_name=set_name, **{kw: v}, **k2)
        if units is not None:
            must(s.set, h, kw, 'units', units)
    elif route in ('AttrSetup', 'dict'):
        if (kind, kw) == ('frame', 'channels'):
            raise Prune('documented as a plain list')
        h = must(s.add, b.lf, kind, name, set_name=set_name,
                 **{kw: A(v, units, route='setup' if route == 'AttrSetup' else 'dict')}, **k2)
    elif route in ('later', 'changed'):
        if (kind, kw) == ('origin', 'file_set_number'):
            raise Prune('file set number cannot be reassigned')
        if route == 'changed':
            k2[kw] = (other or rep(kind, kw, 1))[1](b)
        elif (kind, kw) == ('frame', 'channels'):
            k2[kw] = [b.ref('CHANNEL', 5)]
        h = must(s.add, b.lf, kind, name, set_name=set_name, **k2)
        must(s.set, h, kw, 'value', v)
        if units is not None:
            must(s.set, h, kw, 'units', units)
    else:
        raise AssertionError(route)
    return h


def finish(ctx, s, times=1):
    for _ in range(times):
        r = lib.write_ok(s)
        lib.check_all(s, r)
        ctx.validated_trace()
    ctx.outcome('faithful')


def single(ctx):
    kind = ctx.choose('type', list(KINDS))
    kw = ctx.choose('attribute', list(KINDS[kind][2]))
    l = oks(kind, kw)
    entry = ctx.choose('value', l, names=[x[0] for x in l])
    route = ctx.choose('route', ROUTES)
    s = lib.Session()
    b = Bench(s)
    put(s, b, kind, kw, entry, route)
    finish(ctx, s)


def units(ctx):
    kind, kw = ctx.choose('attribute', [a for a in ATTRS if units_ok(*a)])
    l = [x for x in oks(kind, kw)][:3]
    entry = ctx.choose('value', l, names=[x[0] for x in l])
    u = ctx.choose('units', unit_values())
    route = ctx.choose('route', ROUTES)
    s = lib.Session()
    b = Bench(s)
    put(s, b, kind, kw, entry, route, units=u)
    finish(ctx, s)


def compatible(kind, sel):
    """Attribute subsets whose representative values contradict each other are left out (judged by their own scenarios)."""
    return True


def chosen(kind, kw, i):
    """Pick values that are consistent with those of all the other attributes of the object."""
    if kind == 'zone' and kw in ('maximum', 'minimum'):
        return values.e('float', [12.5, 3.25, 8.0][i % 3])
    if kind in ('calibration_measurement', 'computation', 'parameter', 'channel'):
        if kw in ('dimension', 'element_limit'):
            return values.e('one', [2])
        if kw == 'axis':
            return values.e('one', lambda b: [b.ref('AXIS')])
        if KINDS[kind][2][kw][1] == 'NMD':
            return values.e('1x2', [[1.5 + i, 2.5]])
        if (kind, kw) == ('parameter', 'values'):
            return values.e('1x2', [[1.5 + i, 2.5]], zones=lambda b: [b.ref('ZONE')])
        if kw == 'zones':
            return values.e('one', lambda b: [b.ref('ZONE')])
    if kind == 'calibration_coefficient' and KINDS[kind][2][kw][1] == 'NM':
        return values.e('two', [1.5 + i, 2.5])
    if kind == 'splice' and kw in ('zones', 'input_channels'):
        return values.e('two', lambda b: [b.ref('ZONE' if kw == 'zones' else 'CHANNEL', j) for j in (0, 1)])
    if (kind, kw) == ('frame', 'index_type'):
        return values.e('depth', 'BOREHOLE-DEPTH')
    if (kind, kw) == ('frame', 'channels'):
        return None
    return rep(kind, kw, i)


def pairs(ctx):
    kind = ctx.choose('type', list(KINDS))
    kws = [k for k in KINDS[kind][2] if chosen(kind, k, 0)]
    n = 3 if ctx.scenario.tier == 'thorough' and len(kws) < 17 else 2
    sel = ctx.choose('attributes', [c for m in range(n + 1) for c in itertools.combinations(kws, m)])
    spread = ctx.choose('on', ['one object', 'two objects of a set', 'two objects, first bare', 'two sets'])
    s = lib.Session()
    b = Bench(s)

    def group(sub, name, i, set_name=None):
        kw = dict(host_kw(b, kind))
        for k in sub:
            ent = chosen(kind, k, i)
            kw[k] = ent[1](b)
            for ck, cb in ent[3].items():
                v = cb(b)
                if v is not None:
                    kw.setdefault(ck, v)
        if kind == 'frame' and name != 'X1':
            kw['channels'] = [s.add(b.lf, 'channel', 'C' + name, data=lib.np.arange(3.) * (i + 1))]
        return lib.must(s, 'rejected', s.add, b.lf, kind, name, set_name=set_name, **kw)

    if spread == 'one object':
        group(sel, 'X1', 0)
    elif spread == 'two objects, first bare':
        group((), 'X1', 0)
        group(sel, 'X2', 1)
    else:
        group(sel[:1], 'X1', 0)
        group(sel[1:], 'X2', 1, set_name=None if spread.startswith('two objects') else 'OTHER')
        group(sel[::-1], 'X3', 2)
    finish(ctx, s)


def everything(ctx):
    which = ctx.choose('types', ['all'] + list(KINDS))
    i = ctx.choose('values', [0, 1, 2])
    route = ctx.choose('route', ['keyword', 'AttrSetup', 'dict', 'later'])
    drop = ctx.choose('left out', ['none', 'every second', 'every other second'])
    s = lib.Session()
    b = Bench(s)
    for kind in (KINDS if which == 'all' else [which]):
        kw = dict(host_kw(b, kind))
        late = {}
        for j, k in enumerate(KINDS[kind][2]):
            if drop == 'every second' and j % 2 or drop == 'every other second' and not j % 2:
                continue
            ent = chosen(kind, k, i)
            if ent is None:
                continue
            v = ent[1](b)
            for ck, cb in ent[3].items():
                cv = cb(b)
                if cv is not None:
                    kw.setdefault(ck, cv)
            if route == 'keyword' or (kind, k) == ('origin', 'file_set_number'):
                kw[k] = v
            elif (kind, k) == ('frame', 'channels'):
                kw[k] = v
            elif route in ('AttrSetup', 'dict'):
                u = 'm' if units_ok(kind, k) and not (kind == 'frame' and k == 'encrypted') else None
                kw[k] = A(v, u, route='setup' if route == 'AttrSetup' else 'dict')
            else:
                late[k] = v
        h = lib.must(s, 'rejected', s.add, b.lf, kind, 'ALL-' + kind.upper(), **kw)
        for k, v in late.items():
            lib.must(s, 'rejected', s.set, h, k, 'value', v)
    finish(ctx, s, 2)


def hist_attrs(tier):
    if tier == 'thorough':
        return ATTRS
    seen, out = set(), []
    for a in ATTRS:
        vk = KINDS[a[0]][2][a[1]][1]
        key = (vk, a in values.ENUMS)
        if key not in seen:
            seen.add(key)
            out.append(a)
    return out


def history(tier):
    attrs = [a for a in hist_attrs(tier) if a != ('frame', 'channels')]
    depth = 4 if tier == 'quick' else 5

    def fn(ctx):
        kind, kw = ctx.choose('attribute', attrs)
        l = [x for x in oks(kind, kw) if 'dimension' not in x[3]]
        vals = [l[0], l[min(1, len(l) - 1)], l[-1]]
        s = lib.Session()
        b = Bench(s)
        ops = ['v0', 'v1', 'v2', 'clear', 'end']
        if units_ok(kind, kw):
            ops[4:4] = ['u m', 'u none', 'u Unit']
        first = ctx.choose('created with', ['nothing', 'v0'])
        kw0 = dict(host_kw(b, kind, kw))
        if (kind, kw) == ('origin', 'file_set_number'):
            kw0[kw] = 5
        for vv in vals:
            for ck, cb in vv[3].items():
                cv = cb(b)
                if cv is not None and first == 'v0':
                    kw0[ck] = cv
        kw0.pop(kw, None) if first == 'nothing' and (kind, kw) != ('origin', 'file_set_number') else None
        if first == 'v0':
            kw0[kw] = vals[0][1](b)
        h = lib.must(s, 'rejected', s.add, b.lf, kind, 'HOST', **kw0)
        for d in range(depth - 1):
            op = ctx.choose(f'op {d}', ops)
            if op == 'end':
                break
            try:
                if op[0] == 'v':
                    e = vals[int(op[1])]
                    s.set(h, kw, 'value', e[1](b))
                    for ck, cb in e[3].items():
                        if cb(b) is not None:
                            s.set(h, ck, 'value', cb(b))
                elif op == 'clear':
                    s.set(h, kw, 'value', None)
                elif op == 'u m':
                    s.set(h, kw, 'units', 'm')
                elif op == 'u none':
                    s.set(h, kw, 'units', None)
                elif op == 'u Unit':
                    s.set(h, kw, 'units', lib.dw().enums.Unit.FOOT)
            except (Exception, AssertionError) as ex:
                if op == 'clear' or (kind, kw) == ('origin', 'file_set_number'):
                    ctx.outcome('rejected: ' + op)
                    continue
                s.fail('rejected', f"{op}: {type(ex).__name__}: {ex}")
            ctx.state((kind, kw, repr(h.vals.get(kw)), repr(h.units.get(kw))))
        st, r = s.write()
        if st == 'err':
            ctx.outcome('write raised: ' + lib.exc_name(r))
            s.fail('write-failed', f"{type(r).__name__}: {r}") if 'clear' not in str(ctx.labels) and kind != 'parameter' else None
            return
        lib.check_all(s, r)
        ctx.validated_trace()
        ctx.outcome('faithful')
    return fn


def everywhere(ctx, s, r):
    for v in lib.match(s, lib.parse(s, r)):
        lib.check_attrs(v)


def scenarios(tier):
    out = [Scenario('single', single), Scenario('units', units), Scenario('pairs', pairs),
           Scenario('everything', everything), Scenario('history', history(tier)),
           large.scenario(everywhere, LARGE, tier)]
    for x in out:
        x.tier = tier
    return out
