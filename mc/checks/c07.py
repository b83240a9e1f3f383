"""C07 Object identity is unique and every reference resolves in its logical file."""
import itertools

import numpy as np

from .. import large, lib
from ..engine import Scenario, Prune
from ..lib import Session, A
from ..schema import KINDS

LARGE = ['references', 'zones and values', 'channels', 'frames', 'objects', 'sets', 'origins', 'logical files']
BOUNDS = {'quick': 'every reference attribute of every object type x every admissible target type x 1..3 same-named candidates x which of them '
                   'x their sets x their origins x assignment route x copies of the referring object; every list of up to 3 '
                   'references over 3 same-named channels, over same-named objects of 4 types; every '
                   'attribute with a target of another logical file, of another DLISFile, of a set made by hand, or whose add_* '
                   'call was rejected; '
                   'origins: up to 3 with references of {automatic, 0, 1, 5, 127, 128, 16383, 16384} x objects before/between/after; every '
                   'sequence of up to 5 automatic and chosen (0..4) references; '
                   'every order of 7 additions with links assigned afterwards; explicit-state search over a specification model '
                   '(origins, zones and parameters in two sets, links, renames, changes of origin, rejected calls) to depth 4, every '
                   'transition replayed; up to 3 same-named frames and no-format objects with interleaved records; every history of up to 4 payloads, renames, '
                  'changes of origin and writes over the owners of records; 257 same-named objects',
          'thorough': 'search depth 5 with two logical files; 4 candidates; 9 additions'}
BOUNDS['quick'] += '; ' + large.bounds(LARGE)
ASSUMPTIONS = ['a specification in which identities collide through renaming, or with an origin reference of no origin, may be rejected '
               'by the assignment or by write(), never written',
               'an untyped reference (OBNAME) to an object of any type is accepted only if unambiguous in the file']

DIST = {'axis': 'axis_id', 'calibration': 'method', 'calibration_coefficient': 'label', 'calibration_measurement': 'phase',
        'channel': 'long_name', 'comment': 'text', 'computation': 'long_name', 'equipment': 'serial_number', 'frame': 'description',
        'group': 'description', 'long_name': 'quantity', 'message': 'message_type', 'no_format': 'description', 'origin': 'well_name',
        'parameter': 'long_name', 'process': 'description', 'tool': 'description', 'well_reference_point': 'permanent_datum',
        'zone': 'description', 'path': None, 'splice': None}
PHASES = ['AFTER', 'BEFORE', 'MASTER']

LINKS = [(k, kw, kind) for k, (_, _, at) in KINDS.items() for kw, (_, kind) in at.items() if kind.startswith('R')]


def targets(kind):
    if kind == 'RT':
        return ['long_name']
    st = kind.split(':')[1]
    return list(KINDS) if st == '*' else [k for k in KINDS if KINDS[k][0] == st]


def make(s, lf, kind, name, i, **kw):
    """An object of the kind with content which tells it from its namesakes."""
    d = DIST[kind]
    if d:
        kw[d] = [f"T{i}"] if d == 'text' else PHASES[i % 3] if kind == 'calibration_measurement' else f"D{i}"
    if kind == 'path':
        kw['borehole_depth'] = 10.0 + i
    if kind == 'channel':
        kw['data'] = np.arange(2, dtype=np.float32) + 100 * i
    if kind == 'frame':
        c = s.add(lf, 'channel', f"FC{name}{i}", data=np.arange(2 + i, dtype=np.float64) + 10 * i, set_name=kw.pop('chset', None))
        kw['channels'] = [c]
    if kind == 'origin':
        kw.setdefault('file_set_number', 50 + i)
        kw.setdefault('creation_time', lib.CT)
    return s.add(lf, kind, name, **kw)


def judge(s):
    lib.check_all(s, lib.write_ok(s))


def single(tier):
    def fn(ctx):
        k, kw, kind = ctx.choose('link', LINKS, names=[f"{a}.{b}" for a, b, _ in LINKS])
        t = ctx.choose('target type', targets(kind))
        n = ctx.choose('candidates', [2, 1, 3] if tier == 'quick' else [2, 1, 3, 4])
        which = ctx.choose('passed', list(range(n)))
        sets = ctx.choose('sets', ['default', 'one each', 'default and named'], dev=True)
        orig = ctx.choose('origins', ['one', 'second for the target', 'one each'], dev=True)
        route = ctx.choose('route', ['keyword', 'AttrSetup', 'dict', 'assigned', 'reassigned'], dev=True)
        name = ctx.choose('name', ['N', 'same as the referring object'], dev=True)
        own = ctx.choose('referring objects', [1, 2], dev=True)
        s = Session()
        lf, c, f = lib.minimal(s)
        orefs = [None] * n
        if orig != 'one':
            for i in range(1, 3):
                s.add(lf, 'origin', f"O{i}", origin_reference=i * 7, **lib.BASE_ORIGIN)
            for i in range(n):
                if orig == 'one each' and t != 'origin':
                    orefs[i] = [None, 7, 14, 7][i]
                elif i == which and t != 'origin':
                    orefs[i] = 7
        nm = 'N' if name == 'N' else 'REF'
        cand = []
        for i in range(n):
            sn = {'default': None, 'one each': f"S{i}", 'default and named': [None, 'S', 'S', None][i]}[sets]
            kx = {} if sn is None else {'set_name': sn}
            cand.append(make(s, lf, t, nm, i, origin_reference=orefs[i], **kx))
        e = cand[which]
        v = [e] if kind.startswith('RM') else e
        extra = {}
        if k == 'frame' and kw == 'channels':
            extra = {}
            if route in ('assigned', 'reassigned'):
                raise Prune('a frame needs its channels when created')
        hosts = []
        for j in range(own):
            if route in ('keyword', 'AttrSetup', 'dict'):
                vv = v if route == 'keyword' else A(v, route='setup' if route == 'AttrSetup' else 'dict')
                try:
                    hosts.append(s.add(lf, k, 'REF', **{kw: vv}, **extra) if k != 'origin' else None)
                except TypeError:
                    raise Prune('route not offered')
            else:
                hosts.append(make(s, lf, k, 'REF', j))
        for h in hosts:
            if route == 'reassigned':
                o = cand[(which + 1) % n]
                s.set(h, kw, 'value', [o] if kind.startswith('RM') else o)
            if route in ('assigned', 'reassigned'):
                s.set(h, kw, 'value', v)
        judge(s)
    return fn


def lists(ctx):
    """Lists of references over same-named objects, with repetitions."""
    k, kw, ts = ctx.choose('attribute', [('process', 'input_channels', ['channel']), ('group', 'object_list', ['zone', 'parameter', 'tool', 'zone']),
                                         ('path', 'value', ['channel']), ('parameter', 'zones', ['zone']), ('tool', 'parts', ['equipment']),
                                         ('group', 'group_list', ['group']), ('frame', 'channels', ['channel'])])
    sets = ctx.choose('sets', ['default', 'one each'])
    s = Session()
    lf, c, f = lib.minimal(s)
    cand = []
    for i in range(4 if len(ts) > 1 else 3):
        kx = {'set_name': f"S{i}"} if sets == 'one each' else {}
        cand.append(make(s, lf, ts[i % len(ts)], 'N' if k != 'frame' else f"N{i}", i, **kx))
    if k == 'frame':
        cand = [x for x in cand] + [c]
    n = ctx.choose('length', [1, 2, 3, 4])
    xs = [ctx.choose(f"item {i}", cand) for i in range(n)]
    nested = ctx.choose('container', ['list', 'tuple'])
    if k == 'group' and kw == 'object_list' and len({x.kind for x in xs}) > 1:
        legal = False           # objects of one group are of one type
    else:
        legal = not (k == 'frame' and len(set(xs)) < len(xs))
    try:
        s.add(lf, k, 'HOST', **{kw: xs if nested == 'list' else tuple(xs)})
        st, r = s.write()
    except Exception as e:
        st, r = 'err', e
    if st == 'err':
        if legal:
            s.fail('rejected', f"{type(r).__name__}: {r}")
        ctx.outcome('rejected')
        return
    lib.check_all(s, r, skip={('group', 'OBJECT-TYPE')} if not legal else ())


def foreign(ctx):
    """Targets which are not defined in the logical file of the referring object."""
    k, kw, kind = ctx.choose('link', LINKS + [('no-format record', None, 'R:NO-FORMAT'), ('twin', None, 'R:ZONE')],
                             names=[f"{a}.{b}" for a, b, _ in LINKS] + ['no-format record', 'two links'])
    where = ctx.choose('target of', ['other logical file', 'later logical file', 'other DLISFile', 'set made by hand', 'set made by hand, namesake',
                                     'rejected call'])
    route = ctx.choose('route', ['keyword', 'assigned'])
    mixed = ctx.choose('with own target', [False, True])
    s = Session()
    if where == 'other logical file':
        lf0 = s.lf()
        lib.minimal(s, lf0, sets='L0', name='0')
    lf, c, f = lib.minimal(s, s.lf('H1'))
    if where == 'later logical file':
        lf0 = s.lf()
        lib.minimal(s, lf0, sets='L0', name='0')
    if k == 'twin':
        t = 'zone'
    else:
        t = ctx.choose('target type', targets(kind)[:1] + (['zone'] if kind.endswith('*') else []))
    name = 'T'
    if where == 'set made by hand, namesake':
        make(s, lf, t, name, 1)
    try:
        if 'logical file' in where:
            h = make(s, lf0, t, name, 0, set_name='L0', **({'chset': 'L0'} if t == 'frame' else {}))
        elif where == 'other DLISFile':
            s2 = Session()
            lfx, _, _ = lib.minimal(s2)
            h = make(s2, lfx, t, name, 0)
        else:
            cls = lib_class(t)
            if where == 'rejected call':
                h = rejected_item(s, lf, t, name)
                if h is None:
                    raise Prune('no way to keep the object of a rejected call')
            else:
                it = cls(name, parent=cls.parent_eflr_class(), **({'origin_reference': 0}))
                h = lib.H(lf, t, name, None, 99)
                h.real = it
    except (TypeError, RuntimeError) as e:
        raise Prune(f"not constructible: {e}")
    try:
        if k == 'no-format record':
            if mixed:
                s.nofmt(lf, make(s, lf, 'no_format', 'OWN', 5), 'own')
            s.nofmt(lf, h, 'payload')
        elif k == 'twin':
            s.add(lf, 'parameter', 'P1', zones=[make(s, lf, 'zone', 'OWN', 3)])
            s.add(lf, 'splice', 'P2', zones=[h] if not mixed else [s.lfs[-1 if where != 'later logical file' else 0].of('zone')[-1], h])
        else:
            v = [h] if kind.startswith('RM') else h
            if mixed and kind.startswith('RM'):
                v = [make(s, lf, t, 'OWN', 2), h]
            elif mixed:
                make(s, lf, t, 'T', 2)
            if route == 'keyword' or k == 'frame' and kw == 'channels':
                s.add(lf, k, 'REF', **{kw: v})
            else:
                x = make(s, lf, k, 'REF', 0)
                s.set(x, kw, 'value', v)
    except Exception as e:
        ctx.outcome('rejected at once')
        return
    st, r = s.write()
    if st == 'err':
        ctx.outcome('write raised')
        return
    s.fail('foreign-written', f"a reference of {k}.{kw} to {h} ({where}) was written")


def lib_class(t):
    from dliswriter.logical_record import eflr_types as E
    return getattr(E, ''.join(x.capitalize() for x in t.split('_')) + 'Item')


def rejected_item(s, lf, t, name):
    """The half-made object of an add_* call which raises, caught through the exception's traceback."""
    bad = {'channel': dict(cast_dtype='complex128'), 'zone': dict(domain=5)}.get(t, dict(origin_reference='x'))
    try:
        getattr(lf.real, 'add_' + t)(name, **bad)
    except Exception as e:
        tb = e.__traceback__
        it = None
        cls = lib_class(t)
        while tb:
            for v in tb.tb_frame.f_locals.values():
                if isinstance(v, cls):
                    it = v
            tb = tb.tb_next
        if it is None or not hasattr(it, '_copy_number'):
            return None
        h = lib.H(lf, t, name, None, 99)
        h.real = it
        return h
    return None


OREFS = [None, 0, 1, 5, 127, 128, 16383, 16384]


def origins(tier):
    def fn(ctx):
        n = ctx.choose('origins', [1, 2, 3])
        refs = [ctx.choose(f"reference {i}", OREFS if i == 0 or tier != 'quick' else OREFS[:4] if i == 1 else OREFS[:3]) for i in range(n)]
        sets = ctx.choose('origin sets', ['one', 'each', 'reverse names'], dev=True)
        named = ctx.choose('origin names', ['distinct', 'equal'], dev=True)
        later = ctx.choose('zone', ['default'] + list(range(n)))
        assign = ctx.choose('zone reference given', ['at creation', 'later'], dev=True)
        early = ctx.choose('objects before the origin', [False, True], dev=True)
        s = Session()
        lf = s.lf()
        c = fr = None
        if early:
            c = s.add(lf, 'channel', 'C', data=np.arange(2.0))
            fr = s.add(lf, 'frame', 'F', channels=[c])
            s.add(lf, 'zone', 'Z')
            nfo = s.add(lf, 'no_format', 'N')
        os_ = []
        for i, r in enumerate(refs):
            kx = {'one': {}, 'each': {'set_name': f"S{i}"}, 'reverse names': {'set_name': f"S{9 - i}"}}[sets]
            try:
                o = s.add(lf, 'origin', f"O{i}" if named == 'distinct' else 'O', origin_reference=r, file_set_number=10 + i, creation_time=lib.CT,
                          well_name=f"W{i}", **kx)
            except Exception as e:
                if r is not None and any(x.real.origin_reference == r for x in os_):
                    ctx.outcome('origin reference in use: rejected')
                    return
                s.fail('rejected', f"origin reference {r}: {type(e).__name__}: {e}")
            if r is not None and any(x.real.origin_reference == r for x in os_):
                ctx.notes.append('duplicate accepted when added')
            os_.append(o)
            s.add(lf, 'parameter', f"BETWEEN{i}")
        if not early:
            c = s.add(lf, 'channel', 'C', data=np.arange(2.0))
            fr = s.add(lf, 'frame', 'F', channels=[c])
            nfo = s.add(lf, 'no_format', 'N')
        s.nofmt(lf, nfo, 'x')
        if later == 'default':
            z = s.add(lf, 'zone', 'Z')
        else:
            r = os_[later].real.origin_reference
            if assign == 'at creation':
                z = s.add(lf, 'zone', 'Z', origin_reference=r)
            else:
                z = s.add(lf, 'zone', 'Z')
                s.log.append(f"{z}.origin_reference = {r}")
                z.real.origin_reference = r
                z.origin = r
        s.add(lf, 'group', 'G', object_list=[z] if not early else [z, lf.of('zone')[0]])
        s.add(lf, 'parameter', 'P', zones=[z])
        st, r = s.write()
        if st == 'err':
            s.fail('rejected', f"{type(r).__name__}: {r}")
        lib.check_all(s, r)
    return fn


def numbering(tier):
    """Every sequence of automatic and chosen origin references: the origins end up with references all distinct."""
    vals = [None, 0, 1, 2, 3, 4] if tier == 'quick' else [None, 0, 1, 2, 3, 4, 5]

    def fn(ctx):
        n = ctx.choose('origins', [2, 3, 4, 5] if tier == 'quick' else [2, 3, 4, 5, 6])
        refs = []
        for i in range(n):
            refs.append(ctx.choose(f"reference {i}", [v for v in (vals if n < 5 else [None, 1, 2, 3, 4]) if v is None or v not in refs]))
        sets = ctx.choose('origin sets', ['one', 'each'], dev=True)
        s = Session()
        lf = s.lf()
        os_ = []
        for i, r in enumerate(refs):
            try:
                os_.append(s.add(lf, 'origin', f"O{i}", origin_reference=r, file_set_number=10 + i, creation_time=lib.CT,
                                 set_name=f"S{i}" if sets == 'each' else None))
            except Exception as e:
                if r is not None and any(o.real.origin_reference == r for o in os_):
                    ctx.outcome('chosen reference already taken: rejected')
                    return
                s.fail('rejected', f"origin reference {r}: {type(e).__name__}: {e}")
            if len({o.real.origin_reference for o in os_}) < len(os_) and r is None:
                s.fail('origin-duplicate', f"origins numbered {[o.real.origin_reference for o in os_]}")
        c = s.add(lf, 'channel', 'C', data=np.arange(2.0))
        s.add(lf, 'frame', 'F', channels=[c])
        for i, o in enumerate(os_):
            z = s.add(lf, 'zone', 'Z', origin_reference=o.real.origin_reference)
            s.add(lf, 'parameter', f"P{i}", zones=[z])
        d = lib.write_ok(s)
        lib.check_all(s, d)
        ctx.outcome('written')
    return fn


NODES = ['origin', 'channel', 'frame', 'zone', 'parameter', 'channel2', 'computation', 'axis', 'no_format']


def orders(tier):
    n = 7 if tier == 'quick' else 9
    nodes = NODES[:n]

    def fn(ctx):
        left = list(nodes)
        s = Session()
        lf = s.lf()
        got = {}
        for i in range(n):
            opts = [x for x in left if x != 'frame' or 'channel' in got]
            x = ctx.choose(f"add {i}", opts)
            left.remove(x)
            if x == 'origin':
                got[x] = s.add(lf, 'origin', 'X', **lib.BASE_ORIGIN)
            elif x == 'frame':
                got[x] = s.add(lf, 'frame', 'X', channels=[got['channel']])
            elif x.startswith('channel'):
                got[x] = s.add(lf, 'channel', 'X', data=np.arange(2.0) + (10 if x == 'channel2' else 0), long_name=x)
            else:
                got[x] = s.add(lf, x, 'X')
        s.set(got['parameter'], 'zones', 'value', [got['zone']])
        if 'axis' in got:
            s.set(got['channel'], 'axis', 'value', [got['axis']])
        s.set(got['channel2'], 'source', 'value', got['computation'])
        s.set(got['computation'], 'source', 'value', got['channel2'])
        if 'no_format' in got:
            s.nofmt(lf, got['no_format'], b'\0\1')
        judge(s)
    return fn


# ------------------------------------------------------------------------------------- explicit-state search over histories
# model state of one logical file: origins (tuple of references), objects (kind, name, set, origin or 'default', link target idx or None)
def ops(state, tier):
    orig, objs = state
    out = []
    if len(orig) < 2:
        for r in (None, 0, 3):
            if r is None or r not in orig:
                out.append(('origin', r))
    if len(objs) < 3:
        for k in ('zone', 'parameter'):
            for nm in ('A', 'B') if k == 'zone' else ('A',):
                for sn in (None, 'S'):
                    for oref in [None] + sorted(set(orig) - {None}) + ([9] if tier != 'quick' else []):
                        if k == 'parameter':
                            for z in [None] + [i for i, o in enumerate(objs) if o[0] == 'zone']:
                                out.append(('add', k, nm, sn, oref, z))
                        else:
                            out.append(('add', k, nm, sn, oref, None))
    for i, o in enumerate(objs):
        for nm in ('A', 'B'):
            if nm != o[1]:
                out.append(('rename', i, nm))
        for oref in sorted(set(orig)) + [9]:
            if oref != o[3]:
                out.append(('origin of', i, oref))
    out.append(('rejected', 'zone', 'A', None))
    out.append(('rejected', 'parameter', 'A', 'S'))
    out.append(('write',))
    return out


def apply_model(state, op):
    orig, objs = state
    if op[0] == 'origin':
        r = op[1]
        if r is None:
            r = len(orig)
            while r in orig:
                r += 1
        return (orig + (r,), objs)
    if op[0] == 'add':
        return (orig, objs + ((op[1], op[2], op[3], op[4], op[5]),))
    if op[0] == 'rename':
        o = objs[op[1]]
        return (orig, objs[:op[1]] + ((o[0], op[2]) + o[2:],) + objs[op[1] + 1:])
    if op[0] == 'origin of':
        o = objs[op[1]]
        return (orig, objs[:op[1]] + (o[:3] + (op[2],) + o[4:],) + objs[op[1] + 1:])
    return state


def search(depth, tier):
    """Breadth-first over the model; a case per transition: shortest path to its source state + the transition."""
    start = ((), ())
    seen = {(start, False): ()}
    frontier = [(start, False)]
    cases, ntrans = [()], 0
    for d in range(depth):
        nxt = []
        for st in frontier:
            path = seen[st]
            for op in ops(st[0], tier):
                ntrans += 1
                t = (apply_model(st[0], op), st[1] or op[0] in ('rejected', 'write', 'rename'))
                cases.append(path + (op,))
                if t not in seen:
                    seen[t] = path + (op,)
                    nxt.append(t)
        frontier = nxt
    return cases, len(seen), ntrans


def history(ctx):
    case = ctx.case
    s = Session()
    lf = s.lf()
    hs = []
    st = ((), ())
    ctx.state(st)
    renamed = False
    for op in case:
        st2 = apply_model(st, op)
        ctx.step()
        if op[0] == 'origin':
            s.add(lf, 'origin', 'ORIGIN', origin_reference=op[1], **lib.BASE_ORIGIN)
        elif op[0] == 'add':
            kx = {}
            if op[5] is not None:
                kx['zones'] = [hs[op[5]]]
            d = 'description' if op[1] == 'zone' else 'long_name'
            hs.append(s.add(lf, op[1], op[2], set_name=op[3], origin_reference=op[4], **{d: f"D{len(hs)}"}, **kx))
        elif op[0] == 'rename':
            renamed = True
            s.log.append(f"{hs[op[1]]}.name = {op[2]!r}")
            hs[op[1]].real.name = op[2]
            hs[op[1]].name = op[2]
        elif op[0] == 'origin of':
            s.log.append(f"{hs[op[1]]}.origin_reference = {op[2]!r}")
            hs[op[1]].real.origin_reference = op[2]
            hs[op[1]].origin = op[2]
        elif op[0] == 'rejected':
            s.log.append(f"rejected add_{op[1]}({op[2]!r}, set_name={op[3]!r})")
            try:
                getattr(lf.real, 'add_' + op[1])(op[2], set_name=op[3], **({'maximum': 'nonsense'} if op[1] == 'zone' else {'zones': ['x']}))
            except Exception:
                pass
            else:
                raise Prune('accepted')
        elif op[0] == 'write':
            s.write()
        st = st2
        ctx.state(st)
    if not st[0]:
        s.add(lf, 'origin', 'LATE', origin_reference=9, **lib.BASE_ORIGIN)
        st = ((9,), st[1])
    c = s.add(lf, 'channel', 'A', data=np.arange(2.0))
    s.add(lf, 'frame', 'A', channels=[c])
    z = [h for h in hs if h.kind == 'zone']
    if z:
        s.add(lf, 'group', 'A', object_list=z)
        s.add(lf, 'splice', 'A', zones=z[::-1])
    unknown = [o for o in st[1] if o[3] is not None and o[3] not in st[0]]
    status, r = s.write()
    ctx.validated_trace()
    if status == 'err':
        if not unknown and not renamed:
            s.fail('write-failed', f"{type(r).__name__}: {r}")
        if renamed and not unknown:
            keys = [(o[0], o[1]) for o in st[1]]
            if len(set(keys)) == len(keys):
                s.fail('write-failed', f"no two objects share type and name after the renames, yet {type(r).__name__}: {r}")
        ctx.outcome('write raised')
        return
    if unknown:
        s.fail('origin-unknown', f"objects with origin references of no origin were written: {unknown}")
    lib.check_all(s, r)


def two_files(ctx):
    """Equal names, origins and copy numbers in several logical files: each reference stays inside its own."""
    n = ctx.choose('logical files', [2, 3])
    order = ctx.choose('creation', ['one after the other', 'interleaved', 'interleaved, origins last', 'interleaved, origins reversed'])
    refs = [ctx.choose(f"origin of {i}", [None, 0, 4]) for i in range(n)]
    names = ctx.choose('names', ['equal', 'distinct'])
    extra = ctx.choose('namesakes', [0, 1, 2])
    s = Session()
    lfs = [s.lf(f"H{i}", fh_sequence_number=i + 1) for i in range(n)]
    steps = []
    made = {}

    def nm(x, i):
        return x if names == 'equal' else f"{x}{i}"

    def origin(i):
        s.add(lfs[i], 'origin', nm('O', i), set_name=f"L{i}", origin_reference=refs[i], **lib.BASE_ORIGIN)

    def zones(i):
        for j in range(extra + 1):
            made[i, 'z', j] = s.add(lfs[i], 'zone', nm('Z', i), set_name=f"L{i}", description=f"{i}-{j}")

    def chan(i):
        made[i, 'c'] = s.add(lfs[i], 'channel', nm('C', i), set_name=f"L{i}", data=np.arange(2.0 + i) + 10 * i)

    def frame(i):
        s.add(lfs[i], 'frame', nm('F', i), set_name=f"L{i}", channels=[made[i, 'c']])
        s.add(lfs[i], 'splice', nm('S', i), set_name=f"L{i}", zones=[made[i, 'z', extra]], output_channel=made[i, 'c'])
        g = s.add(lfs[i], 'no_format', nm('N', i), set_name=f"L{i}")
        s.nofmt(lfs[i], g, f"payload {i}")
    fs = [origin, zones, chan, frame]
    if order == 'one after the other':
        for i in range(n):
            for f in fs:
                f(i)
    else:
        if order != 'interleaved':
            fs = fs[1:] + [origin]
        for f in fs:
            for i in (reversed(range(n)) if f is origin and order.endswith('reversed') else range(n)):
                f(i)
    judge(s)


def records(ctx):
    """Frames and no-format objects which share a name: the reference opening each record identifies the right one."""
    n = ctx.choose('same-named frames', [1, 2, 3])
    sets = ctx.choose('frame sets', ['one', 'each'])
    m = ctx.choose('same-named no-format objects', [1, 2, 3])
    nsets = ctx.choose('no-format sets', ['one', 'each'])
    orig = ctx.choose('origins', ['one', 'one each'])
    chn = ctx.choose('channel names', ['equal', 'distinct'])
    seq = [ctx.choose(f"payload {i}", list(range(m))) for i in range(3)]
    s = Session()
    lf = s.lf()
    for i in range(3 if orig != 'one' else 1):
        s.add(lf, 'origin', 'O', origin_reference=[0, 200, 20000][i], **lib.BASE_ORIGIN)
    r = lambda i: {'origin_reference': [0, 200, 20000][i]} if orig != 'one' else {}
    for i in range(n):
        c = s.add(lf, 'channel', 'C' if chn == 'equal' else f"C{i}", data=np.arange(3 - i, dtype=np.float32) + 10 * i, **r(i))
        s.add(lf, 'frame', 'F', channels=[c], description=f"D{i}", **({'set_name': f"S{i}"} if sets == 'each' else {}), **r(i))
    nf = [s.add(lf, 'no_format', 'F', description=f"D{i}", **({'set_name': f"S{i}"} if nsets == 'each' else {}), **r(i)) for i in range(m)]
    for i, j in enumerate(seq):
        s.nofmt(lf, nf[j], f"payload {i}")
    judge(s)


def many(ctx):
    """Copy numbers up to the limit of the one-byte field."""
    n = ctx.choose('objects', [2, 128, 255, 256, 257, 300])
    sets = ctx.choose('sets', [1, 2])
    s = Session()
    lf, c, f = lib.minimal(s)
    try:
        for i in range(n):
            h = s.add(lf, 'zone', 'Z', description=f"D{i}", **({'set_name': f"S{i % 2}"} if sets == 2 else {}))
            if i in (0, n // 2, n - 1):
                s.add(lf, 'splice', f"P{i}", zones=[h])
        st, r = s.write()
    except Exception as e:
        st, r = 'err', e
    if st == 'err':
        if n <= 256:
            s.fail('rejected', f"{type(r).__name__}: {r}")
        ctx.outcome('rejected')
        return
    lib.check_all(s, r)


def mutated(ctx):
    """Target renamed or moved to another origin after it was referenced, between writes: references follow it."""
    k, kw, kind = ctx.choose('link', LINKS, names=[f"{a}.{b}" for a, b, _ in LINKS])
    t = targets(kind)[0]
    what = ctx.choose('change', ['rename', 'origin', 'both', 'rename both', 'swap names'])
    before = ctx.choose('written before', [True, False])
    s = Session()
    lf, c, f = lib.minimal(s)
    s.add(lf, 'origin', 'O2', origin_reference=300, **lib.BASE_ORIGIN)
    a = make(s, lf, t, 'A', 0)
    b = make(s, lf, t, 'B', 1)
    v = [a] if kind.startswith('RM') else a
    h = s.add(lf, k, 'REF', **{kw: v})
    if t == 'no_format' or t == 'frame':
        pass
    if before:
        judge(s)

    def ren(x, n):
        s.log.append(f"{x}.name = {n!r}")
        x.real.name = n
        x.name = n
    if what in ('rename', 'both', 'rename both'):
        ren(a, 'RENAMED')
    if what == 'rename both':
        ren(b, 'A')
        ren(h, 'REF2')
    if what == 'swap names':
        ren(a, 'B')
        ren(b, 'A')
    if what in ('origin', 'both') and t != 'origin':
        s.log.append(f"{a}.origin_reference = 300")
        a.real.origin_reference = 300
        a.origin = 300
    if 'channel' in (t,) and what != 'origin':
        pass
    st, r = s.write()
    if st == 'err':
        s.fail('write-failed', f"{type(r).__name__}: {r}")
    lib.check_all(s, r)


def owners(tier):
    """Objects which own records (no-format objects with payloads, frames with rows) are renamed and moved between origins at any point."""
    depth = 4 if tier == 'quick' else 5

    def fn(ctx):
        names = ctx.choose('names', ['equal', 'distinct'])
        s = Session()
        lf = s.lf()
        s.add(lf, 'origin', 'O', origin_reference=2, **lib.BASE_ORIGIN)
        s.add(lf, 'origin', 'O2', origin_reference=300, **lib.BASE_ORIGIN)
        no = [s.add(lf, 'no_format', 'N' if names == 'equal' else f'N{i}', description=f'D{i}') for i in range(2)]
        fr = []
        for i in range(2):
            c = s.add(lf, 'channel', f'C{i}', data=np.arange(2., 4. + i) + 10 * i)
            fr.append(s.add(lf, 'frame', 'F' if names == 'equal' else f'F{i}', channels=[c], description=f'D{i}'))
        s.nofmt(lf, no[0], 'first payload')

        def ren(x, n):
            s.log.append(f"{x}.name = {n!r}")
            x.real.name = n
            x.name = n

        def move(x):
            n = 300 if x.origin in (None, 2) else 2
            s.log.append(f"{x}.origin_reference = {n}")
            x.real.origin_reference = n
            x.origin = n
        n = 0
        for d in range(depth):
            op = ctx.choose(f'op {d}', ['end', 'payload 0', 'payload 1', 'rename no-format', 'move no-format', 'rename frame', 'move frame', 'move second frame',
                                        'rename channel', 'rename origin', 'write'])
            if op == 'end':
                break
            n += 1
            if op.startswith('payload'):
                s.nofmt(lf, no[int(op[-1])], f"payload {n}")
            elif op == 'write':
                judge(s)
            elif op == 'move second frame':
                move(fr[1])
            elif op.startswith('rename'):
                ren({'no-format': no[0], 'frame': fr[0], 'channel': fr[0].vals['channels'][0], 'origin': lf.objs[0]}[op[7:]], f"NEW{n}")
            else:
                move((no if 'format' in op else fr)[0])
            ctx.state((names, tuple((x.name, x.origin) for x in lf.objs), len(lf.nofmt)))
        judge(s)
        ctx.validated_trace()
    return fn


def scenarios(tier):
    depth = 4 if tier == 'quick' else 5
    cases, ns, nt = search(depth, tier)
    return [Scenario('single links', single(tier), bound=2 if tier == 'quick' else 3), Scenario('lists', lists), Scenario('foreign', foreign),
            Scenario('origins', origins(tier), bound=2), Scenario('origin numbering', numbering(tier), bound=1), Scenario('orders', orders(tier)),
            Scenario('histories', history, cases=cases, model_states=ns, model_transitions=nt),
            Scenario('logical files', two_files), Scenario('records', records), Scenario('record owners', owners(tier)), Scenario('many', many), Scenario('mutated', mutated),
            large.scenario(lambda ctx, s, r: lib.check_all(s, r), LARGE, tier)]
