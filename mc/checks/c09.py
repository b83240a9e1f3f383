"""C09 Each logical file has the mandated order: header, origin, sets, then data."""
import itertools

import numpy as np

from .. import large, lib
from ..engine import Scenario, Prune
from ..lib import Session
from ..schema import KINDS
from .c07 import make

LARGE = ['objects', 'sets', 'logical files', 'frames', 'origins', 'payloads', 'channels']
BOUNDS = {'quick': 'header: every ID length 0..65 (padding, leading/trailing blanks, all printable characters), sequence numbers around every '
                   'power of ten, every printable identifier, header objects made by the user, header changed before/after the origin is '
                   'added; every ordered pair of the 22 object types x set names x position of the origin; explicit-state search over '
                   'additions of origins/channels/frames/zones/no-format objects in named and default sets to depth 5, every transition '
                   'replayed; rejected additions and lookups of every type at each position; two logical files; two writes',
          'thorough': 'depth 6; all triples of object types'}
BOUNDS['quick'] += '; ' + large.bounds(LARGE)
ASSUMPTIONS = ['trailing blanks of a header ID cannot be told from its padding']


def judge(s, **kw):
    r = lib.write_ok(s, **kw)
    f = lib.parse(s, r)
    for v in lib.match(s, f):
        lib.check_header(v)
        lib.check_refs(v)
    return f


def header(ctx):
    what = ctx.choose('field', ['id length', 'id characters', 'id blanks', 'sequence', 'identifier'])
    how = ctx.choose('header', ['arguments', 'own object', 'changed before the origin', 'changed after the origin', 'changed between writes'])
    hid, seq, ident = 'FILE-HEADER', 1, '0'
    if what == 'id length':
        hid = 'x' * ctx.choose('length', list(range(0, 66)))
    elif what == 'id characters':
        hid = 'a' + chr(ctx.choose('character', list(range(32, 127)))) + 'b'
    elif what == 'id blanks':
        hid = ctx.choose('id', [' ', ' x', 'x ', '  x  ', ' ' * 65, ' ' * 64 + 'x', 'x' + ' ' * 64])
    elif what == 'sequence':
        p = ctx.choose('power', list(range(0, 11)))
        seq = max(1, min(10 ** 10 - 1, 10 ** p + ctx.choose('offset', [0, -1, 1])))
    else:
        ident = chr(ctx.choose('character', list(range(32, 127))))
    s = Session()
    if how == 'arguments':
        lf = s.lf(hid, ident, seq)
        lib.minimal(s, lf)
    elif how == 'own object':
        from dliswriter.logical_record.eflr_types import FileHeaderItem, FileHeaderSet
        it = FileHeaderItem(hid, parent=FileHeaderSet(), sequence_number=seq, identifier=ident)
        m = lib.MLF(0, dict(id=hid, identifier=ident, seq=seq))
        m.real = s.real.add_logical_file(file_header=it)
        s.lfs.append(m)
        s.log.append(f"add_logical_file(FileHeaderItem({hid!r}, sequence_number={seq}, identifier={ident!r}))")
        lib.minimal(s, m)
    else:
        lf = s.lf()
        fh = lf.real.file_header

        def change():
            fh.header_id, fh.sequence_number, fh.name = hid, seq, ident
            lf.fh.update(id=hid, seq=seq, identifier=ident)
            s.log.append(f"header id = {hid!r}, sequence_number = {seq}, name = {ident!r}")
        if how == 'changed before the origin':
            change()
        lib.minimal(s, lf)
        if how == 'changed between writes':
            judge(s)
        if how != 'changed before the origin':
            change()
            st, r = s.write()           # FILE-ID was taken from the old ID: consistent or rejected
            if st == 'err':
                if hid == 'FILE-HEADER':
                    s.fail('write-failed', f"{type(r).__name__}: {r}")
                ctx.outcome('header changed after the origin: rejected')
                return
    judge(s)


def file_id(ctx):
    """FILE-ID of the defining origin assigned; FILE-SET-NUMBER given or not, of several origins."""
    v = ctx.choose('file id', ['keep', None, 'FILE-HEADER', 'OTHER', 'FILE-HEADER ', '', 'header changed'])
    fsn = ctx.choose('file set number', [None, 1, 0, 127, 128, 16384, 2 ** 30 - 1])
    second = ctx.choose('second origin', ['no', 'same set', 'other set'])
    s = Session()
    lf = s.lf()
    o = s.add(lf, 'origin', 'O', creation_time=lib.CT, **({} if fsn is None else {'file_set_number': fsn}))
    if second != 'no':
        s.add(lf, 'origin', 'O2', creation_time=lib.CT, **({'set_name': 'A'} if second == 'other set' else {}))
    c = s.add(lf, 'channel', 'C', data=np.arange(2.0))
    s.add(lf, 'frame', 'F', channels=[c])
    if v == 'header changed':
        lf.real.file_header.header_id = 'CHANGED'
        lf.fh['id'] = 'CHANGED'
        o.real.file_id.value = 'CHANGED'
    elif v != 'keep':
        s.log.append(f"origin.file_id.value = {v!r}")
        try:
            o.real.file_id.value = v
        except (TypeError, ValueError):
            ctx.outcome('assignment rejected')
            return
    st, r = s.write()
    if st == 'err':
        if v in ('keep', None, 'FILE-HEADER', 'header changed') and fsn != 0:
            s.fail('write-failed', f"{type(r).__name__}: {r}")
        ctx.outcome('rejected')
        return
    judge(s)


def pairs(tier):
    kinds = [k for k in KINDS if k != 'origin']

    def fn(ctx):
        n = 2 if tier == 'quick' else 3
        items = []
        for i in range(n):
            k = ctx.choose(f"type {i}", kinds + ['origin'])
            sn = ctx.choose(f"set {i}", [None, 'S', ''] if i == 0 else [None, 'S', 'A'], dev=tier != 'quick' and i > 1)
            items.append((k, sn))
        pos = ctx.choose('origin added', list(range(n + 1)))
        pdata = ctx.choose('channel and frame added', ['last', 'first'])
        s = Session()
        lf = s.lf()

        def base():
            c = s.add(lf, 'channel', 'C', data=np.arange(2.0))
            s.add(lf, 'frame', 'F', channels=[c])
        if pdata == 'first':
            base()
        for i in range(n + 1):
            if i == pos:
                s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
            if i < n:
                k, sn = items[i]
                h = make(s, lf, k, 'X', i, set_name=sn)
                if k == 'no_format':
                    s.nofmt(lf, h, f"payload {i}")
        if pdata == 'last':
            base()
        judge(s)
    return fn


# ---------------------------------------------------------------------------------------------- explicit-state search
ALPH = [('origin', None), ('origin', 'S'), ('channel', None), ('channel', 'S'), ('zone', None), ('zone', 'S'), ('frame', None), ('frame', 'S'),
        ('no_format', None), ('payload', None), ('write', None), ('reject', 'zone'), ('reject', 'origin'), ('reject', 'tool')]


def enabled(st, op):
    k, sn = op
    n = dict(st[0])
    if k == 'frame':
        return sum(v for (a, b), v in n.items() if a == 'channel') > 0
    if k == 'payload':
        return n.get(('no_format', None), 0) > 0 and n.get(('payload', None), 0) < 2
    if k == 'write':
        return not st[2]
    return n.get(op, 0) < 2


def step(st, op):
    """Model state: (multiset of additions, order in which sets appeared, written/rejected happened)."""
    n, order, flag = dict(st[0]), st[1], st[2]
    if op[0] in ('write', 'reject'):
        return (st[0], order, True)
    n[op] = n.get(op, 0) + 1
    if op[0] != 'payload' and op not in order:
        order = order + (op,)
    return (tuple(sorted(n.items(), key=repr)), order, flag)


def search(depth):
    start = ((), (), False)
    seen = {start: ()}
    frontier, cases, nt = [start], [()], 0
    for d in range(depth):
        nxt = []
        for st in frontier:
            for op in ALPH:
                if not enabled(st, op):
                    continue
                nt += 1
                t = step(st, op)
                if t not in seen or d == depth - 1:
                    cases.append(seen[st] + (op,))
                if t not in seen:
                    seen[t] = seen[st] + (op,)
                    nxt.append(t)
        frontier = nxt
    return cases, len(seen), nt


def history(ctx):
    s = Session()
    lf = s.lf()
    st = ((), (), False)
    chans, used = [], 0
    for i, (k, sn) in enumerate(ctx.case):
        if k == 'payload':
            s.nofmt(lf, lf.of('no_format')[-1], f"p{i}")
        elif k == 'write':
            s.write()
        elif k == 'reject':
            try:
                s.log.append(f"rejected add_{sn}")
                getattr(lf.real, 'add_' + sn)('X', set_name='R', **{'zone': {'maximum': 'x'}, 'origin': {'file_set_number': 'x'}, 'tool': {'parts': 5}}[sn])
            except Exception:
                pass
            else:
                raise Prune('accepted')
        elif k == 'frame':
            s.add(lf, 'frame', f"F{i}", set_name=sn, channels=[chans[-1]])
        elif k == 'channel':
            chans.append(s.add(lf, 'channel', f"C{i}", set_name=sn, data=np.arange(2.0) + i))
        elif k == 'origin':
            s.add(lf, 'origin', f"O{i}", set_name=sn, **lib.BASE_ORIGIN)
        else:
            s.add(lf, k, f"N{i}", set_name=sn)
        st = step(st, (k, sn))
        ctx.state(st)
        ctx.step()
    if not lf.of('origin'):
        s.add(lf, 'origin', 'LAST', **lib.BASE_ORIGIN)
    if not chans:
        chans.append(s.add(lf, 'channel', 'LAST', data=np.arange(2.0)))
    if not lf.of('frame'):
        s.add(lf, 'frame', 'LAST', channels=[chans[-1]])
    ctx.validated_trace()
    judge(s)


REJECT = {'origin': {'file_set_number': 'x'}, 'channel': {'cast_dtype': 'complex128'}, 'frame': {'channels': ['x']}, 'axis': {'spacing': 'x'},
          'calibration': {'coefficients': ['x']}, 'calibration_coefficient': {'coefficients': ['x']}, 'calibration_measurement': {'axis': ['x']},
          'comment': {'text': 5}, 'computation': {'axis': ['x']}, 'equipment': {'height': 'x'}, 'group': {'object_list': ['x']},
          'long_name': {'quantity': 5}, 'message': {'vertical_depth': 'x'}, 'no_format': {'description': 5}, 'parameter': {'axis': ['x']},
          'path': {'value': ['x']}, 'process': {'parameters': ['x']}, 'splice': {'zones': ['x']}, 'tool': {'parts': ['x']},
          'well_reference_point': {'permanent_datum': 5}, 'zone': {'maximum': 'x'}}


def empties(ctx):
    """Nothing which is not an object makes a set: rejected additions and lookups of every type at every position."""
    k = ctx.choose('type', list(KINDS))
    sn = ctx.choose('set', [None, 'S'])
    pos = ctx.choose('position', ['before all', 'before the frame', 'after all', 'after a write'])
    how = ctx.choose('call', ['rejected value', 'rejected name', 'rejected origin reference', 'rejected set name'])
    then = ctx.choose('then added', [False, True])
    s = Session()
    lf = s.lf()

    def call():
        s.log.append(f"rejected add_{k} ({how})")
        kw = {'rejected value': REJECT[k], 'rejected origin reference': {'origin_reference': 'x'}}.get(how, {})
        try:
            getattr(lf.real, 'add_' + k)(5 if how == 'rejected name' else 'X', set_name=5 if how == 'rejected set name' else sn, **kw)
        except Exception:
            pass
        else:
            raise Prune('accepted')
        lf.real.channels, lf.real.frames, lf.real.origins, lf.real.defining_origin, lf.real.default_origin_reference
        if then:
            make(s, lf, k, 'LATER', 0, set_name=sn)
    if pos == 'before all':
        call()
    s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
    c = s.add(lf, 'channel', 'C', data=np.arange(2.0))
    if pos == 'before the frame':
        call()
    s.add(lf, 'frame', 'F', channels=[c])
    if pos == 'after a write':
        judge(s)
    if pos.startswith('after'):
        call()
    judge(s)


def files(ctx):
    """Several logical files, each with its own header, origins and data; headers in creation order."""
    n = ctx.choose('logical files', [1, 2, 3])
    inter = ctx.choose('order', ['sequential', 'origins first', 'origins last', 'reverse'])
    hid = ctx.choose('ids', ['equal', 'distinct', 'empty'])
    no = ctx.choose('origins each', [1, 2])
    nf = ctx.choose('no-format', [False, True])
    twice = ctx.choose('written twice', [False, True])
    s = Session()
    lfs = [s.lf({'equal': 'H', 'distinct': 'H' * (i + 1), 'empty': ''}[hid], chr(48 + i), 10 ** i) for i in range(n)]

    def origins(i):
        for j in range(no):
            s.add(lfs[i], 'origin', f"O{i}{j}", set_name=f"L{i}{j}", file_set_number=i * 3 + j + 1, creation_time=lib.CT)

    def rest(i):
        if nf:
            s.nofmt(lfs[i], s.add(lfs[i], 'no_format', 'N', set_name=f"L{i}"), f"p{i}")
        c = s.add(lfs[i], 'channel', 'C', set_name=f"L{i}", data=np.arange(2.0) + i)
        s.add(lfs[i], 'frame', 'F', set_name=f"L{i}", channels=[c])
        s.add(lfs[i], 'zone', 'Z', set_name=f"L{i}")
    order = {'sequential': [f for i in range(n) for f in ((origins, i), (rest, i))],
             'origins first': [(origins, i) for i in range(n)] + [(rest, i) for i in range(n)],
             'origins last': [(rest, i) for i in range(n)] + [(origins, i) for i in range(n)],
             'reverse': [f for i in reversed(range(n)) for f in ((rest, i), (origins, i))]}[inter]
    for f, i in order:
        f(i)
    if twice:
        judge(s)
    f = judge(s)
    if f.sul.seq != 1:
        s.fail('sul', f"{f.sul.seq}")


def header_sets(ctx):
    """A FILE-HEADER record holds one object, whatever the user does with the header objects."""
    what = ctx.choose('headers', ['two objects in one set', 'one object for two logical files', 'two in one set for two logical files'])
    from dliswriter.logical_record.eflr_types import FileHeaderItem, FileHeaderSet
    s = Session()
    try:
        p = FileHeaderSet()
        a = FileHeaderItem('A', parent=p)
        b = FileHeaderItem('B', parent=p, sequence_number=2) if 'two in' in what or 'two objects' in what else a
        for i, it in enumerate([a] if what.startswith('two objects') else [a, b]):
            m = lib.MLF(i, dict(id=it.header_id, identifier='0', seq=it.sequence_number))
            m.real = s.real.add_logical_file(file_header=it)
            s.lfs.append(m)
            lib.minimal(s, m, sets=f"L{i}", name=str(i))
        st, r = s.write()
    except Exception as e:
        st, r = 'err', e
    if st == 'err':
        ctx.outcome('rejected')
        return
    judge(s)


def inventory(ctx, s, r):
    for v in lib.match(s, lib.parse(s, r)):
        lib.check_header(v)
        lib.check_refs(v)
        lib.check_nofmt(v)
        lib.check_frame_data(v)


def scenarios(tier):
    cases, ns, nt = search(5 if tier == 'quick' else 6)
    return [Scenario('header', header), Scenario('file id', file_id), Scenario('types', pairs(tier), bound=1 if tier != 'quick' else 10 ** 9),
            Scenario('histories', history, cases=cases, model_states=ns, model_transitions=nt), Scenario('no empty sets', empties),
            Scenario('logical files', files), Scenario('header sets', header_sets),
            large.scenario(inventory, LARGE, tier)]
