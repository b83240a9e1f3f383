"""C18 Frames and logical files are isolated from one another."""
import os

import numpy as np

from .. import large, lib
from ..engine import Scenario, Prune
from ..lib import Session
from ..schema import KINDS
from .c07 import make, LINKS, targets

LARGE = ['logical files', 'frames', 'shared channel']
BOUNDS = {'quick': '1..3 frames with row counts 0..3, sharing channels, names, sets or dataset names x data source (arrays, dict, structured '
                   'array, HDF5) x row window x input chunk size x output chunk size; all 22 object types x every pair of set names in '
                   'two logical files x order of the additions (shared sets must be rejected, at the call or at the write, and the '
                   'logical file must be intact after a rejected call); explicit-state search over additions to up to 3 logical files '
                   'with named/default sets to depth 4, every transition replayed, the first origins of the files with the same or different references; references, frames and records across logical files',
          'thorough': 'search depth 6, 4 frames'}
BOUNDS['quick'] += '; ' + large.bounds(LARGE)
ASSUMPTIONS = ['a shared set may be rejected by the add_* call or by write()',
               'channels of different logical files reading the same dataset of write-time data both get its rows']


def rows_of(i, n, dt='float64', width=None):
    """Every value in the file says which channel and row it belongs to."""
    a = (np.arange(n) + 16 * (i + 1)).astype(dt)
    if width:
        a = np.repeat(a.reshape(-1, 1), width, axis=1)
    return a


def source(ctx, kind, arrays):
    if kind == 'arrays':
        return None
    if kind == 'dict':
        return dict(arrays)
    if kind == 'structured':
        n = {len(a) for a in arrays.values()}
        if len(n) > 1:
            raise Prune('one row count in a structured array')
        out = np.zeros(n.pop(), dtype=[(k, a.dtype, a.shape[1:]) for k, a in arrays.items()])
        for k, a in arrays.items():
            out[k] = a
        return out
    import h5py
    p = ctx.env.path + '.h5'
    if os.path.exists(p):
        os.unlink(p)                    # a failed write may still have the previous one open
    with h5py.File(p, 'w') as f:
        for k, a in arrays.items():
            f.create_dataset(k, data=a)
    return p


def frames(tier):
    def fn(ctx):
        n = ctx.choose('frames', [2, 1, 3] if tier == 'quick' else [2, 1, 3, 4])
        src = ctx.choose('data', ['arrays', 'dict', 'structured', 'hdf5'])
        rows = [ctx.choose(f"rows {i}", [2, 1, 3]) for i in range(n)]
        per = ctx.choose('channels per frame', [1, 2], dev=True)
        names = ctx.choose('names', ['distinct', 'channels equal', 'frames equal', 'all equal'])
        sets = ctx.choose('sets', ['default', 'each'], dev=True)
        order = ctx.choose('order', ['frame by frame', 'channels first', 'channels reversed'], dev=True)
        win = ctx.choose('window', [None, (1, None), (0, 1), (0, 2)], dev=True)
        chunk = ctx.choose('input chunk', [None, 1, 2], dev=True)
        out = ctx.choose('output chunk', [1 << 15, 8192], dev=True)
        vr = ctx.choose('record length', [8192, 60, 20], dev=True)
        twice = ctx.choose('written', [1, 2], dev=True)
        nof = ctx.choose('no-format', [False, True], dev=True)
        s = Session(max_record_length=vr)
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        arrays, chans = {}, {}

        def chan(i, j):
            a = rows_of(4 * i + j, rows[i], ['float64', 'int16', 'uint8', 'float32'][(i + j) % 4], [None, 2, 3][(i + 2 * j) % 3])
            nm = 'C' if names in ('channels equal', 'all equal') and j == 0 else f"C{i}{j}"
            kx = {'set_name': f"S{i}"} if sets == 'each' else {}
            if src == 'arrays':
                c = s.add(lf, 'channel', nm, data=a, **kx)
            else:
                arrays[f"D{i}{j}"] = a
                c = s.add(lf, 'channel', nm, dataset_name=f"D{i}{j}", **kx)
                c.data = None
            chans[i, j] = c

        def frame(i):
            kx = {'set_name': f"S{i}"} if sets == 'each' else {}
            s.add(lf, 'frame', 'F' if names in ('frames equal', 'all equal') else f"F{i}", channels=[chans[i, j] for j in range(per)], **kx)
        idx = list(range(n))
        if order == 'frame by frame':
            for i in idx:
                for j in range(per):
                    chan(i, j)
                frame(i)
        else:
            for i in (idx if order == 'channels first' else idx[::-1]):
                for j in range(per):
                    chan(i, j)
            for i in idx:
                frame(i)
        if nof:
            s.nofmt(lf, s.add(lf, 'no_format', 'N'), 'payload')
        data = source(ctx, src, arrays)
        kw = {}
        if data is not None:
            kw['data'] = data
        if chunk:
            kw['input_chunk_size'] = chunk
        a, b = win or (0, None)
        if win:
            kw.update(from_idx=a, to_idx=b)
        empty = any(max(0, min(r, b if b is not None else r) - a) == 0 for r in rows)
        for _ in range(twice):
            st, r = s.write(output_chunk_size=out, **kw)
            if st == 'err':
                if not empty and not (b is not None and any(r_ < b for r_ in rows)) and vr > 20:
                    s.fail('write-failed', f"{type(r).__name__}: {r}")
                ctx.outcome('rejected')
                return
            f = lib.parse(s, r)
            for v in lib.match(s, f):
                lib.check_refs(v)
                lib.check_frame_data(v, data=arrays if src != 'arrays' else None, from_idx=a, to_idx=b)
                lib.check_nofmt(v)
    return fn


def sharing(ctx):
    """Channels in several frames of one logical file, frames whose channels were reassigned, the same array in several channels."""
    what = ctx.choose('shared', ['channel', 'index channel', 'array', 'dataset name', 'all channels', 'reassigned', 'array views'])
    n = ctx.choose('frames', [2, 3])
    chunk = ctx.choose('input chunk', [None, 1, 2])
    twice = ctx.choose('written', [1, 2])
    s = Session()
    lf = s.lf()
    s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
    arr = rows_of(0, 3)
    big = np.arange(30.0)
    if what in ('channel', 'index channel', 'all channels'):
        sh = s.add(lf, 'channel', 'SHARED', data=arr)
    fs = []
    for i in range(n):
        if what == 'array':
            own = [s.add(lf, 'channel', f"C{i}", data=arr)]
        elif what == 'array views':
            own = [s.add(lf, 'channel', f"C{i}", data=big[i::n][:5 - i])]
        elif what == 'dataset name':
            try:
                own = [s.add(lf, 'channel', f"C{i}", dataset_name='D')]
            except ValueError:
                ctx.outcome('dataset name in use: rejected')
                return
        else:
            own = [s.add(lf, 'channel', f"C{i}", data=rows_of(i + 1, 3))]
        ch = {'channel': lambda: own + [sh], 'index channel': lambda: [sh] + own, 'all channels': lambda: [sh]}.get(what, lambda: own)()
        fs.append(s.add(lf, 'frame', f"F{i}", channels=ch))
    if what == 'reassigned':
        ch = [f.vals['channels'] for f in fs]
        for i, f in enumerate(fs):
            s.set(f, 'channels', 'value', ch[(i + 1) % n])
    kw = {'data': {'D': arr}} if what == 'dataset name' else {}
    if chunk:
        kw['input_chunk_size'] = chunk
    for _ in range(twice):
        r = lib.write_ok(s, **kw)
        f = lib.parse(s, r)
        for v in lib.match(s, f):
            lib.check_refs(v)
            lib.check_frame_data(v, data=kw.get('data'))


NAMES = [None, '', 'A', 'B']


def shared_sets(ctx):
    """Every object type added to two logical files under every pair of set names."""
    k = ctx.choose('type', list(KINDS))
    a = ctx.choose('first set', NAMES)
    b = ctx.choose('second set', NAMES)
    order = ctx.choose('order', ['0 then 1', '1 then 0', '0 then 1 then 0', '0 then 1 then 1'])
    when = ctx.choose('when', ['at the end', 'between', 'after a write'])
    own = ctx.choose('objects of the type before', [False, True])
    s = Session()
    lfs = [s.lf(f"H{i}", fh_sequence_number=i + 1) for i in range(2)]

    def rest(i):
        s.add(lfs[i], 'origin', 'O', set_name=f"L{i}", **lib.BASE_ORIGIN)
        c = s.add(lfs[i], 'channel', 'C', set_name=f"L{i}", data=rows_of(i, 2 + i))
        s.add(lfs[i], 'frame', 'F', set_name=f"L{i}", channels=[c])
        if own:
            make(s, lfs[i], k, 'OWN', 9, set_name=f"L{i}", **({'chset': f"L{i}"} if k == 'frame' else {}))
    if when != 'between':
        rest(0)
        rest(1)
    if when == 'after a write':
        lib.check_all(s, lib.write_ok(s))
    seq = [int(x) for x in order.split(' then ')]
    used = {}
    rejected = False
    for j, i in enumerate(seq):
        sn = (a, b)[i]
        legal = used.setdefault(sn or None, i) == i
        kx = {'chset': f"L{i}"} if k == 'frame' else {}
        try:
            if k == 'frame':
                c = s.add(lfs[i], 'channel', f"FC{j}", set_name=f"L{i}", data=rows_of(5 + j, 2))
                s.add(lfs[i], 'frame', f"X{j}", channels=[c], set_name=sn)
            else:
                make(s, lfs[i], k, f"X{j}" if j % 2 else 'X', j, set_name=sn, **kx)
        except Exception as e:
            if legal:
                s.fail('rejected', f"set {sn!r} is used in logical file {i} only: {type(e).__name__}: {e}")
            ctx.outcome('shared set rejected at the call')
            rejected = True
            if k == 'frame':
                pass
            continue
        if not legal:
            st, r = s.write()
            if st == 'err' and when == 'between':
                rest(0)
                rest(1)
                st, r = s.write()
            if st == 'ok':
                s.fail('shared-set', f"set ({KINDS[k][0]}, {sn!r}) holds objects of two logical files and was written")
            ctx.outcome('shared set rejected at the write')
            return
    if when == 'between':
        rest(0)
        rest(1)
    lib.check_all(s, lib.write_ok(s))
    if not rejected:
        ctx.outcome('written')


# ---------------------------------------------------------------------------------------------- explicit-state search
def alph(nlf):
    out = [('lf',)] if nlf < 3 else []
    for i in range(nlf):
        for sn in (None, 'A', 'B'):
            out += [('origin', i, sn), ('zone', i, sn)]
        out += [('frame', i, 'A'), ('frame', i, 'B')]
    return out + [('write',)]


def norm(st):
    return (st[0], tuple(sorted(st[1], key=repr)), st[2])


def step(st, op):
    """(number of logical files, {((kind, set), owner, count)}, written before) -> the same, or None if op must be rejected."""
    n, sets, w = st
    if op[0] == 'lf':
        return (n + 1, sets, w)
    if op[0] == 'write':
        return (n, sets, True)
    d = {k: (o, c) for k, o, c in sets}
    kinds = ['channel', 'frame'] if op[0] == 'frame' else [op[0]]
    for k in kinds:
        o, c = d.get((k, op[2]), (op[1], 0))
        if o != op[1]:
            return None
        d[k, op[2]] = (o, min(c + 1, 2))
    return norm((n, tuple((k, o, c) for k, (o, c) in d.items()), w))


def search(depth):
    start = (1, (), False)
    seen = {start: ()}
    frontier, cases, nt = [start], [()], 0
    for d in range(depth):
        nxt = []
        for st in frontier:
            for op in alph(st[0]):
                nt += 1
                t = step(st, op)
                if t is None or t not in seen or d == depth - 1:
                    cases.append(seen[st] + (op,))
                if t is not None and t not in seen:
                    seen[t] = seen[st] + (op,)
                    nxt.append(t)
        frontier = nxt
    return cases, len(seen), nt


def history(ctx):
    apart = ctx.choose('references of the first origins', ['default', 'apart'])
    if apart == 'apart' and sum(op[0] == 'origin' for op in ctx.case) + sum(op[0] == 'lf' for op in ctx.case) == 0:
        raise Prune('nothing to tell apart')
    s = Session()
    lfs = [s.lf('H0')]
    st = (1, (), False)
    k = 0

    def first(m):
        return None if apart == 'default' or m.of('origin') else 3 + 5 * m.idx
    for op in ctx.case:
        ctx.step()
        t = step(st, op)
        k += 1
        if op[0] == 'lf':
            lfs.append(s.lf(f"H{len(lfs)}", fh_sequence_number=len(lfs) + 1))
        elif op[0] == 'write':
            s.write()
        else:
            m = lfs[op[1]]
            try:
                if op[0] == 'origin':
                    s.add(m, 'origin', 'O', set_name=op[2], origin_reference=first(m), file_set_number=k, creation_time=lib.CT, well_name=f"W{k}")
                elif op[0] == 'zone':
                    s.add(m, 'zone', 'Z', set_name=op[2], description=f"D{k}")
                else:
                    c = s.add(m, 'channel', 'C', set_name=op[2], data=rows_of(k, 1 + k % 3))
                    s.add(m, 'frame', 'F', set_name=op[2], channels=[c], description=f"D{k}")
            except Exception as e:
                if t is not None:
                    s.fail('rejected', f"{op}: {type(e).__name__}: {e}")
                ctx.outcome('rejected')
            else:
                if t is None:
                    status, r = s.write()
                    for i, m in enumerate(lfs):
                        complete(s, m, i, first(m))
                    if status == 'ok' or s.write()[0] == 'ok':
                        s.fail('shared-set', f"{op}: objects of two logical files in one set were written")
                    ctx.outcome('rejected at the write')
                    return
        if t is not None:
            st = t
            ctx.state(st)
    for i, m in enumerate(lfs):
        complete(s, m, i, first(m))
    ctx.validated_trace()
    lib.check_all(s, lib.write_ok(s))


def complete(s, m, i, ref=None):
    if not m.of('origin'):
        s.add(m, 'origin', 'LAST', set_name=f"END{i}", origin_reference=ref, **lib.BASE_ORIGIN)
    if not m.of('frame'):
        c = s.add(m, 'channel', 'LAST', set_name=f"END{i}", data=rows_of(i, 2))
        s.add(m, 'frame', 'LAST', set_name=f"END{i}", channels=[c])


def across(ctx):
    """Links, frame channels and no-format records which cross logical files, in either direction."""
    what = ctx.choose('link', [(k, kw, kind) for k, kw, kind in LINKS] + [('record', None, 'R:NO-FORMAT')],
                      names=[f"{a}.{b}" for a, b, _ in LINKS] + ['no-format record'])
    k, kw, kind = what
    frm = ctx.choose('referring object in', [0, 1])
    twin = ctx.choose('namesake of the target in the same logical file', [False, True])
    how = ctx.choose('set names', ['per logical file', 'defaults in one'])
    target_default = ctx.choose('default sets in', [0, 1]) if how != 'per logical file' else None
    s = Session()
    lfs = [s.lf(f"H{i}", fh_sequence_number=i + 1) for i in range(2)]
    sn = [f"L{i}" for i in range(2)]
    if target_default is not None:
        sn[target_default] = None
    for i in range(2):
        s.add(lfs[i], 'origin', 'O', set_name=sn[i], **lib.BASE_ORIGIN)
        c = s.add(lfs[i], 'channel', 'C', set_name=sn[i], data=rows_of(i, 2))
        s.add(lfs[i], 'frame', 'F', set_name=sn[i], channels=[c])
    t = targets(kind)[0]
    to = 1 - frm

    def mk(i):
        return make(s, lfs[i], t, 'T', i, set_name=sn[i], **({'chset': sn[i]} if t == 'frame' else {}))
    try:
        h = mk(to)
        if twin:
            mk(frm)
        if k == 'record':
            s.nofmt(lfs[frm], h, 'payload')
        else:
            s.add(lfs[frm], k, 'REF', set_name=sn[frm], **{kw: [h] if kind.startswith('RM') else h})
        st, r = s.write()
    except lib.Violation:
        raise
    except Exception as e:
        ctx.outcome('rejected at once')
        return
    if st == 'ok':
        s.fail('cross-reference', f"{k}.{kw} of logical file {frm} refers to an object of logical file {to} and was written")
    ctx.outcome('write raised')


def data_across(ctx):
    """Rows of logical files which use the same channel names, with data from every source."""
    n = ctx.choose('logical files', [2, 3])
    src = ctx.choose('data', ['arrays', 'dict', 'hdf5', 'mixed'])
    names = ctx.choose('channel names', ['equal', 'distinct'])
    two = ctx.choose('frames each', [1, 2])
    chunk = ctx.choose('input chunk', [None, 1, 2])
    order = ctx.choose('order', ['sequential', 'interleaved', 'reverse'])
    rows = [ctx.choose(f"rows {i}", [1, 2, 3]) for i in range(n)]
    twice = ctx.choose('written', [1, 2])
    s = Session()
    lfs = [s.lf('H' * (i + 1), fh_sequence_number=i + 1) for i in range(n)]
    arrays, ch = {}, {}

    def origin(i):
        s.add(lfs[i], 'origin', 'O', set_name=f"L{i}", **lib.BASE_ORIGIN)

    def chans(i):
        for j in range(two):
            a = rows_of(i * 2 + j, rows[i] + j, ['float64', 'float32', 'int16'][(i + j) % 3])
            nm = 'C' if names == 'equal' else f"C{i}{j}"
            if src == 'arrays' or src == 'mixed' and i == 0:
                ch[i, j] = s.add(lfs[i], 'channel', nm, set_name=f"L{i}", data=a)
            else:
                arrays[f"D{i}{j}"] = a
                ch[i, j] = s.add(lfs[i], 'channel', nm, set_name=f"L{i}", dataset_name=f"D{i}{j}")

    def frs(i):
        for j in range(two):
            s.add(lfs[i], 'frame', 'F', set_name=f"L{i}", channels=[ch[i, j]])
        s.nofmt(lfs[i], s.add(lfs[i], 'no_format', 'N', set_name=f"L{i}"), f"payload {i}")
    fs = [origin, chans, frs]
    if order == 'sequential':
        [f(i) for i in range(n) for f in fs]
    elif order == 'interleaved':
        [f(i) for f in fs for i in range(n)]
    else:
        [f(i) for i in reversed(range(n)) for f in (chans, frs, origin)]
    data = source(ctx, 'dict' if src == 'mixed' else src, arrays)
    kw = {} if data is None else {'data': data}
    if chunk:
        kw['input_chunk_size'] = chunk
    for _ in range(twice):
        r = lib.write_ok(s, **kw)
        lib.check_all(s, r, frame_kw={'data': arrays} if arrays else None)


def scenarios(tier):
    cases, ns, nt = search(4 if tier == 'quick' else 6)
    return [Scenario('frames', frames(tier), bound=2 if tier == 'quick' else 3), Scenario('sharing', sharing), Scenario('shared sets', shared_sets),
            Scenario('histories', history, cases=cases, model_states=ns, model_transitions=nt), Scenario('across', across),
            Scenario('data across', data_across),
            large.scenario(lambda ctx, s, r: lib.check_all(s, r), LARGE, tier)]
