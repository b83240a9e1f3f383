"""C11 All data sources are equivalent and the row window selects exactly its rows."""
import itertools
import os
from pathlib import Path
import numpy as np
from .. import lib, data as D
from ..engine import Scenario, Prune
from ..lib import Session

BOUNDS = {'quick': 'window: all 0 <= from < to <= 5 (and to = None) x 8 chunk sizes x 14 kinds of source x 4 frames; windows outside the data (-3..rows+3) or without rows x 8 sources; sources: 14 kinds x all orders of up '
                   'to 3 channels out of 5 x dataset-name mappings x extra datasets x orders in the source (deviation bound 3); two frames / two '
                   'logical files on one source; all splits of 3 channels into inline and passed; sources with up to 18 similarly named datasets (HDF5 groups, soft and external links) x channel and dataset names; windows at row numbers around 128, 1000, 16384, 65536 and the end',
          'thorough': '7 rows, all products'}
ASSUMPTIONS = ['reference: the file written from contiguous native-order arrays given inline, sliced beforehand by numpy']

# template channels: dtype, width, cast
T = {'a': ('float64', None, None), 'b': ('int16', 3, None), 'c': ('uint8', None, None), 'd': ('float32', None, 'float64'),
     'e': ('int32', 2, None), 'f': ('uint16', None, 'uint32'), 'g': ('>f4', None, None)}

KINDS = ['inline', 'dict', 'dict plus inline', 'dict over inline', 'structured', 'structured exact', 'structured aligned', 'structured strided',
         'structured sliced', 'recarray', 'hdf5', 'hdf5 Path', 'hdf5 compressed', 'hdf5 groups']


def arr(t, rows, off=0):
    dt, w, cast = T[t]
    base = np.dtype(dt).newbyteorder('=')
    n = rows * (w or 1)
    a = (np.arange(n) * 7 % 83 + off + (0.25 if base.kind == 'f' else 0)).astype(base)
    a = a if w is None else a.reshape(rows, w)
    return a.astype(np.dtype(dt))


def source(kind, arrays, order, extra):
    """arrays: dataset name -> array."""
    items = list(arrays.items())
    rows = len(items[0][1])
    ex = []
    if extra:
        ex = [('unused_1', np.arange(rows + (3 if kind.startswith(('dict', 'hdf5')) else 0), dtype=np.float64)),
              ('unused_2', np.ones((rows, 2, 2), dtype=np.int64))]
    if order == 'reversed':
        items = items[::-1]
    if order == 'rotated':
        items = items[1:] + items[:1]
    items = ex[:1] + items + ex[1:]
    if kind.startswith('dict'):
        return dict(items)
    if kind.startswith('structured') or kind == 'recarray':
        dt = np.dtype([(k, v.dtype, v.shape[1:]) for k, v in items], align=kind == 'structured aligned')
        b = np.zeros(rows, dt)
        for k, v in items:
            b[k] = v
        if kind == 'structured strided':
            c = np.zeros(rows * 2, dt)
            c[::2] = b
            return c[::2]
        if kind == 'structured sliced':
            c = np.concatenate([b[-1:], b, b[:1]])
            return c[1:-1]
        if kind == 'recarray':
            return b.view(np.recarray)
        return b
    if kind.startswith('hdf5'):
        import h5py
        p = os.path.join(os.path.dirname(lib.ENV.path), 'src.hdf5' if kind == 'hdf5 Path' else 'src.h5')
        try:
            os.unlink(p)
        except OSError:
            pass
        with h5py.File(p, 'w') as f:
            for k, v in items:
                if kind == 'hdf5 compressed':
                    f.create_dataset(k, data=v, chunks=(2,) + v.shape[1:], compression='gzip')
                else:
                    f.create_dataset(k, data=v)
        return Path(p) if kind == 'hdf5 Path' else p
    raise AssertionError(kind)


MAPS = ['channel names', 'other names', 'swapped', 'nested', 'leading slash']


def names_for(mapping, sel, kind):
    """channel name -> dataset name"""
    up = {t: t.upper() for t in sel}
    if mapping == 'channel names':
        return {t: None for t in sel}
    if mapping == 'other names':
        return {t: f"ds {t} x" for t in sel}
    if mapping == 'swapped':            # every dataset carries the name of another channel
        l = [up[t] for t in sel]
        return dict(zip(sel, l[1:] + l[:1]))
    if mapping == 'nested':
        return {t: f"grp/{t}/data" for t in sel}
    if mapping == 'leading slash':
        if not kind.startswith('hdf5'):
            raise Prune('only for HDF5')
        return {t: f"/top/{t}" for t in sel}


def build(frames, inline=(), ds=None, arrays=None, second_lf=None):
    """frames: list of lists of template letters.  inline: letters whose data are given at creation."""
    s = Session()
    lf = s.lf()
    s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
    for i, fr in enumerate(frames):
        if second_lf is not None and i == second_lf:
            lf = s.lf(fh_sequence_number=2)
            s.add(lf, 'origin', 'O2', set_name='L2', **lib.BASE_ORIGIN)
        sn = 'L2' if second_lf is not None and i >= second_lf else None
        cs = []
        for t in fr:
            cast = T[t][2]
            cs.append(s.add(lf, 'channel', t.upper(), set_name=sn, data=arrays[t] if t in inline else None,
                            dataset_name=ds[t] if ds else None, cast_dtype=np.dtype(cast).type if cast else None))
        s.add(lf, 'frame', f"FR{i}", set_name=sn, channels=cs, index_type='BOREHOLE-DEPTH' if i == 0 and T[fr[0]][1] is None else None)
    return s


def reference(frames, arrays, a=0, b=None, second_lf=None):
    sl = {t: np.ascontiguousarray(v[a:b]).astype(v.dtype.newbyteorder('=')) for t, v in arrays.items()}
    used = {t for f in frames for t in f}
    s = build(frames, used, None, sl, second_lf)
    r = lib.write_ok(s)
    f = lib.parse(s, r)
    for v in lib.match(s, f):
        lib.check_frame_data(v)
    return r


def check(ctx, frames, kind, arrays, order='as is', extra=False, mapping='channel names', chunk=None, a=0, b=None, second_lf=None, split=None,
          ocs=1 << 15):
    used = [t for t in T if any(t in f for f in frames)]
    ds = names_for(mapping, used, kind)
    inline, passed = used, None
    if kind == 'inline':
        if extra or order != 'as is':
            raise Prune('nothing is passed')
        ins = arrays
    else:
        key = {t: ds[t] or t.upper() for t in used}
        if kind == 'dict plus inline':
            split = used[:1] if split is None else split
            inline = [t for t in used if t in split]
            src = {key[t]: arrays[t] for t in used if t not in inline}
            if not src:
                src = {}
            ins = arrays
        elif kind == 'dict over inline':        # values passed to write() replace those given at creation
            inline = used if split is None else [t for t in used if t in split]
            src = {key[t]: arrays[t] for t in used}
            ins = {t: (v[:2][::-1].copy() if v.dtype.kind else v) for t, v in arrays.items()}
        else:
            inline = []
            src = {key[t]: arrays[t] for t in (frames[0] if kind == 'structured exact' and len(frames) == 1 else used)}
            ins = None
        if kind == 'hdf5 groups' and mapping == 'channel names':
            raise Prune('same as hdf5')
        passed = source(kind, src, order, extra) if src or not kind.startswith('dict') else {}
    s = build(frames, inline, ds, ins, second_lf)
    s.log.append(f"   source {kind}: datasets {ds}, order {order}, extra {extra}, rows {len(next(iter(arrays.values())))}")
    st, r = s.write(data=passed, input_chunk_size=chunk, from_idx=a, to_idx=b, output_chunk_size=ocs)
    if st == 'err':
        s.fail('rejected', f"{type(r).__name__}: {r}")
    ref = reference(frames, arrays, a, b, second_lf)
    if r != ref:
        d = next((i for i, (x, y) in enumerate(zip(r, ref)) if x != y), min(len(r), len(ref)))
        s.fail('differs', f"{kind}, rows [{a}, {b}), chunk {chunk}: the file ({len(r)} B) differs from the one of the pre-sliced inline arrays "
                          f"({len(ref)} B) at byte {d}")
    ctx.outcome('identical')


def window(tier):
    n = 5 if tier == 'quick' else 7

    def fn(ctx):
        fr = ctx.choose('frame', ['ab', 'cbe', 'dfa', 'g'])
        kind = ctx.choose('source', KINDS)
        a = ctx.choose('from', list(range(n)))
        b = ctx.choose('to', [None] + list(range(a + 1, n + 1)))
        chunk = ctx.choose('input_chunk_size', [None, 1, 2, 3, n - 1, n, n + 1, 1000])
        arrays = {t: arr(t, n, i) for i, t in enumerate(fr)}
        check(ctx, [list(fr)], kind, arrays, chunk=chunk, a=a, b=b, mapping='nested' if kind == 'hdf5 groups' else 'channel names')
        ctx.state((fr, a, b))
    return fn


def long(tier):
    """Windows at large row numbers: every pair of bounds around powers of two, chunk boundaries and the ends."""
    n = 65540 if tier == 'quick' else 131080
    marks = sorted({p + d for p in (128, 1000, 16384, 65536, n) + ((1024, 4096, 32768, 131072) if tier != 'quick' else ()) for d in (-1, 0, 1) if p + d <= n})

    def fn(ctx):
        kind = ctx.choose('source', ['inline', 'dict', 'structured', 'structured exact', 'hdf5', 'dict plus inline'])
        a = ctx.choose('from', [0, 1] + [m for m in marks if m < n])
        # few rows, so that the position is what is large; and to the end for some
        b = ctx.choose('to', [a + 1, a + 3, a + 1001] + ([None] if a % 2 == 0 and a > 60000 or tier != 'quick' else []))
        if b is not None and b > n:
            raise Prune('outside')
        chunk = ctx.choose('input_chunk_size', [None, 1000, 65536] if b is None or b - a > 100 else [None, 2])
        arrays = {t: _LONG.setdefault((t, n), arr_long(t, n, i)) for i, t in enumerate('ab')}
        check(ctx, [['a', 'b']], kind, arrays, chunk=chunk, a=a, b=b)
        ctx.state((kind, a, b))
    return fn


_LONG = {}


def arr_long(t, n, off):
    dt, w, _ = T[t]
    i = np.arange(n * (w or 1), dtype=np.int64)
    return ((i * 3 + off) % 32000 if dt != 'float64' else i * 0.5).astype(dt).reshape((n, w) if w else (n,))


def outside(tier):
    """Windows which do not lie in the data, or hold no rows: refused, or the file holds exactly the rows there are."""
    n = 4

    def fn(ctx):
        fr = ctx.choose('frame', ['ab', 'dc'])
        kind = ctx.choose('source', KINDS[:2] + KINDS[2:4] + ['structured', 'structured exact', 'hdf5', 'hdf5 groups'])
        a = ctx.choose('from', list(range(-3, n + 3)))
        b = ctx.choose('to', [None] + list(range(-3, n + 4)))
        z = n if b is None else b
        if 0 <= a < z <= n:
            raise Prune('in window()')
        chunk = ctx.choose('input_chunk_size', [None, 1, 3])
        arrays = {t: arr(t, n, i) for i, t in enumerate(fr)}
        mapping = 'nested' if kind == 'hdf5 groups' else 'channel names'
        ds = names_for(mapping, fr, kind)
        key = {t: ds[t] or t.upper() for t in fr}
        ins, src = {'inline': (fr, {}), 'dict plus inline': (fr[:1], {key[t]: arrays[t] for t in fr[1:]}),
                    'dict over inline': (fr, {key[t]: arrays[t] for t in fr})}.get(kind, ('', {key[t]: arrays[t] for t in fr}))
        passed = source(kind, src, 'as is', False) if src else None
        s = build([list(fr)], ins, ds, arrays)
        st, r = s.write(data=passed, input_chunk_size=chunk, from_idx=a, to_idx=b)
        if st == 'err':
            ctx.outcome('refused')
            return
        rows = len(range(n)[a:b])
        f = lib.parse(s, r)
        got = len(f.lfs[0].iflrs)
        if got != rows or rows == 0 or not (a >= 0 and (b is None or b >= 0)):
            s.fail('window', f"{kind}: the window [{a}, {b}) of {n} rows was written with {got} rows")
        ref = reference([list(fr)], arrays, a, b)
        if ref != r:
            s.fail('differs', f"{kind}: the window [{a}, {b}) of {n} rows was written with other rows")
        ctx.outcome('written')
    return fn


def sources(tier):
    k = 3
    letters = 'abcdg' if tier == 'quick' else 'abcdefg'

    def fn(ctx):
        n = ctx.choose('channels', list(range(1, k + 1)))
        left = list(letters)
        sel = []
        for i in range(n):
            t = ctx.choose(f'channel {i}', left)
            left = [x for x in left if x != t]
            sel.append(t)
        kind = ctx.choose('source', KINDS, dev=True, cost=0)
        mapping = ctx.choose('datasets', MAPS, dev=True)
        order = ctx.choose('order in the source', ['as is', 'reversed', 'rotated'], dev=True)
        extra = ctx.choose('extra datasets', [False, True], dev=True)
        win = ctx.choose('window', [(0, None), (2, 4), (1, None), (0, 3)], dev=True)
        chunk = ctx.choose('input_chunk_size', [None, 2], dev=True)
        arrays = {t: arr(t, 5, i) for i, t in enumerate(letters) if t in sel}
        if kind == 'hdf5 groups' and mapping == 'channel names':
            mapping = 'nested'
        check(ctx, [sel], kind, arrays, order, extra, mapping, chunk, *win)
        ctx.state((tuple(sel), kind, mapping, win))
    return fn


def several(tier):
    def fn(ctx):
        frames = ctx.choose('frames', [['ab', 'cd'], ['c', 'abe'], ['ab', 'ba'], ['ab', 'bc'], ['a', 'b', 'c'], ['g', 'd']])
        lf2 = ctx.choose('second logical file from frame', [None, 1])
        kind = ctx.choose('source', KINDS)
        mapping = ctx.choose('datasets', MAPS[:4])
        win = ctx.choose('window', [(0, None), (2, 4), (1, None)])
        chunk = ctx.choose('input_chunk_size', [None, 2])
        split = ctx.choose('inline', [None, 'a', 'bc', 'c', ''], dev=True) if kind.startswith('dict ') else None
        frames = [list(f) for f in frames]
        shared = len(set(t for f in frames for t in f)) < sum(len(f) for f in frames)
        if shared:
            if lf2:
                raise Prune('a channel belongs to one logical file')
        arrays = {t: arr(t, 5, i) for i, t in enumerate(T) if any(t in f for f in frames)}
        if kind == 'hdf5 groups' and mapping == 'channel names':
            mapping = 'nested'
        if shared:
            raise Prune('covered by C08/C18')
        check(ctx, frames, kind, arrays, 'reversed', True if kind != 'inline' else False, mapping, chunk, *win, second_lf=lf2, split=split) \
            if kind != 'inline' else check(ctx, frames, kind, arrays, mapping=mapping, chunk=chunk, a=win[0], b=win[1], second_lf=lf2)
    return fn


def splits(tier):
    """Every split of the channels into those given at creation, those passed in a dict, and both."""
    def fn(ctx):
        where = [ctx.choose(f'{t} is', ['inline', 'passed', 'both']) for t in 'abc']
        perm = ctx.choose('frame order', list(itertools.permutations('abc')))
        ordr = ctx.choose('dict order', list(itertools.permutations('abc')))
        dup = ctx.choose('names', ['distinct', 'dataset names', 'same name in another frame'])
        arrays = {t: arr(t, 4, i) for i, t in enumerate('abc')}
        stale = {t: arr(t, 4, i + 50) for i, t in enumerate('abc')}
        s = Session()
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        if dup == 'same name in another frame':
            z = s.add(lf, 'channel', 'A', data=arr('c', 3))
        cs = {}
        ds = {}
        for t, w in zip('abc', where):
            dn = f"set_{t}" if dup == 'dataset names' else None
            if dup == 'same name in another frame' and t == 'a':
                dn = 'second A'
            ds[t] = dn or t.upper()
            cs[t] = s.add(lf, 'channel', t.upper(), dataset_name=dn, data=arrays[t] if w == 'inline' else stale[t] if w == 'both' else None)
        s.add(lf, 'frame', 'F', channels=[cs[t] for t in perm])
        if dup == 'same name in another frame':
            s.add(lf, 'frame', 'G', channels=[z])
        d = {ds[t]: arrays[t] for t in ordr if where['abc'.index(t)] != 'inline'}
        keys = list(d)
        r = lib.write_ok(s, data=d if d else ctx.choose('nothing passed', [None, {}], names=['None', '{}']))
        for t in 'abc':
            cs[t].data = arrays[t]
            cs[t].dataset_name = ds[t]
        f = lib.parse(s, r)
        for v in lib.match(s, f):
            lib.check_frame_data(v)
            lib.check_descriptors(v)
        if list(d) != keys:
            s.fail('dict', 'the dict passed as data was changed')
        ctx.state((tuple(where), perm, dup))
        ctx.outcome('identical')
    return fn


HAVE = {}
NAMESAKES = ['C', 'c', 'G/C', 'G/c', 'G/H/C', 'H/C', 'C ', ' C', 'C.1', 'CC', 'G.C', 'G/C.1', 'TOP/G/C', '0', 'GC', 'D']


def decoys(tier):
    """Sources full of datasets with similar names and different content: each channel gets the one it names."""
    def fn(ctx):
        kind = ctx.choose('source', ['dict', 'structured', 'hdf5', 'hdf5 slash', 'hdf5 soft links', 'hdf5 external links', 'hdf5 .HDF5'])
        n1 = ctx.choose('first channel', ['C', 'c', 'G/C', 'D', '/C'])
        n2 = ctx.choose('second channel', ['X', 'CC', 'H/C'])
        d1 = ctx.choose('dataset of the first', [None] + NAMESAKES + ['/C', '/G/C', 'C/', '/'])
        d2 = ctx.choose('dataset of the second', NAMESAKES[:6] + ['D'])
        if (n1 if d1 is None else d1) == d2:
            raise Prune('a dataset name belongs to one channel')
        win = ctx.choose('window', [(0, None), (1, 3)]) if tier != 'quick' else (0, None)
        slash = kind.startswith('hdf5')
        arrays = {n: np.arange(4, dtype=np.float32) + 100 * i for i, n in enumerate(NAMESAKES)}
        if not slash:
            arrays.update({'/C': arrays['C'] + 5000, '/G/C': arrays['C'] + 6000})
        order = ctx.choose('order', ['as is', 'reversed'])
        items = list(arrays.items())[::1 if order == 'as is' else -1]
        if kind == 'dict':
            src = dict(items)
        elif kind == 'structured':
            src = np.zeros(4, np.dtype([(k, v.dtype) for k, v in items]))
            for k, v in items:
                src[k] = v
        else:
            import h5py
            tmp = os.path.dirname(lib.ENV.path)
            stem = f"decoys-{order[:2]}{kind[5:].replace(' ', '')}"
            src = os.path.join(tmp, stem + ('' if kind.endswith('.HDF5') else '.v1.h5'))
            other = os.path.join(tmp, stem + '-other.h5')
            if HAVE.get(src) != (os.path.exists(src) and os.stat(src).st_mtime_ns):
                with h5py.File(src, 'w') as f, h5py.File(other, 'w') as o:
                    for i, (k, v) in enumerate(items):
                        if kind.endswith('soft links'):
                            f.create_dataset(f'real/{i}', data=v)
                            f[k] = h5py.SoftLink(f'/real/{i}')
                        elif kind.endswith('external links'):
                            o.create_dataset(f'd{i}/{k}', data=v)
                            f[k] = h5py.ExternalLink(os.path.basename(other), f'/d{i}/{k}')
                        else:
                            f.create_dataset('/' + k if kind.endswith('slash') else k, data=v)
                HAVE[src] = os.stat(src).st_mtime_ns
        key = lambda d, n: (lambda x: x.strip('/') if slash else x)(n if d is None else d)
        s = Session()
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        c1 = s.add(lf, 'channel', n1, dataset_name=d1)
        c2 = s.add(lf, 'channel', n2, dataset_name=d2)
        s.add(lf, 'frame', 'F', channels=[c1, c2])
        st, r = s.write(data=src, from_idx=win[0], to_idx=win[1])
        k1 = key(d1, n1)
        if st == 'err':
            if k1 in arrays and not (d1 or '').endswith('/'):
                s.fail('rejected', f"{kind}: {type(r).__name__}: {r}")
            ctx.outcome('refused')
            return
        if k1 not in arrays:
            s.fail('invented', f"{kind}: the source has no dataset {d1 if d1 is not None else n1!r}, but a file was written")
        f = lib.parse(s, r)
        for v in lib.match(s, f):
            c1.data, c2.data = arrays[k1], arrays[key(d2, n2)]
            c1.dataset_name, c2.dataset_name = None, None
            lib.check_frame_data(v, None, *win) if win != (0, None) else lib.check_frame_data(v)
        ctx.state((kind, k1, d2))
        ctx.outcome('the datasets named')
    return fn


def scenarios(tier):
    q = tier == 'quick'
    return [Scenario('window', window(tier)), Scenario('outside', outside(tier)), Scenario('sources', sources(tier), bound=1 if q else 6), Scenario('several', several(tier), bound=9),
            Scenario('splits', splits(tier)), Scenario('decoys', decoys(tier)), Scenario('long', long(tier))]
