"""C13 Frame index metadata is truthful for the rows written."""
import math
from fractions import Fraction
import numpy as np
from .. import lib, rp66, data as D
from ..engine import Scenario, Prune
from ..lib import Session, A

BOUNDS = {'quick': 'index values: all sequences of length 1..4 over 6-8 extreme values of each of 8 dtypes, plus long sequences; all difference '
                   'patterns of length 1..4 over 9 differences around the tolerance x 5 dtypes; options: all pairs out of index type, cast, explicit '
                   'values (all 16 subsets, 3 kinds of values), units, row window, source, chunk size, second write with other rows, second frame; long indexes (to 65537 rows) with an outlier, a change of step or '
                   'direction at positions around 100, 128, 256, 1000, 1024, 4096, 10000, 16384, 65536',
          'thorough': 'sequences of length 1..5 over more values; all triples of options'}
ASSUMPTIONS = ['uniform within the tolerance means (1 - d/m)^2 < 0.001 for every difference d and the median difference m (exact arithmetic; '
               'within 1e-5 of the boundary either answer is accepted)',
               'whether a constant index has SPACING 0 or none, and whether a non-strictly monotonic index has a DIRECTION, is left open',
               'for an index with NaN the bounds may be NaN or the bounds of the numbers; it has no spacing',
               'differences which overflow the type of the index may be treated as not uniform']

EXTREME = {2: 1e37, 7: 1e300}



def exact(x):
    return Fraction(x)


def stats(vals, code):
    """vals: the index values decoded from the file.  Returns dict: lo, hi, spacing ('require'|'forbid'|'either'), range, direction set."""
    fin = all(not (isinstance(v, float) and not math.isfinite(v)) for v in vals)
    nums = [v for v in vals if not (isinstance(v, float) and math.isnan(v))]
    st = {'nan': len(nums) != len(vals), 'lo': min(nums, default=None), 'hi': max(nums, default=None), 'n': len(vals)}
    inc = all(b >= a for a, b in zip(vals, vals[1:])) and any(b > a for a, b in zip(vals, vals[1:]))
    dec = all(b <= a for a, b in zip(vals, vals[1:])) and any(b < a for a, b in zip(vals, vals[1:]))
    strict = all(b != a for a, b in zip(vals, vals[1:]))
    st['sense'] = 'INCREASING' if inc else 'DECREASING' if dec else None
    st['strict'] = strict and fin
    if not fin or len(vals) < 2:
        st['uniform'] = False
        if len(vals) >= 2 and not st['nan'] and len(set(b - a for a, b in zip(vals, vals[1:]))) == 1 and vals[0] != vals[1]:
            st['uniform'] = 'inf'
        return st
    d = [exact(b) - exact(a) for a, b in zip(vals, vals[1:])]
    lo, hi = min(d), max(d)
    st['d'] = (lo, hi)
    big = code in EXTREME and max(abs(v) for v in vals) > EXTREME[code]
    if lo == hi:
        st['uniform'] = True if lo and not big else None
        return st
    s = sorted(d)
    m = (s[len(s) // 2] + s[(len(s) - 1) // 2]) / 2
    if m == 0:
        st['uniform'] = False
        return st
    worst = max((1 - x / m) ** 2 for x in d)
    t = Fraction(1, 1000)
    st['uniform'] = True if worst < t * (1 - Fraction(1, 10 ** 5)) else False if worst > t * (1 + Fraction(1, 10 ** 5)) else None
    if big and st['uniform']:
        st['uniform'] = None
    return st


def one_value(s, h, lab, a):
    if a is None or a.absent or a.value is None or a.value == []:
        return None
    if len(a.value) != 1:
        s.fail('index-meta', f"{h}.{lab} = {a.value}")
    return a.value[0]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if any(isinstance(x, float) and not math.isfinite(x) for x in (a, b)):
        return a == b
    return Fraction(a) == Fraction(b)


def judge(s, f, per_lf=None):
    """Compare the frame attributes of every frame of the decoded file with statistics of the rows decoded from the same file."""
    for v in lib.match(s, f):
        resolve = lib.resolver(v)
        for h in v.m.of('frame'):
            o = v.map[h]
            rows = [x for x in v.lf.iflrs if x.type == 0 and resolve(x.ref, 'FRAME') is h]
            c0 = v.map[lib.flat(h.vals['channels'])[0]]
            code = c0.attrs['REPRESENTATION-CODE'].value[0]
            size = lib.CODESIZE[code]
            g = {lab: one_value(s, h, lab, o.attrs.get(lab)) for lab in
                 ('INDEX-MIN', 'INDEX-MAX', 'SPACING', 'DIRECTION', 'INDEX-TYPE')}
            user = {lab: h.vals.get(kw) for kw, lab in (('index_min', 'INDEX-MIN'), ('index_max', 'INDEX-MAX'), ('spacing', 'SPACING'),
                                                        ('direction', 'DIRECTION'), ('index_type', 'INDEX-TYPE'))}
            for lab, u in user.items():
                u = lib.plain(u)
                if u is not None:
                    if g[lab] is None or (g[lab] != u if isinstance(u, str) else isinstance(g[lab], str) or not lib.num_eq(u, g[lab])):
                        s.fail('explicit', f"{h}.{lab} = {g[lab]!r}, the user set {u!r}")
            if g['INDEX-TYPE'] is not None and user['INDEX-TYPE'] is None:
                s.fail('explicit', f"{h}.INDEX-TYPE = {g['INDEX-TYPE']!r} was never set")
            if user['INDEX-TYPE'] is None:
                for lab, w in (('INDEX-MIN', 1), ('INDEX-MAX', len(rows))):
                    if user[lab] is None and (g[lab] is None or not same(g[lab], w)):
                        s.fail('row-number', f"{h}.{lab} = {g[lab]!r} without an index type, {len(rows)} rows written")
                if user['SPACING'] is None and g['SPACING'] is not None and g['SPACING'] != 1:
                    s.fail('row-number', f"{h}.SPACING = {g['SPACING']!r} without an index type")
                if user['DIRECTION'] is None and g['DIRECTION'] not in (None, 'INCREASING'):
                    s.fail('row-number', f"{h}.DIRECTION = {g['DIRECTION']!r} without an index type")
                continue
            vals = [rp66.d_value(code, x.data[:size], 0)[0] for x in rows]
            st = stats(vals, code)
            show = f"index rows {vals[:12]}{'...' if len(vals) > 12 else ''} (code {code})"
            for lab, w in (('INDEX-MIN', st['lo']), ('INDEX-MAX', st['hi'])):
                if user[lab] is not None:
                    continue
                x = g[lab]
                if x is None or isinstance(x, str):
                    s.fail('index-bounds', f"{h}.{lab} = {x!r}; {show}")
                isnan = isinstance(x, float) and math.isnan(x)
                if not (st['nan'] and isnan) and (w is None or not same(x, w)):
                    s.fail('index-bounds', f"{h}.{lab} = {x!r} instead of {w!r}; {show}")
            sp = g['SPACING']
            if user['SPACING'] is None:
                u = st['uniform']
                if sp is not None:
                    if u == 'inf':
                        if sp != vals[1] - vals[0]:
                            s.fail('spacing', f"{h}.SPACING = {sp!r}; {show}")
                    elif u is False:
                        s.fail('spacing', f"{h}.SPACING = {sp!r} although the differences are not uniform; {show}")
                    else:
                        lo, hi = st['d']
                        eps = max(abs(lo), abs(hi)) * (Fraction(1, 2 ** 22) if code == 2 else Fraction(1, 2 ** 50) if code == 7 else 0)
                        if isinstance(sp, float) and not math.isfinite(sp) or not lo - eps <= Fraction(sp) <= hi + eps:
                            s.fail('spacing', f"{h}.SPACING = {sp!r}, differences are {float(lo)!r}..{float(hi)!r}; {show}")
                elif u is True:
                    s.fail('spacing-missing', f"{h}.SPACING is absent although the differences are uniform; {show}")
            di = g['DIRECTION']
            if user['DIRECTION'] is None:
                if di is not None and di != st['sense']:
                    s.fail('direction', f"{h}.DIRECTION = {di!r}, the index is {st['sense']}; {show}")
                if di is None and sp is None and st['sense'] and st['strict']:
                    s.fail('direction', f"{h}.DIRECTION and SPACING are absent, the index is {st['sense']}; {show}")


def seqs(alpha, n):
    if n == 0:
        yield ()
        return
    for t in seqs(alpha, n - 1):
        for a in alpha:
            yield t + (a,)


def alphabet(dt, more=False):
    t = np.dtype(dt)
    if t.kind == 'f':
        m = float(np.finfo(t).max)
        return [0.0, 0.1, 0.2, 0.3, float('nan'), float('inf'), -m] + ([-0.0, 0.4, m, -float('inf')] if more else [])
    i = np.iinfo(t)
    a = [0, 1, 2, 3, int(i.max), int(i.max) - 1]
    if i.min:
        a += [int(i.min), -1]
    if more:
        a += [int(i.max) // 2 + 1, 4]
    return a


def run_index(ctx, arr, cast=None, **fkw):
    s = Session()
    lf = s.lf()
    s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
    c = s.add(lf, 'channel', 'C', data=arr, cast_dtype=cast)
    s.log.append(f"   C = {arr.tolist()} {arr.dtype}")
    n = s.add(lf, 'channel', 'N', data=np.arange(len(arr), dtype=np.uint8))
    fkw.setdefault('index_type', 'BOREHOLE-DEPTH')
    s.add(lf, 'frame', 'F', channels=[c, n], **fkw)
    return s, lf


def finish(ctx, s, legal=True, **kw):
    st, r = s.write(**kw)
    if st == 'err':
        if legal:
            s.fail('rejected', f"{type(r).__name__}: {r}")
        ctx.outcome('rejected')
        return None
    judge(s, lib.parse(s, r))
    ctx.outcome('truthful')
    return r


def values(tier):
    cases = []
    for dt in D.DTYPES:
        al = alphabet(dt, tier != 'quick')
        top = 4 if tier == 'quick' else (5 if len(al) <= 9 else 4)
        for n in range(1, top + 1):
            if n == 4 and tier == 'quick':
                al = al[:6]
            cases += [(dt, q) for q in seqs(al, n)]

    def fn(ctx):
        dt, q = ctx.case
        s, lf = run_index(ctx, np.array(q, dtype=dt))
        finish(ctx, s)
        ctx.state((dt, q))
    return Scenario('values', fn, cases=cases)


DIFFS = [100, 103, 104, 97, 96, -100, -103, 0, 10000]


def diffs(tier):
    cases = []
    for dt in ['uint16', 'int16', 'int32', 'float32', 'float64', 'uint32']:
        if tier == 'quick' and dt == 'uint32':
            continue
        for n in range(1, 5 if tier == 'quick' else 6):
            if n == 4 and tier == 'quick' and dt not in ('uint16', 'float32'):
                continue
            cases += [(dt, q) for q in seqs(DIFFS, n)]

    def fn(ctx):
        dt, q = ctx.case
        rep = ctx.choose('repetitions', [1, 30] if len(q) <= 2 else [1])
        a = [1000 if dt[0] != 'f' else 0.5]
        for d in q * rep:
            a.append(a[-1] + d)
        if dt[0] != 'f':
            i = np.iinfo(dt)
            if min(a) < i.min or max(a) > i.max:
                raise Prune('out of range')
        s, lf = run_index(ctx, np.array(a, dtype=dt))
        finish(ctx, s)
        ctx.state((dt, q, rep))
    return Scenario('differences', fn, cases=cases)


# sequences of float64 whose uniformity or order changes when cast or windowed
SHAPES = [
    [1.0, 2.0, 3.0, 4.0, 5.0, 6.0],
    [6.0, 5.0, 4.0, 3.0, 2.0, 1.0],
    [1.0, 2.0, 3.0, 4.0, 50.0, 60.0],
    [9.0, 2.0, 4.0, 6.0, 8.0, 1.0],
    [0.1, 0.2, 0.3, 0.4, 0.5, 0.6],
    [0.4, 1.7, 2.4, 3.6, 4.2, 5.9],
    [7.0, 7.0, 7.0, 7.0, 7.0, 7.0],
    [5.0, 1.0, 3.0, 2.0, 4.0, 0.0],
    [200.0, 100.0, 0.0, 1.0, 2.0, 250.0],
]


LONG_Q = [65, 129, 257, 999, 1000, 1001, 1024, 1025, 2049, 4097, 16385, 65537]
LONG_T = LONG_Q + [100, 127, 128, 255, 256, 512, 513, 2000, 2001, 5000, 8193, 10001, 32769, 131073, 262145]


def long(tier):
    """Long indexes with one thing out of the ordinary far into them."""
    cases = []
    for n in (LONG_Q if tier == 'quick' else LONG_T):
        pos = sorted({0, 1, n // 2, n - 2, n - 1} | {p + d for p in (100, 128, 256, 1000, 1024, 4096, 10000, 16384, 65536) for d in (-1, 0) if p + d < n})
        if tier == 'quick' and n > 5000:
            pos = sorted({0, n // 2, n - 1, n - 2} | {p for p in (1000, 16384, 65535) if p < n})
        cases += [(n, p) for p in pos]
    cases.sort(key=lambda c: -c[0])

    def fn(ctx):
        n, p = ctx.case
        dt = ctx.choose('dtype', ['float64', 'int32'] if n > 5000 and tier == 'quick' else ['float64', 'float32', 'int32', 'uint32'])
        what = ctx.choose('what', ['minimum', 'maximum', 'step', 'turn', 'step back', 'descending step'])
        chunk = ctx.choose('input_chunk_size', [None, 1000] if n < 5000 else [None if p % 2 else 4096])
        a = np.arange(n, dtype=np.int64) * 4 + 1000
        if what == 'minimum':
            a[p] = 1
        elif what == 'maximum':
            a[p] = 5000 + 4 * n
        elif what == 'step':
            a[p:] += 40
        elif what == 'turn':
            a[p:] = a[p] - 4 * np.arange(n - p)
            a += 4 * n
        elif what == 'step back':
            a[p:] -= 2
        elif what == 'descending step':
            a[p:] += 7
            a = a[::-1].copy()
        s = Session()
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        c = s.add(lf, 'channel', 'C', data=a.astype(dt))
        s.log.append(f"   {n} rows, {what} at {p}, {dt}")
        s.add(lf, 'frame', 'F', channels=[c], index_type='BOREHOLE-DEPTH')
        finish(ctx, s, input_chunk_size=chunk)
        ctx.state((n, p, what, dt))
    return Scenario('long', fn, cases=cases)


def subset(u):
    names = ['index_min', 'index_max', 'spacing', 'direction']
    return [n for i, n in enumerate(names) if u >> i & 1]


EXPLS = {'odd': {'index_min': -3.5, 'index_max': 77, 'spacing': 0.25, 'direction': 'DECREASING'},
         'zero': {'index_min': 0, 'index_max': 0.0, 'spacing': 0, 'direction': ''},
         'numpy': {'index_min': np.float64(0.0), 'index_max': np.int32(0), 'spacing': np.float64(-0.0), 'direction': 'INCREASING'}}


def options(tier):
    def fn(ctx):
        sh = ctx.choose('shape', list(range(len(SHAPES))))
        dt = ctx.choose('dtype', ['float64', 'float32', 'int16', 'uint8'])
        it = ctx.choose('index type', ['BOREHOLE-DEPTH', None, 'NON-STANDARD-X', 'set later'], dev=True)
        cast = ctx.choose('cast', [None, 'int32', 'uint8', 'float32', 'int8'], dev=True)
        ex = ctx.choose('explicit', list(range(16)), dev=True)
        EXPL = EXPLS[ctx.choose('explicit values', list(EXPLS), dev=True)] if ex else None
        route = ctx.choose('explicit set', ['at creation', 'later', 'before units'], dev=True)
        un = ctx.choose('units', [None, 'm', 'explicit ft'], dev=True)
        win = ctx.choose('window', [(0, None), (1, 5), (0, 2), (3, 4), (5, None), (1, 4), (4, 6)], dev=True)
        src = ctx.choose('source', D.SOURCES, dev=True)
        chunk = ctx.choose('chunk', [None, 1, 4], dev=True)
        again = ctx.choose('also', ['one write', 'same again', 'other window first', 'other rows first', 'second frame', 'explicit removed again'], dev=True)
        a = np.array(SHAPES[sh]).astype(dt)
        if cast == 'int8' and a.max() > 127:
            a = (a / 2).astype(dt)
        arrays = {'C': a, 'N': np.arange(len(a), dtype=np.uint8), 'D': a[::-1].copy(), 'M': np.arange(len(a), dtype=np.uint16)}
        inl = src == 'inline'
        s = Session()
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        c = s.add(lf, 'channel', 'C', data=a if inl else None, cast_dtype=np.dtype(cast).type if cast else None,
                  units='m' if un else None)
        s.log.append(f"   C = {a.tolist()} {a.dtype}")
        n = s.add(lf, 'channel', 'N', data=arrays['N'] if inl else None)
        fkw = {'index_type': it if it != 'set later' else None}
        if route == 'at creation':
            for k in subset(ex):
                fkw[k] = A(EXPL[k], 'ft') if un == 'explicit ft' and k != 'direction' else EXPL[k]
        f = s.add(lf, 'frame', 'F', channels=[c, n], **fkw)
        if it == 'set later':
            s.set(f, 'index_type', 'value', 'BOREHOLE-DEPTH')
        if route != 'at creation':
            for k in subset(ex):
                s.set(f, k, 'value', EXPL[k])
                if un == 'explicit ft' and k != 'direction':
                    s.set(f, k, 'units', 'ft')
        if again == 'second frame':
            d = s.add(lf, 'channel', 'D', data=arrays['D'] if inl else None)
            m = s.add(lf, 'channel', 'M', data=arrays['M'] if inl else None)
            s.add(lf, 'frame', 'G', channels=[d, m], index_type='VERTICAL-DEPTH')
        if again == 'other window first':
            finish(ctx, s, data=D.make_source(src, arrays), from_idx=2, to_idx=4)
        if again == 'other rows first':
            if inl:
                arr2 = {'C': (a[::-1] / 2).astype(dt)}
                finish(ctx, s, data=arr2)
            else:
                finish(ctx, s, data=D.make_source(src, {k: v[:3] for k, v in arrays.items()}))
        if again == 'explicit removed again':
            finish(ctx, s, data=D.make_source(src, arrays))
            for k in subset(ex):
                try:
                    s.set(f, k, 'value', None)
                except Exception:
                    pass                # values which cannot be taken back stay explicit
        kw = dict(data=D.make_source(src, arrays), from_idx=win[0], to_idx=win[1], input_chunk_size=chunk)
        r = finish(ctx, s, **kw)
        if r is not None:
            p = lib.parse(s, r)
            v = lib.match(s, p)[0]
            want = len(a[win[0]:win[1]])
            nfr = len(v.m.of('frame'))
            if len(v.lf.iflrs) != want * nfr:
                s.fail('row-count', f"{len(v.lf.iflrs)} records for {nfr} frames of {want} rows")
            for k in ('index_min', 'index_max', 'spacing'):
                at = v.map[f].attrs[lib.KINDS['frame'][2][k][0]]
                if k in f.units and k in f.vals and at.units != f.units[k]:
                    s.fail('explicit', f"units of {k}: {at.units!r}, the user set {f.units[k]!r}")
            if again == 'same again' and finish(ctx, s, **kw) != r:
                s.fail('second write', 'the second write gives another file')
        ctx.state((sh, dt, it, cast, ex, win))
    return fn


def scenarios(tier):
    return [long(tier), values(tier), diffs(tier), Scenario('options', options(tier), bound=2 if tier == 'quick' else 3)]
