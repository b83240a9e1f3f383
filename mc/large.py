"""Large instances: one dimension of a specification at a time takes every size 2^k - 1, 2^k, 2^k + 1 up to a bound, everything else
stays small.  Counters, length fields, caches and buffers of the implementation have their limits at such sizes; the judge is that of
the check which uses the scenario."""
import numpy as np

from . import lib, sizes
from .engine import Scenario, Prune


def pow2(lo, hi, step=1, extra=()):
    l = {1 << k for k in range(lo, hi + 1, step)}
    return sorted({x + d for x in l for d in (-1, 0, 1) if x + d > 0} | set(extra))


# dimension -> (highest power of two quick, thorough)
DIMS = {'row width': (18, 21), 'row bytes': (18, 21), 'rows': (16, 18), 'narrow rows': (17, 19), 'channels': (11, 13), 'frames': (9, 10),
        'objects': (11, 12), 'sets': (10, 11), 'logical files': (8, 10), 'origins': (9, 10), 'numbers': (16, 18), 'texts': (15, 17),
        'references': (11, 12), 'text': (18, 22), 'payloads': (14, 16), 'payload': (19, 23), 'zones and values': (11, 12),
        'dimensions': (17, 18), 'shared channel': (9, 9)}
LOW = {'logical files': 5, 'frames': 5, 'origins': 5}


def build(dim, n, s):
    """Fill the session; keyword arguments of the write."""
    kw = {}
    if dim == 'logical files':
        for i in range(n):
            lf = s.lf(fh_sequence_number=i + 1)
            lib.minimal(s, lf, rows=1 + i % 3, name=str(i % 2), sets=f"S{i}", origin_kw=dict(origin_reference=i) if i % 2 else None)
        return kw
    if dim == 'origins':
        lf = s.lf()
        for i in range(n):
            s.add(lf, 'origin', f"O{i}", **lib.BASE_ORIGIN)
        s.add(lf, 'zone', 'LAST', origin_reference=n - 1, description='d')
        s.add(lf, 'zone', 'FIRST', description='d')
        c = s.add(lf, 'channel', 'C', data=np.arange(2.0), origin_reference=n // 2)
        s.add(lf, 'frame', 'F', channels=[c], origin_reference=n - 1)
        return kw
    if dim in ('rows', 'narrow rows'):
        i = np.arange(n)
        if dim == 'rows':
            lf, c, fr = lib.minimal(s, data=i * 0.5)
            d = s.add(lf, 'channel', 'D', data=(i % 251).astype('uint8'))
            e = s.add(lf, 'channel', 'E', data=(i[:, None] * np.array([1, -3, 70000])).astype('>i4'))
            s.add(lf, 'frame', 'G', channels=[d, e], index_type='NON-STANDARD')
            kw['input_chunk_size'] = 1000
        else:
            lib.minimal(s, data=((i * 7 + (i >> 8)) % 256).astype('uint8'))
        return kw
    lf, c, fr = lib.minimal(s)
    add = lambda kind, name, **k: s.add(lf, kind, name, **k)
    if dim == 'row width':
        d = add('channel', 'W', data=(np.arange(2 * n) * 37 % 256).astype('uint8').reshape(2, n))
        add('frame', 'W', channels=[d])
    elif dim == 'row bytes':
        w = max(1, n // 8)
        a = add('channel', 'W', data=(np.arange(3 * w) * 1.1).reshape(3, w))
        b = add('channel', 'V', data=(np.arange(3 * 5) * 1001).astype('<u2').reshape(3, 5))
        add('frame', 'W', channels=[b, a])
    elif dim == 'channels':
        dt = ['float64', 'uint8', '>i2', 'float32', '<u4', 'int8']
        cs = [add('channel', f"X{i}", data=np.arange(i, i + 2).astype(dt[i % 6])) for i in range(n)]
        add('frame', 'W', channels=cs)
    elif dim == 'frames':
        for i in range(n):
            add('frame', f"W{i}", channels=[add('channel', f"X{i}", data=np.arange(2.0 + i % 3) + i)])
    elif dim == 'shared channel':
        for i in range(n):
            add('frame', f"W{i}", channels=[c])
    elif dim == 'objects':
        for i in range(n):
            add('zone', f"Z{i}", description=f"number {i}", maximum=float(i))
    elif dim == 'sets':
        for i in range(n):
            add('zone', f"Z{i // 256}", set_name=f"S{i}", maximum=float(i))
    elif dim == 'numbers':
        add('axis', 'AX', coordinates=[i * 0.5 for i in range(n)])
        add('zone', 'AFTER', description='d')
    elif dim == 'texts':
        add('comment', 'K', text=[f"text {i}" for i in range(n)])
        add('zone', 'AFTER', description='d')
    elif dim == 'text':
        add('comment', 'K', text=[(sizes.TEXT * (1 + n // len(sizes.TEXT)))[:n], 'short'])
        add('zone', 'AFTER', description='d')
    elif dim == 'references':
        zs = [add('zone', f"Z{i}") for i in range(n)]
        add('group', 'GR', object_list=zs[::-1])
        add('splice', 'SP', zones=zs)
    elif dim == 'zones and values':
        zs = [add('zone', f"Z{i}") for i in range(n)]
        add('parameter', 'P', values=[i * 1.5 for i in range(n)], zones=zs)
        add('computation', 'CP', values=[i * 1.5 for i in range(n)], zones=zs)
    elif dim == 'payloads':
        nf = add('no_format', 'N')
        m = add('no_format', 'M')
        for i in range(n):
            s.nofmt(lf, nf if i % 3 else m, sizes.BLOB[i:i + i % 40])
    elif dim == 'payload':
        nf = add('no_format', 'N')
        s.nofmt(lf, nf, b'first')
        s.nofmt(lf, nf, (sizes.BLOB * (1 + n // len(sizes.BLOB)))[:n])
        s.nofmt(lf, nf, b'last')
    elif dim == 'dimensions':
        # a channel whose dimension has to say n, among others
        d = add('channel', 'W', data=np.arange(2 * n).astype('uint16').reshape(2, n), element_limit=[n], axis=[add('axis', 'A', coordinates=list(range(n)))])
        add('frame', 'W', channels=[d])
    else:
        raise Prune('no such dimension')
    return kw


def cases(dims, tier):
    out = []
    for d in dims:
        hi = DIMS[d][0 if tier == 'quick' else 1]
        out += [(d, n) for n in pow2(LOW.get(d, 6), hi)]
    # the expensive ones first
    return sorted(out, key=lambda c: -c[1])


def scenario(judge, dims, tier, name='large', vrls=None):
    """judge(ctx, session, bytes)"""
    cs = cases(dims, tier)
    vr = vrls or ([8192] if tier == 'quick' else [8192, 16384, 512])

    def fn(ctx):
        dim, n = ctx.choose('what', cs, names=[f"{d} = {k}" for d, k in cs])
        vrl = ctx.choose('record length', vr)
        s = lib.Session(max_record_length=vrl)
        kw = build(dim, n, s)
        r = lib.write_ok(s, output_chunk_size=1 << 16, **kw)
        judge(ctx, s, r)
        ctx.validated_trace()
        ctx.outcome('judged')
    return Scenario(name, fn)


def bounds(dims):
    return 'one of ' + ', '.join(f"{d} (to 2^{DIMS[d][0]}, thorough 2^{DIMS[d][1]})" for d in dims) + ' at every size 2^k-1, 2^k, 2^k+1'
