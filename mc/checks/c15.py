"""C15 Writability never hinges on byte-size coincidences."""
import numpy as np
from .. import large, lib, rp66, sizes
from ..engine import Scenario
from . import c02

LARGE = ['row width', 'row bytes', 'text', 'payload', 'numbers', 'texts', 'channels', 'payloads']
BOUNDS = {'quick': 'the segmentation space of C01; every even record length 20..16384 with a minimal file (8183 files); frames '
                   'of one 1..3-byte channel and no-format payloads of 0..14 bytes under names of 1..9 characters, at 6 '
                   'record lengths; every output_chunk_size from the record length to 3 record lengths; names, ids, labels and units of every length',
          'thorough': 'thorough segmentation space; every even record length with short, odd and multi-segment records'}
BOUNDS['quick'] += '; ' + large.bounds(LARGE)
ASSUMPTIONS = ['the specifications of the space are valid (each is written successfully at record length 16384)']


def decode(s, vrl, r):
    segs, recs = c02.records(s, r)
    try:
        f = rp66.parse_file(r)
    except rp66.FormatError as e:
        s.fail('format:' + e.kind, e.msg)
    v = lib.match(s, f)[0]
    c02.compare(s, vrl, [x for x in recs if not x[0]], sizes.expected_iflrs(s, v))
    return segs, recs


def lengths(tier):
    def fn(ctx):
        vrl = ctx.choose('max_record_length', sizes.vrls(tier))
        lens = ctx.choose('body lengths', sizes.windows(vrl, tier))
        s = sizes.build(vrl, lens)
        r = lib.write_ok(s)
        segs, recs = decode(s, vrl, r)
        for x in segs:
            ctx.state((vrl, x.length, x.attrs, x.pad))
        ctx.validated_trace(len(recs))
        ctx.outcome('written and decoded')
    return fn


def every_length(tier):
    def fn(ctx):
        hi = ctx.choose('record length / 512', list(range(32)))
        vrl = ctx.choose('record length', [v for v in range(max(20, hi * 512), (hi + 1) * 512, 2)] + ([16384] if hi == 31 else []))
        cap = vrl - 8
        lens = [4, 5] if tier == 'quick' else [4, 5, 11, cap - 1, cap, cap + 1, cap + 11, 2 * cap - 1]
        s = sizes.build(vrl, lens, texts=tier != 'quick')
        r = lib.write_ok(s)
        segs, recs = decode(s, vrl, r)
        ctx.validated_trace(len(recs))
        ctx.outcome('written and decoded')
    return fn


def chunks(tier):
    """Every output chunk size from the record length up: none is refused, none changes whether the file can be written."""
    def fn(ctx):
        vrl = ctx.choose('record length', [20, 22, 24, 30, 32, 64, 256, 8192, 16384] + ([] if tier == 'quick' else [26, 28, 34, 36, 48, 128, 1024]))
        hi = 3 * vrl + 90
        near = [(x + d) for x in (vrl, vrl + 80, 2 * vrl, 2 * vrl + 80, 3 * vrl) for d in range(-9, 10) if x + d >= vrl]
        ocs = ctx.choose('output_chunk_size', list(range(vrl, hi)) if vrl <= (64 if tier == 'quick' else 256) else sorted(set(near)))
        cap = vrl - 8
        lens = ctx.choose('body lengths', [[4], [5, cap - 1], [cap, cap + 1, 2 * cap]])
        as_float = ctx.choose('given as', ['int', 'float'], dev=True)
        s = sizes.build(vrl, lens, texts=len(lens) == 2)
        r = lib.write_ok(s, output_chunk_size={'int': int, 'float': float}[as_float](ocs))
        segs, recs = decode(s, vrl, r)
        ctx.validated_trace(len(recs))
        ctx.outcome('written and decoded')
    return fn


def labels(tier):
    """Set identifiers, header ids and names of every length they may have, so that the fixed records take every size."""
    def fn(ctx):
        vrl = ctx.choose('record length', [20, 22, 128, 8192])
        what = ctx.choose('what', ['set identifier', 'header id', 'channel', 'frame', 'set name', 'units', 'text'])
        n = ctx.choose('length', [1, 2, 3] + list(range(4, 60 if what in ('set identifier', 'header id') else 256, 1 if tier != 'quick' else 5)) +
                       ([59, 60] if what == 'set identifier' else [64, 65] if what == 'header id' else [126, 127, 128, 129, 253, 254, 255]))
        t = 'T' * n
        s = lib.Session(max_record_length=vrl, **({'set_identifier': t} if what == 'set identifier' else {}))
        lf = s.lf(t if what == 'header id' else 'FILE-HEADER')
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        c = s.add(lf, 'channel', t if what == 'channel' else 'C', data=np.arange(3, dtype='uint8'),
                  set_name=t if what == 'set name' else None)
        s.add(lf, 'frame', t if what == 'frame' else 'F', channels=[c])
        if what == 'units':
            s.add(lf, 'parameter', 'P', values=lib.A([1.5], t))
        if what == 'text':
            s.add(lf, 'comment', 'K', text=[t])
        r = lib.write_ok(s)
        segs, recs = decode(s, vrl, r)
        for x in segs:
            ctx.state((vrl, x.length, x.attrs, x.pad))
        ctx.validated_trace(len(recs))
        ctx.outcome('written and decoded')
    return fn


def short(tier):
    """Frames and no-format records whose whole body is shorter than a segment's minimum."""
    def fn(ctx):
        vrl = ctx.choose('vrl', [8192, 20, 22, 30, 32, 256] + ([] if tier == 'quick' else [24, 26, 28, 34, 36, 40, 44]))
        nm = 'N' * ctx.choose('name length', [1, 2, 3, 4, 5, 6, 7, 8, 9])
        dt = ctx.choose('dtype', ['uint8', 'uint16', 'int8', 'float32'])
        w = ctx.choose('width', [0, 1, 2, 3])
        nrows = ctx.choose('rows', [1, 2, 130] if tier != 'quick' else [1, 2])
        s = lib.Session(max_record_length=vrl)
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        a = np.frombuffer(sizes.BLOB[:max(1, w) * nrows * 4], dtype='uint8').astype(dt)[:max(1, w) * nrows]
        c = s.add(lf, 'channel', 'C', data=a.reshape((nrows, w)) if w else a)
        s.add(lf, 'frame', nm, channels=[c])
        nf = s.add(lf, 'no_format', nm)
        for n in range(0, 15):
            s.nofmt(lf, nf, sizes.BLOB[n:2 * n] if n % 2 else 'z' * n)
        r = lib.write_ok(s)
        segs, recs = decode(s, vrl, r)
        for x in segs:
            ctx.state((vrl, x.length, x.attrs, x.pad))
        ctx.validated_trace(len(recs))
        ctx.outcome('written and decoded')
    return fn


def scenarios(tier):
    return [Scenario('lengths', lengths(tier)), Scenario('every_length', every_length(tier)), Scenario('short', short(tier)),
            Scenario('chunks', chunks(tier), bound=1), Scenario('labels', labels(tier)),
            large.scenario(lambda ctx, s, r: decode(s, s.kw['max_record_length'], r), LARGE, tier, vrls=[20, 16384] if tier == 'quick' else [20, 22, 8192, 16384])]
