"""C02 Segmentation is lossless, ordered and correctly bracketed."""
from .. import large, lib, rp66, sizes
from ..engine import Scenario

LARGE = ['row width', 'row bytes', 'payload', 'rows', 'payloads', 'channels']
BOUNDS = {'quick': 'the segmentation space of C01 (104 record lengths x body-length windows, explicit + no-format + frame-data '
                   'records); sequences of up to 4 records over 6 body-length classes (first two exhaustive, at most 1 further deviation) at 6 record lengths; every output chunk '
                   'size class and input chunk size 1, 2, all',
          'thorough': 'the thorough segmentation space of C01; sequences of up to 6 records'}
BOUNDS['quick'] += '; ' + large.bounds(LARGE)
ASSUMPTIONS = ['bodies of explicitly formatted records: the same specification written with record length 16384 (where each '
               'fits one segment) gives the bodies; bodies of indirectly formatted records come from the specification']


def judge(s, data, ref=None):
    """data: the file; ref: list of (is_eflr, type, body) the writer was given for the explicit records."""
    try:
        sul, vrs, segs = rp66.parse_physical(data)
        recs = rp66.reassemble(segs)
    except rp66.FormatError as e:
        s.fail('format:' + e.kind, e.msg)
    return segs, recs


def records(s, data):
    segs, recs = judge(s, data)
    return segs, [(r.eflr, r.type, bytes(r.body)) for r in recs]


def reference(s, build):
    """The record sequence of the same specification when every record fits one segment."""
    s2 = build(16384)
    st, r = s2.write()
    if st == 'err':
        return None, None
    segs, recs = judge(s2, r)
    if len(segs) != len(recs):
        return None, None
    f = rp66.parse_file(r)
    views = lib.match(s2, f)
    recs = [(x.eflr, x.type, bytes(x.body)) for x in recs]
    return recs, views[0]


def compare(s, vrl, recs, ref):
    if len(recs) != len(ref):
        s.fail('record-count', f"{len(recs)} records instead of {len(ref)} at record length {vrl}")
    for i, (a, b) in enumerate(zip(recs, ref)):
        if a[:2] != b[:2]:
            s.fail('record-type', f"record {i} is {a[:2]} instead of {b[:2]}")
        if a[2] != b[2]:
            j = next((k for k, (x, y) in enumerate(zip(a[2], b[2])) if x != y), min(len(a[2]), len(b[2])))
            s.fail('record-body', f"record {i} {a[:2]}: {len(a[2])} bytes instead of {len(b[2])}, first difference at {j}: "
                                  f"{a[2][j:j + 16].hex()} instead of {b[2][j:j + 16].hex()}")


def lengths(tier):
    def fn(ctx):
        vrl = ctx.choose('max_record_length', sizes.vrls(tier))
        lens = ctx.choose('body lengths', sizes.windows(vrl, tier))

        def build(v):
            return sizes.build(v, lens)
        s = build(vrl)
        st, r = s.write()
        if st == 'err':
            ctx.outcome('write raised (judged by C15): ' + lib.exc_name(r))
            return
        segs, recs = records(s, r)
        ref, view = None, None
        if max(lens) < 16300 and vrl != 16384:
            ref, view = reference(s, build)
        if ref is not None:
            compare(s, vrl, recs, ref)
        try:
            f = rp66.parse_file(r)
        except rp66.FormatError as e:
            s.fail('format:' + e.kind, e.msg)
        v = lib.match(s, f)[0]
        exp = sizes.expected_iflrs(s, v)
        got = [x for x in recs if not x[0]]
        compare(s, vrl, got, exp)
        if [x[0] for x in recs] != [True] * (len(recs) - len(exp)) + [False] * len(exp):
            s.fail('record-order', 'explicit and indirect records are not in the order given')
        for sg in segs:
            ctx.state((vrl, sg.length, sg.attrs, sg.pad))
        ctx.validated_trace(len(recs))
        ctx.step(len(segs))
        ctx.outcome('lossless' + ('' if ref is None else ' (explicit records too)'))
    return fn


def sequences(tier):
    n = 4 if tier == 'quick' else 6

    def fn(ctx):
        vrl = ctx.choose('max_record_length', [44, 20, 32, 34, 64, 256])
        cap = vrl - 8
        classes = sorted({4, 11, cap - 1, cap, cap + 1, 2 * cap + 1} if cap > 13 else {4, 11, 12, 13, 24, 25})
        k = ctx.choose('records', list(range(1, n + 1)))
        lens = []
        for i in range(k):
            lens.append(ctx.choose(f'body length {i}', classes, dev=i > 1))
        oc = ctx.choose('output_chunk_size', [1 << 15, vrl], dev=True)
        ic = ctx.choose('input_chunk_size', [None, 1], dev=True)

        def build(v):
            return sizes.build(v, lens)
        s = build(vrl)
        st, r = s.write(output_chunk_size=oc, input_chunk_size=ic)
        if st == 'err':
            ctx.outcome('write raised (judged by C15): ' + lib.exc_name(r))
            return
        segs, recs = records(s, r)
        ref, view = reference(s, build)
        if ref is not None:
            compare(s, vrl, recs, ref)
        ctx.validated_trace(len(recs))
        ctx.step(len(segs))
        ctx.outcome('lossless')
    return fn


def whole(ctx, s, r):
    segs, recs = records(s, r)
    try:
        f = rp66.parse_file(r)
    except rp66.FormatError as e:
        s.fail('format:' + e.kind, e.msg)
    compare(s, s.kw['max_record_length'], [x for x in recs if not x[0]], sizes.expected_iflrs(s, lib.match(s, f)[0]))


def scenarios(tier):
    return [Scenario('lengths', lengths(tier)), Scenario('sequences', sequences(tier), bound=1 if tier == 'quick' else 3),
            large.scenario(whole, LARGE, tier, vrls=[8192, 60] if tier == 'quick' else None)]
