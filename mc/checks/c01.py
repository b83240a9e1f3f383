"""C01 Physical layout."""
from .. import large, lib, rp66, sizes
from ..engine import Scenario, Violation

LARGE = ['row width', 'row bytes', 'text', 'payload', 'numbers', 'texts', 'channels', 'objects', 'references', 'payloads']
BOUNDS = {'quick': 'max record length: 104 even values 20..16384 (all of 20..148); body lengths 0..5*capacity+30 exhaustively '
                   'for capacity<=64, k*capacity +-20 (k<=3) and 0..39 otherwise; every record kind (explicit, no-format, '
                   'frame data); label: identifier lengths 0..60, sequence numbers at digit boundaries; chunk sizes',
          'thorough': 'as quick with 1341 record lengths (all even 20..2198, every 58th up to 16384), body lengths up to '
                      '9*capacity and 40..400'}
BOUNDS['quick'] += '; ' + large.bounds(LARGE)
ASSUMPTIONS = ['the strict framing parser (mc/rp66.py) implements RP66 V1 chapter 2 correctly']


def judge(s, data, vrl):
    try:
        f = rp66.DLIS()
        f.sul, f.vrs, f.segs = rp66.parse_physical(data)
    except rp66.FormatError as e:
        s.fail('format:' + e.kind, e.msg)
    lib.check_sul(s, f)
    if f.sul.maxlen != vrl:
        s.fail('sul', f"label declares {f.sul.maxlen}, configured {vrl}")
    if sum(L for _, L in f.vrs) + 80 != len(data):
        s.fail('tiling', 'visible records do not cover the file')
    return f


def lengths(tier):
    def fn(ctx):
        vrl = ctx.choose('max_record_length', sizes.vrls(tier))
        lens = ctx.choose('body lengths', sizes.windows(vrl, tier))
        s = sizes.build(vrl, lens)
        st, r = s.write()
        if st == 'err':
            ctx.outcome('write raised (not judged here): ' + lib.exc_name(r))
            return
        f = judge(s, r, vrl)
        for sg in f.segs:
            ctx.state((vrl, sg.length, sg.attrs, sg.pad))
        ctx.validated_trace(3 * len(lens))
        ctx.step(len(f.segs))
        ctx.outcome('well-formed')
    return fn


def label(tier):
    idents = ['A' * n for n in range(0, 61)] + ['X Y', '  lead', 'trail  ', "it's ~", 'MAIN-STORAGE-UNIT']

    def fn(ctx):
        dev = ctx.choose('what varies', ['identifier', 'sequence', 'both'])
        ident = ctx.choose('set_identifier', idents if dev == 'identifier' else idents[:2] + idents[59:])
        seq = ctx.choose('sequence', [1] if dev == 'identifier' else [1, 2, 9, 10, 99, 100, 999, 1000, 9999])
        vrl = ctx.choose('vrl', [20, 24, 98, 100, 102, 998, 1000, 9998, 10000, 16384] if dev != 'identifier' else [8192, 256])
        s = sizes.build(vrl, [14, 33], seq=seq, ident=ident)
        st, r = s.write()
        if st == 'err':
            ctx.outcome('write raised (not judged here): ' + lib.exc_name(r))
            return
        judge(s, r, vrl)
        ctx.outcome('well-formed')
    return fn


def chunks(tier):
    def fn(ctx):
        vrl = ctx.choose('vrl', [20, 24, 32, 64, 128])
        lens = ctx.choose('body lengths', [[1, 12, 13], [vrl - 8, vrl - 7, vrl - 9], [2 * (vrl - 8) + d for d in (-12, -11, -1, 0, 1, 11)]])
        oc = ctx.choose('output_chunk_size', [vrl, vrl + 1, vrl + 2, 2 * vrl - 1, 2 * vrl, 3 * vrl + 7, 1 << 14, float(2 * vrl)])
        ic = ctx.choose('input_chunk_size', [None, 1, 2, 3])
        s = sizes.build(vrl, lens)
        st, r = s.write(output_chunk_size=oc, input_chunk_size=ic)
        if st == 'err':
            ctx.outcome('write raised (not judged here): ' + lib.exc_name(r))
            return
        judge(s, r, vrl)
        ctx.outcome('well-formed')
    return fn


def overlong(tier):
    """Labels and configurations that do not fit: whatever is accepted must still give a well-formed file."""
    def fn(ctx):
        kw = ctx.choose('configuration', [
            dict(max_record_length=v) for v in (18, 19, 21, 16385, 16386, 100000, 8192.0, True)] + [
            dict(sul_sequence_number=v) for v in (0, -1, 10000, 12345, 1.5)] + [
            dict(set_identifier=v) for v in ('A' * 61, 'A' * 200, 'caf\u00e9')])
        try:
            s = lib.Session(**kw)
            lib.minimal(s)
        except Exception as e:
            ctx.outcome('rejected: ' + lib.exc_name(e))
            return
        st, r = s.write()
        if st == 'err':
            ctx.outcome('write rejected: ' + lib.exc_name(r))
            return
        judge(s, r, kw.get('max_record_length', 8192))
        ctx.outcome('accepted and well-formed')
    return fn


def scenarios(tier):
    return [Scenario('lengths', lengths(tier)), Scenario('label', label(tier)), Scenario('chunks', chunks(tier)),
            Scenario('overlong', overlong(tier)),
            large.scenario(lambda ctx, s, r: judge(s, r, s.kw["max_record_length"]), LARGE, tier, vrls=[8192, 128] if tier == 'quick' else None)]
