"""C16 No-format payloads come back exactly, in order, under their object."""
from .. import lib, rp66, sizes
from ..engine import Scenario

PAY = [b'', b'\x01', b'ab', 'text', b'\x01\x01\x01', b'\x00' * 5, b'x\x02\x02', bytearray(b'\xff\xfe'), 'A' * 11, b'q' * 12,
       bytes(range(256)), b'\x03' * 300]

BOUNDS = {'quick': 'payload lengths: the segmentation space of C01 (0..5 records of capacity) as bytes/bytearray/str; all '
                   'sequences of up to 3 (payload, object) additions over 12 payload classes and 3 objects (2 sharing a set, 1 '
                   'in another; also same-named) at 3 record lengths; two logical files; writes repeated; sizes 2^k-1..2^k+1 for k = 8..22 x '
                   '3 kinds x 3 record lengths x 2 output chunks',
          'thorough': 'thorough segmentation space; sequences of up to 4; sizes up to 2^25'}
ASSUMPTIONS = ['the strict reader drops exactly the flagged pad bytes']


def view(s, r):
    f = lib.parse(s, r)
    vs = lib.match(s, f)
    for v in vs:
        lib.check_nofmt(v)
    return f, vs


def lengths(tier):
    def fn(ctx):
        vrl = ctx.choose('max_record_length', sizes.vrls(tier))
        lens = ctx.choose('body lengths', sizes.windows(vrl, tier))
        s = sizes.build(vrl, lens, rows=False, texts=False)
        st, r = s.write()
        if st == 'err':
            ctx.outcome('write raised (judged by C15): ' + lib.exc_name(r))
            return
        view(s, r)
        ctx.validated_trace(len(lens))
        ctx.outcome('exact')
    return fn


def asciis(tier):
    def fn(ctx):
        vrl = ctx.choose('vrl', [8192, 44, 64, 16384])
        form = ctx.choose('form', ['str', 'bytes', 'bytearray'])
        base = ctx.choose('length / 64', list(range(0, 18)))
        s = lib.Session(max_record_length=vrl)
        lf, c, fr = lib.minimal(s)
        nf = s.add(lf, 'no_format', 'NOFORM')
        for n in range(base * 64, base * 64 + 64):
            t = sizes.TEXT[n % 7:n % 7 + n]
            s.nofmt(lf, nf, t if form == 'str' else (t.encode() if form == 'bytes' else bytearray(t.encode())))
        r = lib.write_ok(s)
        view(s, r)
        ctx.validated_trace(64)
        ctx.outcome('exact')
    return fn


def sequences(tier):
    n = 3 if tier == 'quick' else 4

    def fn(ctx):
        vrl = ctx.choose('vrl', [8192, 44, 300])
        layout = ctx.choose('objects', ['one', 'two in a set', 'two sets', 'same name'])
        k = ctx.choose('additions', list(range(1, n + 1)))
        s = lib.Session(max_record_length=vrl)
        lf, c, fr = lib.minimal(s)
        objs = [s.add(lf, 'no_format', 'A')]
        if layout == 'two in a set':
            objs.append(s.add(lf, 'no_format', 'B', consumer_name='B', description='other'))
        elif layout == 'two sets':
            objs.append(s.add(lf, 'no_format', 'B', set_name='SECOND'))
        elif layout == 'same name':
            objs.append(s.add(lf, 'no_format', 'A'))
        for i in range(k):
            o = ctx.choose(f'object {i}', objs, names=[repr(x) for x in objs])
            p = ctx.choose(f'payload {i}', PAY, dev=i > 0, names=[f"{type(x).__name__}{len(x)}" for x in PAY])
            s.nofmt(lf, o, p)
        twice = ctx.choose('write twice', [False, True], dev=True)
        r = lib.write_ok(s)
        view(s, r)
        if twice:
            r = lib.write_ok(s)
            view(s, r)
        ctx.state(tuple((repr(h), p) for h, p in lf.nofmt))
        ctx.outcome('exact, in order')
    return fn


def multi(tier):
    def fn(ctx):
        n = ctx.choose('logical files', [1, 2, 3])
        s = lib.Session()
        lfs = []
        for i in range(n):
            lf, c, fr = lib.minimal(s, sets=f"S{i}", fh_id=f"H{i}", fh_sequence_number=i + 1)
            nf = s.add(lf, 'no_format', 'NF', set_name=f"S{i}")
            lfs.append((lf, nf))
        for j in range(ctx.choose('additions', [0, 1, 2, 3, 4])):
            lf, nf = ctx.choose(f'where {j}', lfs, names=list(range(n)))
            s.nofmt(lf, nf, ctx.choose(f'payload {j}', [f"p{j}".encode(), b'', b'\x01' * 13], dev=True))
        late = ctx.choose('late', [None, 'after write'])
        if late:
            lib.write_ok(s)
            s.nofmt(lfs[0][0], lfs[0][1], 'late')
        r = lib.write_ok(s)
        view(s, r)
        ctx.outcome('exact, in order')
    return fn


def caller(tier):
    """A payload given as a bytearray is what it was when it was added, or what it is when written - never half."""
    def fn(ctx):
        p = ctx.choose('payload', [b'', b'x', b'hello', b'\x01' * 40])
        s = lib.Session()
        lf, c, fr = lib.minimal(s)
        nf = s.add(lf, 'no_format', 'A')
        arr = bytearray(p)
        s.nofmt(lf, nf, arr)
        r = lib.write_ok(s)
        view(s, r)
        if bytes(arr) != p:
            s.fail('payload-changed', f"the caller's bytearray is now {bytes(arr)!r}")
        r = lib.write_ok(s)
        view(s, r)
        ctx.outcome('exact')
    return fn


def large(tier):
    """Payload sizes around every power of two."""
    top = 22 if tier == 'quick' else 25
    ns = sorted({max(0, (1 << k) + d) for k in range(8, top + 1) for d in (-1, 0, 1)} | {70000, 100000, 1000000})

    def fn(ctx):
        vrl = ctx.choose('vrl', [8192, 16384, 100])
        n = ctx.choose('length', ns if vrl > 100 else [x for x in ns if x < 70000])
        kind = ctx.choose('kind', ['bytes', 'bytearray', 'str'])
        chunk = ctx.choose('output chunk', [1 << 17, vrl], names=['131072', 'one record'])
        t = (sizes.TEXT * (n // len(sizes.TEXT) + 1))[:n]
        s = lib.Session(max_record_length=vrl)
        lf, c, fr = lib.minimal(s)
        nf = s.add(lf, 'no_format', 'A')
        s.nofmt(lf, nf, 'before')
        s.nofmt(lf, nf, t if kind == 'str' else bytes(t, 'ascii') if kind == 'bytes' else bytearray(t, 'ascii'))
        s.nofmt(lf, nf, b'after')
        r = lib.write_ok(s, output_chunk_size=chunk)
        view(s, r)
        ctx.state((vrl, n, kind, chunk))
        ctx.outcome('exact')
    return fn


def text(tier):
    """Text that has no ASCII encoding must be refused somewhere."""
    def fn(ctx):
        t = ctx.choose('text', ['caf\u00e9', '\u20ac' * 20, 'x' * 50 + '\x80', '\ud800'])
        s = lib.Session()
        lf, c, fr = lib.minimal(s)
        nf = s.add(lf, 'no_format', 'A')
        try:
            lf.real.add_no_format_frame_data(nf.real, t)
        except Exception as e:
            ctx.outcome('rejected when added')
            return
        st, r = s.write()
        if st == 'ok':
            s.fail('non-ascii', f"a file was written although {t!r} has no ASCII encoding")
        ctx.outcome('rejected when written')
    return fn


def scenarios(tier):
    return [Scenario('lengths', lengths(tier)), Scenario('asciis', asciis(tier)),
            Scenario('sequences', sequences(tier), bound=1 if tier == 'quick' else 2),
            Scenario('multi', multi(tier), bound=1 if tier == 'quick' else 3), Scenario('caller', caller(tier)), Scenario('large', large(tier)), Scenario('text', text(tier))]
