"""C06 Primitive values are encoded exactly as their representation code prescribes."""
import math
import os
import struct
import time
from datetime import datetime, timezone, timedelta

import numpy as np

from .. import lib, rp66
from ..engine import Scenario, Prune
from ..lib import Session, A

BOUNDS = {
    'quick': 'direct encoder: every value of USHORT, UNORM, SSHORT, SNORM and STATUS (with a margin outside the range), UVARI '
             '0..66000 and +-600 around every length boundary and 2^30, SLONG/ULONG all one- and two-bit patterns +-2 and both '
             'ends of the range, FSINGL every exponent x 24 mantissas x sign, FDOUBL every exponent x 20 mantissas x sign, IDENT '
             'lengths 0..600 and ASCII lengths around each prefix boundary, all 256 characters, DTIME every year 1890..2165, '
             'month, day, hour, minute, second and every millisecond with 7 sub-millisecond offsets, 9 zones; OBNAME/OBJREF: '
             'origin x copy x name-length boundaries; all ordered pairs of values that compare equal but encode '
             'differently. In files: the same boundaries through the public API',
    'thorough': 'as quick with UVARI 0..2^20, three-bit patterns, 200 mantissas, every text length 0..17000'}
ASSUMPTIONS = ['an independent encoder/decoder written from RP66 V1 appendix B (mc/rp66.py)',
               'date-times may be rounded or truncated to the millisecond; floats passed to FSINGL round to nearest']


def enc():
    from dliswriter.utils.internal.struct_writer import write_struct
    from dliswriter.utils.internal.internal_enums import RepresentationCode
    return write_struct, RepresentationCode


def fixed(code, fmt):
    def e(v):
        return struct.pack(fmt, v)
    return e


def bits(n, three=False):
    out = set()
    for i in range(n):
        for j in range(i, n):
            b = (1 << i) | (1 << j)
            for d in (-2, -1, 0, 1, 2):
                out.add(b + d)
            if three:
                for k in range(j + 1, n):
                    out.add(b | (1 << k))
    return out


def values(tier):
    """code -> list of values; each value either has an encoding by the standard or none."""
    th = tier != 'quick'
    iv = {}
    iv['USHORT'] = list(range(-300, 600)) + [65536, 65791, -65536, 1 << 32]
    iv['UNORM'] = list(range(-300, 66200)) + [1 << 32, -65536, (1 << 32) + 7]
    iv['SSHORT'] = list(range(-600, 600))
    iv['SNORM'] = list(range(-33200, 33200)) + [65536, -65536, 1 << 32]
    b32 = bits(33, th)
    iv['ULONG'] = sorted(b32 | {(1 << 32) - k for k in range(300)} | {(1 << 32) + k for k in range(300)} |
                         {-k for k in range(300)})
    iv['SLONG'] = sorted(b32 | {-x for x in b32} | {(1 << 31) - k for k in range(-300, 300)} |
                         {-(1 << 31) - k for k in range(-300, 300)})
    uv = set(range(0, 1 << 20 if th else 66000)) | {x for x in bits(31, th)}
    for c in (128, 16384, 1 << 16, 1 << 22, 1 << 24, 1 << 30, 1 << 31, 1 << 32):
        uv |= set(range(max(-600, c - 600), c + 600))
    uv |= set(range(-600, 0))
    iv['UVARI'] = sorted(uv)
    iv['STATUS'] = list(range(-300, 600)) + [0.5, 0.999, 2.0, -1.0, float('nan')]
    return iv


def expected_int(code, v):
    """Standard encoding, or None if there is none."""
    if isinstance(v, float) and not v.is_integer() or isinstance(v, float) and math.isnan(v):
        return None
    if code == 'UVARI':
        return rp66.e_uvari(v) if 0 <= v < 1 << 30 else None
    if code == 'STATUS':
        return bytes([int(v)]) if v in (0, 1) else None
    fmt, n = rp66.FIXED[rp66.REPC_NUM[code]]
    try:
        return struct.pack(fmt, v)
    except struct.error:
        return None


def fail(ctx, sig, msg):
    from ..engine import Violation
    raise Violation(sig, msg)


def one(ctx, ws, code, v, exp, show=None):
    """Encode one value with the library and compare with the standard's encoding (None: must be refused)."""
    show = show if show is not None else repr(v)[:120]
    try:
        got = ws(code, v)
    except Exception as e:
        if exp is not None:
            fail(ctx, f"rejected:{code.name}", f"{code.name} {show} raised {type(e).__name__}: {e}"[:300])
        return 'rejected'
    if exp is None:
        fail(ctx, f"accepted:{code.name}", f"{code.name} {show} has no encoding but gave {bytes(got)[:60].hex()} "
                                           f"({len(got)} bytes)")
    if bytes(got) != exp:
        fail(ctx, f"bytes:{code.name}", f"{code.name} {show} gave {bytes(got)[:60].hex()} ({len(got)} bytes) instead of "
                                        f"{exp[:60].hex()} ({len(exp)} bytes)")
    return 'exact'


def ints(tier):
    iv = values(tier)
    blocks = [(c, i) for c in iv for i in range(0, len(iv[c]), 4096)]

    def fn(ctx):
        ws, RC = enc()
        c, i = ctx.choose('block', blocks)
        for v in iv[c][i:i + 4096]:
            o = one(ctx, ws, RC[c], v, expected_int(c, v))
            ctx.state((c, v))
            ctx.step()
        ctx.validated_trace(len(iv[c][i:i + 4096]))
        ctx.outcome(c)
    return fn


def mantissas(nbits, n):
    full = (1 << nbits) - 1
    out = [0, 1, 2, full, full - 1, 1 << (nbits - 1), (1 << (nbits - 1)) - 1, full ^ 1, full // 3, full // 5 * 2]
    i = 0
    while len(out) < n:
        out.append((i * 0x9E3779B97F4A7C15 + 0x1234567) & full)
        i += 1
    return out[:n]


def floats(tier):
    m32, m64 = (24, 20) if tier == 'quick' else (200, 100)
    blocks = [('FSINGL', e) for e in range(0, 256, 8)] + [('FDOUBL', e) for e in range(0, 2048, 32)]

    def fn(ctx):
        ws, RC = enc()
        c, e0 = ctx.choose('block', blocks)
        ne = 8 if c == 'FSINGL' else 32
        for e in range(e0, e0 + ne):
            for m in mantissas(23, m32) if c == 'FSINGL' else mantissas(52, m64):
                for sg in (0, 1):
                    raw = struct.pack('>I', sg << 31 | e << 23 | m) if c == 'FSINGL' else struct.pack('>Q', sg << 63 | e << 52 | m)
                    v = struct.unpack('>f' if c == 'FSINGL' else '>d', raw)[0]
                    if math.isnan(v):
                        try:
                            got = ws(RC[c], v)
                        except Exception as x:
                            fail(ctx, f"rejected:{c}", f"NaN raised {x}")
                        if len(got) != len(raw) or not math.isnan(struct.unpack('>f' if c == 'FSINGL' else '>d', got)[0]):
                            fail(ctx, f"bytes:{c}", f"NaN gave {got.hex()}")
                        continue
                    one(ctx, ws, RC[c], v, raw)
                    ctx.state((c, raw))
                    ctx.step()
        if c == 'FSINGL':
            for v in (3.5e38, -3.5e38, 1e39, 1e300, -1.7e308):
                one(ctx, ws, RC[c], v, None)
        else:
            for v in (0, 1, -1, 2 ** 53, -2 ** 53, 10 ** 22):
                one(ctx, ws, RC[c], v, struct.pack('>d', v))
            one(ctx, ws, RC[c], 10 ** 400, None)
        ctx.outcome(c)
    return fn


def texts(tier):
    lens_a = (list(range(0, 300)) + list(range(16384 - 40, 16384 + 40)) + [20000, 65535, 65536, 100000]) if tier == 'quick' else \
        list(range(0, 17000)) + [20000, 65535, 65536, 100000, 1 << 20]
    lens_i = list(range(0, 600)) + [16383, 16384, 70000]
    chars = [chr(i) for i in range(256)] + ['\u0100', '\u20ac', '\ud800', '\U0001f600']
    blocks = [('IDENT', i) for i in range(0, len(lens_i), 64)] + [('ASCII', i) for i in range(0, len(lens_a), 64)] + \
        [('chars', 0), ('types', 0)]

    def fn(ctx):
        from ..sizes import TEXT
        ws, RC = enc()
        c, i = ctx.choose('block', blocks)
        if c == 'chars':
            for ch in chars:
                for pre in ('', 'abc'):
                    t = pre + ch + 'Z'
                    ok = ord(ch) < 128
                    one(ctx, ws, RC.IDENT, t, rp66.e_ident(t) if ok else None)
                    one(ctx, ws, RC.ASCII, t, rp66.e_ascii(t) if ok else None)
                    ctx.state(t)
                    ctx.step(2)
        elif c == 'types':
            from dliswriter.utils import enums
            import enum
            for nm in dir(enums):
                e = getattr(enums, nm)
                if isinstance(e, type) and issubclass(e, enum.Enum) and len(e.__members__):
                    for m in e.__members__.values():
                        if isinstance(m.value, str):
                            one(ctx, ws, RC.IDENT, m.value, rp66.e_ident(m.value))
                            one(ctx, ws, RC.ASCII, m.value, rp66.e_ascii(m.value))
                            ctx.state((nm, m.value))
                            ctx.step(2)
        else:
            for n in (lens_i if c == 'IDENT' else lens_a)[i:i + 64]:
                t = (TEXT * 9)[n % 17:n % 17 + n]
                exp = (rp66.e_ident(t) if n <= 255 else None) if c == 'IDENT' else rp66.e_ascii(t)
                one(ctx, ws, RC[c], t, exp, show=f"of {n} characters")
                ctx.state((c, n))
                ctx.step()
                if n:
                    u = t[:-1] + '\xe9'
                    one(ctx, ws, RC[c], u, None, show=f"of {n} characters, the last non-ASCII")
        ctx.validated_trace(64)
        ctx.outcome(c)
    return fn


ZONES = [timezone.utc, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-11)), timezone(timedelta(hours=14)),
         timezone(timedelta(hours=-3, minutes=-30)), timezone(timedelta(seconds=37)), timezone(timedelta(hours=1)),
         timezone(timedelta(hours=-12, minutes=-59)), None]


def dt_ok(got, v):
    """got is the standard encoding of the instant v, to the millisecond."""
    try:
        d, p = rp66.d_dtime(bytes(got), 0)
    except rp66.FormatError as e:
        return str(e)
    if p != len(got):
        return f"{len(got)} bytes"
    u = lib.utc_of(v)
    if d[1] == 2:
        w = d[0]
    else:
        return f"time zone code {d[1]}"
    if abs(w - u) >= timedelta(milliseconds=1):
        return f"decodes to {w}, meant {u}"
    return None


def dtimes(tier):
    base = datetime(2011, 8, 20, 22, 48, 50, 0)
    blocks = [('year', z) for z in range(len(ZONES))] + [('month/day', z) for z in range(len(ZONES))] + \
        [('clock', z) for z in range(len(ZONES))] + [('ms', i) for i in range(0, 1000, 50)] + [('edge', z) for z in range(len(ZONES))]

    def vals(kind, i):
        if kind == 'year':
            for y in range(1890, 2166):
                for mo, d, h in ((1, 1, 0), (12, 31, 23), (6, 15, 12)):
                    yield datetime(y, mo, d, h, 59, 59, 123000, tzinfo=ZONES[i])
        elif kind == 'month/day':
            for y in (1999, 2000, 2023, 2024):
                t = datetime(y, 1, 1, 0, 30, tzinfo=ZONES[i])
                while t.year == y:
                    yield t
                    t += timedelta(days=1)
        elif kind == 'clock':
            for h in range(24):
                for mn in (0, 1, 29, 30, 31, 59):
                    for sc in range(60):
                        yield base.replace(hour=h, minute=mn, second=sc, tzinfo=ZONES[i])
        elif kind == 'ms':
            for ms in range(i, i + 50):
                for us in (0, 1, 499, 500, 501, 750, 999):
                    yield base.replace(microsecond=ms * 1000 + us, tzinfo=timezone.utc)
                    yield base.replace(second=59, minute=59, hour=23, day=31, month=12, microsecond=ms * 1000 + us)
        else:
            for y, mo, d in ((1900, 1, 1), (1899, 12, 31), (2155, 12, 31), (2156, 1, 1), (2156, 1, 2), (1, 1, 2), (9999, 12, 30)):
                for h in range(24):
                    yield datetime(y, mo, d, h, 30, 30, 999999, tzinfo=ZONES[i])

    def fn(ctx):
        ws, RC = enc()
        kind, i = ctx.choose('block', blocks)
        n = 0
        for v in vals(kind, i):
            n += 1
            if v.tzinfo is None and not 1902 < v.year < 2037:
                try:
                    u = lib.utc_of(v)
                except (OverflowError, ValueError, OSError):
                    continue
            try:
                u = lib.utc_of(v)
                rep = 1900 <= u.year <= 2155
            except OverflowError:
                rep = False
            try:
                got = ws(RC.DTIME, v)
            except Exception as e:
                if rep:
                    fail(ctx, 'rejected:DTIME', f"{v!r} raised {type(e).__name__}: {e}")
                continue
            if not rep:
                fail(ctx, 'accepted:DTIME', f"{v!r} has no encoding but gave {bytes(got).hex()}")
            w = dt_ok(got, v)
            if w:
                fail(ctx, 'bytes:DTIME', f"{v!r}: {w} ({bytes(got).hex()})")
            ctx.state(repr(v))
            ctx.step()
        ctx.validated_trace(n)
        ctx.outcome('DTIME ' + kind)
    return fn


def confusable():
    a = datetime(2020, 6, 1, 12, 0, 0, tzinfo=timezone.utc)
    amb = datetime(2020, 11, 1, 1, 30, 0)
    from dliswriter.utils import enums
    u = list(enums.Unit.__members__.values())[0]
    groups = {
        'FDOUBL': [0.0, -0.0, 0, 1, 1.0, True, np.float64(1), np.float64(-0.0), np.float32(0.5), 0.5, float('nan'), np.int16(1)],
        'FSINGL': [0.0, -0.0, 0, 1, 1.0, True, np.float32(-0.0), np.float64(0.5)],
        'SLONG': [0, 1, True, False, np.int32(1), np.uint8(1), -1],
        'USHORT': [0, 1, True, False, np.uint8(1), 255],
        'UVARI': [0, 1, True, 127, 128, 16384],
        'STATUS': [0, 1, True, False, 2],
        'ASCII': ['', ' ', '0', '1', 'm', u.value, 'A' * 200],
        'IDENT': ['', ' ', '0', '1', 'm', u.value, 'A' * 200],
        'DTIME': [a, a.astimezone(ZONES[1]), a.replace(tzinfo=None), amb, amb.replace(fold=1), amb.replace(tzinfo=timezone.utc)],
    }
    return groups


def expect(code, v):
    if code in ('IDENT', 'ASCII'):
        return rp66.e_ident(v) if code == 'IDENT' else rp66.e_ascii(v)
    if code in ('FDOUBL', 'FSINGL'):
        return struct.pack('>d' if code == 'FDOUBL' else '>f', float(v))
    return expected_int(code, int(v))


def order(tier):
    """Encoding a value must not depend on what was encoded before (values that compare equal, time zone changes)."""
    def fn(ctx):
        ws, RC = enc()
        g = confusable()
        code = ctx.choose('code', list(g))
        vs = g[code]
        tzs = ctx.choose('TZ', ['AAA-05:30'] if code != 'DTIME' else ['AAA-05:30', 'EST5EDT,M3.2.0,M11.1.0'])
        idx = list(range(len(vs)))
        seq = [ctx.choose('first', idx, names=vs), ctx.choose('second', idx, names=vs), ctx.choose('third', idx, names=vs)]
        os.environ['TZ'] = tzs
        time.tzset()
        try:
            for n, i in enumerate(seq):
                if n == 2 and code == 'DTIME':
                    os.environ['TZ'] = 'BBB+03:00'
                    time.tzset()
                v = vs[i]
                if code == 'DTIME':
                    w = dt_ok(ws(RC.DTIME, v), v)
                    if w:
                        fail(ctx, 'order:DTIME', f"{v!r} fold={v.fold} after {seq[:n]}: {w}")
                    continue
                try:
                    got = ws(RC[code], v)
                except Exception as e:
                    if type(v) in (int, float, str) and expect(code, v) is not None:
                        fail(ctx, f"rejected:{code}", f"{v!r} raised {type(e).__name__}: {e}")
                    continue
                e = expect(code, v)
                if e is None or bytes(got) != e and not (isinstance(v, float) and math.isnan(v)):
                    fail(ctx, f"order:{code}", f"{v!r} after {[vs[j] for j in seq[:n]]} gave {bytes(got).hex()} instead of "
                                               f"{e.hex() if e is not None else 'an exception'}")
        finally:
            os.environ['TZ'] = 'AAA-05:30'
            time.tzset()
        ctx.state((code, tuple(seq), tzs))
        ctx.outcome(code)
    return fn


# ------------------------------------------------------------------------------------------------ through written files
def attempt(ctx, s, f):
    """Apply f; None if it raised."""
    try:
        return f()
    except Exception as e:
        ctx.outcome('rejected when set')
        s.rejected = e
        return None


def finish(ctx, s, representable, what):
    """Write, decode, compare with the model; representable: the value has an encoding."""
    st, r = s.write()
    if st == 'err':
        if representable:
            s.fail('file-rejected', f"{what}: {type(r).__name__}: {r}")
        ctx.outcome('rejected when written')
        return
    if representable is False:
        s.fail('file-accepted', f"{what} has no encoding, yet a file was written")
    lib.check_all(s, r)
    ctx.outcome('exact')


def file_numbers(tier):
    edge = {'UVARI': [0, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65535, 65536, (1 << 22) - 1, 1 << 22, (1 << 30) - 1,
                      1 << 30, (1 << 30) + 1, (1 << 31), (1 << 32) - 1, 1 << 32, 1 << 40, -1, -128, 1.0, 2.5, 128.0],
            'UNORM': [0, 1, 255, 256, 32767, 32768, 65535, 65536, 65537, 1 << 17, -1, 1.0, 0.5],
            'SLONG': [0, 1, -1, 127, 128, 32768, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, 1 << 32, (1 << 32) + 5,
                      3.0, 3.25],
            'FDOUBL': [0, 1, -1, 0.1, -0.0, 0.0, 1e308, -1e308, 5e-324, float('inf'), float('-inf'), float('nan'), 1 << 53,
                       (1 << 53) + 1, -(1 << 53) - 1, (1 << 62) + 1, 10 ** 22, 10 ** 400, 1 << 70]}
    where = [('origin', 'file_set_number', 'UVARI'), ('origin', 'file_number', 'UVARI'), ('origin', 'name_space_version', 'UVARI'),
             ('origin', 'descent_number', 'UNORM'), ('origin', 'run_number', 'UNORM'), ('origin', 'producer_code', 'UNORM'),
             ('channel', 'dimension', 'UVARI'), ('channel', 'element_limit', 'UVARI'), ('computation', 'dimension', 'UVARI'),
             ('calibration_measurement', 'sample_count', 'SLONG'),
             ('parameter', 'values', 'SLONG'), ('axis', 'coordinates', 'SLONG'), ('axis', 'spacing', 'FDOUBL'),
             ('equipment', 'height', 'FDOUBL'), ('channel', 'minimum_value', 'FDOUBL'), ('zone', 'maximum', 'FDOUBL'),
             ('frame', 'spacing', 'FDOUBL'), ('computation', 'values', 'FDOUBL'), ('tool', 'status', 'STATUS'),
             ('equipment', 'status', 'STATUS'), ('frame', 'encrypted', 'ENC'), ('message', 'time', 'FDOUBL')]
    edge['STATUS'] = [0, 1, 2, -1, True, False, 0.5, 1.0, 0.0, np.float32(0.5), np.float64(0.25), np.int8(1), np.float32(1), '1', '0', '2']
    edge['ENC'] = [0, 1, 2, -1, True, False, 0.5, 1.0]

    def fn(ctx):
        kind, kw, code = ctx.choose('attribute', where)
        v = ctx.choose('value', edge[code])
        late = ctx.choose('assigned', ['at creation', 'later'])
        if (kind, kw) == ('origin', 'file_set_number') and late == 'later':
            raise Prune('cannot be reassigned')
        s = Session()
        lf = s.lf()
        isint = not isinstance(v, str) and (not isinstance(v, (float, np.floating)) or (math.isfinite(v) and float(v).is_integer()))
        multi = kw in ('dimension', 'element_limit', 'values', 'coordinates', 'minimum_value')
        val = [v] if multi else v
        kwv = {kw: val}
        ok = dict(lib.BASE_ORIGIN)
        h = None
        if kind == 'origin':
            if late == 'later':
                h = s.add(lf, 'origin', 'O', **ok)
            else:
                ok.update(kwv)
                h = attempt(ctx, s, lambda: s.add(lf, 'origin', 'O', **ok))
                if h is None:
                    s.rejected_ok = True
        else:
            s.add(lf, 'origin', 'O', **ok)
        if code == 'UVARI':
            rep = isint and 0 <= v < 1 << 30
        elif code == 'UNORM':
            rep = isint and 0 <= v < 1 << 16
        elif code == 'SLONG':
            rep = (isint and -(1 << 31) <= v < 1 << 31) or (kw in ('values', 'coordinates') and isinstance(v, float))
        elif code in ('STATUS', 'ENC'):
            rep = v in (0, 1, '0', '1') if code == 'STATUS' else v in (0, 1)
        else:
            try:
                rep = isinstance(v, float) or int(float(v)) == v
            except OverflowError:
                rep = False
        data = np.arange(4.0)
        if kind == 'channel' and kw in ('dimension', 'element_limit'):
            if not (isint and 1 <= v <= 300):
                # dimension must match the data: use another channel, not in a frame
                c0 = s.add(lf, 'channel', 'C', data=data)
                fr = s.add(lf, 'frame', 'F', channels=[c0])
                h = s.add(lf, 'channel', 'X') if late == 'later' else attempt(ctx, s, lambda: s.add(lf, 'channel', 'X', **kwv))
            else:
                w = int(v)
                d = np.arange(2.0 * w).reshape(2, w) if w > 1 else np.arange(2.0)
                h = s.add(lf, 'channel', 'X', data=d) if late == 'later' else \
                    attempt(ctx, s, lambda: s.add(lf, 'channel', 'X', data=d, **kwv))
                if h is not None:
                    fr = s.add(lf, 'frame', 'F', channels=[h])
        elif kind == 'channel':
            h = s.add(lf, 'channel', 'X', data=data) if late == 'later' else \
                attempt(ctx, s, lambda: s.add(lf, 'channel', 'X', data=data, **kwv))
            if h is not None:
                s.add(lf, 'frame', 'F', channels=[h])
        elif kind == 'frame':
            c0 = s.add(lf, 'channel', 'C', data=data)
            h = s.add(lf, 'frame', 'F', channels=[c0]) if late == 'later' else \
                attempt(ctx, s, lambda: s.add(lf, 'frame', 'F', channels=[c0], **kwv))
        else:
            c0 = s.add(lf, 'channel', 'C', data=data)
            fr = s.add(lf, 'frame', 'F', channels=[c0])
            if kind != 'origin':
                h = s.add(lf, kind, 'X') if late == 'later' else attempt(ctx, s, lambda: s.add(lf, kind, 'X', **kwv))
        if h is None:
            if rep:
                s.fail('file-rejected', f"{kind}.{kw} = {v!r}: {type(s.rejected).__name__}: {s.rejected}")
            return
        if late == 'later':
            try:
                s.set(h, kw, 'value', val)
            except Exception as e:
                if rep:
                    s.fail('file-rejected', f"{kind}.{kw}.value = {v!r}: {type(e).__name__}: {e}")
                ctx.outcome('rejected when set')
                return
        ctx.state((kind, kw, repr(v)))
        finish(ctx, s, rep, f"{kind}.{kw} = {v!r}")
    return fn


def file_texts(tier):
    """Names, set names, identifiers, labels, units and texts of every length class, and non-ASCII characters."""
    il = list(range(0, 5)) + list(range(120, 136)) + list(range(250, 262)) + [300, 511, 512, 16383, 16384, 20000]
    al = il + list(range(16376, 16392))
    if tier != 'quick':
        il, al = list(range(0, 400)) + il, list(range(0, 400)) + al
    where = ['object name', 'channel name', 'frame name', 'no-format name', 'origin name', 'set name', 'origin set name',
             'frame set name', 'units', 'channel units', 'IDENT value', 'ASCII value', 'ASCII list', 'file_id', 'long name text',
             'referenced name', 'enumerated (soft)']

    def fn(ctx):
        w = ctx.choose('where', where)
        lens = al if w in ('ASCII value', 'ASCII list', 'long name text') else ([0, 1, 64, 65, 66, 127, 128] if w == 'file_id' else il)
        t = ctx.choose('text', [(n, None) for n in lens] + [(3, '\xe9'), (10, '\u20ac'), (5, '\x80'), (200, '\xff'), (3, '\ud800')])
        n, bad = t
        from ..sizes import TEXT
        text = TEXT[:n - 1] + bad if bad else TEXT[:n]
        limit = 65 if w == 'file_id' else (1 << 30 if w in ('ASCII value', 'ASCII list', 'long name text') else 255)
        rep = not bad and n <= limit
        if n == 0 and 'name' in w:
            rep = None              # an empty name is degenerate: refused, or written exactly
        s = Session()
        try:
            lf = s.lf(**({'fh_id': text} if w == 'file_id' else {}))
            s.add(lf, 'origin', text if w == 'origin name' else 'O', set_name=text if w == 'origin set name' else None,
                  **lib.BASE_ORIGIN)
            ln = text if w == 'long name text' and n else None
            c = s.add(lf, 'channel', text if w == 'channel name' else 'C', data=np.arange(3.0), dataset_name='D',
                      units=text if w == 'channel units' else None, long_name=ln)
            s.add(lf, 'frame', text if w == 'frame name' else 'F', channels=[c],
                  set_name=text if w == 'frame set name' else None)
            if w == 'no-format name':
                nf = s.add(lf, 'no_format', text)
                s.nofmt(lf, nf, b'payload')
            elif w == 'object name':
                s.add(lf, 'zone', text)
            elif w == 'set name':
                s.add(lf, 'zone', 'Z', set_name=text)
            elif w == 'units':
                s.add(lf, 'zone', 'Z', maximum=A(2.0, text))
            elif w == 'IDENT value':
                s.add(lf, 'no_format', 'N', consumer_name=text)
                s.add(lf, 'equipment', 'E', serial_number=text)
                s.add(lf, 'axis', 'E', axis_id=text)
            elif w == 'ASCII value':
                s.add(lf, 'comment', 'K', text=[text])
                s.add(lf, 'zone', 'Z', description=text)
            elif w == 'ASCII list':
                s.add(lf, 'comment', 'K', text=['a', text, 'b'])
                s.add(lf, 'long_name', 'L', conditions=[text, text])
            elif w == 'referenced name':
                z = s.add(lf, 'zone', text)
                s.add(lf, 'parameter', 'P', zones=[z], values=[1])
                s.add(lf, 'group', 'G', object_list=[z])
            elif w == 'enumerated (soft)':
                s.add(lf, 'equipment', 'E', eq_type=text, location=text)
        except Exception as e:
            if rep:
                s.fail('file-rejected', f"{w} of {n} characters: {type(e).__name__}: {e}"[:300])
            ctx.outcome('rejected when set')
            return
        ctx.state((w, n, bad))
        finish(ctx, s, rep, f"{w} of {n} characters" + (f", the last {bad!r}" if bad else ''))
    return fn


def file_dtimes(tier):
    base = datetime(2011, 8, 20, 22, 48, 50)
    where = [('origin', 'creation_time'), ('message', 'time'), ('zone', 'maximum'), ('calibration_measurement', 'begin_time')]
    vals = [base.replace(microsecond=m, tzinfo=z) for m in (0, 999, 1000, 499500, 999499, 999500, 999999)
            for z in (timezone.utc, None, ZONES[1])]
    vals += [datetime(y, m, d, h, 15, 7, 3000, tzinfo=z) for y, m, d, h in ((1900, 1, 1, 0), (1900, 1, 1, 23), (2155, 12, 31, 0),
             (2155, 12, 31, 23), (2156, 1, 1, 0), (1899, 12, 31, 23), (2024, 2, 29, 3), (1, 1, 1, 12), (9999, 12, 31, 12))
             for z in (timezone.utc, ZONES[1], ZONES[2])]
    vals += ['2011/08/20 22:48:50', '2011.08.20 22:48:50']

    def fn(ctx):
        kind, kw = ctx.choose('attribute', where)
        v = ctx.choose('value', vals)
        late = ctx.choose('assigned', ['at creation', 'later'])
        try:
            u = lib.utc_of(v)
            rep = 1900 <= u.year <= 2155
        except OverflowError:
            rep = False
        s = Session()
        lf = s.lf()
        try:
            ok = dict(lib.BASE_ORIGIN)
            if kind == 'origin' and late == 'at creation':
                ok[kw] = v
            o = s.add(lf, 'origin', 'O', **ok)
            c = s.add(lf, 'channel', 'C', data=np.arange(3.0))
            s.add(lf, 'frame', 'F', channels=[c])
            if kind != 'origin':
                o = s.add(lf, kind, 'X', **({} if late == 'later' else {kw: v}))
            if late == 'later':
                s.set(o, kw, 'value', v)
        except Exception as e:
            if rep:
                s.fail('file-rejected', f"{kind}.{kw} = {v!r}: {type(e).__name__}: {e}")
            ctx.outcome('rejected when set')
            return
        ctx.state((kind, repr(v)))
        finish(ctx, s, rep, f"{kind}.{kw} = {v!r}")
    return fn


def file_names(tier):
    """OBNAME / OBJREF: origin reference x copy number x name length."""
    def fn(ctx):
        oref = ctx.choose('origin_reference', [1, None, 0, 127, 128, 16383, 16384, (1 << 30) - 1, 1 << 30, (1 << 32), -1, -5])
        copies = ctx.choose('objects of the same name', [1, 2, 3, 128, 129, 255, 256, 257, 300])
        n = ctx.choose('name length', [1, 127, 128, 255] if copies < 4 else [1, 200])
        if copies > 3 and oref not in (1, 128, None):
            raise Prune('boundary of the copy number is independent of the origin')
        rep = (oref is None or 0 <= oref < 1 << 30) and copies <= 256
        s = Session()
        lf = s.lf()
        nm = 'N' * n
        try:
            s.add(lf, 'origin', 'O', origin_reference=oref, **lib.BASE_ORIGIN)
            zs = [s.add(lf, 'zone', nm, description=str(i)) for i in range(copies)]
            s.add(lf, 'parameter', 'P', zones=zs, values=list(range(copies)))
            s.add(lf, 'group', 'G', object_list=[zs[-1], zs[0]])
            c = s.add(lf, 'channel', nm, data=np.arange(3.0))
            s.add(lf, 'frame', nm, channels=[c])
        except Exception as e:
            if rep:
                s.fail('file-rejected', f"origin {oref}, {copies} objects named the same: {type(e).__name__}: {e}")
            ctx.outcome('rejected when set')
            return
        ctx.state((oref, copies, n))
        finish(ctx, s, rep, f"origin reference {oref}, {copies} objects named the same")
    return fn


def scenarios(tier):
    out = [Scenario('file_numbers', file_numbers(tier)), Scenario('file_texts', file_texts(tier)),
           Scenario('file_dtimes', file_dtimes(tier)), Scenario('file_names', file_names(tier))]
    try:
        ws, RC = enc()
        ws(RC.USHORT, 1)
        direct = True
    except Exception:
        direct = False      # the internal encoder has moved: the written files still decide
    if direct:
        out += [Scenario('ints', ints(tier)), Scenario('floats', floats(tier)), Scenario('texts', texts(tier)),
                Scenario('dtimes', dtimes(tier)), Scenario('order', order(tier))]
    return out
