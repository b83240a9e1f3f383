"""Independent, strict reader of RP66 V1 (DLIS) files.

Nothing in here imports or knows dliswriter.  Every departure from the standard raises FormatError(kind, message);
`kind` is a short stable tag which checks use to classify what went wrong.
"""
import struct
from datetime import datetime, timezone, timedelta


class FormatError(Exception):
    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


def bad(kind, msg):
    raise FormatError(kind, msg)


# ----------------------------------------------------------------------------------------------- primitive decoders
REPC = {1: 'FSHORT', 2: 'FSINGL', 3: 'FSING1', 4: 'FSING2', 5: 'ISINGL', 6: 'VSINGL', 7: 'FDOUBL', 8: 'FDOUB1',
        9: 'FDOUB2', 10: 'CSINGL', 11: 'CDOUBL', 12: 'SSHORT', 13: 'SNORM', 14: 'SLONG', 15: 'USHORT', 16: 'UNORM',
        17: 'ULONG', 18: 'UVARI', 19: 'IDENT', 20: 'ASCII', 21: 'DTIME', 22: 'ORIGIN', 23: 'OBNAME', 24: 'OBJREF',
        25: 'ATTREF', 26: 'STATUS', 27: 'UNITS'}
REPC_NUM = {v: k for k, v in REPC.items()}
FIXED = {2: ('>f', 4), 7: ('>d', 8), 12: ('>b', 1), 13: ('>h', 2), 14: ('>i', 4), 15: ('>B', 1), 16: ('>H', 2),
         17: ('>I', 4)}
FLOAT_CODES = {2, 7}
INT_CODES = {12, 13, 14, 15, 16, 17, 18}


def need(b, p, n, what):
    if p + n > len(b):
        bad('short', f"{what}: {n} bytes needed at {p}, only {len(b) - p} left")


def d_uvari(b, p, strict=True):
    need(b, p, 1, 'UVARI')
    x = b[p]
    if x < 0x80:
        return x, p + 1
    if x < 0xC0:
        need(b, p, 2, 'UVARI')
        v = ((x & 0x3F) << 8) | b[p + 1]
        if strict and v < 0x80:
            bad('uvari-form', f"value {v} encoded in 2 bytes")
        return v, p + 2
    need(b, p, 4, 'UVARI')
    v = ((x & 0x3F) << 24) | (b[p + 1] << 16) | (b[p + 2] << 8) | b[p + 3]
    if strict and v < 0x4000:
        bad('uvari-form', f"value {v} encoded in 4 bytes")
    return v, p + 4


def d_ident(b, p, what='IDENT'):
    need(b, p, 1, what)
    n = b[p]
    need(b, p + 1, n, what)
    s = bytes(b[p + 1:p + 1 + n])
    try:
        return s.decode('ascii'), p + 1 + n
    except UnicodeDecodeError:
        bad('non-ascii', f"{what} {s!r}")


def d_ascii(b, p):
    n, p = d_uvari(b, p)
    need(b, p, n, 'ASCII')
    s = bytes(b[p:p + n])
    try:
        return s.decode('ascii'), p + n
    except UnicodeDecodeError:
        bad('non-ascii', f"ASCII {s[:60]!r}")


class DTime(tuple):
    """(utc datetime truncated to ms, tz code)"""


def d_dtime(b, p):
    need(b, p, 8, 'DTIME')
    y, tzm, d, h, mn, s, ms = struct.unpack('>BBBBBBH', bytes(b[p:p + 8]))
    tz, m = tzm >> 4, tzm & 15
    if tz > 2:
        bad('dtime', f"time zone nibble {tz}")
    if ms > 999:
        bad('dtime', f"milliseconds {ms}")
    try:
        v = datetime(1900 + y, m, d, h, mn, s, ms * 1000, tzinfo=timezone.utc if tz == 2 else None)
    except ValueError as e:
        bad('dtime', str(e))
    return DTime((v, tz)), p + 8


class ObName(tuple):
    """(origin, copy, name)"""


class ObjRef(tuple):
    """(type, origin, copy, name)"""


def d_obname(b, p):
    o, p = d_uvari(b, p)
    need(b, p, 1, 'OBNAME copy number')
    c = b[p]
    n, p = d_ident(b, p + 1, 'OBNAME identifier')
    return ObName((o, c, n)), p


def d_objref(b, p):
    t, p = d_ident(b, p, 'OBJREF type')
    o, p = d_obname(b, p)
    return ObjRef((t,) + tuple(o)), p


def d_status(b, p):
    need(b, p, 1, 'STATUS')
    if b[p] > 1:
        bad('status', f"value {b[p]}")
    return b[p], p + 1


def d_value(code, b, p):
    f = FIXED.get(code)
    if f:
        need(b, p, f[1], REPC[code])
        return struct.unpack(f[0], bytes(b[p:p + f[1]]))[0], p + f[1]
    if code == 18 or code == 22:
        return d_uvari(b, p)
    if code == 19 or code == 27:
        return d_ident(b, p, REPC[code])
    if code == 20:
        return d_ascii(b, p)
    if code == 21:
        return d_dtime(b, p)
    if code == 23:
        return d_obname(b, p)
    if code == 24:
        return d_objref(b, p)
    if code == 26:
        return d_status(b, p)
    if code in REPC:
        bad('repcode-unsupported', f"code {code} ({REPC[code]}) is defined but never expected from this writer")
    bad('repcode', f"undefined representation code {code}")


# ----------------------------------------------------------------------------------------------------- physical layer
class Seg:
    __slots__ = ('vr', 'off', 'length', 'attrs', 'type', 'body', 'pad')

    def key(self):
        return (self.length, self.attrs, self.type, self.pad)


class SUL:
    __slots__ = ('seq', 'version', 'structure', 'maxlen', 'ident', 'raw')


def parse_sul(data):
    if len(data) < 80:
        bad('sul', f"file has only {len(data)} bytes")
    raw = bytes(data[:80])
    try:
        t = raw.decode('ascii')
    except UnicodeDecodeError:
        bad('sul', f"not ASCII: {raw!r}")
    s = SUL()
    s.raw = raw
    s.version, s.structure, s.ident = t[4:9], t[9:15], t[20:80]
    if s.version != 'V1.00':
        bad('sul', f"version {s.version!r}")
    if s.structure != 'RECORD':
        bad('sul', f"structure {s.structure!r}")
    for nm, f in (('seq', t[0:4]), ('maxlen', t[15:20])):
        g = f.lstrip(' ')
        if not g.isdigit():
            bad('sul', f"{nm} field {f!r}")
        setattr(s, nm, int(g))
    if not (20 <= s.maxlen <= 16384) or s.maxlen % 2:
        bad('sul', f"maximum record length {s.maxlen}")
    return s


def parse_physical(data):
    """Return (sul, [visible record (offset, length)], [Seg])."""
    sul = parse_sul(data)
    n = len(data)
    p = 80
    vrs, segs = [], []
    while p < n:
        if p + 4 > n:
            bad('vr', f"{n - p} stray bytes at the end of the file")
        L = (data[p] << 8) | data[p + 1]
        if data[p + 2] != 0xFF or data[p + 3] != 1:
            bad('vr', f"format marker {bytes(data[p + 2:p + 4])!r} at {p}")
        if L < 20 or L > sul.maxlen or L % 2:
            bad('vr', f"length {L} at {p} (max {sul.maxlen})")
        if p + L > n:
            bad('vr', f"record of {L} bytes at {p} runs beyond the end of the file ({n})")
        e = p + L
        q = p + 4
        i = len(vrs)
        vrs.append((p, L))
        while q < e:
            if q + 4 > e:
                bad('seg', f"{e - q} stray bytes in the visible record at {p}")
            sl = (data[q] << 8) | data[q + 1]
            if sl < 16 or sl % 2:
                bad('seg', f"segment length {sl} at {q}")
            if q + sl > e:
                bad('seg', f"segment of {sl} bytes at {q} runs beyond its visible record")
            a = data[q + 2]
            if a & 0b00011110:
                bad('seg', f"attribute bits {a:08b} at {q}: encryption/packet/checksum/trailing length set")
            s = Seg()
            s.vr, s.off, s.length, s.attrs, s.type = i, q, sl, a, data[q + 3]
            s.pad = 0
            if a & 1:
                s.pad = data[q + sl - 1]
                if s.pad < 1 or s.pad > sl - 4:
                    bad('pad', f"pad count {s.pad} in a segment of {sl} bytes at {q}")
            s.body = data[q + 4:q + sl - s.pad]
            segs.append(s)
            q += sl
        p = e
    return sul, vrs, segs


class Rec:
    __slots__ = ('eflr', 'type', 'body', 'segs', 'off')

    def ident(self):
        return (self.eflr, self.type, bytes(self.body))


def reassemble(segs):
    recs, cur = [], None
    for s in segs:
        eflr, pred, succ = bool(s.attrs & 0x80), bool(s.attrs & 0x40), bool(s.attrs & 0x20)
        if pred:
            if cur is None:
                bad('bracket', f"segment at {s.off} has a predecessor flag but no record is open")
            if cur.eflr != eflr or cur.type != s.type:
                bad('bracket', f"segment at {s.off}: type ({eflr},{s.type}) differs from its record's "
                               f"({cur.eflr},{cur.type})")
            cur.body.append(s.body)
            cur.segs.append(s)
        else:
            if cur is not None:
                bad('bracket', f"record at {cur.off} still open when another begins at {s.off}")
            cur = Rec()
            cur.eflr, cur.type, cur.body, cur.segs, cur.off = eflr, s.type, [s.body], [s], s.off
        if not succ:
            cur.body = b''.join(cur.body)
            recs.append(cur)
            cur = None
    if cur is not None:
        bad('bracket', f"record at {cur.off} is never closed")
    return recs


# --------------------------------------------------------------------------------------------------------- EFLR layer
class Attr:
    __slots__ = ('label', 'count', 'code', 'units', 'value', 'absent', 'invariant', 'omitted')

    def __repr__(self):
        if self.absent:
            return f"<{self.label} absent>"
        return f"<{self.label} n={self.count} rc={REPC.get(self.code)} u={self.units!r} {self.value!r}>"


class Obj:
    __slots__ = ('origin', 'copy', 'name', 'attrs', 'set', 'idx')

    @property
    def obname(self):
        return (self.origin, self.copy, self.name)

    def __repr__(self):
        return f"{self.set.type if self.set else ''}:{self.origin}&{self.copy}&{self.name}"


class Set:
    __slots__ = ('type', 'name', 'template', 'objects', 'lrtype', 'rec_index')


def _component(b, p, tmpl, in_template):
    """Parse one attribute component.  tmpl: template Attr or None."""
    d = b[p]
    role, fmt = d >> 5, d & 31
    p += 1
    a = Attr()
    a.omitted = False
    a.invariant = role == 2
    if role == 0:
        if in_template:
            bad('grammar', 'absent attribute inside a template')
        if fmt:
            bad('grammar', f"absent attribute descriptor {d:#04x} has format bits")
        a.label, a.count, a.code, a.units, a.value, a.absent = tmpl.label, None, None, None, None, True
        return a, p
    a.absent = False
    if fmt & 16:
        if not in_template:
            bad('grammar', f"object attribute of {tmpl.label} carries a label")
        a.label, p = d_ident(b, p, 'attribute label')
        if not a.label:
            bad('grammar', 'empty attribute label')
    else:
        if in_template:
            bad('grammar', 'template attribute without label')
        a.label = tmpl.label
    dflt = tmpl
    explicit_count = bool(fmt & 8)
    if explicit_count:
        a.count, p = d_uvari(b, p)
    else:
        a.count = dflt.count if dflt else 1
    if fmt & 4:
        need(b, p, 1, 'representation code')
        a.code = b[p]
        p += 1
        if a.code not in REPC:
            bad('repcode', f"undefined representation code {a.code} in {a.label}")
    else:
        a.code = dflt.code if dflt else 19
    if fmt & 2:
        a.units, p = d_ident(b, p, 'units')
    else:
        a.units = dflt.units if dflt else ''
    if fmt & 1:
        vals = []
        for _ in range(a.count):
            v, p = d_value(a.code, b, p)
            vals.append(v)
        a.value = vals
    else:
        if in_template:
            a.value = None
        elif a.count == 0:
            a.value = []
        elif dflt is not None and dflt.value is not None and not explicit_count and not (fmt & 4):
            a.value = dflt.value
        else:
            bad('novalue', f"{a.label}: {a.count} value(s) of code {a.code} announced, none encoded")
    return a, p


def parse_eflr(rec):
    b = bytes(rec.body)
    if not b:
        bad('grammar', 'empty explicitly formatted record')
    s = Set()
    s.lrtype = rec.type
    d = b[0]
    if d >> 5 != 7:
        bad('grammar', f"first component descriptor {d:#04x} is not a set component")
    if d & 7 or not d & 16:
        bad('grammar', f"set component descriptor {d:#04x}")
    p = 1
    s.type, p = d_ident(b, p, 'set type')
    if not s.type:
        bad('grammar', 'empty set type')
    s.name = None
    if d & 8:
        s.name, p = d_ident(b, p, 'set name')
    s.template = []
    n = len(b)
    seen = set()
    while p < n and b[p] >> 5 in (1, 2):
        a, p = _component(b, p, None, True)
        if a.label in seen:
            bad('grammar', f"duplicate label {a.label} in the template of {s.type}")
        seen.add(a.label)
        s.template.append(a)
    if not s.template:
        bad('grammar', f"set {s.type} has no template")
    s.objects = []
    settable = [t for t in s.template if not t.invariant]
    while p < n:
        d = b[p]
        if d >> 5 != 3:
            bad('grammar', f"component descriptor {d:#04x} at byte {p} of {s.type} where an object was expected")
        if d & 15 or not d & 16:
            bad('grammar', f"object component descriptor {d:#04x}")
        o = Obj()
        o.set = s
        o.idx = len(s.objects)
        (o.origin, o.copy, o.name), p = d_obname(b, p + 1)
        o.attrs = {t.label: t for t in s.template if t.invariant}
        k = 0
        while p < n and b[p] >> 5 in (0, 1, 2):
            if b[p] >> 5 == 2:
                bad('grammar', 'invariant attribute component inside an object')
            if k >= len(settable):
                bad('grammar', f"more attribute components than template attributes in {s.type} object {o.name!r}")
            a, p = _component(b, p, settable[k], False)
            o.attrs[a.label] = a
            k += 1
        for t in settable[k:]:
            a = Attr()
            a.label, a.count, a.code, a.units, a.value = t.label, t.count, t.code, t.units, t.value
            a.absent = t.value is None
            a.invariant, a.omitted = False, True
            o.attrs[t.label] = a
        s.objects.append(o)
    return s


# ------------------------------------------------------------------------------------------------------- logical files
class IFLR:
    __slots__ = ('type', 'ref', 'data', 'frame_no', 'rec_index', 'reflen')


class LF:
    __slots__ = ('header', 'sets', 'iflrs', 'order', 'recs')

    def objects(self, settype=None):
        return [o for s in self.sets if settype is None or s.type == settype for o in s.objects]


class DLIS:
    __slots__ = ('sul', 'vrs', 'segs', 'recs', 'lfs', 'size')


def parse_iflr(rec):
    r = IFLR()
    r.type = rec.type
    r.ref, p = d_obname(rec.body, 0)
    r.frame_no = None
    if rec.type == 0:
        r.frame_no, p = d_uvari(rec.body, p)
    elif rec.type != 1:
        bad('iflr', f"unexpected indirectly formatted record type {rec.type}")
    r.reflen = p
    r.data = bytes(rec.body[p:])
    return r


def parse_file(data):
    f = DLIS()
    f.size = len(data)
    f.sul, f.vrs, f.segs = parse_physical(data)
    f.recs = reassemble(f.segs)
    f.lfs = []
    cur = None
    for i, r in enumerate(f.recs):
        if r.eflr:
            s = parse_eflr(r)
            s.rec_index = i
            if r.type == 0:
                if s.type != 'FILE-HEADER':
                    bad('lf', f"record type FHLR holds a set of type {s.type}")
                cur = LF()
                cur.header, cur.sets, cur.iflrs, cur.order, cur.recs = s, [], [], [], [r]
                f.lfs.append(cur)
                continue
            if s.type == 'FILE-HEADER':
                bad('lf', f"FILE-HEADER set in a record of type {r.type}")
            if cur is None:
                bad('lf', f"record {i} ({s.type}) precedes the first file header")
            cur.sets.append(s)
            cur.order.append(('E', s))
            cur.recs.append(r)
        else:
            if cur is None:
                bad('lf', f"indirectly formatted record {i} precedes the first file header")
            x = parse_iflr(r)
            x.rec_index = i
            cur.iflrs.append(x)
            cur.order.append(('I', x))
            cur.recs.append(r)
    return f


# --------------------------------------------------------------------------------------- writer of canonical encodings
def e_uvari(v):
    if not isinstance(v, int) or v < 0 or v >= 1 << 30:
        raise ValueError(v)
    if v < 128:
        return bytes([v])
    if v < 16384:
        return struct.pack('>H', 0x8000 | v)
    return struct.pack('>I', 0xC0000000 | v)


def e_ident(s):
    b = s.encode('ascii')
    if len(b) > 255:
        raise ValueError(len(b))
    return bytes([len(b)]) + b


def e_ascii(s):
    b = s.encode('ascii')
    return e_uvari(len(b)) + b


def e_obname(o, c, n):
    return e_uvari(o) + bytes([c]) + e_ident(n)


def e_dtime(dt_utc, ms):
    return struct.pack('>BBBBBBH', dt_utc.year - 1900, 0x20 | dt_utc.month, dt_utc.day, dt_utc.hour, dt_utc.minute,
                       dt_utc.second, ms)
