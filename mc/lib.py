"""Driver for the real library + the specification model it is compared with.

`Session` applies each operation to a real dliswriter DLISFile through the public API and, when the library accepts it,
to a plain model (lists and dicts) of what the user asked for.  `compare` then judges a decoded file against the model.
"""
import io
import logging
import math
import os
import time
from datetime import datetime, timezone, timedelta
from fractions import Fraction

import numpy as np

from . import rp66
from .engine import Violation, Prune, HangTimeout
from .schema import KINDS, SETTYPES, ATTR_NAME, labels

ENV = None


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.records = []

    def emit(self, r):
        try:
            self.records.append((r.levelno, r.getMessage()))
        except Exception:
            self.records.append((r.levelno, str(r.msg)))


CAPTURE = Capture()
INFO = Capture()
INFO.setLevel(logging.INFO)


def quiet():
    lg = logging.getLogger('dliswriter')
    for h in list(lg.handlers):
        lg.removeHandler(h)
    lg.addHandler(CAPTURE)
    lg.propagate = False
    lg.setLevel(logging.WARNING)
    os.environ['TZ'] = 'AAA-05:30'      # naive date-times are local times: make 'local' differ from UTC
    time.tzset()
    import warnings
    warnings.simplefilter('ignore')


def init(env):
    global ENV
    ENV = env
    np.random.seed(env.seed & 0x7fffffff)


def dw():
    import dliswriter
    return dliswriter


CT = datetime(2020, 1, 2, 3, 4, 5, 678000, tzinfo=timezone.utc)
BASE_ORIGIN = dict(file_set_number=7, creation_time=CT)


# ------------------------------------------------------------------------------------------------------------ the model
class H:
    """Model object: what the user asked for."""

    def __init__(self, lf, kind, name, set_name, idx):
        self.lf, self.kind, self.name, self.set_name, self.idx = lf, kind, name, set_name, idx
        self.vals = {}          # keyword -> value as given (Handles instead of items)
        self.units = {}         # keyword -> units as given
        self.origin = None      # explicit origin reference, or None
        self.data = None
        self.dataset_name = None
        self.cast = None
        self.real = None

    @property
    def settype(self):
        return KINDS[self.kind][0]

    def __repr__(self):
        return f"{self.kind}:{self.name}" + (f"@{self.set_name}" if self.set_name is not None else '')


class MLF:
    def __init__(self, idx, fh):
        self.idx, self.fh = idx, fh
        self.objs = []
        self.nofmt = []         # (H, payload bytes)
        self.real = None

    def of(self, kind):
        return [o for o in self.objs if o.kind == kind]


class A:
    """AttrSetup / dict description: value + units."""

    def __init__(self, value=None, units=None, route='setup'):
        self.value, self.units, self.route = value, units, route

    def __repr__(self):
        return f"{self.route}(value={self.value!r}, units={self.units!r})"


def real(v):
    if isinstance(v, H):
        return v.real
    if isinstance(v, A):
        if v.route == 'dict':
            d = {}
            if v.value is not None:
                d['value'] = real(v.value)
            if v.units is not None:
                d['units'] = v.units
            return d
        return dw().AttrSetup(value=real(v.value), units=v.units)
    if isinstance(v, list):
        return [real(x) for x in v]
    if isinstance(v, tuple):
        return tuple(real(x) for x in v)
    return v


class Session:
    def __init__(self, **kw):
        self.kw = dict(kw)
        self.lfs = []
        self.log = [f"DLISFile({kw})"]
        self.real = dw().DLISFile(**kw)

    def lf(self, fh_id='FILE-HEADER', fh_identifier='0', fh_sequence_number=1):
        m = MLF(len(self.lfs), dict(id=fh_id, identifier=fh_identifier, seq=fh_sequence_number))
        self.log.append(f"lf{m.idx} = add_logical_file({fh_id!r}, {fh_identifier!r}, {fh_sequence_number})")
        m.real = self.real.add_logical_file(fh_id=fh_id, fh_identifier=fh_identifier, fh_sequence_number=fh_sequence_number)
        self.lfs.append(m)
        return m

    def add(self, lf, kind, name, set_name=None, origin_reference=None, data=None, dataset_name=None, cast_dtype=None, **kw):
        rk = {k: real(v) for k, v in kw.items()}
        if set_name is not None:
            rk['set_name'] = set_name
        if origin_reference is not None:
            rk['origin_reference'] = origin_reference
        if kind == 'channel':
            if data is not None:
                rk['data'] = data
            if dataset_name is not None:
                rk['dataset_name'] = dataset_name
            if cast_dtype is not None:
                rk['cast_dtype'] = cast_dtype
        a = {k: v for k, v in kw.items()}
        if data is not None:
            a['data'] = f"<{data.dtype}{data.shape}>" if isinstance(data, np.ndarray) else data
        for k, v in (('set_name', set_name), ('origin_reference', origin_reference), ('dataset_name', dataset_name),
                     ('cast_dtype', cast_dtype)):
            if v is not None:
                a[k] = v
        args = ''.join(f", {k}={v!r}" for k, v in a.items())
        self.log.append(f"lf{lf.idx}.add_{kind}({name!r}{args})")
        it = getattr(lf.real, 'add_' + kind)(name, **rk)
        h = H(lf, kind, name, set_name, len(lf.objs))
        h.real = it
        h.origin = origin_reference
        h.data, h.dataset_name, h.cast = data, dataset_name, cast_dtype
        for k, v in kw.items():
            if isinstance(v, A):
                if v.value is not None:
                    h.vals[k] = v.value
                if v.units is not None:
                    h.units[k] = v.units
            elif v is not None:
                h.vals[k] = v
        lf.objs.append(h)
        return h

    def set(self, h, kw, part, v):
        self.log.append(f"{h}.{kw}.{part} = {v!r}")
        at = getattr(h.real, ATTR_NAME.get((h.kind, kw), kw))
        setattr(at, part, real(v))
        d = h.vals if part == 'value' else h.units
        if v is None:
            d.pop(kw, None)
        else:
            d[kw] = v

    def nofmt(self, lf, h, payload):
        self.log.append(f"lf{lf.idx}.add_no_format_frame_data({h}, {payload!r:.80})")
        lf.real.add_no_format_frame_data(real(h), payload)
        lf.nofmt.append((h, payload.encode('ascii') if isinstance(payload, str) else bytes(payload)))

    def write(self, path=None, output_chunk_size=1 << 15, **kw):
        """Returns ('ok', bytes) or ('err', exception)."""
        path = path or ENV.path
        self.log.append(f"write({kw if 'data' not in kw else dict(kw, data=type(kw['data']).__name__)}, "
                        f"output_chunk_size={output_chunk_size})")
        try:
            os.unlink(path)
        except OSError:
            pass
        try:
            self.real.write(path, output_chunk_size=output_chunk_size, **kw)
        except (Exception, AssertionError) as e:
            return 'err', e
        try:
            with open(path, 'rb') as f:
                return 'ok', f.read()
        except OSError as e:
            raise Violation('no-file', f"write() returned normally but the file cannot be read: {e}", self.trace())

    def trace(self):
        return '\n'.join(self.log)

    def fail(self, sig, msg):
        raise Violation(sig, msg, self.trace())


def must(s, sig, f, *a, **k):
    """Call something the property says must succeed."""
    try:
        return f(*a, **k)
    except (Violation, Prune):
        raise
    except Exception as e:
        raise Violation(sig, f"{type(e).__name__}: {e}"[:600], s.trace() if s else None)


def parse(s, data):
    try:
        return rp66.parse_file(data)
    except rp66.FormatError as e:
        s.fail('format:' + e.kind, e.msg)


def write_ok(s, sig='write-failed', **kw):
    st, r = s.write(**kw)
    if st == 'err':
        s.fail(sig, f"write() of a valid specification raised {type(r).__name__}: {r}"[:700])
    return r


# ------------------------------------------------------------------------------------------------- attribute comparison
def flat(v):
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += flat(x)
        return out
    return [v]


def utc_of(v):
    """The instant a user means: aware date-times as such, naive ones as local time; strings in the documented formats."""
    if isinstance(v, str):
        for f in ("%Y/%m/%d %H:%M:%S", "%Y.%m.%d %H:%M:%S"):
            try:
                v = datetime.strptime(v, f)
                break
            except ValueError:
                pass
        else:
            return None
    if v.tzinfo is None:
        return datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=_mktime(v), microseconds=v.microsecond)
    return v.astimezone(timezone.utc)


def _mktime(v):
    return int(v.replace(microsecond=0).timestamp())


def num_eq(exp, got):
    if isinstance(exp, (bool, np.bool_)):
        exp = int(exp)
    if isinstance(exp, np.generic):
        exp = exp.item()
    if isinstance(got, np.generic):
        got = got.item()
    if isinstance(exp, float) and math.isnan(exp):
        return isinstance(got, float) and math.isnan(got)
    if isinstance(got, float) and math.isnan(got):
        return False
    if isinstance(exp, float) and math.isinf(exp) or isinstance(got, float) and math.isinf(got):
        return exp == got
    if Fraction(exp) != Fraction(got):
        return False
    if exp == 0 and isinstance(exp, float) and isinstance(got, float):
        return math.copysign(1, exp) == math.copysign(1, got)
    return True


def plain(v):
    """str of an enum member is its value; everything else as is."""
    import enum
    if isinstance(v, enum.Enum):
        return v.value
    return v


NUMC = {2, 7, 12, 13, 14, 15, 16, 17, 18}
UNITS_OK = {'N', 'NM', 'NMD', 'INT', 'XM', 'XMD', 'DT', 'DN'}


def cmp_value(kind, exp, code, got, resolve):
    """None if the decoded value list `got` of representation code `code` is what `exp` (a flat list) says, else a reason."""
    if len(exp) != len(got):
        return f"{len(got)} values {got!r:.200} instead of {len(exp)} {exp!r:.200}"
    for e, g in zip(exp, got):
        e = plain(e)
        if kind in ('T', 'TM'):
            ok, req = (g == e and isinstance(g, str)), {20}
        elif kind in ('I', 'P'):
            ok, req = (g == e and isinstance(g, str)), {19}
        elif kind == 'U':
            ok, req = (g == e and isinstance(g, str)), {19, 27}
        elif kind in ('N', 'NM', 'NMD', 'INT'):
            req = NUMC
            ok = not isinstance(g, (str, tuple)) and num_eq(e, g)
        elif kind.startswith('N:'):
            req = {rp66.REPC_NUM[kind[2:]]}
            ok = not isinstance(g, (str, tuple)) and num_eq(e, g)
        elif kind == 'D':
            req = {18}
            ok = not isinstance(g, (str, tuple)) and num_eq(e, g)
        elif kind in ('S', 'ENC'):
            req = {26} if kind == 'S' else {15}
            if isinstance(e, str):
                e = {'1': 1, 'true': 1, 't': 1, 'yes': 1, 'y': 1, '0': 0, 'false': 0, 'f': 0, 'no': 0, 'n': 0}.get(e.lower())
            ok = e is not None and g == int(e)
        elif kind in ('DT', 'DN'):
            if isinstance(e, (int, float, np.generic)) and not isinstance(e, datetime):
                req, ok = NUMC, (not isinstance(g, (str, tuple)) and num_eq(e, g))
            else:
                u = utc_of(e)
                if u is None:                       # a numeric string where numbers are admitted
                    req, ok = NUMC, (not isinstance(g, (str, tuple)) and num_eq(float(e), g))
                else:
                    req = {21}
                    ok = isinstance(g, rp66.DTime) and g[1] == 2 and abs(g[0] - u) < timedelta(milliseconds=1)
        elif kind.startswith('R') and kind != 'RT' or (kind == 'RT' and isinstance(e, H)):
            req = {23, 24}
            r = resolve(g)
            if isinstance(r, str):
                return r
            ok = r is e
            if kind.endswith('*') and code == 23:
                # an untyped reference cannot tell objects of different types apart; accepted only if unambiguous
                pass
        elif kind == 'RT':
            req, ok = {20}, g == e
        elif kind in ('XM', 'XMD'):
            if isinstance(e, str):
                req = NUMC | {20}
                ok = g == e if isinstance(g, str) else _num_of(e) is not None and num_eq(_num_of(e), g)
            else:
                req, ok = NUMC, (not isinstance(g, (str, tuple)) and num_eq(e, g))
        else:
            raise AssertionError(kind)
        if code not in req:
            return f"representation code {rp66.REPC.get(code)} for {e!r:.100}"
        if not ok:
            return f"{g!r:.200} instead of {e!r:.200}"
    return None


def _num_of(s):
    try:
        return float(s) if '.' in s else int(s)
    except ValueError:
        return None


# ------------------------------------------------------------------------------------------------------ file comparison
class View:
    """A decoded logical file matched with its model."""

    def __init__(self, s, m, lf):
        self.s, self.m, self.lf = s, m, lf
        self.map = {}       # H -> Obj
        self.inv = {}       # id(Obj) -> H


def match(s, f, strict_sets=True):
    """Check inventory (C09/C18 level) and identity (C07 level); return a View per logical file."""
    if len(f.lfs) != len(s.lfs):
        s.fail('lf-count', f"{len(f.lfs)} logical files in the file, {len(s.lfs)} were added")
    views = []
    for m, lf in zip(s.lfs, f.lfs):
        v = View(s, m, lf)
        want = {}
        for o in m.objs:
            want.setdefault((o.settype, o.set_name or None), []).append(o)
        got = {}
        for st in lf.sets:
            if (st.type, st.name or None) in got:
                s.fail('dup-set', f"set ({st.type}, {st.name}) occurs twice in logical file {m.idx}")
            got[(st.type, st.name or None)] = st
        for k in want:
            if k not in got:
                s.fail('missing-set', f"set {k} with {want[k]} is not in logical file {m.idx}")
        for k in got:
            if k not in want:
                s.fail('extra-set', f"set {k} {got[k].objects} in logical file {m.idx} was never asked for")
        for k, objs in want.items():
            st = got[k]
            if [o.name for o in st.objects] != [o.name for o in objs]:
                if sorted(o.name for o in st.objects) != sorted(o.name for o in objs):
                    s.fail('inventory', f"set {k} of logical file {m.idx} holds {[o.name for o in st.objects]}, "
                                        f"asked for {[o.name for o in objs]}")
            pool = {}
            for o in st.objects:
                pool.setdefault(o.name, []).append(o)
            for h in objs:
                o = pool[h.name].pop(0)
                v.map[h] = o
                v.inv[id(o)] = h
        views.append(v)
    return views


def resolver(v):
    by4 = {}
    by3 = {}
    for st in [v.lf.header] + v.lf.sets:
        for o in st.objects:
            by4.setdefault((st.type, o.origin, o.copy, o.name), []).append(o)
            by3.setdefault((o.origin, o.copy, o.name), []).append((st.type, o))

    def resolve(g, settype=None):
        if isinstance(g, rp66.ObjRef):
            l = by4.get(tuple(g), [])
        elif isinstance(g, rp66.ObName):
            if settype and settype != '*':
                l = by4.get((settype,) + tuple(g), [])
            else:
                l = [o for _, o in by3.get(tuple(g), [])]
        else:
            return f"{g!r} is not a reference"
        if len(l) != 1:
            return f"reference {g!r} identifies {len(l)} objects of the logical file"
        return v.inv.get(id(l[0]), f"reference {g!r} identifies an object that was never asked for")
    return resolve


def check_identity(v):
    """C07: unique identities; origins are those of ORIGIN objects of this logical file."""
    s = v.s
    seen = set()
    origins = [h for h in v.m.objs if h.kind == 'origin']
    orefs = {}
    for st in v.lf.sets:
        for o in st.objects:
            k = (st.type, o.origin, o.copy, o.name)
            if k in seen:
                s.fail('dup-identity', f"two objects of logical file {v.m.idx} are identified by {k}")
            seen.add(k)
    seen_tcn = {}
    for st in v.lf.sets:
        for o in st.objects:
            k = (st.type, o.copy, o.name)
            if k in seen_tcn:
                s.fail('dup-copy', f"same-named objects of type {st.type} share the copy number: {seen_tcn[k]}, {o.obname}")
            seen_tcn[k] = o.obname
    for h in origins:
        orefs.setdefault(v.map[h].origin, []).append(h)
    for r, hs in orefs.items():
        if len(hs) > 1:
            s.fail('dup-origin-ref', f"origins {hs} share the origin reference {r}")
    first = v.lf.sets[0].objects[0].origin if v.lf.sets and v.lf.sets[0].type == 'ORIGIN' else None
    for st in v.lf.sets:
        for o in st.objects:
            if o.origin not in orefs:
                s.fail('origin-unknown', f"{o} has origin {o.origin}; the ORIGIN objects have {sorted(orefs)}")
    for h in v.m.objs:
        o = v.map[h]
        if h.kind == 'origin':
            if h.origin is not None and o.origin != h.origin:
                s.fail('origin-chosen', f"{h} was given origin reference {h.origin}, has {o.origin}")
        elif h.origin is not None:
            if o.origin != h.origin:
                s.fail('origin-chosen', f"{h} was given origin {h.origin}, has {o.origin}")
        elif first is not None and o.origin != first:
            s.fail('origin-default', f"{h} has origin {o.origin}, the defining origin is {first}")
    if v.lf.header.objects[0].origin not in orefs:
        s.fail('origin-unknown', f"file header has origin {v.lf.header.objects[0].origin}; ORIGINs: {sorted(orefs)}")


def check_refs(v):
    """C07: every reference written resolves to exactly the object passed (attribute references and IFLR references)."""
    s = v.s
    resolve = resolver(v)
    for h in v.m.objs:
        o = v.map[h]
        for kw, (lab, kind) in KINDS[h.kind][2].items():
            if not kind.startswith('R'):
                continue
            a = o.attrs.get(lab)
            exp = h.vals.get(kw)
            if exp is None or isinstance(exp, str):
                continue
            exp = flat(exp)
            if not exp:
                continue
            if a is None or a.absent or a.value is None:
                s.fail('ref-missing', f"{h}.{lab} is absent, asked for {exp}")
            st = kind.split(':')[1] if ':' in kind else 'LONG-NAME'
            if len(a.value) != len(exp):
                s.fail('ref-wrong', f"{h}.{lab} = {a.value}, asked for {exp}")
            for g, e in zip(a.value, exp):
                r = resolve(g, st)
                if r is not e:
                    s.fail('ref-wrong', f"{h}.{lab} = {g!r}: {r if isinstance(r, str) else 'identifies ' + repr(r)}, "
                                        f"asked for {e}")
    # references that are in the file although nobody asked for them, or references opening IFLRs
    nf, fd = [], []
    for x in v.lf.iflrs:
        r = resolve(x.ref, 'NO-FORMAT' if x.type == 1 else 'FRAME')
        if isinstance(r, str):
            s.fail('iflr-ref', f"record {x.rec_index}: {r}")
        o = v.map[r]
        if o.set.rec_index > x.rec_index:
            s.fail('iflr-ref', f"record {x.rec_index} refers to {r}, which is defined later (record {o.set.rec_index})")
        (nf if x.type == 1 else fd).append((r, x))
    if [r for r, _ in nf] != [h for h, _ in v.m.nofmt]:
        s.fail('nofmt-ref', f"no-format records refer to {[r for r, _ in nf]}, added under {[h for h, _ in v.m.nofmt]}")
    return nf, fd


def check_attrs(v, skip=()):
    """C05 for every attribute of every object except those named in skip (set of (kind, label))."""
    s = v.s
    resolve = resolver(v)
    defining = next((h for h in v.m.objs if h.kind == 'origin'), None)
    if v.lf.sets and v.lf.sets[0].type == 'ORIGIN':
        defining = v.inv.get(id(v.lf.sets[0].objects[0]), defining)
    for h in v.m.objs:
        o = v.map[h]
        attrs = dict(o.attrs)
        want_labels = labels(h.kind)
        for lab in attrs:
            if lab not in want_labels:
                s.fail('label', f"{h} has attribute {lab}, which the standard does not know")
        for kw, (lab, kind) in KINDS[h.kind][2].items():
            if (h.kind, lab) in skip:
                continue
            a = attrs.get(lab)
            if a is None:
                s.fail('label', f"{h} has no attribute {lab}")
            exp = h.vals.get(kw)
            if exp is not None:
                e = flat(exp)
                if a.absent or a.value is None:
                    if e:
                        s.fail('attr-absent', f"{h}.{lab} is absent, was set to {exp!r:.200}")
                    continue
                why = cmp_value(kind, e, a.code, a.value, lambda g: resolve(g, kind.split(':')[1] if ':' in kind else
                                                                            ('LONG-NAME' if kind == 'RT' else None)))
                if why:
                    s.fail('attr-value', f"{h}.{lab}: {why}")
                u = plain(h.units.get(kw))
                if (u or '') != (a.units or '') and (h.kind, lab, 'units') not in skip:
                    if not (u is None and h.kind == 'frame'):
                        s.fail('attr-units', f"{h}.{lab} has units {a.units!r}, was given {u!r}")
            elif not a.absent and a.value:
                if not default_ok(v, h, lab, a, defining):
                    s.fail('attr-extra', f"{h}.{lab} was never set but decodes as {a!r:.200}")
        if h.kind == 'group':
            a = attrs.get('OBJECT-TYPE')
            if a is not None and not a.absent and a.value:
                types = {x.settype for x in flat(h.vals.get('object_list') or [])}
                if types != {a.value[0]}:
                    s.fail('attr-extra', f"{h}.OBJECT-TYPE = {a.value} for objects of types {types}")


def default_ok(v, h, lab, a, defining):
    """Documented write-time defaults."""
    val = a.value
    if h.kind == 'origin':
        if lab == 'FIELD-NAME':
            return val == ['WILDCAT']
        if lab == 'FILE-SET-NUMBER':
            return len(val) == 1 and val[0] >= 1
        if lab == 'CREATION-TIME':
            return len(val) == 1 and abs(val[0][0] - datetime.now(timezone.utc)) < timedelta(minutes=10)
    if h.kind == 'channel':
        if lab == 'LONG-NAME':
            return a.code == 20 and val == [h.name]
        if lab in ('DIMENSION', 'ELEMENT-LIMIT'):
            if h.data is not None:
                dim = list(h.data.shape[1:]) or [1]
                return val == dim
            other = h.vals.get('element_limit' if lab == 'DIMENSION' else 'dimension')
            return other is None or val == flat(other)
    if h.kind == 'frame':
        if lab in ('INDEX-MIN', 'INDEX-MAX', 'SPACING', 'DIRECTION'):
            return True             # judged by C13
    if h.kind in ('parameter', 'computation', 'calibration_measurement') and lab == 'DIMENSION':
        shapes = []
        for kw, (_, k) in KINDS[h.kind][2].items():
            if k in ('NMD', 'XMD') and kw in h.vals:
                x = h.vals[kw]
                shapes.append(list(np.shape(np.array(x if isinstance(x, (list, tuple)) else [x]))[1:]) or [1])
        return val in shapes
    return False


# ---------------------------------------------------------------------------------------------------------- frame data
NP2CODE = {'int8': 12, 'int16': 13, 'int32': 14, 'uint8': 15, 'uint16': 16, 'uint32': 17, 'float32': 2, 'float64': 7}
CODESIZE = {12: 1, 13: 2, 14: 4, 15: 1, 16: 2, 17: 4, 2: 4, 7: 8}


def be_bytes(arr, dtype=None):
    """Rows of `arr` (after the cast, if any) as big-endian bytes, independent of memory layout and byte order."""
    a = np.asarray(arr)
    if dtype is not None:
        a = a.astype(np.dtype(dtype).newbyteorder('='))
    a = np.ascontiguousarray(a.astype(a.dtype.newbyteorder('>'), copy=True))
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    a = a.reshape(a.shape[0], -1)
    return [a[i].tobytes() for i in range(a.shape[0])]


def chan_array(h, data=None):
    key = h.dataset_name if h.dataset_name is not None else h.name
    if data is not None and key in data:
        return data[key]
    return h.data


def frame_rows(h, data=None, from_idx=0, to_idx=None):
    """Expected slot bytes of each row of frame h."""
    cols = []
    for c in flat(h.vals['channels']):
        cols.append(be_bytes(chan_array(c, data)[from_idx:to_idx], c.cast))
    return [b''.join(r) for r in zip(*cols)]


def check_frame_data(v, data=None, from_idx=0, to_idx=None):
    """C03: records per frame = rows, numbered 1..N in order, slot bytes exactly as given."""
    s = v.s
    resolve = resolver(v)
    per = {h: [] for h in v.m.of('frame')}
    for x in v.lf.iflrs:
        if x.type != 0:
            continue
        r = resolve(x.ref, 'FRAME')
        if isinstance(r, str):
            s.fail('iflr-ref', f"record {x.rec_index}: {r}")
        per[r].append(x)
    for h, xs in per.items():
        rows = frame_rows(h, data, from_idx, to_idx)
        if len(xs) != len(rows):
            s.fail('row-count', f"{h}: {len(xs)} frame-data records, {len(rows)} rows")
        if [x.frame_no for x in xs] != list(range(1, len(rows) + 1)):
            s.fail('frame-number', f"{h}: frame numbers {[x.frame_no for x in xs][:20]}")
        for i, (x, r) in enumerate(zip(xs, rows)):
            if x.data != r:
                s.fail('row-bytes', f"{h} row {i}: {x.data[:40].hex()} ({len(x.data)} B) instead of {r[:40].hex()} ({len(r)} B)")
    return per


def check_descriptors(v, data=None):
    """C08: representation code / dimension / element limit of each frame's channels match the layout of its records."""
    s = v.s
    resolve = resolver(v)
    for h in v.m.of('frame'):
        fo = v.map[h]
        a = fo.attrs.get('CHANNELS')
        if a is None or a.absent or not a.value:
            s.fail('frame-channels', f"{h} lists no channels")
        size = 0
        for ref in a.value:
            c = resolve(ref, 'CHANNEL')
            if isinstance(c, str):
                s.fail('frame-channels', f"{h}: {c}")
            co = v.map[c]
            rc, dim, el = (co.attrs.get(k) for k in ('REPRESENTATION-CODE', 'DIMENSION', 'ELEMENT-LIMIT'))
            if rc is None or rc.absent or not rc.value or len(rc.value) != 1 or rc.value[0] not in CODESIZE:
                s.fail('descr-code', f"{c}: REPRESENTATION-CODE {rc}")
            arr = chan_array(c, data)
            want = np.dtype(c.cast if c.cast is not None else arr.dtype)
            if rc.value[0] != NP2CODE[want.name]:
                s.fail('descr-code', f"{c}: REPRESENTATION-CODE {rc.value[0]}, data written as {want.name}")
            wdim = list(arr.shape[1:]) or [1]
            if dim is None or dim.absent or dim.value != wdim:
                s.fail('descr-dim', f"{c}: DIMENSION {dim}, rows have shape {wdim}")
            if el is None or el.absent or not el.value or len(el.value) < len(wdim) or \
                    any(e < d for e, d in zip(el.value, wdim)):
                s.fail('descr-limit', f"{c}: ELEMENT-LIMIT {el} does not bound {wdim}")
            n = 1
            for d in dim.value:
                n *= d
            size += CODESIZE[rc.value[0]] * n
        for x in v.lf.iflrs:
            if x.type == 0 and resolve(x.ref, 'FRAME') is h and len(x.data) != size:
                s.fail('descr-size', f"{h}: record {x.frame_no} holds {len(x.data)} bytes, its channels describe {size}")


def check_nofmt(v):
    """C16."""
    s = v.s
    resolve = resolver(v)
    got = []
    for x in v.lf.iflrs:
        if x.type == 1:
            r = resolve(x.ref, 'NO-FORMAT')
            if isinstance(r, str):
                s.fail('iflr-ref', f"record {x.rec_index}: {r}")
            got.append((r, x.data))
    exp = v.m.nofmt
    if [h for h, _ in got] != [h for h, _ in exp]:
        s.fail('nofmt-order', f"payloads under {[h for h, _ in got][:20]}, added under {[h for h, _ in exp][:20]}")
    for i, ((h, g), (_, e)) in enumerate(zip(got, exp)):
        if g != e:
            s.fail('nofmt-bytes', f"payload {i} under {h}: {len(g)} bytes {g[:40].hex()}... instead of {len(e)} bytes "
                                  f"{e[:40].hex()}...")


def check_header(v):
    """C09: header record and order of the records."""
    s, m, lf = v.s, v.m, v.lf
    hd = lf.header
    if len(hd.objects) != 1:
        s.fail('header', f"FILE-HEADER holds {len(hd.objects)} objects")
    o = hd.objects[0]
    if o.name != m.fh['identifier']:
        s.fail('header', f"FILE-HEADER object is named {o.name!r}, identifier is {m.fh['identifier']!r}")
    if {t.label for t in hd.template} != {'SEQUENCE-NUMBER', 'ID'}:
        s.fail('header', f"FILE-HEADER attributes {[t.label for t in hd.template]}")
    sn, fid = o.attrs['SEQUENCE-NUMBER'], o.attrs['ID']
    if sn.code != 20 or fid.code != 20 or sn.absent or fid.absent:
        s.fail('header', f"{sn} {fid}")
    if sn.value != [str(m.fh['seq']).rjust(10)]:
        s.fail('header', f"SEQUENCE-NUMBER {sn.value!r} for {m.fh['seq']}")
    if fid.value != [m.fh['id'].ljust(65)]:
        s.fail('header', f"ID {fid.value!r} for {m.fh['id']!r}")
    kinds = [('E', x.type) if k == 'E' else ('I', None) for k, x in lf.order]
    if not kinds or kinds[0] != ('E', 'ORIGIN'):
        s.fail('order', f"the header of logical file {m.idx} is followed by {kinds[:1]}")
    seen_other = False
    for k, x in lf.order:
        if k == 'E' and x.type == 'ORIGIN':
            if seen_other:
                s.fail('order', f"ORIGIN set {x.name} after other records in logical file {m.idx}")
        else:
            seen_other = True
    defined = set()
    first_i = None
    for k, x in lf.order:
        if k == 'E':
            if not x.objects:
                s.fail('empty-set', f"set ({x.type}, {x.name}) is empty")
            if x.lrtype != SETTYPES[x.type][1]:
                s.fail('lrtype', f"set {x.type} in a record of type {x.lrtype}")
            if first_i is not None:
                s.fail('order', f"set ({x.type}, {x.name}) comes after an indirectly formatted record")
            for ob in x.objects:
                defined.add((x.type, ob.origin, ob.copy, ob.name))
        else:
            first_i = x
            if (('NO-FORMAT' if x.type == 1 else 'FRAME'),) + tuple(x.ref) not in defined:
                s.fail('order', f"record {x.rec_index} refers to {x.ref}, not defined before it")
    od = lf.sets[0].objects[0]
    fi, fs = od.attrs.get('FILE-ID'), od.attrs.get('FILE-SET-NUMBER')
    if fi is None or fi.absent or fi.value is None or [x.rstrip(' ') for x in fi.value] != [m.fh['id'].rstrip(' ')]:
        s.fail('file-id', f"FILE-ID of the defining origin is {fi}, header ID {m.fh['id']!r}")
    if fs is None or fs.absent or not fs.value:
        s.fail('file-set-number', f"FILE-SET-NUMBER of the defining origin: {fs}")
    dh = next((h for h in m.objs if h.kind == 'origin'), None)
    if v.inv.get(id(od)) is not dh:
        s.fail('defining-origin', f"first ORIGIN object is {od}, the first origin added is {dh}")


def check_sul(s, f):
    e_id = s.kw.get('set_identifier', 'MAIN-STORAGE-UNIT')
    if f.sul.ident != e_id.ljust(60):
        s.fail('sul', f"set identifier {f.sul.ident!r}")
    if f.sul.seq != s.kw.get('sul_sequence_number', 1):
        s.fail('sul', f"sequence number {f.sul.seq}")
    if f.sul.maxlen != s.kw.get('max_record_length', 8192):
        s.fail('sul', f"maximum record length {f.sul.maxlen}")


def check_all(s, data, skip=(), frame_kw=None):
    """Everything a strict reader plus the model can say about a file."""
    f = parse(s, data)
    check_sul(s, f)
    views = match(s, f)
    for v in views:
        check_header(v)
        check_identity(v)
        check_refs(v)
        check_attrs(v, skip)
        check_nofmt(v)
        check_frame_data(v, **(frame_kw or {}))
        check_descriptors(v, (frame_kw or {}).get('data'))
    return f, views


# ------------------------------------------------------------------------------------------------------ common builders
def payload_list(lf):
    """The list in which a logical file keeps its no-format data (there is no public way to take one out again)."""
    v = getattr(lf, '_no_format_frame_data', None)
    if isinstance(v, list):
        return v
    for v in vars(lf).values():
        if isinstance(v, list) and v and all(hasattr(x, 'no_format_object') for x in v):
            return v
    raise Prune('no list of payloads to take one out of')


def row_class():
    """The class whose instances are the rows of a frame, where the writer looks it up; None if it has moved."""
    try:
        import dliswriter.file.multi_frame_data as m
    except ImportError:
        return None
    return getattr(m, 'FrameData', None)


def minimal(s, lf=None, rows=2, sets=None, name='', origin_kw=None, data=None, **lfkw):
    """Smallest valid content of a logical file: one origin, one channel, one frame."""
    lf = lf or s.lf(**lfkw)
    ok = dict(BASE_ORIGIN)
    ok.update(origin_kw or {})
    s.add(lf, 'origin', 'O' + name, set_name=sets, **ok)
    c = s.add(lf, 'channel', 'C' + name, set_name=sets,
              data=np.arange(rows, dtype=np.float64) * 1.5 + 0.25 if data is None else data)
    fr = s.add(lf, 'frame', 'F' + name, set_name=sets, channels=[c])
    return lf, c, fr


def exc_name(e):
    return type(e).__name__


def h64b(b):
    import hashlib
    return int.from_bytes(hashlib.blake2b(b, digest_size=8).digest(), 'big')
