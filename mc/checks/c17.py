"""C17 High-compatibility mode enforces its restrictions and never leaks."""
import re
import threading
from contextlib import ExitStack
from fractions import Fraction

import numpy as np

from .. import lib, rp66, data as D
from ..engine import Scenario, Prune
from ..lib import Session, A
from ..schema import KINDS, ATTR_NAME
from ..values import units_ok
from .c07 import make
from .c13 import stats

BOUNDS = {'quick': 'names: every character 0..127 and a few beyond in first/middle/last position, "", and combinations, for each of the 22 object '
                   'types, the header ID and identifier and the set identifier x given/changed later/changed between two writes x on/off; '
                   'signed data: 12 dtypes x 12 casts x sources x widths x byte orders x position; channels: all assignments of 3 channels '
                   'to 2 frames (0..2 each) x 2 logical files; spacing: all index sequences of length 1..4 over 6 values x dtypes, '
                   'difference patterns around the tolerance, x options; enumerations: all members of the standard and near misses x '
                   'every attribute which takes units, index type, equipment type and location x 4 routes; file set numbers: up to '
                   '4 origins; explicit-state search of the mode (enter, leave normally / by 5 kinds of exception, decorated '
                   'calls, recursion, failing and succeeding writes) to depth 6, every transition replayed; every interleaving of 3 '
                   'overlapping contexts, in one thread and in three; up to 300 levels or repetitions; objects made and values assigned on either side of entering and leaving the mode',
          'thorough': 'mode search depth 8; index sequences of length 5; 4 overlapping contexts'}
ASSUMPTIONS = ['what was built before the context was entered and violates a restriction may be written or refused inside it, except for data, '
               'spacing, channel use and names, which are checked when written',
               'explicitly given file set numbers are the choice of the user, automatic ones are the number of the origin in its set',
               'spacing: exactly uniform and clearly (5 %) non-uniform differences are judged, the tolerance itself is C13',
               'while several threads are in the mode, a thread outside may or may not be subject to it']

OK = re.compile(r"[A-Z0-9_-]+\Z")
INDEX_TYPES = ['ANGULAR-DRIFT', 'BOREHOLE-DEPTH', 'NON-STANDARD', 'RADIAL-DRIFT', 'VERTICAL-DEPTH']
EQ_TYPES = ('Adapter Board Bottom-Nose Bridle Cable Calibrator Cartridge Centralizer Chamber Cushion Depth-Device Display Drawer Excentralizer '
            'Explosive-Source Flask Geophone Gun Head Housing Jig Joint Nuclear-Detector Packer Pad Panel Positioning Printer '
            'Radioactive-Source Shield Simulator Skid Sonde Spacer Standoff System Tool Tool-Module Transducer Vibration-Source').split()
LOCATIONS = ['Logging-System', 'Remote', 'Rig', 'Well']
UNITS = ('A K cd dAPI dB gAPI kg m mol nAPI rad s sr Btu C D GPa Gal Hz J L MHz MPa MeV Mg Mpsi N Oe P Pa S T V W Wb a acre atm b bar bbl c cP cal '
         'cm cu d daN deg degC degF dm eV fC ft g gal h in kHz kPa kV keV kgf km lbf lbm mA mC mD mGal mL mS mT mV mW mg min mm mohm ms nC nW '
         'ns ohm pC pPa ppdk ppk ppm psi pu t ton uA uC uPa uV um uohm upsi us').split()
SIGNED = {12, 13, 14}


def hc():
    return lib.dw().high_compatibility_mode()


def reset():
    """A leak found in one execution must not spoil the next ones (which are judged on their own)."""
    try:
        from dliswriter.configuration import global_config
        global_config.high_compat_mode = False
    except Exception:
        pass
    lib.CAPTURE.records.clear()


def warned():
    return bool(lib.CAPTURE.records)


def active():
    """Is the mode on?  Asked through its effect."""
    n = len(lib.CAPTURE.records)
    try:
        lib.dw().DLISFile().add_logical_file().add_zone('lower case')
        return False
    except ValueError:
        return True
    finally:
        del lib.CAPTURE.records[n:]


def invariants(s, f):
    """What the property says about any file built and written in the mode."""
    def name(what, x):
        if not OK.match(x):
            s.fail('hc-name', f"{what} {x!r} was written in high-compatibility mode")
    name('set identifier', f.sul.ident.rstrip(' ') if f.sul.ident.strip() else f.sul.ident)
    for lf in f.lfs:
        name('header ID', lf.header.objects[0].attrs['ID'].value[0].rstrip(' '))
        name('header identifier', lf.header.objects[0].name)
        use = {}
        byref = {}
        for st in lf.sets:
            for o in st.objects:
                name(st.type, o.name)
                byref[st.type, o.origin, o.copy, o.name] = o
                for lab, a in o.attrs.items():
                    if a.absent:
                        continue
                    if a.units and a.units not in UNITS:
                        s.fail('hc-units', f"{st.type} {o.name}.{lab} has units {a.units!r}")
                    v = (a.value or [None])[0]
                    allowed = {('FRAME', 'INDEX-TYPE'): INDEX_TYPES, ('EQUIPMENT', 'TYPE'): EQ_TYPES, ('EQUIPMENT', 'LOCATION'): LOCATIONS,
                               ('CHANNEL', 'UNITS'): UNITS}.get((st.type, lab))
                    if allowed and v is not None and v not in allowed:
                        s.fail('hc-enum', f"{st.type} {o.name}.{lab} = {v!r}")
        for st in lf.sets:
            if st.type != 'FRAME':
                continue
            for o in st.objects:
                for r in o.attrs['CHANNELS'].value:
                    use[tuple(r)] = use.get(tuple(r), 0) + 1
                c0 = byref[('CHANNEL',) + tuple(o.attrs['CHANNELS'].value[0])]
                it = o.attrs.get('INDEX-TYPE')
                if it is not None and not it.absent and it.value:
                    code = c0.attrs['REPRESENTATION-CODE'].value[0]
                    vals = [rp66.d_value(code, x.data[:lib.CODESIZE[code]], 0)[0] for x in lf.iflrs
                            if x.type == 0 and tuple(x.ref) == (o.origin, o.copy, o.name)]
                    if nonuniform(vals, code) is True:
                        s.fail('hc-spacing', f"frame {o.name} with index {vals[:8]} was written")
        for st in lf.sets:
            if st.type == 'CHANNEL':
                for o in st.objects:
                    n = use.get((o.origin, o.copy, o.name), 0)
                    if n != 1:
                        s.fail('hc-frames', f"channel {o.name} is in {n} frames")
                    rc = o.attrs['REPRESENTATION-CODE']
                    if rc.value and rc.value[0] in SIGNED:
                        s.fail('hc-signed', f"channel {o.name} has representation code {rc.value[0]}")


def nonuniform(vals, code):
    """True: clearly not uniform; False: exactly uniform; None: not judged here."""
    if len(vals) < 2:
        return False
    st = stats(vals, code)
    if any(isinstance(v, float) and v != v for v in vals):
        return True
    if 'd' not in st:
        return None
    lo, hi = st['d']
    if lo == hi:
        return False if st['uniform'] else None
    d = sorted(Fraction(b) - Fraction(a) for a, b in zip(vals, vals[1:]))
    m = (d[len(d) // 2] + d[(len(d) - 1) // 2]) / 2
    if m == 0 or any(abs(1 - x / m) > Fraction(1, 20) for x in d):
        return True
    return None


def run(ctx, s, on, breach, build, what, early=False, warn=True):
    """build() inside or outside the mode, then write.  breach: True/False/None (not judged)."""
    def go():
        try:
            kw = build() or {}
        except (lib.Violation, Prune):
            raise
        except Exception as e:
            return 'err', e
        return s.write(**kw)
    if on:
        s.log.append('with high_compatibility_mode():')
        try:
            with hc():
                st, r = go()
        finally:
            s.log.append('# mode left')
        if active():
            s.fail('mode-leak', 'the mode is on after its context was left')
    else:
        st, r = go()
    if st == 'err':
        if on and breach is False or not on and breach is not None:
            s.fail('hc-rejects' if on else 'rejected-outside', f"{what}, mode {'on' if on else 'off'}: {type(r).__name__}: {r}"[:400])
        if on and breach and not isinstance(r, (ValueError, RuntimeError, TypeError)):
            s.fail('hc-rejects', f"{what}: {type(r).__name__}: {r}"[:400])
        ctx.outcome('mode on: raised' if on else 'mode off: raised')
        return None
    if on and breach:
        s.fail('hc-accepts', f"{what} was written in high-compatibility mode")
    if not on and breach and warn and not warned():
        s.fail('no-warning', f"{what}: accepted outside the mode without a warning")
    f = lib.parse(s, r)
    if on:
        invariants(s, f)
    ctx.outcome('mode on: written' if on else 'mode off: written')
    return f


# ------------------------------------------------------------------------------------------------------------- names
def name_values():
    out = ['AB', 'A-Z_09', '-', '_', '0', '', 'Ab', 'A B', 'A.B', 'A\n', '\nA', 'A\u00c4', '\u0130', '\u0391', 'A\u0660', 'aB', 'A ', ' A', 'A' * 60]
    out += [chr(i) for i in range(128)] + [f"A{chr(i)}B" for i in range(128)] + [f"AB{chr(i)}" for i in range(128)]
    return sorted(set(out), key=lambda x: (x != 'AB', x))


NAMES = name_values()


def names(ctx):
    where = ctx.choose('name of', ['set identifier', 'header id', 'header identifier'] + list(KINDS))
    how = ctx.choose('given', ['when made', 'later', 'between writes', 'second object'])
    v = ctx.choose('name', NAMES if where in ('zone', 'channel', 'set identifier', 'header id', 'header identifier') and how != 'second object'
                   else NAMES[:3] + ['Ab', 'A B', 'A\n', '', 'z', 'A.'])
    on = ctx.choose('mode', [True, False])
    reset()
    breach = not OK.match(v)
    if where == 'header identifier' and len(v) != 1:
        raise Prune('one character')
    if not on and breach and (v == '' or not v.isascii() or any(not 32 <= ord(c) < 127 for c in v)):
        breach = None               # other rules may refuse these
    s = Session()
    obj = {}

    def build():
        nonlocal s
        made = how in ('when made', 'second object')
        s2 = Session(**({'set_identifier': v} if where == 'set identifier' and made else {}))
        s2.log = s.log + s2.log
        s.__dict__.update(s2.__dict__)
        hid = v if where == 'header id' and made else 'FILE-HEADER'
        ident = v if where == 'header identifier' and made else '0'
        if how == 'second object' and where in ('header id', 'header identifier'):
            lib.minimal(s, s.lf(), sets='L0')
            lf = s.lf(hid, ident)
            lib.minimal(s, lf, sets='L1')
        else:
            lf = s.lf(hid, ident)
            lib.minimal(s, lf, name='0Q')
        if where in KINDS:
            if how == 'second object':
                o = make(s, lf, where, 'FIRST', 0)
                frame_of(s, lf, o)
            o = make(s, lf, where, v if made else 'LATER', 1)
            frame_of(s, lf, o)
        if made:
            return
        if how == 'between writes':
            st, r = s.write()
            if st == 'err':
                s.fail('hc-rejects', f"conforming file: {type(r).__name__}: {r}")
        s.log.append(f"{where} becomes {v!r}")
        lib.CAPTURE.records.clear()
        if where == 'set identifier':
            s.real.storage_unit_label.set_identifier = v
            s.kw['set_identifier'] = v
        elif where == 'header id':
            lf.real.file_header.header_id = v
            lf.real.defining_origin.file_id.value = v
            lf.fh['id'] = v
        elif where == 'header identifier':
            lf.real.file_header.name = v
            lf.fh['identifier'] = v
        else:
            o.real.name = v
            o.name = v
    f = run(ctx, s, on, breach, build, f"{where} {v!r}")
    if f is not None:
        lib.match(s, f)


def frame_of(s, lf, o):
    """Every channel in exactly one frame."""
    if o.kind == 'channel':
        s.add(lf, 'frame', f"FX{len(lf.objs)}", channels=[o])


# ------------------------------------------------------------------------------------------------------------- signed data
INTS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'float32', 'float64', 'bool', '>i2', '>f4']
CASTS = [None, 'int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'float32', 'float64', '>i2', '>u2', '<i4']
SUPPORTED = {'int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'float32', 'float64'}


def signed(ctx):
    dt = ctx.choose('dtype', INTS)
    cast = ctx.choose('cast', CASTS)
    src = ctx.choose('data', ['inline', 'dict', 'structured', 'hdf5'])
    width = ctx.choose('width', [None, 1, 3])
    pos = ctx.choose('channel', ['only', 'second', 'second frame', 'second logical file'])
    how = ctx.choose('cast given', ['at creation', 'later']) if cast else None
    on = ctx.choose('mode', [True, False])
    reset()
    final = np.dtype(cast or dt)
    if final.newbyteorder('=').name not in SUPPORTED:
        breach = None
    else:
        breach = final.kind == 'i'
    arr = np.arange(3).astype(dt)
    if width:
        arr = np.repeat(arr.reshape(-1, 1), width, axis=1)
    s = Session()

    def build():
        lf = s.lf()
        two = pos == 'second logical file'
        arrays = {}
        inl = src == 'inline'
        s.add(lf, 'origin', 'O', set_name='L0', **lib.BASE_ORIGIN)

        def chan(m, nm, a, sn, **kw):
            if inl:
                return s.add(m, 'channel', nm, set_name=sn, data=a, **kw)
            arrays[nm] = a
            c = s.add(m, 'channel', nm, set_name=sn, **kw)
            return c
        first = None
        if pos != 'only':
            first = chan(lf, 'U', np.arange(3, dtype='uint16'), 'L0')
        m, sn = lf, 'L0'
        if two:
            s.add(lf, 'frame', 'F0', set_name='L0', channels=[first])
            m, sn = s.lf('H2'), 'L1'
            s.add(m, 'origin', 'O', set_name='L1', **lib.BASE_ORIGIN)
        c = chan(m, 'X', arr, sn, **({'cast_dtype': np.dtype(cast)} if how == 'at creation' else {}))
        if how == 'later':
            s.log.append(f"X.cast_dtype = {cast}")
            c.real.cast_dtype = np.dtype(cast)
            c.cast = np.dtype(cast)
        if pos == 'second':
            s.add(m, 'frame', 'F', set_name=sn, channels=[first, c])
        else:
            if pos == 'second frame':
                s.add(m, 'frame', 'F0', set_name=sn, channels=[first])
            s.add(m, 'frame', 'F', set_name=sn, channels=[c])
        if not inl:
            return {'data': D.make_source(src, arrays)}
    run(ctx, s, on, breach, build, f"channel data of type {final}")


# ------------------------------------------------------------------------------------------------------------- one frame per channel
def membership(ctx):
    nlf = ctx.choose('logical files', [1, 2])
    frames_ = [[ctx.choose(f"channel {c} in frame {f}", [True, False]) for f in range(2)] for c in range(3)]
    where = ctx.choose('in logical file', list(range(nlf)))
    how = ctx.choose('frames', ['made with channels', 'channels assigned later'])
    names_ = ctx.choose('names', [('C0', 'C1', 'C2'), ('C', 'C', 'C'), ('C', 'D', 'C')])
    csets = ctx.choose('channel sets', ['one', 'three'] if nlf == 1 else ['one'])
    on = ctx.choose('mode', [True, False])
    reset()
    ch = [[c for c in range(3) if frames_[c][f]] for f in range(2)]
    if not ch[0] and not ch[1]:
        raise Prune('a frame has channels')
    if any(len({names_[c] for c in x}) < len(x) for x in ch):
        raise Prune('channels of one frame are named differently: the library refuses others, in the mode or not')
    counts = [sum(x) for x in frames_]
    s = Session()

    def build():
        for i in range(nlf):
            m = s.lf(f"H{i}")
            sn = f"L{i}"
            if i != where:
                lib.minimal(s, m, sets=sn)
                continue
            s.add(m, 'origin', 'O', set_name=sn, **lib.BASE_ORIGIN)
            cs = [s.add(m, 'channel', names_[k], set_name=sn if csets == 'one' else f"{sn}-{k}",
                        data=np.arange(2.0) + k) for k in range(3)]
            fs = []
            for f in range(2):
                want = [cs[k] for k in ch[f]]
                if not want:
                    continue
                if how == 'made with channels':
                    s.add(m, 'frame', f"F{f}", set_name=sn, channels=want)
                else:
                    fs.append((s.add(m, 'frame', f"F{f}", set_name=sn, channels=cs[:1]), want))
            for x, want in fs:
                s.set(x, 'channels', 'value', want)
    run(ctx, s, on, any(c != 1 for c in counts), build, f"channels in {counts} frames")


# ------------------------------------------------------------------------------------------------------------- spacing
def index_cases(tier):
    cases = []

    def seqs(al, n):
        return [()] if n == 0 else [q + (a,) for q in seqs(al, n - 1) for a in al]
    for dt, al in (('float64', [0.0, 1.0, 2.0, 3.0, 0.5, float('nan')]), ('uint8', [0, 1, 2, 3, 255, 254]), ('float32', [0.0, 0.5, 1.0, -1.0, 2.0])):
        for n in range(1, 5 if tier == 'quick' else 6):
            cases += [(dt, q) for q in seqs(al, n)]
    for dt in ('float64', 'float32'):
        for base in (1.0, -1.0, 100.0, 0.125):
            for n in (2, 3, 5, 50):
                for i in sorted({0, n // 2, n - 1}):
                    for fct in (1.0, 1.2, 0.8, 1.06, 2.0, 0.0, -1.0):
                        d = [base] * n
                        d[i] *= fct
                        cases.append((dt, tuple([0.0] + list(np.cumsum(d)))))
    return cases


def spacing(ctx):
    dt, q = ctx.case
    it = ctx.choose('index type', ['BOREHOLE-DEPTH', 'NON-STANDARD', None], dev=True)
    on = ctx.choose('mode', [True, False])
    opt = ctx.choose('option', ['', 'spacing given', 'chunks', 'window', 'second frame', 'direction given', 'index type later', 'cast'], dev=True)
    reset()
    arr = np.array(q, dtype=dt)
    rows = [x for x in arr.tolist()]
    kw = {}
    if opt == 'window':
        arr = np.concatenate([arr[:1] * 0 + 77, arr, arr[:1] * 0 + 99])
        kw = dict(from_idx=1, to_idx=1 + len(rows))
    if opt == 'chunks':
        kw = dict(input_chunk_size=1)
    if opt == 'cast' and dt != 'float32':
        raise Prune('one dtype')
    nu = nonuniform(rows, {'float64': 7, 'float32': 2, 'uint8': 15}[dt])
    breach = nu if it else False
    if it is None and on:
        breach = False
    s = Session()

    def build():
        lf = s.lf()
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        s.log.append(f"   I = {arr.tolist()}")
        c = s.add(lf, 'channel', 'I', data=arr, **({'cast_dtype': np.dtype('float64')} if opt == 'cast' else {}))
        n = s.add(lf, 'channel', 'N', data=np.arange(len(arr), dtype=np.uint8))
        fk = {} if it is None or opt == 'index type later' else {'index_type': it}
        if opt == 'spacing given':
            fk['spacing'] = 1.0
        if opt == 'direction given':
            fk['direction'] = 'INCREASING'
        if opt == 'second frame':
            c2 = s.add(lf, 'channel', 'I0', data=np.arange(4, dtype=np.float64))
            s.add(lf, 'frame', 'F0', channels=[c2], index_type='BOREHOLE-DEPTH')
        fr = s.add(lf, 'frame', 'F', channels=[c, n], **fk)
        if it is not None and opt == 'index type later':
            s.set(fr, 'index_type', 'value', it)
        return kw
    run(ctx, s, on, breach, build, f"index {rows} ({it})")


# ------------------------------------------------------------------------------------------------------------- enumerations
def near(good):
    return ['', 'furlong', good[0].swapcase() if good[0].swapcase() not in good else 'x', good[-1] + ' ', ' ' + good[0], good[0] + good[1], 'None', '0',
            good[0].replace('-', '_') if '-' in good[0] else good[0] + '-']


UNIT_ATTRS = [(k, kw) for k in KINDS for kw in KINDS[k][2] if units_ok(k, kw)]
NUMBER = {'N': 1.5, 'NM': [1.5], 'NMD': [1.5], 'INT': 3, 'XM': [1.5], 'XMD': [1.5], 'DN': 12.5, 'ENC': 1}


def enums(ctx):
    what = ctx.choose('attribute', ['index type', 'equipment type', 'equipment location', 'channel units', 'units'])
    good = {'index type': INDEX_TYPES, 'equipment type': EQ_TYPES, 'equipment location': LOCATIONS}.get(what, UNITS)
    other = [x for g in (INDEX_TYPES, EQ_TYPES, LOCATIONS, ['m']) if g is not good for x in g[:1]]
    full = what != 'units'
    bad = [x for x in near(good) + other if x not in good]
    target = ctx.choose('of', UNIT_ATTRS) if what == 'units' else None
    v = ctx.choose('value', (good if full else good[:3]) + bad)
    route = ctx.choose('route', ['keyword', 'AttrSetup', 'dict', 'later'])
    member = v in good and ctx.choose('as', ['text', 'member'], dev=True) == 'member'
    on = ctx.choose('mode', [True, False])
    reset()
    breach = v not in good
    if not on and v == '':
        breach = None
    val = v
    if member:
        E = lib.dw().enums
        val = {'index type': E.FrameIndexType, 'equipment type': E.EquipmentType, 'equipment location': E.EquipmentLocation}.get(what, E.Unit)(v)
    s = Session()

    def build():
        lf, c, f = lib.minimal(s)
        if what == 'units':
            kind, kw = target
            vk = KINDS[kind][2][kw][1]
            x = NUMBER.get(vk, 5)
            if vk == 'DT':
                x = lib.CT
            if (kind, kw) == ('origin', 'file_set_number') and route == 'later':
                raise Prune('may not be reassigned')
            h = None
            try:
                if route == 'later':
                    h = make(s, lf, kind, 'X', 0, **({kw: x} if kind != 'path' or kw != 'borehole_depth' else {}))
                    s.set(h, kw, 'units', val)
                elif route == 'keyword':
                    raise Prune('units go with a value')
                else:
                    h = make(s, lf, kind, 'X', 0, **{kw: A(x, val, route='setup' if route == 'AttrSetup' else 'dict')}) \
                        if (kind, kw) != ('path', 'borehole_depth') else s.add(lf, 'path', 'X', borehole_depth=A(x, val))
            except (RuntimeError, TypeError) as e:
                if 'nits' in str(e) and 'cannot be set' in str(e):
                    raise Prune('no units here')
                raise
            frame_of(s, lf, h)
            return
        kind, kw = {'index type': ('frame', 'index_type'), 'equipment type': ('equipment', 'eq_type'), 'equipment location': ('equipment', 'location'),
                    'channel units': ('channel', 'units')}[what]
        given = val if route == 'keyword' else A(val, route='setup' if route == 'AttrSetup' else 'dict')
        if route == 'later':
            h = make(s, lf, kind, 'X', 0)
            s.set(h, kw, 'value', val)
        else:
            h = make(s, lf, kind, 'X', 0, **{kw: given})
        frame_of(s, lf, h)
    run(ctx, s, on, breach, build, f"{what} {target or ''} {v!r}")


# ------------------------------------------------------------------------------------------------------------- file set numbers
def fsn(ctx):
    n = ctx.choose('origins', [1, 2, 3, 4])
    sets = ctx.choose('sets', ['one', 'two', 'each'])
    expl = [ctx.choose(f"number {i}", [None, 15]) for i in range(n)]
    rej = ctx.choose('rejected call before', [None] + list(range(n)))
    nlf = ctx.choose('logical files', [1, 2])
    early = ctx.choose('other logical records before', [False, True])
    reset()
    s = Session()
    want = {}
    with hc():
        for L in range(nlf):
            lf = s.lf(f"H{L}")
            per = {}
            if early:
                s.add(lf, 'zone', 'Z', set_name=f"L{L}")
            for i in range(n):
                sn = {'one': f"L{L}", 'two': f"L{L}{i % 2}", 'each': f"L{L}{i}"}[sets]
                if rej == i:
                    try:
                        lf.real.add_origin('REJECTED', set_name=sn, file_set_number='x')
                    except Exception:
                        s.log.append('rejected add_origin')
                    else:
                        raise Prune('accepted')
                per[sn] = per.get(sn, 0) + 1
                kw = {} if expl[i] is None else {'file_set_number': expl[i]}
                h = s.add(lf, 'origin', f"O{i}", set_name=sn, creation_time=lib.CT, **kw)
                want[h] = (per[sn], i + 1) if expl[i] is None else (expl[i],)
            c = s.add(lf, 'channel', 'C', set_name=f"L{L}", data=np.arange(2.0))
            s.add(lf, 'frame', 'F', set_name=f"L{L}", channels=[c])
        st, r = s.write()
    if st == 'err':
        if not any(expl):
            s.fail('hc-rejects', f"{type(r).__name__}: {r}")
        return
    f = lib.parse(s, r)
    invariants(s, f)
    for v in lib.match(s, f):
        for h in v.m.of('origin'):
            g = v.map[h].attrs['FILE-SET-NUMBER']
            if g.absent or not g.value or g.value[0] not in want[h]:
                s.fail('hc-file-set-number', f"{h}: FILE-SET-NUMBER {g.value} instead of {want[h][0]}")


# ------------------------------------------------------------------------------------------------------------- the mode itself
class Own(BaseException):
    pass


EXC = [ValueError, KeyboardInterrupt, SystemExit, GeneratorExit, Own, StopIteration]
MODE_OPS = ['enter', 'leave', 'raise', 'decorated', 'decorated raising', 'recursive', 'bad name', 'good file', 'bad file', 'generator closed']


def mode_step(st, op):
    """Model: depth of nesting; None where not enabled."""
    if op == 'enter':
        return st + 1 if st < 3 else None
    if op in ('leave', 'raise'):
        return st - 1 if st else None
    return st


def mode_cases(depth):
    seen, frontier, cases, nt = {(0, ())}, [(0, ())], [], 0
    # the state of the model is the nesting depth; what an implementation may remember besides it is the last two operations
    paths = {(0, ()): ()}
    for d in range(depth):
        nxt = []
        for st in frontier:
            for op in MODE_OPS:
                t = mode_step(st[0], op)
                if t is None:
                    continue
                nt += 1
                n = (t, (st[1] + (op,))[-2:])
                if n not in paths:
                    paths[n] = paths[st] + (op,)
                    nxt.append(n)
                cases.append(paths[st] + (op,))
        frontier = nxt
    return cases, len(paths), nt


def modes(ctx):
    """Every transition of the mode's model on the implementation, the mode observed after each step."""
    exc = ctx.choose('exceptions', EXC)
    reset()
    D_ = lib.dw()
    trace = []

    def fail(sig, msg):
        raise lib.Violation(sig, msg, '\n'.join(trace))

    def expect(depth, after):
        a = active()
        if a != (depth > 0):
            fail('mode-leak' if a else 'mode-lost', f"after {after}: nested {depth} deep, yet names are {'' if a else 'not '}restricted")
    ops = list(ctx.case)
    pos = [0]

    def one_file(bad):
        s = Session()
        lib.minimal(s, name='bad' if bad else '')
        st, r = s.write()
        if st == 'err':
            raise r
        return s

    def run_level(depth):
        """Executes operations until this level is left."""
        while pos[0] < len(ops):
            op = ops[pos[0]]
            pos[0] += 1
            trace.append('  ' * depth + op)
            ctx.step()
            ctx.state((depth, op))
            if op == 'enter':
                try:
                    with D_.high_compatibility_mode():
                        expect(depth + 1, op)
                        run_level(depth + 1)
                except exc as e:
                    if getattr(e, 'args', None) != ('planned',):
                        raise
                expect(depth, 'leaving')
                continue
            if op == 'leave':
                return
            if op == 'raise':
                raise exc('planned')
            if op.startswith('decorated') or op == 'recursive':
                seen = []

                @D_.high_compatibility_mode_decorator
                def f(n):
                    seen.append(active())
                    if n:
                        f(n - 1)
                        seen.append(active())
                    if op == 'decorated raising':
                        raise exc('planned')
                try:
                    f(2 if op == 'recursive' else 0)
                except exc as e:
                    if getattr(e, 'args', None) != ('planned',):
                        raise
                if not all(seen) or not seen:
                    fail('mode-lost', f"{op}: the mode is {seen} in the decorated function")
            elif op == 'generator closed':
                def g():
                    with D_.high_compatibility_mode():
                        yield active()
                it = g()
                if not next(it):
                    fail('mode-lost', 'context inside a generator')
                it.close()
            elif op == 'bad name':
                try:
                    D_.DLISFile().add_logical_file().add_channel('a b')
                except ValueError:
                    pass
            elif op == 'good file':
                one_file(False)
            elif op == 'bad file':
                try:
                    one_file(True)
                except ValueError:
                    if not depth:
                        fail('rejected-outside', 'lower-case names outside the mode')
                else:
                    if depth:
                        fail('hc-accepts', 'lower-case names written in the mode')
            expect(depth, op)
    try:
        run_level(0)
    except exc as e:
        if getattr(e, 'args', None) != ('planned',):
            raise
    if active():
        fail('mode-leak', 'the mode is on at the end')
    ctx.validated_trace()


def deep(ctx):
    """Nested many levels deep, or entered and left many times."""
    n = ctx.choose('levels', [3, 8, 31, 63, 64, 100, 127, 128, 129, 255, 256, 257, 300])
    how = ctx.choose('how', ['nested contexts', 'recursive decorated', 'one after the other', 'one after the other by exception', 'nested, left by exception'])
    reset()
    D_ = lib.dw()

    def fail(sig, msg):
        raise lib.Violation(sig, msg, f"{n} {how}")

    def check(on, where):
        if active() != on:
            fail('mode-lost' if on else 'mode-leak', where)
    if how.startswith('nested'):
        cms = []
        for i in range(n):
            cm = D_.high_compatibility_mode()
            cm.__enter__()
            cms.append(cm)
            check(True, f"entered {i + 1} times")
        for i in range(n):
            cm = cms.pop()
            if 'exception' in how:
                try:
                    cm.__exit__(ValueError, ValueError('planned'), None)
                except ValueError as e:
                    if e.args != ('planned',):
                        raise
            else:
                cm.__exit__(None, None, None)
            check(bool(cms), f"left {i + 1} of {n} levels")
    elif how.startswith('recursive'):
        @D_.high_compatibility_mode_decorator
        def f(k):
            check(True, f"at depth {k}")
            if k:
                f(k - 1)
                check(True, f"back at depth {k}")
        f(n - 1)
    else:
        for i in range(n):
            try:
                with D_.high_compatibility_mode():
                    check(True, f"entered for the {i + 1}. time")
                    if 'exception' in how:
                        raise ValueError('planned')
            except ValueError as e:
                if e.args != ('planned',):
                    raise
            check(False, f"left {i + 1} times")
    check(False, 'at the end')
    ctx.step(n)
    ctx.state((n, how))
    ctx.validated_trace()


def overlap(tier):
    def fn(ctx):
        """Contexts entered and left in every order, by one thread or by one thread each; each holder must find the mode on."""
        n = 3 if tier == 'quick' else 4
        threads = ctx.choose('threads', ['one', 'one each'])
        kinds = [ctx.choose(f"context {i} left", ['normally', 'by exception']) for i in range(n)]
        reset()
        D_ = lib.dw()
        state = [0] * n
        order = []
        while not all(x == 2 for x in state):
            i = ctx.choose('next', [i for i in range(n) if state[i] < 2])
            order.append((i, state[i]))
            state[i] += 1
        trace = [f"threads: {threads}"]
        inside = set()
        cms = {}

        def act(i, k):
            if k == 0:
                cms[i] = D_.high_compatibility_mode()
                cms[i].__enter__()
            elif kinds[i] == 'normally':
                cms[i].__exit__(None, None, None)
            else:
                e = ValueError('x')
                cms[i].__exit__(ValueError, e, None)
        workers = [Worker() for _ in range(n)] if threads == 'one each' else None
        try:
            for i, k in order:
                trace.append(f"context {i} {'entered' if k == 0 else 'left ' + kinds[i]}")
                if workers:
                    workers[i].do(lambda: act(i, k))
                else:
                    act(i, k)
                (inside.add if k == 0 else inside.discard)(i)
                ctx.state(tuple(sorted(inside)))
                for j in range(n):
                    a = workers[j].do(active) if workers else active()
                    if j in inside and not a:
                        raise lib.Violation('mode-lost', f"holder {j} of a context does not find the mode on", '\n'.join(trace))
                    if not inside and a:
                        raise lib.Violation('mode-leak', 'all contexts were left and the mode is on', '\n'.join(trace))
                if not inside and active():
                    raise lib.Violation('mode-leak', 'all contexts were left and the mode is on', '\n'.join(trace))
        finally:
            for w in workers or []:
                w.stop()
    return fn


class Worker:
    """A thread which does one thing at a time, when told (so that the schedule is the explorer's)."""

    def __init__(self):
        self.go, self.done, self.f, self.r = threading.Semaphore(0), threading.Semaphore(0), None, None
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            self.go.acquire()
            if self.f is None:
                return
            try:
                self.r = (True, self.f())
            except BaseException as e:
                self.r = (False, e)
            self.done.release()

    def do(self, f):
        self.f = f
        self.go.release()
        self.done.acquire()
        if not self.r[0]:
            if self.r[1].args != ('x',):
                raise self.r[1]
            return None
        return self.r[1]

    def stop(self):
        self.f = None
        self.go.release()
        self.t.join()


def carried(ctx):
    """Built outside and written inside, and the reverse; restrictions which are checked on writing follow the mode at that time."""
    what = ctx.choose('breach', [None, 'name', 'header id', 'set identifier', 'signed', 'no frame', 'two frames', 'spacing'])
    built = ctx.choose('built', ['outside', 'inside'])
    writes = [ctx.choose(f"write {i}", ['inside', 'outside', 'nested', 'after an exception inside']) for i in range(2)]
    if built == 'inside' and what in ('name', 'header id', 'set identifier'):
        raise Prune('refused when built')
    reset()
    s = Session(**({'set_identifier': 'lower'} if what == 'set identifier' else {}))

    def build():
        lf = s.lf('lower' if what == 'header id' else 'FILE-HEADER')
        s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
        a = np.array([1.0, 2.0, 3.0, 7.0]) if what == 'spacing' else np.arange(4, dtype='int16' if what == 'signed' else 'uint16')
        c = s.add(lf, 'channel', 'c' if what == 'name' else 'C', data=a)
        s.add(lf, 'frame', 'F', channels=[c], index_type='BOREHOLE-DEPTH')
        if what == 'no frame':
            s.add(lf, 'channel', 'C2', data=np.arange(4.0))
        if what == 'two frames':
            s.add(lf, 'frame', 'F2', channels=[c])
    if built == 'inside':
        with hc():
            build()
    else:
        build()
    for w in writes:
        lib.CAPTURE.records.clear()
        s.log.append(f"written {w}")
        with ExitStack() as es:
            if w in ('inside', 'nested'):
                es.enter_context(hc())
            if w == 'nested':
                with hc():
                    pass
            if w.startswith('after'):
                try:
                    with hc():
                        raise ValueError('x')
                except ValueError:
                    pass
            st, r = s.write()
        inside = w in ('inside', 'nested')
        if st == 'err':
            if not inside or what is None:
                s.fail('rejected-outside' if not inside else 'hc-rejects', f"{what}: {type(r).__name__}: {r}")
            continue
        if inside and what is not None:
            s.fail('hc-accepts', f"{what} was written in high-compatibility mode")
        if not inside and what is not None and not warned() and what not in ('name', 'header id', 'set identifier'):
            s.fail('no-warning', f"{what}: written outside the mode without a warning")
        f = lib.parse(s, r)
        if inside:
            invariants(s, f)
    if active():
        s.fail('mode-leak', 'the mode is on at the end')


MADE = [('frame', 'index_type', 'value', INDEX_TYPES, {}), ('equipment', 'eq_type', 'value', EQ_TYPES, {}), ('equipment', 'location', 'value', LOCATIONS, {}),
        ('channel', 'units', 'value', UNITS, {}), ('zone', 'maximum', 'units', UNITS, {'maximum': 1.5}), ('parameter', 'values', 'units', UNITS, {'values': [1.5]}),
        ('frame', 'spacing', 'units', UNITS, {'spacing': 1.5}), ('equipment', 'height', 'units', UNITS, {'height': 2.0})]


def made(ctx):
    """Objects made, and values assigned, on either side of the mode: each assignment is judged by the mode it is made in."""
    kind, kw, part, good, kx = ctx.choose('attribute', MADE, names=[f"{a}.{b}.{c}" for a, b, c, _, _ in MADE])
    where = ['outside', 'inside']
    m = ctx.choose('made', where)
    given = ctx.choose('value at creation', ['none', 'good']) if part == 'value' else 'none'
    seq = [ctx.choose(f"assignment {i}", [(a, v) for a in ('outside', 'inside', 'nested', 'after leaving inner', 'after an exception') for v in ('good', 'bad')] +
                      ([None] if i else []), names=None) for i in range(2)]
    wmode = ctx.choose('written', where)
    bad = ctx.choose('bad value', ['furlong', 'X'], dev=True)
    reset()
    s = Session()
    kk = dict(kx)
    if given == 'good':
        kk[kw] = good[1]

    def build():
        lf, c, f = lib.minimal(s)
        h = make(s, lf, kind, 'X', 0, **kk)
        frame_of(s, lf, h)
        return h
    with ExitStack() as es:
        if m == 'inside':
            es.enter_context(hc())
        h = build()
    state = 'good'
    for i, a in enumerate(seq):
        if a is None:
            continue
        how, v = a
        val = good[i] if v == 'good' else bad
        inside = how != 'outside' and how != 'after an exception'
        lib.CAPTURE.records.clear()
        with ExitStack() as es:
            if inside:
                es.enter_context(hc())
            if how == 'nested':
                es.enter_context(hc())
            if how == 'after leaving inner':
                with hc():
                    pass
            if how == 'after an exception':
                try:
                    with hc():
                        raise ValueError('x')
                except ValueError:
                    pass
            s.log.append(f"{how}: {kind}.{kw}.{part} = {val!r}")
            try:
                s.set(h, kw, part, val)
            except Exception as e:
                if v == 'good' or not inside:
                    s.fail('rejected-outside' if not inside else 'hc-rejects', f"{how}: {kind}.{kw}.{part} = {val!r}: {type(e).__name__}: {e}")
                ctx.outcome('breach refused')
            else:
                if v == 'bad' and inside:
                    s.fail('hc-accepts', f"{kind}.{kw}.{part} = {val!r} was accepted in the mode ({how}; object made {m})")
                if v == 'bad' and not warned():
                    s.fail('no-warning', f"{kind}.{kw}.{part} = {val!r} was accepted outside the mode without a warning")
                if v == 'good' and warned():
                    s.fail('warning', f"{kind}.{kw}.{part} = {val!r} is in the enumeration, yet a warning was given")
                state = v
    if state == 'bad' and wmode == 'inside':
        raise Prune('built outside and written inside: C12')
    with ExitStack() as es:
        if wmode == 'inside':
            es.enter_context(hc())
        f = lib.write_ok(s)
    f = lib.parse(s, f)
    lib.match(s, f)
    if wmode == 'inside':
        invariants(s, f)
    if active():
        s.fail('mode-leak', 'the mode is on at the end')
    ctx.outcome('written')


def full(ctx):
    """An object of every type, two frames, links, no-format data: conforming specifications are accepted in the mode, and equal outside."""
    nlf = ctx.choose('logical files', [1, 2])
    order = ctx.choose('first type', list(KINDS))
    reset()
    out = {}
    for on in (True, False):
        s = Session()

        def build():
            for L in range(nlf):
                lf = s.lf(f"H{L}")
                sn = f"L{L}"
                s.add(lf, 'origin', 'O', set_name=sn, **lib.BASE_ORIGIN)
                ks = list(KINDS)
                ks = ks[ks.index(order):] + ks[:ks.index(order)]
                got = {}
                for k in ks:
                    h = got[k] = make(s, lf, k, 'X-1', L, set_name=sn, **({'chset': sn} if k == 'frame' else {}))
                    if k == 'channel':
                        s.add(lf, 'frame', 'FX', channels=[h], set_name=sn)
                s.set(got['equipment'], 'eq_type', 'value', 'Sonde')
                s.set(got['equipment'], 'location', 'value', 'Well')
                s.set(got['equipment'], 'height', 'value', 2.0)
                s.set(got['equipment'], 'height', 'units', 'ft')
                s.set(got['channel'], 'units', 'value', 'm')
                s.set(got['frame'], 'index_type', 'value', 'BOREHOLE-DEPTH')
                s.add(lf, 'splice', 'S', zones=[got['zone']], output_channel=got['channel'], set_name=sn)
                s.nofmt(lf, got['no_format'], 'payload')
        f = run(ctx, s, on, False, build, 'conforming file')
        lib.match(s, f)
        out[on] = open(lib.ENV.path, 'rb').read()
    if out[True] != out[False]:
        s.fail('mode-changes-file', 'a conforming file is not the same with the mode on and off')


def scenarios(tier):
    mc, ns, nt = mode_cases(6 if tier == 'quick' else 8)
    return [Scenario('names', names), Scenario('signed', signed), Scenario('membership', membership),
            Scenario('spacing', spacing, cases=index_cases(tier), bound=1 if tier == 'quick' else 2), Scenario('enumerations', enums, bound=1), Scenario('file set numbers', fsn),
            Scenario('mode', modes, cases=mc, model_states=ns, model_transitions=nt), Scenario('overlap', overlap(tier)), Scenario('deep', deep),
            Scenario('carried', carried), Scenario('full', full), Scenario('made', made, bound=0 if tier == 'quick' else 1)]
