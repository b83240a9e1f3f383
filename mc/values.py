"""Catalogue of attribute values, per value kind of the schema.

Entry: (name, build, status, companions).  build(b) makes the value with the helper objects of Bench `b`; status is
  'ok'    a user may rely on it: must be accepted, written, and decode as equal;
  'maybe' odd or degenerate: may be rejected; if a file is written it must be well-formed and say the same;
  'bad'   cannot be represented: must raise, at assignment or at write.
companions: {keyword: build} needed on the same object for it to be consistent.
"""
import enum
from datetime import datetime, timezone, timedelta
from decimal import Decimal
from fractions import Fraction

import numpy as np

from . import lib
from .lib import A
from .schema import KINDS

UTC = timezone.utc


class Own(str, enum.Enum):
    """A user's own string enumeration."""
    RED = 'RED'


class StrSub(str):
    def __str__(self):
        return 'changed by __str__'


class Bench:
    """Origin, a frame with a channel, and a supply of target objects of any type."""

    def __init__(self, s, lf=None, lazy_min=False):
        self.s = s
        self.lf = lf or s.lf()
        if lf is None:
            lib.minimal(s, self.lf)
        self.targets = {}
        self.n = 0

    def ref(self, settype, i=0):
        kind = {'CHANNEL': 'channel', 'AXIS': 'axis', 'ZONE': 'zone', 'PARAMETER': 'parameter', 'COMPUTATION': 'computation',
                'EQUIPMENT': 'equipment', 'FRAME': 'frame', 'WELL-REFERENCE': 'well_reference_point', 'GROUP': 'group',
                'CALIBRATION-COEFFICIENT': 'calibration_coefficient', 'CALIBRATION-MEASUREMENT': 'calibration_measurement',
                'LONG-NAME': 'long_name', 'TOOL': 'tool', 'PROCESS': 'process', 'ORIGIN': 'origin',
                'NO-FORMAT': 'no_format', 'SPLICE': 'splice', 'PATH': 'path', 'MESSAGE': 'message',
                'COMMENT': 'comment', 'CALIBRATION': 'calibration'}[settype]
        k = (kind, i)
        if k not in self.targets:
            kw = {}
            if kind == 'origin':
                kw = dict(lib.BASE_ORIGIN, file_set_number=91 + i)
            if kind == 'frame':
                c = self.s.add(self.lf, 'channel', f'T-FC{i}', data=np.arange(2, dtype=np.float32) + i)
                kw = dict(channels=[c])
            if kind == 'channel':
                kw = dict(data=np.arange(2, dtype=np.float32) + 10 * i)
            self.targets[k] = self.s.add(self.lf, kind, f'T-{kind.upper()[:8]}-{i}', **kw)
        return self.targets[k]


def c(v):
    return lambda b: v


def e(name, v, status='ok', **comp):
    return (name, v if callable(v) and not isinstance(v, type) else c(v), status, {k: (x if callable(x) else c(x))
                                                                                 for k, x in comp.items()})


PRINT = ''.join(map(chr, range(32, 127)))

TEXT1 = [e('word', 'Some text'), e('empty', '', 'ok'), e('blanks', '  x '), e('digits', '12'), e('float-like', '1.50'),
         e('printable', PRINT), e('multi-line', 'a\nb\tc\r\n'), e('127', 'q' * 127), e('128', 'r' * 128),
         e('255', 's' * 255), e('256', 't' * 256), e('16384', 'u' * 16384), e('nul', 'a\0b'), e('del', '\x7f\x01'),
         e('date-like', '2020/01/02 03:04:05'), e('own-enum', Own.RED), e('str-subclass', StrSub('plain')),
         e('np-str', np.str_('np')), e('lib-enum', lambda b: lib.dw().enums.Unit.METER),
         e('non-ascii', 'caf\xe9', 'bad'), e('unicode', '\u65e5\u672c', 'bad'), e('bytes', b'ab', 'maybe'),
         e('int', 5, 'maybe'), e('none-str', 'None')]
TEXTL = [e('list1', ['one']), e('list2', ['one', 'two']), e('list3-empty', ['a', '', 'c']), e('tuple', ('x', 'y')),
         e('same', ['z', 'z', 'z']), e('list200', [f'line {i}' for i in range(200)]),
         e('empty-list', [], 'maybe'), e('empty-tuple', (), 'maybe'), e('nested', [['a', 'b'], ['c', 'd']], 'maybe'),
         e('none-in', ['a', None], 'maybe'), e('mixed', ['a', 1], 'maybe'), e('non-ascii-in', ['a', 'b\xe9'], 'bad'),
         e('set', {'k'}, 'maybe'), e('generator-like', range(2), 'maybe'), e('np-array', np.array(['a', 'b']), 'maybe'),
         e('empty-in', [[]], 'maybe')]
NOTLIST_T = [e('list-for-one', ['a'], 'maybe'), e('list2-for-one', ['a', 'b'], 'maybe'), e('empty-for-one', [], 'maybe'),
             e('tuple-for-one', ('a', 'b'), 'maybe')]
IDENT = [e('word', 'SOME-ID'), e('empty', ''), e('lower', 'lower case, punctuated!'), e('printable', PRINT),
         e('255', 'S' * 255), e('digits', '007'), e('own-enum', Own.RED), e('str-subclass', StrSub('PLAIN')),
         e('np-str', np.str_('NP')), e('lib-enum', lambda b: lib.dw().enums.Unit.METER),
         e('256', 'T' * 256, 'bad'), e('non-ascii', 'CAF\xc9', 'bad'), e('bytes', b'AB', 'maybe'), e('int', 5, 'maybe'),
         e('float', 2.5, 'maybe'), e('bool', True, 'maybe')]
N1 = [e('float', 1.5), e('int', 3), e('zero', 0), e('neg-zero', -0.0), e('neg', -2), e('big', 1.7976931348623157e308),
      e('tiny', 5e-324), e('third', 1 / 3), e('2**53', 2 ** 53), e('inf', float('inf')), e('nan', float('nan')),
      e('bool', True), e('np-f4', np.float32(0.1)), e('np-f8', np.float64(0.1)), e('np-f2', np.float16(0.5)),
      e('np-i1', np.int8(-5)), e('np-u1', np.uint8(250)), e('np-i2', np.int16(-300)), e('np-u4', np.uint32(2 ** 32 - 1)),
      e('np-i8', np.int64(2 ** 40)), e('2**53+1', 2 ** 53 + 1, 'maybe'), e('10**400', 10 ** 400, 'bad'),
      e('np-i8-big', np.int64(2 ** 53 + 1), 'maybe'), e('np-u8-big', np.uint64(2 ** 64 - 1), 'maybe'),
      e('decimal', Decimal('0.5'), 'maybe'), e('fraction', Fraction(1, 4), 'maybe'), e('np-bool', np.bool_(True), 'maybe'),
      e('0-d', np.array(2.5), 'maybe'), e('complex', 1j, 'bad'), e('text', 'abc', 'bad'), e('np-be', np.array([7.5], '>f8')[0])]
NOTLIST_N = [e('list-for-one', [1.0], 'maybe'), e('list2-for-one', [1.0, 2.0], 'maybe'), e('empty-for-one', [], 'maybe')]
NL = [e('list1', [2.5]), e('list3', [1.5, -2.0, 3.0]), e('ints', [1, 2]), e('mixed', [1, 2.5]), e('tuple', (4, 5)),
      e('np-mixed', [np.int8(1), np.float32(0.1), np.uint32(7)]), e('list130', [float(i) for i in range(130)]),
      e('same', [3, 3, 3]),
      e('empty-list', [], 'maybe'), e('none-in', [1.0, None], 'bad'), e('text-in', [1.0, 'x'], 'bad'),
      e('np-array', np.array([1.0, 2.0]), 'maybe'), e('nested', [[1.0, 2.0], [3.0, 4.0]], 'maybe'), e('big-in', [0.5, 2 ** 53 + 1], 'maybe')]
NN = [e('2x2', [[1.0, 2.0], [3.0, 4.0]]), e('1x3', [[1, 2, 3]]), e('3x1', [[1.5], [2.5], [3.5]]),
      e('2x2x2', [[[1, 2], [3, 4]], [[5, 6], [7, 8.5]]]), e('tuples', ((1, 2), (3, 4))),
      e('empty-rows', [[], []], 'maybe'), e('empty-row', [[]], 'maybe'), e('ragged', [[1, 2], [3]], 'maybe'),
      e('part-nested', [1, [2, 3]], 'maybe'), e('np-2d', np.array([[1.0, 2.0]]), 'maybe'),
      e('np-rows', [np.array([1.0, 2.0]), np.array([3.0, 4.0])], 'maybe')]
DIM = [e('one', [1]), e('two', [2, 3]), e('scalar', 5), e('tuple', (2, 1)), e('127', [127]), e('128', [128]), e('16383', [16383]),
       e('16384', [16384]), e('2**30-1', [2 ** 30 - 1]), e('float-int', [2.0]), e('np', [np.int64(3)]),
       e('zero', [0], 'maybe'), e('empty', [], 'maybe'), e('2**30', [2 ** 30], 'bad'), e('neg', [-1], 'bad'),
       e('fraction', [1.5], 'bad'), e('text', ['x'], 'bad'), e('nested', [[2, 3]], 'maybe')]
STATUS = [e('true', True), e('false', False), e('1', 1), e('0', 0), e('1.0', 1.0), e('np-1', np.int64(1)), e('2', 2, 'bad'),
          e('-1', -1, 'bad'), e('half', 0.5, 'bad'), e('str', '1', 'maybe'), e('np-true', np.bool_(True), 'maybe'),
          e('list', [1], 'maybe'), e('word', 'ON', 'bad')]
ENC = [e('true', True), e('false', False), e('1', 1), e('0', 0), e('1.0', 1.0), e('2', 2, 'bad'), e('half', 0.5, 'bad'),
       e('yes', 'yes', 'maybe'), e('N', 'N', 'maybe'), e('word', 'maybe', 'bad'), e('list', [1, 0], 'maybe')]
DT = [e('utc', datetime(2021, 2, 3, 4, 5, 6, 789000, tzinfo=UTC)),
      e('+0230', datetime(2021, 2, 3, 4, 5, 6, 789000, tzinfo=timezone(timedelta(hours=2, minutes=30)))),
      e('-1145-newyear', datetime(2020, 12, 31, 20, 0, 0, tzinfo=timezone(-timedelta(hours=11, minutes=45)))),
      e('naive', datetime(1999, 12, 31, 23, 59, 59, 999000)), e('micro-499', datetime(2001, 1, 1, 0, 0, 0, 499, tzinfo=UTC)),
      e('micro-999999', datetime(2001, 1, 1, 0, 0, 0, 999999, tzinfo=UTC)), e('leap', datetime(2024, 2, 29, 12, tzinfo=UTC)),
      e('first', datetime(1900, 1, 1, tzinfo=UTC)), e('last', datetime(2155, 12, 31, 23, 59, 59, tzinfo=UTC)),
      e('str-slash', '2050/03/02 15:30:00'), e('str-dot', '2003.12.15 14:15:57'),
      e('1899', datetime(1899, 12, 31, tzinfo=UTC), 'bad'), e('2156', datetime(2156, 1, 1, tzinfo=UTC), 'bad'),
      e('str-bad', 'yesterday', 'bad'), e('date-only', '2020/01/02', 'maybe'), e('np-dt', np.datetime64('2020-01-02'), 'maybe'),
      e('date', datetime(2020, 1, 2).date(), 'maybe'), e('list', [datetime(2020, 1, 2, tzinfo=UTC)], 'maybe')]
DTONLY = [e('float-for-dt', 12.5, 'maybe')]
DNUM = [e('float', 12.5), e('int', 7), e('np-f4', np.float32(0.1)), e('nan', float('nan')), e('str-num', '12.5', 'maybe'),
        e('2**53+1', 2 ** 53 + 1, 'maybe')]
XM = [e('num', 1.5), e('int', 4), e('text', 'abc'), e('ints', [1, 2, 3]), e('mixed-num', [1, 2.5]), e('texts', ['ab', 'cd']),
      e('numeric-text', ['12', '1.5'], 'maybe'), e('np', [np.float64(0.1), np.float64(2)]), e('np-f4', [np.float32(0.1)], 'maybe'),
      e('np-i2', [np.int16(3)], 'maybe'), e('np-mix', [np.uint8(200), np.int8(-1)], 'maybe'), e('np-u4-i', [np.uint32(2 ** 32 - 1), -1], 'maybe'),
      e('2**31-1', 2 ** 31 - 1), e('-2**31', -2 ** 31), e('2**31', 2 ** 31, 'maybe'), e('2**53+1 & float', [2 ** 53 + 1, 0.5], 'maybe'),
      e('bool', True, 'maybe'), e('mixed', ['abc', 1.5], 'maybe'), e('empty', [], 'maybe'), e('none-in', [None], 'maybe'),
      e('non-ascii', 'd\xe9j\xe0', 'bad'), e('lib-enum', lambda b: lib.dw().enums.Unit.METER, 'maybe'), e('empty-text', '', 'ok'),
      e('nan-text', 'nan', 'maybe'), e('underscore', '1_000', 'maybe'), e('nan', float('nan')), e('str-sub', StrSub('ST'), 'maybe'),
      e('bytes', b'xy', 'maybe'), e('np-array', np.array([1.0, 2.0]), 'maybe'), e('dt', datetime(2020, 1, 1), 'maybe')]


def uint(n, uvari=False):
    mx = 2 ** 30 - 1 if uvari else 2 ** n - 1
    return [e('1', 1), e('127', 127), e('128', 128), e('max', mx), e('float-int', 7.0), e('np', np.uint8(200)),
            e('np-i8', np.int64(77)), e('zero', 0, 'maybe'), e('max+1', mx + 1, 'bad'), e('neg', -1, 'bad'), e('frac', 1.5, 'bad'),
            e('text', '5', 'maybe'), e('nan', float('nan'), 'bad'), e('list', [1, 2], 'maybe'), e('bool', True, 'maybe')] + \
        ([e('16383', 16383), e('16384', 16384)] if uvari else [])


def enum_vals(cls, ok, strict):
    out = []
    for i, w in enumerate(ok):
        out.append(e(f'value {w}', w))
        out.append(e(f'member {w}', lambda b, w=w: getattr(lib.dw().enums, cls)(w)))
    out.append(e('other', 'SOMETHING-ELSE', 'bad' if strict else 'ok'))
    out.append(e('other enum', Own.RED, 'maybe'))
    out.append(e('int', 5, 'bad'))
    return out


ENUMS = {('equipment', 'eq_type'): ('EquipmentType', ['Tool', 'Sonde'], False),
         ('equipment', 'location'): ('EquipmentLocation', ['Well', 'Rig'], False),
         ('frame', 'index_type'): ('FrameIndexType', ['BOREHOLE-DEPTH', 'NON-STANDARD'], False),
         ('process', 'status'): ('ProcessStatus', ['COMPLETE', 'ABORTED', 'IN-PROGRESS'], True),
         ('calibration_measurement', 'phase'): ('CalibrationMeasurementPhase', ['AFTER', 'BEFORE', 'MASTER'], True),
         ('zone', 'domain'): ('ZoneDomain', ['BOREHOLE-DEPTH', 'TIME', 'VERTICAL-DEPTH'], True)}

PROPS = [e('one', 'AVERAGED'), e('member', lambda b: lib.dw().enums.Property.SPEED_CORRECTED), e('list', ['DERIVED', 'STACKED']),
         e('mixed', lambda b: [lib.dw().enums.Property.AVERAGED, 'RE-SAMPLED']), e('all', lambda b: [m.value for m in lib.dw().enums.Property]),
         e('other', 'SHINY', 'bad'), e('other-in', ['AVERAGED', 'SHINY'], 'bad'), e('empty', [], 'maybe'), e('int', 3, 'bad'),
         e('none-in', ['AVERAGED', None], 'bad'), e('tuple', ('AVERAGED',))]
UNITS = [e('m', 'm'), e('member', lambda b: lib.dw().enums.Unit.METER), e('ft', 'ft'), e('other', 'furlong'), e('255', 'u' * 255),
         e('empty', '', 'maybe'), e('256', 'u' * 256, 'bad'), e('non-ascii', '\xb5m', 'bad'), e('int', 5, 'maybe'), e('own-enum', Own.RED, 'maybe'),
         e('list', ['m', 's'], 'maybe'), e('slash', '1000 kgf/m3')]


def refs(st, many, kind, kw):
    cand = ['CHANNEL', 'ZONE', 'TOOL'] if st == '*' else [st]
    out = []
    if many:
        if kw == 'axis':
            out += [e('one', lambda b: [b.ref('AXIS')]), e('bare', lambda b: b.ref('AXIS')), e('tuple', lambda b: (b.ref('AXIS'),)),
                    e('two', lambda b: [b.ref('AXIS'), b.ref('AXIS', 1)], 'ok', dimension=[2, 3])]
        elif kind == 'group' and kw == 'object_list':
            out += [e('channels', lambda b: [b.ref('CHANNEL'), b.ref('CHANNEL', 1)]), e('bare', lambda b: b.ref('ZONE')),
                    e('zones', lambda b: [b.ref('ZONE', i) for i in range(3)]), e('frames', lambda b: [b.ref('FRAME')]),
                    e('mixed types', lambda b: [b.ref('CHANNEL'), b.ref('ZONE')], 'ok'), e('groups', lambda b: [b.ref('GROUP')]),
                    e('origin', lambda b: [b.ref('ORIGIN')])]
        else:
            for t in cand:
                out += [e('one', lambda b: [b.ref(t)]), e('bare', lambda b: b.ref(t)), e('three', lambda b: [b.ref(t, i) for i in range(3)]),
                        e('reversed', lambda b: [b.ref(t, i) for i in (2, 0, 1)][::-1]), e('tuple', lambda b: (b.ref(t), b.ref(t, 1)))]
                if not (kind == 'frame' and kw == 'channels'):
                    out.append(e('twice', lambda b: [b.ref(t), b.ref(t)], 'maybe'))
        out.append(e('empty', [], 'maybe'))
        out.append(e('none-in', lambda b: [b.ref(cand[0]), None], 'bad'))
        out.append(e('name-in', lambda b: [b.ref(cand[0]), 'ABC'], 'bad'))
        if st != '*':
            out.append(e('wrong type in', lambda b: [b.ref(cand[0]), b.ref('MESSAGE')], 'bad'))
    else:
        for t in cand:
            out.append(e(t, lambda b, t=t: b.ref(t)))
        out.append(e('list', lambda b: [b.ref(cand[0])], 'maybe'))
        out.append(e('list2', lambda b: [b.ref(cand[0]), b.ref(cand[0], 1)], 'maybe'))
        if st != '*':
            out.append(e('wrong type', lambda b: b.ref('MESSAGE'), 'bad'))
    out.append(e('name', 'ABC', 'bad'))
    out.append(e('number', 5, 'bad'))
    return out


def catalogue(kind, kw):
    vk = KINDS[kind][2][kw][1]
    out = _cat(kind, kw, vk)
    if kind == 'parameter' and kw == 'values':
        # more than one value needs as many zones as values
        res = []
        for n, f, st, comp in out:
            res.append((n, f, st, dict(comp, zones=_zones_for(f))))
        return res
    if kind == 'parameter' and kw == 'zones' or kind == 'splice' and kw in ('zones', 'input_channels'):
        return out
    return out


class _NoValue:
    pass


def _zones_for(f):
    def build(b):
        v = f(b)
        if isinstance(v, (list, tuple)) and len(lib.flat(v)) > 1:
            return [b.ref('ZONE', i) for i in range(len(v))]
        return None
    return build


def _cat(kind, kw, vk):
    if (kind, kw) in ENUMS:
        return enum_vals(*ENUMS[(kind, kw)])
    if vk == 'T':
        return TEXT1 + NOTLIST_T
    if vk == 'TM':
        return [x for x in TEXT1 if x[0] not in ()] + TEXTL
    if vk == 'I':
        return IDENT + NOTLIST_T
    if vk == 'P':
        return PROPS
    if vk == 'U':
        return UNITS
    if vk == 'N':
        return N1 + NOTLIST_N
    if vk == 'NM':
        return N1 + NL
    if vk == 'NMD':
        return N1 + [x for x in NL if x[0] != 'nested'] + NN
    if vk == 'INT':
        return [e('3', 3), e('0', 0), e('-5', -5), e('float-int', 4.0), e('np', np.int16(9)), e('2**31-1', 2 ** 31 - 1),
                e('2**31', 2 ** 31, 'maybe'), e('frac', 1.5, 'bad'), e('text', 'x', 'bad'), e('list', [1, 2], 'maybe'), e('nan', float('nan'), 'bad')]
    if vk == 'N:UVARI':
        return uint(0, True)
    if vk == 'N:UNORM':
        return uint(16)
    if vk == 'D':
        return DIM
    if vk == 'S':
        return STATUS
    if vk == 'ENC':
        return ENC
    if vk == 'DT':
        return DT + DTONLY
    if vk == 'DN':
        return DT + DNUM
    if vk == 'XM':
        return XM
    if vk == 'XMD':
        return XM + NN
    if vk == 'RT':
        return [e('object', lambda b: b.ref('LONG-NAME'))] + [x for x in TEXT1 if x[0] in (
            'word', 'empty', 'digits', 'multi-line', 'nul', 'np-str', 'none-str', '127', 'blanks', 'printable', '128', '16384', 'own-enum', 'str-subclass',
            'lib-enum', 'non-ascii', 'int')] + [
            e('wrong type', lambda b: b.ref('ZONE'), 'bad'), e('list', lambda b: [b.ref('LONG-NAME')], 'maybe'), e('list-text', ['a', 'b'], 'maybe')]
    if vk.startswith('RM:'):
        return refs(vk[3:], True, kind, kw)
    if vk.startswith('R:'):
        return refs(vk[2:], False, kind, kw)
    raise AssertionError(vk)


ATTRS = [(k, kw) for k, (_, _, at) in KINDS.items() for kw in at]


def status_of(kind, kw, name, status):
    """Adjustments where an object imposes its own consistency rules."""
    if kind == 'channel' and kw == 'dimension' and name in ('zero',):
        return 'maybe'
    if (kind, kw, name) == ('frame', 'channels', 'bare'):
        return 'maybe'          # documented as a list
    if kind == 'origin' and kw in ('file_set_number',) and name == 'zero':
        return 'maybe'
    return status


def units_ok(kind, kw):
    return KINDS[kind][2][kw][1] in ('N', 'NM', 'NMD', 'INT', 'XM', 'XMD', 'DN', 'DT') or \
        KINDS[kind][2][kw][1].startswith('N:') or KINDS[kind][2][kw][1] == 'ENC'


def host_kw(b, kind, kw=None):
    """Keywords an object of this kind needs anyway."""
    if (kind, kw) == ('frame', 'channels'):
        return {}
    if (kind, kw) == ('origin', 'file_set_number'):
        return dict(creation_time=lib.CT)
    if kind == 'origin':
        return dict(file_set_number=11, creation_time=lib.CT)
    if kind == 'frame':
        if ('hostch' not in b.targets):
            b.targets['hostch'] = b.s.add(b.lf, 'channel', 'HOST-C', data=np.arange(3, dtype=np.float64) * 2 + 1)
        return dict(channels=[b.targets['hostch']])
    return {}
