"""Shared space of C01, C02, C15, C16: record body lengths against the per-segment capacity.

Every file of the space holds, for each length of a window, one no-format record, one frame-data row and (in its own named set)
one COMMENT record of about that body length; the windows tile 0..k*capacity+spread completely for small capacities and
surround every multiple of the capacity for large ones, for every maximum record length of the tier.
"""
import numpy as np
from . import lib, rp66

BLOB = bytes(((i * 7 + (i >> 8) * 13 + (i * i >> 5)) & 0xFF) for i in range(1 << 17))
TEXT = ''.join(chr(33 + (i * 5 + (i >> 6)) % 90) for i in range(1 << 17))


def vrls(tier):
    if tier == 'quick':
        return (list(range(20, 150, 2)) + list(range(150, 700, 46)) +
                [254, 256, 258, 260, 510, 512, 514, 1022, 1024, 1026, 4094, 4096, 8190, 8192, 8194, 16380, 16382, 16384])
    return list(range(20, 2200, 2)) + list(range(2200, 16384, 58)) + [4096, 8190, 8192, 8194, 16380, 16382, 16384]


def windows(vrl, tier):
    """Lists of record body lengths."""
    cap = vrl - 8
    if cap <= 64:
        hi = (5 if tier == 'quick' else 9) * cap + 30
        al = list(range(0, hi))
        return [al[i:i + 40] for i in range(0, len(al), 40)]
    ks = (1, 2) if tier == 'quick' and vrl > 700 else (1, 2, 3)
    out = [list(range(0, 40))]
    for k in ks:
        out.append([k * cap + d for d in range(-20, 21)])
    if tier != 'quick':
        out.append([max(0, 7 * cap + d) for d in range(-14, 15)])
        out.append(list(range(40, min(cap - 20, 400), 1)))
    return [w for w in out if w]


NFN = 'N'
NF_REF = 4      # obname bytes of the NO-FORMAT object: origin, copy, length, one character


def build(vrl, lens, rows=True, texts=True, seq=1, ident='MAIN-STORAGE-UNIT'):
    s = lib.Session(max_record_length=vrl, sul_sequence_number=seq, set_identifier=ident)
    lf, c, fr = lib.minimal(s, rows=2)
    nf = s.add(lf, 'no_format', NFN)
    for i, L in enumerate(lens):
        n = max(0, L - NF_REF)
        p = BLOB[i * 3:i * 3 + n]
        s.nofmt(lf, nf, p if i % 3 else (bytearray(p) if i % 2 else p))
    if rows:
        for i, L in enumerate(lens):
            # body = obname (3 + name) + frame number (1) + row
            nm = f"W{i}"
            w = max(1, L - (3 + len(nm)) - 1)
            d = np.frombuffer(BLOB[i * 5:i * 5 + 2 * w], dtype=np.uint8).reshape(2, w)
            if w == 1 and i % 2:
                d = d[:, 0]
            ch = s.add(lf, 'channel', nm, data=d)
            s.add(lf, 'frame', nm, channels=[ch])
    if texts:
        for i, L in enumerate(lens):
            sn = f"S{i}"
            # set component 9 + set name, template 6, object 1 + obname 4, attribute 2 + text length field
            t = max(0, L - (1 + 8 + 1 + len(sn) + 6 + 5 + 2 + (1 if L < 150 else 2)))
            s.add(lf, 'comment', 'K', set_name=sn, text=[TEXT[i:i + t]])
    return s


def expected_iflrs(s, view):
    """Exact bodies of the indirectly formatted records, from the specification and the defined identities."""
    out = []
    for h, p in view.m.nofmt:
        o = view.map[h]
        out.append((False, 1, rp66.e_obname(*o.obname) + p))
    for h in view.m.of('frame'):
        o = view.map[h]
        for i, r in enumerate(lib.frame_rows(h)):
            out.append((False, 0, rp66.e_obname(*o.obname) + rp66.e_uvari(i + 1) + r))
    return out
