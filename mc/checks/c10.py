"""C10 Chunk sizes are invisible; the file on disk only ever grows by whole records."""
import builtins
import io
import os
import re
import sys
from pathlib import Path
import numpy as np
from .. import lib, rp66, data as D
from ..engine import Scenario, Prune, Violation
from ..large import pow2
from ..lib import Session

BOUNDS = {'quick': 'every output chunk size from the maximum record length to the file size + 3 for 5 maximum record lengths, with the on-disk content '
                   'observed at every function call and return of the process; every input chunk size 1..rows+2 x output chunk sizes x 4 sources x '
                   '5 specifications; every row count 1..16 (and 5 larger, and in steps up to 65537) x every input chunk size 1..rows+2 x sources x windows; 6 kinds of pre-existing file; failure points 1..20, 27, 34... of opening/writing/closing the output or making a row',
          'thorough': 'every output chunk size and failure point; 12 maximum record lengths, more rows, larger files'}
ASSUMPTIONS = ['on-disk state is observed at call boundaries of the Python process (profile events), i.e. after every system call that could change it',
               'a torn write inside one system call is outside the property']


def spec(maxlen, which):
    s = Session(max_record_length=maxlen)
    lf = s.lf()
    s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
    if which == 'tiny':
        s.add(lf, 'channel', 'C', data=np.arange(3, dtype=np.uint8))
        s.add(lf, 'frame', 'F', channels=lf.objs[-1:])
    else:
        c = s.add(lf, 'channel', 'C', data=np.arange(7, dtype=np.float64))
        d = s.add(lf, 'channel', 'D', data=np.arange(21, dtype=np.int16).reshape(7, 3))
        s.add(lf, 'frame', 'F', channels=[c, d], index_type='BOREHOLE-DEPTH')
        e = s.add(lf, 'channel', 'E', data=np.arange(70, dtype=np.float32).reshape(2, 35))
        s.add(lf, 'frame', 'G', channels=[e])
        n = s.add(lf, 'no_format', 'N')
        for i in (0, 1, 40, maxlen):
            s.nofmt(lf, n, bytes(range(i % 250)) or b'')
        if which == 'two':
            l2 = s.lf(fh_sequence_number=2)
            s.add(l2, 'origin', 'O', set_name='x', **lib.BASE_ORIGIN)
            c = s.add(l2, 'channel', 'C', set_name='x', data=np.arange(9, dtype=np.uint32))
            s.add(l2, 'frame', 'F', set_name='x', channels=[c])
    return s


class Watch:
    """Observe the content of a file at every call boundary."""

    def __init__(self, path):
        self.path, self.seen, self.last = path, [], None
        self.probe()

    def probe(self):
        try:
            st = os.stat(self.path)
        except OSError:
            k = None
        else:
            k = (st.st_size, st.st_mtime_ns, st.st_ino)
        if k != self.last:
            self.last = k
            if k is None:
                self.seen.append(None)
            else:
                fd = os.open(self.path, os.O_RDONLY)
                try:
                    self.seen.append(os.read(fd, k[0] + 1))
                finally:
                    os.close(fd)

    def hook(self, frame, event, arg):
        if event != 'call':
            self.probe()

    def __enter__(self):
        sys.setprofile(self.hook)

    def __exit__(self, *a):
        sys.setprofile(None)
        self.probe()


def boundaries(data):
    out = {0, 80}
    p = 80
    while p + 4 <= len(data):
        n = int.from_bytes(data[p:p + 2], 'big')
        if n < 4:
            break
        p += n
        out.add(p)
    return out


def check_growth(s, w, final, before):
    ok = boundaries(final)
    prev = -1
    seen = w.seen
    if seen and seen[0] == before:
        seen = seen[1:]
    for x in seen:
        if x is None:
            if prev >= 0:
                s.fail('vanished', 'the output file disappeared during the write')
            continue
        if x == before and prev < 0 and before is not None:
            continue
        if final[:len(x)] != x:
            s.fail('not-a-prefix', f"on-disk content of {len(x)} bytes during the write is not a prefix of the final {len(final)} bytes")
        if len(x) not in ok:
            s.fail('torn', f"on-disk content of {len(x)} bytes does not end on a visible-record boundary")
        if len(x) < prev:
            s.fail('shrunk', f"on-disk content shrank from {prev} to {len(x)} bytes")
        prev = len(x)
    return len(seen)


def reported():
    """Sizes reported through the log."""
    out = []
    for lv, m in lib.INFO.records:
        out += re.findall(r'size is (\d+) bytes', m)
    return [int(x) for x in out]


def write(s, path=None, watch=True, before=None, how='str', **kw):
    """Returns (status, result, number of on-disk states)."""
    import logging
    import dliswriter.file.writer as W
    path = path or lib.ENV.path
    try:
        os.unlink(path)
    except OSError:
        pass
    if before is not None:
        fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.write(fd, before)
        os.close(fd)
    lg = logging.getLogger('dliswriter')
    lib.INFO.records.clear()
    insts = []
    bw = getattr(W, 'ByteWriter', None)
    if bw is not None:
        orig = bw.__init__

        def init(self, *a, **k):
            insts.append(self)
            return orig(self, *a, **k)
        bw.__init__ = init
    if not watch:
        lg.setLevel(logging.INFO)
        lg.addHandler(lib.INFO)
    w = Watch(path)
    s.log.append(f"write({kw if 'data' not in kw else dict(kw, data=type(kw['data']).__name__)})")
    target = {'str': path, 'Path': Path(path), 'relative': os.path.basename(path)}[how]
    try:
        if watch:
            with w:
                s.real.write(target, **kw)
        else:
            s.real.write(target, **kw)
    except (Exception, AssertionError) as e:
        return 'err', e, w
    finally:
        if bw is not None:
            bw.__init__ = orig
        lg.setLevel(logging.WARNING)
        lg.removeHandler(lib.INFO)
    with open(path, 'rb') as f:
        r = f.read()
    for t in reported():
        if t != len(r):
            s.fail('reported-size', f"the writer reports {t} bytes, the file has {len(r)}")
    for i in insts:
        t = getattr(i, 'total_size', None)
        if t is not None and t != len(r):
            s.fail('reported-size', f"total_size is {t}, the file has {len(r)} bytes")
    return 'ok', r, w


REF = {}


def reference(maxlen, which, **kw):
    key = (maxlen, which)
    if key not in REF:
        s = spec(maxlen, which)
        r = lib.write_ok(s, output_chunk_size=1 << 20)
        lib.check_all(s, r)
        REF[key] = r
    return REF[key]


def flush(tier):
    mls = [20, 24, 62, 128, 1000] if tier == 'quick' else [20, 22, 24, 26, 30, 40, 62, 100, 128, 256, 1000, 8192]

    def fn(ctx):
        which = ctx.choose('specification', ['tiny', 'full', 'two'])
        ml = ctx.choose('max_record_length', mls)
        ref = reference(ml, which)
        lo, hi = ml, max(ml, len(ref)) + 4
        if tier == 'quick':
            # all sizes near the ends, near multiples of the record length and every 7th one
            sizes = [n for n in range(lo, hi) if n < lo + 60 or n > hi - 100 or n % ml in (0, 1, ml - 1) and n < lo + 20 * ml or n % 23 == 0
                     or abs(n - len(ref) // 2) < 10]
        else:
            sizes = list(range(lo, hi))
        step = 24
        block = ctx.choose('block of sizes', [sizes[i:i + step] for i in range(0, len(sizes), step)])
        for n in block:
            s = spec(ml, which)
            st, r, w = write(s, output_chunk_size=n)
            if st == 'err':
                s.fail('rejected', f"output_chunk_size={n}: {type(r).__name__}: {r}")
            if r != ref:
                s.fail('differs', f"output_chunk_size={n}: the file ({len(r)} B) differs from the reference ({len(ref)} B)")
            k = check_growth(s, w, ref, None)
            ctx.state((which, ml, tuple(len(x) if x is not None else None for x in w.seen)))
            ctx.step(k)
        ctx.validated_trace(len(block))
        ctx.outcome('identical, grows by whole records')
    return fn


def inputs(tier):
    rows = 6 if tier == 'quick' else 11

    def fn(ctx):
        ml = ctx.choose('max_record_length', [64, 8192])
        src = ctx.choose('source', D.SOURCES)
        nf = ctx.choose('channels', ['equal rows', 'exact structured', 'two frames', 'cast', 'big-endian'])
        win = ctx.choose('window', [(0, None), (1, 4), (2, None), (0, rows)])
        ics = ctx.choose('input_chunk_size', [None] + list(range(1, rows + 3)) + [10 ** 9, True])
        ocs = ctx.choose('output_chunk_size', [ml, ml + 1, 3 * ml + 5, 1 << 16, float(2 * ml), None if src == 'never' else 1 << 17])
        arrays = {'A': np.arange(rows) * 0.5, 'B': np.arange(rows * 2, dtype=np.uint16).reshape(rows, 2)}
        if nf == 'two frames':
            arrays['Z'] = np.arange(rows, dtype=np.int8)
        if nf == 'big-endian':
            arrays = {k: v.astype(v.dtype.newbyteorder('>')) for k, v in arrays.items()}

        def build():
            s = Session(max_record_length=ml)
            lf = s.lf()
            s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
            cs = [s.add(lf, 'channel', k, data=v if src == 'inline' else None, cast_dtype=np.float32 if nf == 'cast' and k == 'A' else None)
                  for k, v in arrays.items()]
            s.add(lf, 'frame', 'F', channels=cs[:2])
            if nf == 'two frames':
                s.add(lf, 'frame', 'G', channels=cs[2:])
            return s
        d = D.make_source(src, arrays, order='reversed' if nf == 'equal rows' else None)
        key = (ml, nf, win)
        if key not in REF:
            s = build()
            a2 = {k: v.copy() for k, v in arrays.items()}
            r = lib.write_ok(s, data=D.make_source('dict', a2) if src != 'inline' else None, from_idx=win[0], to_idx=win[1], output_chunk_size=1 << 20)
            f = lib.parse(s, r)
            for v in lib.match(s, f):
                lib.check_frame_data(v, a2, *win)
            REF[key] = r
        s = build()
        st, r, w = write(s, watch=False, data=d, input_chunk_size=ics, output_chunk_size=ocs, from_idx=win[0], to_idx=win[1])
        if st == 'err':
            if ics is True:
                ctx.outcome('rejected')
                return
            s.fail('rejected', f"{type(r).__name__}: {r}")
        if r != REF[key]:
            s.fail('differs', f"{src}, chunks {ics}/{ocs}: the file ({len(r)} B) differs from the reference ({len(REF[key])} B)")
        ctx.outcome('identical')
    return fn


def arithmetic(tier):
    """Every row count up to a bound x every input chunk size up to beyond it x every source x windows: one execution runs all chunk sizes of a
    (row count, source, window)."""
    top = 16 if tier == 'quick' else 34

    def fn(ctx):
        rows = ctx.choose('rows', list(range(1, top + 1)) + [64, 127, 128, 257, 1000])
        src = ctx.choose('source', D.SOURCES)
        win = ctx.choose('window', [(0, None), (0, rows - 1), (rows // 3, None), (1, rows - 2)])
        n = (rows if win[1] is None else win[1]) - win[0]
        if n < 1:
            raise Prune('empty window')
        arrays = {'A': np.arange(rows, dtype=np.int32), 'B': (np.arange(rows * 2) % 251).astype(np.uint8).reshape(rows, 2)}

        def build():
            s = Session()
            lf = s.lf()
            s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
            cs = [s.add(lf, 'channel', k, data=v if src == 'inline' else None) for k, v in arrays.items()]
            s.add(lf, 'frame', 'F', channels=cs)
            return s

        def source():
            return D.make_source(src, {k: v.copy() for k, v in arrays.items()})
        s = build()
        ref = lib.write_ok(s, data=source(), from_idx=win[0], to_idx=win[1], output_chunk_size=1 << 20)
        f = lib.parse(s, ref)
        for v in lib.match(s, f):
            lib.check_frame_data(v, arrays, *win)
        sizes = range(1, n + 3) if n <= top else sorted({1, 2, 3, 7, n // 5, n // 4, n // 3, n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1, n, n + 1, 2 * n})
        for ics in sizes:
            s = build()
            st, r, w = write(s, watch=False, data=source(), input_chunk_size=ics, output_chunk_size=1 << 14, from_idx=win[0], to_idx=win[1])
            if st == 'err':
                s.fail('rejected', f"{rows} rows, window {win}, input chunks of {ics}: {type(r).__name__}: {r}")
            if r != ref:
                s.fail('differs', f"{src}, {rows} rows, window {win}, input chunks of {ics}: the file ({len(r)} B) differs from the reference ({len(ref)} B)")
            ctx.state((n, ics))
        ctx.step(len(sizes))
        ctx.validated_trace(len(sizes))
        ctx.outcome('identical')
    return fn


def long(tier):
    """Row counts and input chunk sizes around powers of two (and of ten), at large sizes."""
    rows_ = [1 << 12, (1 << 14) + 1, 65535, 65536, 65537] if tier == 'quick' else pow2(10, 18) + [10 ** 5]

    def fn(ctx):
        n = ctx.choose('rows', rows_[::-1])
        src = ctx.choose('source', D.SOURCES if n < 60000 else D.SOURCES[1:])
        win = ctx.choose('window', [(0, None), (1, n - 1)] if n < 60000 else [(0, None)])
        arrays = {'A': (np.arange(n) * 7).astype('<i4'), 'B': (np.arange(n) % 251).astype(np.uint8)}

        def build():
            s = Session()
            lf = s.lf()
            s.add(lf, 'origin', 'O', **lib.BASE_ORIGIN)
            cs = [s.add(lf, 'channel', k, data=v if src == 'inline' else None) for k, v in arrays.items()]
            s.add(lf, 'frame', 'F', channels=cs)
            return s

        def source():
            return D.make_source(src, {k: v.copy() for k, v in arrays.items()})
        s = build()
        ref = lib.write_ok(s, data=source(), from_idx=win[0], to_idx=win[1], output_chunk_size=1 << 22)
        for v in lib.match(s, lib.parse(s, ref)):
            lib.check_frame_data(v, arrays, *win)
        sizes = [(1000, 1 << 14), (1 << 12, 1 << 16), (1 << 14, 8192), (65536, 1 << 20), (n - 1, 10 ** 5), (n, 99999.0), (n // 2, 1 << 15)]
        if tier == 'quick' and n > 60000:
            sizes = [z for i, z in enumerate(sizes) if i % 2 == D.SOURCES.index(src) % 2]
        for ics, ocs in sizes:
            s = build()
            st, r, w = write(s, watch=False, data=source(), input_chunk_size=ics, output_chunk_size=ocs, from_idx=win[0], to_idx=win[1])
            if st == 'err':
                s.fail('rejected', f"{n} rows, window {win}, input chunks of {ics}: {type(r).__name__}: {r}")
            if r != ref:
                s.fail('differs', f"{src}, {n} rows, window {win}, chunks {ics}/{ocs}: the file ({len(r)} B) differs from the reference ({len(ref)} B)")
            ctx.state((n, ics))
        ctx.step(len(sizes))
        ctx.validated_trace(len(sizes))
        ctx.outcome('identical')
    return fn


def existing(tier):
    def fn(ctx):
        which = ctx.choose('specification', ['tiny', 'full', 'two'])
        ml = ctx.choose('max_record_length', [20, 128, 8192])
        ref = reference(ml, which)
        b = ctx.choose('file at the target', ['none', 'empty', 'short', 'same length', 'longer', 'the same file', 'same file twice as long', 'label only'])
        before = {'none': None, 'empty': b'', 'short': b'garbage', 'same length': b'\xff\x01' * (len(ref) // 2), 'longer': b'x' * (len(ref) * 2 + 1),
                  'the same file': ref, 'same file twice as long': ref + ref[80:], 'label only': ref[:80]}[b]
        ocs = ctx.choose('output_chunk_size', [ml, 3 * ml + 1, len(ref) + 100 if len(ref) + 100 > ml else ml])
        how = ctx.choose('path', ['str', 'Path', 'relative'])
        twice = ctx.choose('written', ['once', 'twice', 'another specification first'])
        s = spec(ml, which)
        if twice != 'once':
            s2 = s if twice == 'twice' else spec(ml, 'full' if which == 'tiny' else 'tiny')
            st, r, w = write(s2, before=before, how=how, output_chunk_size=ocs)
            if st == 'err':
                s2.fail('rejected', f"{type(r).__name__}: {r}")
            before = r
        st, r, w = write(s, before=before, how=how, output_chunk_size=ocs)
        if st == 'err':
            s.fail('rejected', f"{type(r).__name__}: {r}")
        if r != ref:
            s.fail('not-replaced', f"target held {b}: the file ({len(r)} B) differs from the reference ({len(ref)} B)")
        ctx.step(check_growth(s, w, ref, before))
        ctx.outcome('replaced')
    return fn


BAD = [0, -1, 1, 19, 20.5, 127, 126.0, 128.5, float('nan'), float('inf'), -8192, '8192', True, False, [8192], 2 ** 70]
BADIN = [0, -1, -2, -3, -6, -7, -100, 1.0, 2.5, '2', False, float('nan'), [1], 2 ** 70]


def invalid(tier):
    def fn(ctx):
        which = ctx.choose('specification', ['tiny', 'full', 'two'])
        part = ctx.choose('part', ['output', 'input'])
        v = ctx.choose('value', BAD if part == 'output' else BADIN)
        if part == 'output' and (v is False or v == 0):
            if which != 'tiny' or v is False or tier == 'quick':
                raise Prune('stands for the default of 4 GiB: tried once, thorough only')
        ref = reference(128, which)
        s = spec(128, which)
        kw = {'output_chunk_size': v} if part == 'output' else {'output_chunk_size': 4096, 'input_chunk_size': v}
        try:
            st, r, w = write(s, watch=False, **kw)
        except Violation:
            raise
        if st == 'err':
            ctx.outcome('rejected')
            return
        if r != ref:
            s.fail('accepted-differs', f"{kw} was accepted, but the file ({len(r)} B) differs from the reference ({len(ref)} B)")
        ctx.outcome('accepted, identical')
    return fn


class Boom(OSError):
    pass


def faults(tier):
    """The k-th opening of the output, or the loading of row k, fails: what is on disk is whole records, and a later write is complete."""
    def fn(ctx):
        which = ctx.choose('specification', ['tiny', 'full', 'two'])
        ml = ctx.choose('max_record_length', [20, 128])
        ocs = ctx.choose('output_chunk_size', [ml, 5 * ml + 3])
        what = ctx.choose('fails', ['open', 'write', 'close', 'row'])
        before = ctx.choose('file at the target', [None, b'old' * 1000], names=['none', 'old'])
        ref = reference(ml, which)
        path = lib.ENV.path
        k = 0
        while True:
            k += 1 if k < 20 or tier != 'quick' else 7
            s = spec(ml, which)
            cnt = [0]
            orig_open = io.open

            class Proxy:
                def __init__(self, f):
                    self._f = f

                def write(self, b):
                    cnt[0] += what == 'write'
                    if what == 'write' and cnt[0] == k:
                        raise Boom(28, 'No space left on device')
                    return self._f.write(b)

                def close(self):
                    cnt[0] += what == 'close'
                    self._f.close()
                    if what == 'close' and cnt[0] == k:
                        raise Boom(5, 'Input/output error')

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    self.close()

                def __getattr__(self, n):
                    return getattr(self._f, n)

            def fake(file, mode='r', *a, **kw):
                if isinstance(file, (str, os.PathLike)) and os.path.abspath(file) == os.path.abspath(path) and 'r' not in mode:
                    cnt[0] += what == 'open'
                    if what == 'open' and cnt[0] == k:
                        raise Boom(24, 'Too many open files')
                    return Proxy(orig_open(file, mode, *a, **kw))
                return orig_open(file, mode, *a, **kw)
            if what == 'row':
                cls = lib.row_class()
                if cls is None:
                    raise Prune('no class of rows')
                oi = cls.__init__

                def boom(self, *a, **kw):
                    cnt[0] += 1
                    if cnt[0] == k:
                        raise Boom(5, 'Input/output error')
                    return oi(self, *a, **kw)
                cls.__init__ = boom
            builtins.open = io.open = fake
            try:
                st, r, w = write(s, before=before, output_chunk_size=ocs)
            finally:
                builtins.open = io.open = orig_open
                if what == 'row':
                    cls.__init__ = oi
            fired = cnt[0] >= k
            if fired and st == 'ok' and r != ref:
                s.fail('failure-swallowed', f"{what} number {k} failed, but write() returned normally with {len(r)} of {len(ref)} bytes")
            ctx.step(check_growth(s, w, ref, before))
            ctx.validated_trace()
            if not fired:
                if r != ref:
                    s.fail('differs', 'write without failure differs from the reference')
                break
            if k % 7 == 1:
                st, r, w = write(s, watch=False, output_chunk_size=ocs)
                if st == 'err' or r != ref:
                    s.fail('retry', f"after a failing write the same specification gives {r if st == 'err' else str(len(r)) + ' B'} instead of the file")
            if k > 400:
                break
        ctx.state((which, ml, ocs, what, k))
        ctx.outcome(f"{what}: whole records only")
    return fn


def scenarios(tier):
    return [Scenario('long', long(tier), timeout=300), Scenario('flush', flush(tier)), Scenario('inputs', inputs(tier)), Scenario('arithmetic', arithmetic(tier)),
            Scenario('existing', existing(tier)), Scenario('invalid', invalid(tier)),
            Scenario('faults', faults(tier))]
