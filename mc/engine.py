"""Bounded exhaustive explorer (stateless model checking of the real library).

A scenario is a Python function `fn(ctx)`.  Every nondeterministic decision (which operation comes next, which value,
which record length, ...) goes through `ctx.choose(label, options)`.  The explorer enumerates *all* sequences of
choices: it runs the scenario to completion under a forced prefix of choices, taking option 0 beyond the prefix, and
then backtracks over every later choice point.  A choice point may be declared a deviation point (`dev=True`): taking a
non-default option there costs 1 (or `cost`), and executions whose total cost exceeds the scenario's bound are not explored.
`ctx.choose(...)` without dev is always enumerated completely.

A scenario may also bring an explicit list of `cases` (e.g. the transitions of an explicit-state search of the model:
each case is the operation history to be validated against the implementation); fn then gets the case as ctx.case and may
still branch inside.

Work is split over forked worker processes.  No clock, no randomness, no iteration order takes part in deciding what is
explored, so the set of executions is the same in every run (VERIF_SEED only seeds numpy for the library's own random
default, and rotates which executions are written out as samples).
"""
import collections
import gc
import hashlib
import json
import multiprocessing as mp
import os
import queue
import shutil
import signal
import sys
import tempfile
import time
import traceback


class Violation(Exception):
    def __init__(self, signature, message, trace=None):
        super().__init__(message)
        self.signature = signature
        self.message = message
        self.trace = trace


class Prune(Exception):
    """This combination of choices is not part of the space (counted separately)."""


class Divergence(Exception):
    """Replaying a prefix did not reproduce the same choice points: the harness does not own some nondeterminism."""


class HangTimeout(BaseException):
    pass


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'big')


class Ctx:
    def __init__(self, scenario, case_idx, prefix, bound, env):
        self.scenario = scenario
        self.case_idx = case_idx
        self.case = scenario.cases[case_idx] if scenario.cases is not None else None
        self.prefix = prefix
        self.bound = bound
        self.env = env
        self.points = []         # (label hash, n options, dev cost or 0)
        self.choices = []
        self.labels = []
        self.cost = 0
        self.states = []
        self.extra_transitions = 0
        self.outcomes = []
        self.notes = []
        self.validated = 0

    def choose(self, label, options, dev=False, cost=1, names=None):
        n = len(options)
        if n == 0:
            raise Prune('no options')
        i = len(self.choices)
        lh = h64((label, n)) & 0xffffff
        if i < len(self.prefix):
            k, plh = self.prefix[i]
            if plh is not None and plh != lh or k >= n:
                raise Divergence(f"choice point {i} ({label}, {n} options) is not the one recorded")
        else:
            k = 0
        c = cost if (dev and k) else 0
        self.cost += c
        self.points.append((lh, n, cost if dev else 0, self.cost - c))
        self.choices.append((k, lh))
        o = options[k]
        self.labels.append((label, names[k] if names else o))
        return o

    def state(self, x):
        """Register a canonical model state reached by this execution."""
        self.states.append(h64(x))

    def step(self, n=1):
        """Count model transitions that are not choice edges (operations applied)."""
        self.extra_transitions += n

    def validated_trace(self, n=1):
        self.validated += n

    def outcome(self, s):
        self.outcomes.append(s)

    def path(self):
        """Private scratch file of this worker process."""
        return self.env.path

    def describe(self):
        out = []
        for l, o in self.labels:
            r = repr(o)
            out.append(f"{l} = {r if len(r) < 300 else r[:300] + '...'}")
        return out


class Env:
    def __init__(self, scratch, wid, seed):
        self.scratch = scratch
        self.dir = os.path.join(scratch, f"w{wid}")
        os.makedirs(self.dir, exist_ok=True)
        self.path = os.path.join(self.dir, 'x.dlis')
        self.seed = seed


class Scenario:
    def __init__(self, name, fn, bound=10 ** 9, cases=None, timeout=120, model_states=0, model_transitions=0):
        """cases: list of explicit cases; model_states/model_transitions: size of the explicit-state search that
        produced them (0 if none)."""
        self.name, self.fn, self.bound, self.cases, self.timeout = name, fn, bound, cases, timeout
        self.model_states, self.model_transitions = model_states, model_transitions


def _alarm(*a):
    raise HangTimeout()


def run_one(sc, case_idx, prefix, env, observe=None):
    """One execution.  Returns (ctx, status, payload)."""
    ctx = Ctx(sc, case_idx, prefix, sc.bound, env)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sc.timeout)
    try:
        try:
            sc.fn(ctx)
            st = ('ok', None)
        finally:
            signal.alarm(0)
    except Violation as v:
        st = ('violation', (v.signature, v.message, v.trace))
    except Prune as p:
        st = ('pruned', str(p))
    except Divergence as e:
        st = ('error', f"divergence: {e}")
    except HangTimeout:
        st = ('violation', ('hang', f"execution did not finish within {sc.timeout} s", None))
    except (MemoryError, OSError):
        st = ('error', traceback.format_exc())
    except Exception as e:
        # never on the tree the harness was built for: a call which the scenario takes to be legal raised, or the output has a
        # structure in which the judge cannot find what it must be able to find
        in_lib = any('dliswriter' in f.filename for f in traceback.extract_tb(e.__traceback__))
        kind = 'unexpected-exception' if in_lib else 'cannot-be-judged'
        st = ('violation', (f"{kind}:{type(e).__name__}", f"{type(e).__name__}: {e}"[:600], traceback.format_exc()[-2500:]))
    return ctx, st[0], st[1]


def children(ctx, nforced):
    """Prefixes of the siblings to explore below this execution (points at or after nforced)."""
    out = []
    for i in range(len(ctx.points) - 1, nforced - 1, -1):
        lh, n, dc, before = ctx.points[i]
        if dc and before + dc > ctx.bound:
            continue
        base = tuple(ctx.choices[:i])
        for k in range(1, n):
            out.append(base + ((k, lh),))
    return out


class Stats:
    def __init__(self):
        self.execs = self.pruned = self.edges = self.validated = 0
        self.states = set()
        self.outcomes = collections.Counter()
        self.per = collections.Counter()
        self.maxdepth = 0
        self.violations = {}
        self.nviol = 0
        self.errors = []
        self.samples = []

    def merge(self, o):
        self.execs += o.execs
        self.pruned += o.pruned
        self.edges += o.edges
        self.validated += o.validated
        self.states |= o.states
        self.outcomes.update(o.outcomes)
        self.per.update(o.per)
        self.maxdepth = max(self.maxdepth, o.maxdepth)
        self.nviol += o.nviol
        for k, v in o.violations.items():
            if k not in self.violations or v[0] < self.violations[k][0]:
                self.violations[k] = v
        self.errors += o.errors[:3]
        self.samples += o.samples


def account(st, sc, si, ctx, nforced, status, payload, sample):
    if status == 'pruned':
        st.pruned += 1
        return
    st.execs += 1
    st.per[sc.name] += 1
    st.edges += max(0, len(ctx.points) - max(0, nforced - 1)) + ctx.extra_transitions
    st.maxdepth = max(st.maxdepth, len(ctx.points))
    st.states.update(ctx.states)
    if not ctx.states:
        st.states.add(h64((sc.name, ctx.case_idx, tuple(ctx.choices))))
    st.validated += ctx.validated if ctx.validated else 1
    for o in ctx.outcomes:
        st.outcomes[o] += 1
    if status == 'violation':
        st.nviol += 1
        sig, msg, trace = payload
        fine = os.environ.get('MC_FINE')            # development aid: one report per scenario and leading choices
        if fine:
            sig = f"{sig} | {sc.name} | " + ' | '.join(str(x[1])[:40] for x in ctx.labels[:int(fine)])
        key = (ctx.cost, len(ctx.choices), tuple(k for k, _ in ctx.choices), si, ctx.case_idx or 0)
        cur = st.violations.get(sig)
        if cur is None or key < cur[0]:
            st.violations[sig] = (key, sc.name, ctx.case_idx, list(ctx.choices), ctx.describe() + list(ctx.notes), msg, trace)
    elif status == 'error':
        st.errors.append(f"[{sc.name} case {ctx.case_idx} {ctx.describe()}]\n{payload}")
    if sample:
        st.samples.append({'scenario': sc.name, 'choices': ctx.describe()[:40], 'notes': ctx.notes[:6],
                           'outcome': ctx.outcomes[-1] if ctx.outcomes else status})


def worker(wid, scenarios, tasks, results, scratch, seed, init, deadline):
    try:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 2)
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))      # a runaway allocation is an error of that execution only
        env = Env(scratch, wid, seed)
        os.chdir(env.dir)
        if init:
            init(env)
        gc.collect()
        gc.freeze()
        gc.disable()
        n = 0
        while True:
            t = tasks.get()
            if t is None:
                return
            si, todo = t
            st = Stats()
            sc = scenarios[si]
            t0 = time.time()
            stack = list(todo)
            while stack:
                if time.time() > deadline:
                    break
                ci, prefix = stack.pop()
                ctx, status, payload = run_one(sc, ci, prefix, env)
                n += 1
                if n % 100 == 0:
                    gc.collect()
                account(st, sc, si, ctx, len(prefix), status, payload, sample=(n == 1 or (n + seed) % 997 == 1))
                stack.extend((ci, p) for p in children(ctx, len(prefix)))
                if len(stack) > 1 and time.time() - t0 > 0.25:
                    break
            results.put((wid, si, st, stack, None))
    except BaseException:
        results.put((wid, -1, None, [], traceback.format_exc()))


def explore(scenarios, seed, nworkers=None, init=None, budget=600, scratch=None, stop_after_violation=20):
    nworkers = nworkers or int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    deadline = time.time() + budget
    stop_after_violation = float(os.environ.get('MC_STOP', stop_after_violation))       # development aid
    ctxm = mp.get_context('fork')
    tasks, results = ctxm.Queue(), ctxm.Queue()
    procs = [ctxm.Process(target=worker, args=(w, scenarios, tasks, results, scratch, seed, init, deadline), daemon=False)
             for w in range(nworkers)]
    sys.stdout.flush()
    for p in procs:
        p.start()
    pending = collections.deque()
    for si, sc in enumerate(scenarios):
        if sc.cases is None:
            pending.append((si, [(None, ())]))
        else:
            m = max(1, min(64, len(sc.cases) // (nworkers * 4) or 1))
            idx = list(range(len(sc.cases)))
            for i in range(0, len(idx), m):
                pending.append((si, [(c, ()) for c in reversed(idx[i:i + m])]))
    outstanding = 0
    total = Stats()
    capped = False
    crash = None
    first_violation = None
    try:
        while True:
            if crash:
                break
            stop = (time.time() > deadline or
                    (first_violation and time.time() - first_violation > stop_after_violation))
            if stop and pending:
                capped = True
                pending.clear()
            while pending and outstanding < nworkers * 2:
                tasks.put(pending.popleft())
                outstanding += 1
            if not outstanding:
                break
            try:
                wid, si, st, rest, err = results.get(timeout=5)
            except queue.Empty:
                dead = [p for p in procs if p.exitcode not in (None, 0)]
                if dead:
                    crash = f"worker died with exit code {dead[0].exitcode}"
                if time.time() > deadline + 200:
                    crash = 'workers do not answer'
                continue
            outstanding -= 1
            if err:
                crash = err
                break
            total.merge(st)
            if st.violations and first_violation is None:
                first_violation = time.time()
            if total.errors:
                break
            if rest:
                # split the remaining work so that idle workers get a share
                if len(pending) < nworkers * 4 and len(rest) > 1:
                    m = max(1, len(rest) // (nworkers * 2))
                    for i in range(0, len(rest), m):
                        pending.append((si, rest[i:i + m]))
                else:
                    pending.append((si, rest))
    finally:
        for _ in procs:
            tasks.put(None)
        for p in procs:
            p.join(timeout=0.5 if (crash or total.errors) else 10)
            if p.is_alive():
                p.kill()
                p.join()
        tasks.cancel_join_thread()
        results.cancel_join_thread()
    if crash:
        total.errors.append(crash)
    return total, capped
