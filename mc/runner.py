"""Command line of a check: explore, write evidence, report.   python -m mc.runner C01 [--replay FILE]"""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_imports():
    sys.dont_write_bytecode = True
    src = '/repo/src'
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    import dliswriter
    f = os.path.realpath(dliswriter.__file__)
    if not f.startswith('/repo/src/'):
        raise SystemExit(f"harness error: dliswriter imported from {f}")


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def make_scratch():
    for base in ('/dev/shm', None):
        try:
            return tempfile.mkdtemp(prefix='mc-', dir=base)
        except OSError:
            continue
    raise SystemExit('no scratch directory')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='run only the scenarios whose name contains this')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.environ.setdefault('PYTHONHASHSEED', '0')
    setup_imports()
    from . import engine
    mod = importlib.import_module(f"mc.checks.{a.prop.lower()}")
    scratch = make_scratch()
    try:
        return _main(a, tier, seed, t0, engine, mod, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, tier, seed, t0, engine, mod, scratch):
    prop = a.prop.upper()
    from . import lib
    lib.quiet()
    if a.replay:
        tier = json.load(open(a.replay)).get('tier', tier)
    scenarios = mod.scenarios(tier)
    if a.only:
        scenarios = [s for s in scenarios if a.only in s.name]
    if a.replay:
        d = json.load(open(a.replay))
        sc = [s for s in scenarios if s.name == d['scenario']]
        if not sc:
            scenarios = mod.scenarios('thorough')
            sc = [s for s in scenarios if s.name == d['scenario']]
        env = engine.Env(scratch, 0, seed)
        lib.init(env)
        ctx, st, payload = engine.run_one(sc[0], d['case'], [tuple(x) for x in d['choices']], env)
        print('\n'.join(ctx.describe() + ctx.notes))
        print('replay:', st, payload if st != 'violation' else f"{payload[0]}: {payload[1]}\n{payload[2] or ''}")
        return 1 if st == 'violation' else 0
    # determinism self-test: the first execution of every scenario, twice, must make the same choices and observations
    budget = getattr(mod, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 3 * 3600)
    total, capped = engine.explore(scenarios, seed, init=lib.init, budget=budget, scratch=scratch)
    if total.errors:
        print(f"{prop}: harness error\n{total.errors[0]}", file=sys.stderr)
        return 2
    known = known_findings(prop)
    new, seen_known = {}, {}
    for sig, v in total.violations.items():
        k = [f for f in known if f['signature'] == sig]
        if k:
            seen_known[sig] = k[0]
        else:
            new[sig] = v
    rdir = os.path.join(ROOT, 'evidence', 'replays')
    lines = []
    if new:
        os.makedirs(rdir, exist_ok=True)
    for i, (sig, v) in enumerate(sorted(new.items(), key=lambda kv: kv[1][0])):
        key, scn, case, choices, desc, msg, trace = v
        fn = os.path.join(rdir, f"{prop}-{i}.json")
        if i < (400 if os.environ.get('MC_FINE') else 10):
            json.dump({'property': prop, 'tier': tier, 'signature': sig, 'scenario': scn, 'case': case, 'choices': choices, 'trace': desc,
                       'message': msg, 'detail': trace,
                       'replay_with': f"cd {ROOT} && ./check {prop} --replay {fn}"}, open(fn, 'w'), indent=1, default=repr)
            lines.append(f"VIOLATION property={prop} replay={fn}")
            print(f"  [{sig}] in {scn}: {msg}")
            if os.environ.get('MC_FINE'):
                continue
            for d in desc[-25:]:
                print('      ' + d)
            if trace:
                print('      ' + str(trace)[:3000])
    for l in lines:
        print(l)
    for sig, k in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    wall = time.time() - t0
    ms = sum(s.model_states for s in scenarios)
    mt = sum(s.model_transitions for s in scenarios)
    cov = {'states': len(total.states) + ms, 'transitions': total.edges + mt,
           'traces_validated_against_impl': total.validated,
           'executions': total.execs, 'pruned_combinations': total.pruned, 'max_choice_depth': total.maxdepth,
           'executions_per_scenario': dict(total.per), 'distinct_outcomes': dict(total.outcomes.most_common(60)),
           'bounds': getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {}).get('quick', '')),
           'samples': sorted(total.samples, key=repr)[:6] or [{'note': 'fewer executions than the sampling stride'}],
           'exhaustive': not capped}
    if capped:
        cov['cap'] = ('stopped early after the first violation' if total.nviol else f"time budget of {budget} s reached")
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
               'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(new)},
              open(os.path.join(ROOT, 'evidence', f"{prop}.json"), 'w'), indent=1, default=repr)
    print(f"{prop} {tier}: {total.execs} executions, {cov['states']} states, {cov['transitions']} transitions, "
          f"{total.pruned} pruned, {total.nviol} violating, exhaustive={not capped}, {wall:.1f} s")
    if a.v:
        print(json.dumps(dict(total.outcomes.most_common(40)), indent=1))
    return 1 if new else 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc if isinstance(rc, int) else 2)
