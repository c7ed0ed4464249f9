"""Command line of the checks: run.py PROPERTY [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.base import *          # noqa: E402
from checks import registry        # noqa: E402
from engine import build           # noqa: E402

KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')


def known_keys(pid):
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('known: property=%s ' % pid):
                key = l.split(' key=', 1)[1].split(' ', 1)[0]
                r[key] = l.split(' key=', 1)[1].split(' ', 1)[1].strip()
    return r


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str)) or x is None:
        return x
    return str(x)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED') or 1)
    p = registry.PROPS[pid]
    t0 = time.time()
    try:
        ctx = D.Ctx(features=p.features(tier) if callable(p.features) else p.features)
    except build.BuildError as e:
        print('cannot build: %s' % e)
        return 2
    ctx.seed = seed
    budget = a.budget or (p.quick_budget if tier == 'quick' else p.thorough_budget)
    jobs = p.jobs(ctx, tier)
    for j in jobs:
        random.seed(seed)
    reps = run_jobs(ctx, jobs, t0 + budget, p.limit if tier == 'quick' else 4 * p.limit, known=set(known_keys(pid)))
    wall = time.time() - t0
    return report(pid, p, tier, seed, ctx, jobs, reps, wall)


def report(pid, p, tier, seed, ctx, jobs, reps, wall):
    known = known_keys(pid)
    viol, seen, errors, unexplored, undecided = [], {}, [], [], []
    tot = dict(queries=0, sat=0, unsat=0, cache_hits=0, secs=0.0)
    cov = set()
    for r in reps:
        for v in r.violations:
            if v.get('key') and v['key'] in known:
                seen.setdefault(v['key'], v['what'])
            else:
                viol.append(v)
        for k, w in r.known.items():
            if k in known:
                seen.setdefault(k, w)
            else:
                viol.append(dict(what=w, key=k))
        errors += r.errors
        unexplored += r.unexplored
        undecided += ['%s: %s' % (r.name, u) for u in r.undecided]
        for k in tot:
            tot[k] += r.solver.get(k, 0)
        cov |= r.covered
    oblig = sum(r.oblig for r in reps)
    done = [r for r in reps if not r.unexplored and not r.errors and (r.oblig or r.violations)]
    names = sorted(set(short(c) for c in cov))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    replay = os.path.join(ROOT, 'evidence', pid + '.replay.json')
    if os.path.exists(replay):
        os.remove(replay)
    ev = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=round(wall, 2), violations=len(viol), assumptions=p.assumptions,
              coverage=dict(
        explanation='Symbolic execution of the LLVM IR compiled from the current tree; each obligation is an assertion over '
                    'the listed symbolic variables decided by z3 (or settled by term identity / interval facts) for every value '
                    'within the bounds. ' + p.bounds,
        bounds=p.bounds,
        obligations=oblig, discharged=oblig - len(undecided) - len(viol),
        settled_without_solver=sum(r.trivial for r in reps),
        solver_queries=tot['queries'], solver_unsat=tot['unsat'], solver_sat=tot['sat'], solver_cache_hits=tot['cache_hits'],
        solver_seconds=round(tot['secs'], 2), symbolic_paths=sum(r.paths for r in reps), ir_steps=sum(r.steps for r in reps),
        reachability_witnesses=sum(r.witness for r in reps), outcomes_compared_with_native=sum(r.validated for r in reps),
        jobs=len(jobs), jobs_completed=len(done), build_seconds=round(ctx.build_secs, 1),
        functions_encoded=len(names), functions=names[:400],
        unexplored=unexplored[:50], unexplored_count=len(unexplored), undecided=undecided[:50], undecided_count=len(undecided),
        errors=errors[:20], known_findings={k: v for k, v in seen.items()},
        samples=[r.name for r in reps[:5]] + [s for r in reps for s in r.samples][:10],
        slowest=[dict(job=r.name, secs=round(r.secs, 1)) for r in sorted(reps, key=lambda r: -r.secs)[:8]]))
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(jsonable(ev), f, indent=1)
    print('%s %s: %d jobs, %d completed, %d obligations, %d queries, %.1f s of solver, %.1f s' % (
        pid, tier, len(jobs), len(done), oblig, tot['queries'], tot['secs'], wall))
    for s in unexplored[:10]:
        print('  not explored: ' + s[:300])
    for s in undecided[:5]:
        print('  undecided: ' + s[:300])
    for s in errors[:5]:
        print('  error: ' + s[:1200])
    for k in sorted(seen):
        print('KNOWN-FINDING: property=%s %s: %s; e.g. %s' % (pid, k, known[k], seen[k]))
    if viol:
        for v in viol[:10]:
            print('  ' + v['what'][:1000])
        with open(replay, 'w') as f:
            json.dump(jsonable(viol[:20]), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if not done or 5 * (len(errors) + len(unexplored)) > 4 * len(jobs):
        print('nothing could be decided')
        return 2
    return 0


def short(n):
    import re
    parts = re.findall(r'(?<=\d)[A-Za-z_][A-Za-z0-9_]*', n)
    m = re.findall(r'\d+_?([A-Za-z_]\w*)', n)
    out = []
    i = 0
    while i < len(n):
        k = re.match(r'(\d+)_?', n[i:])
        if k and int(k.group(1)) and int(k.group(1)) < 120:
            ln = int(k.group(1))
            j = i + len(k.group(0))
            w = n[j:j + ln]
            if len(w) == ln and re.match(r'[A-Za-z_]\w*$', w):
                out.append(w)
                i = j + ln
                continue
        i += 1
    return '::'.join(out) or n


if __name__ == '__main__':
    sys.exit(main())
