"""Decide one property: discharge every obligation of the contracts it depends on, on /repo's current source.

usage: python3-vt -m bdv.check <property id>
"""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from . import build, suites
from .ir import Unsupported

VERIF = build.VERIF
EVID = os.environ.get('BDV_EVIDENCE', VERIF + '/evidence')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
DEADLINE = 150 if TIER == 'quick' else 600
BUDGET = 600 if TIER == 'quick' else 3000

_TAGS = {}       # (suite, entry) -> tags this property is about; obligations with other tags are another property's and only assumed here
_R = {}          # suite -> (runner, specs): inherited by forked workers
_T0 = time.time()


def none(x, why):
    return dict(suite=x[0], entry=x[1], cfg=x[2], error=why, obs=[], paths=0, time=0, queries=0, solver=0, ext=[], loops=[], fns=[], backends={})


def job(x):
    suite, name, cfg = x
    R, specs = _R[suite]
    left = BUDGET - (time.time() - _T0)
    if left < 5:
        return none(x, 'skipped: time budget')
    try:
        r = R.run(specs[name], cfg, deadline=min(DEADLINE, left), tags=_TAGS.get((suite, name)))
    except Exception:
        return none(x, 'internal: ' + traceback.format_exc()[-1500:])
    return dict(suite=suite, entry=name, cfg=cfg, error=r['error'],
                obs=[(o.ok, o.tag, o.msg, o.status, o.where, o.model, o.fnname) for o in r['obs']], paths=r['paths'], time=r['time'],
                queries=r['queries'], solver=r['solver'], ext=sorted(map(str, r['ext'])), loops=list(r['loops']), fns=sorted(r['inlined']),
                contracts=sorted(map(str, r['contracts'])), backends=r.get('backends', {}))


def run_jobs(prop):
    jobs, broken = [], []
    for suite, sel, tags in suites.PROPS[prop]:
        if suite not in _R:
            mod = suites.load_specs(suite)
            try:
                tu, extra, _ = suites.SUITES[suite]
                m = build.load(tu, extra)
                R = mod.make_runner(m, build.layout(m))
            except (build.BuildFail, Unsupported, Exception) as e:
                broken.append((suite, f'{type(e).__name__}: {e}'[-2000:]))
                continue
            _R[suite] = (R, mod.SPECS)
        R, specs = _R[suite]
        for n, s in specs.items():
            if sel(s):
                cur = _TAGS.get((suite, n), set())
                _TAGS[(suite, n)] = None if (tags is None or cur is None) else cur | tags | {'vacuity'}
                for c in R.configs(s):
                    jobs.append((suite, n, c))
    jobs = list({json.dumps(j, sort_keys=True): j for j in jobs}.values())
    res = []
    if jobs:
        # a worker that is ended from outside leaves its operations undecided instead of hanging the check
        ex = cf.ProcessPoolExecutor(min(8, os.cpu_count() or 2), mp_context=mp.get_context('fork'))
        jobs.sort(key=lambda j: -((j[0] in ('text', 'flat', 'file', 'stream', 'tcl')) * 2 + sum(v not in ('null', 'nobuf') for v in j[2].values())))      # long ones first
        futs = [ex.submit(job, j) for j in jobs]
        for j, f in zip(jobs, futs):
            try:
                res.append(f.result())
            except Exception as e:
                res.append(none(j, f'worker ended: {e!r}'))
        ex.shutdown(wait=False, cancel_futures=True)
    return res, broken


def main(prop):
    t0 = time.time()
    res, broken = run_jobs(prop)
    wanted = {}
    for suite, sel, tags in suites.PROPS[prop]:
        if suite not in _R:
            continue
        for n, s in _R[suite][1].items():
            if sel(s):
                cur = wanted.get((suite, n), set())
                wanted[(suite, n)] = None if (tags is None or cur is None) else cur | tags
    nob = ndis = 0
    bad, undecided = [], []
    fns, ext, loops, used = set(), set(), 0, set()
    solver = queries = 0
    for r in res:
        tags = wanted[(r['suite'], r['entry'])]
        if r['error']:
            undecided.append((r['suite'], r['entry'], r['cfg'], r['error']))
        fns.update(r['fns'])
        ext.update(r['ext'])
        used.update(r.get('contracts', ()))
        loops += len(r['loops'])
        solver += r['solver']
        queries += r['queries']
        for o in r['obs']:
            if (o[1] not in tags if tags is not None else o[1] in ('rep', 'race')) and o[1] != 'vacuity':
                continue
            nob += 1
            if o[0]:
                ndis += 1
            elif o[3] == 'unknown':
                undecided.append((r['suite'], r['entry'], r['cfg'], f'{o[1]}: {o[2]} (solver gave no answer)'))
            else:
                bad.append((r['suite'], r['entry'], r['cfg'], o))
    # ---- bounded replay: counterexamples against the real code; stand-in for what the verifier cannot reach
    from . import replay
    standin = {}
    violations = []
    todo = sorted({(s, e) for s, e, *_ in bad} | {(s, e) for s, e, *_ in undecided})
    for su, _ in broken:
        mod = suites.load_specs(su)
        for n, s in mod.SPECS.items():
            for x in suites.PROPS[prop]:
                if x[0] == su and x[1](s):
                    todo.append((su, n))
                    cur = wanted.get((su, n), set())
                    wanted[(su, n)] = None if (x[2] is None or cur is None) else cur | x[2]
    todo = sorted(set(todo))
    # the contracts are also evaluated on concrete runs of the real code (cross-check of the verifier; decides nothing when quiet)
    standin = replay.run(prop, sorted(wanted), bad, SEED, TIER, _R)
    for k, v in standin.items():
        t = wanted[k]
        v['failures'] = [f for f in v.get('failures', []) if t is None or set(f['tags']) & t]
    known = load_known(prop)
    os.makedirs(EVID + '/replay', exist_ok=True)
    rc = 0
    lines = []
    failing = {k: v for k, v in standin.items() if v.get('failures')}
    by_entry = {}
    for b in bad:
        by_entry.setdefault((b[0], b[1]), []).append(b)
    nviol = 0
    reported = set()
    for (su, en), v in sorted(failing.items()):
        path = write_replay(prop, su, en, by_entry.get((su, en), []), v)
        lines.append(f'VIOLATION property={prop} replay={path}')
        reported.add((su, en))
        nviol += 1
    if by_entry and not reported and prop in ('C01', 'C02', 'C03'):
        # the refuted obligations may need another thread: look for a failing history under ThreadSanitizer
        from . import race
        h = race.run(TIER)
        if h:
            path = f'{EVID}/replay/{prop}_threads.txt'
            with open(path, 'w') as f:
                f.write(f'property {prop}: failing history on the real code (threads, ThreadSanitizer; program: /verif/tu/replay_race.cpp)\n{h}\n\n== failed obligations ==\n')
                for b in bad[:40]:
                    o = b[3]
                    f.write(f'{b[0]}:{b[1]} configuration {b[2]}: [{o[1]}] {o[2]} at {o[4]} in {o[6]}: {o[3]}; counterexample {o[5]}\n')
            lines.append(f'VIOLATION property={prop} replay={path}')
            nviol += 1
    for (su, en), bs in sorted(by_entry.items()):
        if (su, en) in reported:
            continue
        path = write_replay(prop, su, en, bs, standin.get((su, en)))
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        nviol += 1
    # with a failing input on one operation, the others follow from the same change: list the confirmed ones first
    for k in known:
        print(f'KNOWN-FINDING: property={prop} {k}')
    for ln in lines:
        print(ln)
    ev = {
        'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
        'level': 'proof',
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': f'python3-vt -m bdv.check {prop}',
            'trusted_base': TRUSTED,
            'operations_under_contract': sorted({f'{r["suite"]}:{r["entry"]}' for r in res}),
            'operation_configurations': len(res),
            'paths': sum(r['paths'] for r in res),
            'functions_verified_in_place': len(fns),
            'functions': sorted(fns),
            'loops_with_inferred_invariant': loops,
            'back_end': 'z3 (QF_UFLIA translation of the bit-vector obligation, bit-vector logic as fallback)',
            'solver_queries': queries, 'solver_seconds': round(solver, 2),
            'assumed_external_contracts': sorted(ext),
            'contracts_used_for_calls': sorted(used),
            'bounded_standins': [{'operation': f'{s}:{e}', 'reason': [u[3] for u in undecided if (u[0], u[1]) == (s, e)][:2] or [b[1][:300] for b in broken if b[0] == s],
                                  'cases': standin.get((s, e), {}).get('cases', 0), 'label': 'bounded, not proved'}
                                 for s, e in todo if (s, e) not in by_entry],
            'concrete_cross_check': {'cases': sum(v.get('cases', 0) for v in standin.values()), 'operations': len(standin),
                                     'errors': [f'{k[0]}:{k[1]}: {v["error"][-200:]}' for k, v in standin.items() if v.get('error')][:5]},
        },
        'assumptions': ASSUME,
        'wall_s': round(time.time() - t0, 2),
        'violations': nviol,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(f'{EVID}/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop}: {len(res)} operation configurations, {ndis}/{nob} obligations discharged, {len(undecided)} undecided, '
          f'{len(broken)} suites not loadable, {nviol} violations, {time.time()-t0:.1f}s')
    for u in undecided[:20]:
        print('  undecided:', u[0], u[1], u[2], u[3][-300:])
    for u in broken:
        print('  not loadable:', u[0], u[1][-600:])
    return 1 if nviol else 0


def write_replay(prop, su, en, bs, v):
    path = f'{EVID}/replay/{prop}_{su}_{en}.txt'
    with open(path, 'w') as f:
        f.write(f'property {prop}, operation {su}:{en}\n')
        if v and v.get('failures'):
            f.write('\n== failing inputs on the real code ==\n')
            for x in v['failures'][:10]:
                f.write(str(x) + '\n')
        f.write('\n== failed obligations (verifier output) ==\n')
        for b in bs[:40]:
            o = b[3]
            f.write(f'configuration {b[2]}: [{o[1]}] {o[2]} at {o[4]} in {o[6]}: {o[3]}; counterexample {o[5]}\n')
    return path


def load_known(prop):
    p = VERIF + '/KNOWN_FINDINGS.txt'
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith(f'finding: property={prop} '):
                out.append(ln.split(' ', 2)[2])
    return out


TRUSTED = [
    'clang 18 front end (C++ to LLVM IR, -O1 with LLVM passes disabled; then only sroa and simplifycfg)',
    'bdv: IR reader, symbolic executor, loop rule and obligation generator (/verif/bdv)',
    'z3 4.x',
]
ASSUME = [
    'libc, libstdc++ and operating system calls behave as their assumed contracts in bdv/libc.py state (list in assumed_external_contracts)',
    'lengths and capacities stay below 2^58 elements; fewer than 2^28 handles share one buffer',
    'atomic reference count operations are sequentially consistent; other handles of shared storage may be copied or dropped by other threads at any atomic step, '
    'but one handle is used by one thread at a time',
    'memory allocated before the call by parties other than the operands is not reachable from the operands (ownership by reference count)',
    'verified configuration: C++14, NDEBUG, x86-64, HAVE_CONFIG_H with the same feature macros as the build',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
