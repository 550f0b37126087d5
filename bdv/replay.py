"""Concrete replay on the real code: evaluates the same contracts on generated inputs.

Used (a) to find a failing input for a refuted obligation and (b) as the bounded stand-in where the verifier
cannot decide an operation. Each suite module may provide REPLAY (see replay_rca.RcaReplay)."""
import multiprocessing as mp
import os
from . import suites

_X = {}


def _one(x):
    suite, name, models, seed, tier = x
    rp, specs = _X[suite]
    try:
        return x[:2], rp.run(specs[name], models, seed, tier)
    except Exception as e:          # the stand-in itself must never raise an alarm
        import traceback
        return x[:2], {'cases': 0, 'failures': [], 'error': traceback.format_exc()[-800:]}


def run(prop, todo, bad, seed, tier, R):
    jobs = []
    for su in sorted({s for s, _ in todo}):
        mod = suites.load_specs(su)
        mk = getattr(mod, 'REPLAY', None)
        if mk is None:
            continue
        rp = mk()
        try:
            rp.build()
        except Exception as e:
            continue
        _X[su] = (rp, mod.SPECS)
    for su, en in todo:
        if su in _X:
            models = [(b[2], b[3][5]) for b in bad if (b[0], b[1]) == (su, en) and b[3][5]]
            jobs.append((su, en, models[:10], seed, tier))
    out = {}
    if jobs:
        with mp.get_context('fork').Pool(min(8, os.cpu_count() or 2)) as p:
            for k, v in p.map(_one, jobs, chunksize=1):
                out[k] = v
    for rp, _ in _X.values():
        rp.close()
    _X.clear()
    return out
