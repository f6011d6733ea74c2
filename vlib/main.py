"""python -m vlib.main <property> [--tier quick|thorough] [--replay file] [--only harness]"""
import argparse
import hashlib
import importlib
import json
import multiprocessing.connection
import os
import sys
import time
from fractions import Fraction

from vlib import boot

BUDGET = {'quick': 420, 'thorough': 5400}


def match_finding(prop, hname, cfg, v, findings):
    for f in findings:
        if f.get('kind') == 'finding' and f['property'] == prop and f['harness'] == hname and \
                all(cfg.get(k) == x for k, x in f.get('config', {}).items()) and \
                f.get('label', '') in v['label'] and f.get('message', '') in v['message']:
            return f
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--probe', action='store_true', help='only the replays of inputs in the domain that stand in for what cannot be encoded')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    a = ap.parse_args(argv)
    t0 = time.time()
    import numpy
    import z3
    import numga.algebra.algebra, numga.backend.numpy.context
    from vlib import engine
    mod = importlib.import_module('checks.' + a.prop.lower())
    hs = engine.REGISTRY[a.prop]
    if a.replay:
        d = json.load(open(a.replay))
        h = next(h for h in hs if h.name == d['harness'])
        if h.custom:
            t = engine.Task()
            h.fn(t, replay=d, **d['config'])
            ok = bool(t.violations)
            print(t.violations or 'not reproduced')
        else:
            ok, msg, _ = engine.replay_values(h, d['config'], {k: Fraction(v) for k, v in d['values'].items()}, d['seed'], d.get('tol', engine.TOL))
            print('REPRODUCED' if ok else 'not reproduced', msg)
        return 1 if ok else 0
    tasks = []
    for hi, h in enumerate(hs):
        if a.only and a.only not in h.name:
            continue
        for cfg in h.configs(a.tier, a.seed):
            tasks.append((a.prop, hi, cfg, h.timeout if a.tier == 'quick' else h.timeout * 5) if not a.probe else (a.prop, hi, cfg, 60, 'probe'))
    tot, fn, samples, inc, viol, per = {}, set(), [], [], [], {}
    slow = []

    def on_result(task, out):
        h = hs[task[1]]
        p = per.setdefault(h.name, dict(about=h.doc, configurations=0, obligations=0, discharged=0, inconclusive=0))
        p['configurations'] += 1
        for k in ('obligations', 'discharged'):
            p[k] += out['stats'].get(k, 0)
        for k, v in out['stats'].items():
            tot[k] = tot.get(k, 0) + v
        fn.update(out['functions'])
        samples.extend(out['samples'][:1] if p['configurations'] <= 2 else [])
        for m in out['inconclusive']:
            p['inconclusive'] += 1
            inc.append('%s %s: %s' % (h.name, task[2], m))
            if a.v:
                print('INCONCLUSIVE', inc[-1], *out['notes'], sep='\n   ')
        for v in out['violations']:
            viol.append((h.name, task[2], v))
            if a.v:
                print('VIOL', h.name, task[2], v['label'], v['message'])
        slow.append((out['wall'], h.name, str(task[2])))
        if a.v and out['wall'] > 20:
            print('slow %.1fs %s %s' % (out['wall'], h.name, task[2]))

    skipped = engine.run_pool(tasks, a.seed, a.j, t0 + BUDGET[a.tier], on_result)
    findings = engine.findings()
    fresh, printed = [], set()
    for hname, cfg, v in viol:
        f = match_finding(a.prop, hname, cfg, v, findings)
        if f is None:
            fresh.append((hname, cfg, v))
        elif f['what'] not in printed:
            printed.add(f['what'])
            print('KNOWN-FINDING: property=%s %s' % (a.prop, f['what']))
    out = os.path.join(boot.VERIF, 'out')
    os.makedirs(out, exist_ok=True)
    for hname, cfg, v in fresh[:5]:
        d = dict(property=a.prop, harness=hname, config=cfg, seed=a.seed, **v)
        h = hashlib.sha1(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(out, '%s-%s.json' % (a.prop, h))
        json.dump(d, open(path, 'w'), indent=1, default=str)
        print('%s %s [%s] %s' % (hname, cfg, v['label'], v['message']))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
    meta = getattr(mod, 'META', {})
    wall = time.time() - t0
    cov = dict(
        explanation=meta.get('explanation', (mod.__doc__ or '').strip()),
        method='symbolic execution of the real code + SMT (z3 %s); unsat = holds for all values in bounds' % z3.get_version_string(),
        evaluations=tot.get('queries', 0) + tot.get('vacuity_queries', 0),
        obligations=tot.get('obligations', 0),
        discharged=tot.get('discharged', 0),
        distinct_nontrivial=tot.get('nontrivial', 0),
        rule='one obligation = one asserted identity of one harness in one configuration (algebra signature x subspaces); '
             'nontrivial = its two sides still contain symbolic unknowns',
        components=tot.get('components', 0),
        paths=tot.get('paths', 0),
        static_facts=tot.get('static_facts', 0),
        configurations=sum(p['configurations'] for p in per.values()),
        configurations_skipped_for_time=skipped,
        inconclusive=inc[:40], inconclusive_count=len(inc),
        harnesses=per,
        bounds=meta.get('bounds', ''), outside=meta.get('outside', ''),
        functions_encoded=sorted(fn),
        solver_seconds=round(tot.get('solver_s', 0), 2),
        execution_seconds=round(tot.get('exec_s', 0), 2),
        reachability={k[13:]: v for k, v in tot.items() if k.startswith('reachability_')},
        samples=samples[:12] or ['(no discharged obligation)'],
        slowest=[list(s) for s in sorted(slow, reverse=True)[:3]],
        known_findings=sorted(printed),
    )
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level='other', coverage=cov,
              assumptions=meta.get('assumptions', []), wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(boot.VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d configurations, %d/%d obligations discharged, %d inconclusive, %d skipped, %d known, %d violations, %.1fs' % (
        a.prop, a.tier, cov['configurations'], cov['discharged'], cov['obligations'], len(inc), skipped, len(viol) - len(fresh), len(fresh), wall))
    return 1 if fresh else 0


if __name__ == '__main__':
    sys.exit(main())
