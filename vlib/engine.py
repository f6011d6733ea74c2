"""Task pool, verdicts, replay, evidence."""
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
from fractions import Fraction

from vlib import boot
from vlib.env import SymEnv, ConcEnv, Violation, AssumptionFailed, Stats, solve_obligation, check_premises, counterexample
from vlib.sym import Unsupported, Sym, Atom

MEM = 6 << 30       # per worker
REGISTRY = {}       # property -> list of harnesses


class Harness:
    def __init__(self, prop, name, fn, configs, custom=None, timeout=120, lemmas=None):
        self.prop, self.name, self.fn, self.configs = prop, name, fn, configs
        self.custom = custom        # runs its own symbolic engine: fn(tier-cfg) -> result dict
        self.timeout = timeout
        self.doc = (fn.__doc__ or '').strip().split('\n')[0]


def harness(prop, name=None, configs=None, timeout=120):
    """Register a coefficient-level harness. configs: callable(tier, seed) -> list of dict"""
    def wrap(fn):
        REGISTRY.setdefault(prop, []).append(Harness(prop, name or fn.__name__, fn, configs or (lambda t, s: [{}]), timeout=timeout))
        return fn
    return wrap


def custom(prop, name=None, configs=None, timeout=200):
    """Register a harness with its own engine: fn(task, **cfg), replay via fn(None/replay=values)"""
    def wrap(fn):
        REGISTRY.setdefault(prop, []).append(Harness(prop, name or fn.__name__, fn, configs or (lambda t, s: [{}]), custom=True, timeout=timeout))
        return fn
    return wrap


class Task:
    """Accumulates the outcome of one harness x configuration"""

    def __init__(self):
        self.stats = Stats()
        self.violations = []
        self.inconclusive = []
        self.notes = []
        self.samples = []
        self.functions = []
        self.wall = 0
        self.searches = 0


# ---------------------------------------------------------------- functions encoded

class Coverage:
    """Which functions of the code under test ran under symbolic inputs (sys.monitoring)"""

    def __init__(self):
        self.seen = set()
        self.tool = 3

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.tool, 'verif')
            m.register_callback(self.tool, m.events.PY_START, self._hit)
            m.set_events(self.tool, m.events.PY_START)
            m.restart_events()
            self.on = True
        except ValueError:
            self.on = False
        return self

    def _hit(self, code, off):
        if code.co_filename.startswith(boot.REPO):
            self.seen.add(code.co_filename[len(boot.REPO) + 1:] + ':' + code.co_qualname)
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        if self.on:
            sys.monitoring.set_events(self.tool, 0)
            sys.monitoring.free_tool_id(self.tool)


# ---------------------------------------------------------------- one task

TOL = 1e-6
UNDECIDED = 'truth value of a comparison'


def replay_values(h, cfg, values, seed, tol=TOL):
    """Run the harness on the stock float64 code. -> (reproduced?, message, used values)"""
    env = ConcEnv(dict(values), seed=seed, tol=tol)
    import warnings
    import numpy as np
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            h.fn(env, **cfg)
    except AssumptionFailed as e:
        return False, 'assumption not met by the model: %s' % e, env.used
    except Violation as e:
        return True, str(e), env.used
    except (Unsupported, MemoryError):
        raise
    except Exception as e:
        return True, 'raises %s: %s' % (type(e).__name__, str(e)[:300]), env.used
    if env.failures:
        return True, env.failures[0], env.used
    return False, 'not reproduced', env.used


def missing_name(e):
    """raised by the harness itself, for a module or class level name that is not there (renamed or removed helper)"""
    last = traceback.extract_tb(e.__traceback__)[-1].filename
    if not last.startswith(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))):
        return False
    if isinstance(e, ImportError):
        return True
    return isinstance(e, AttributeError) and (isinstance(e.obj, type) or type(e.obj).__name__ == 'module')


def outside(message):
    """a replay that is not finite has left the domain of the roots and quotients in the code, which only their encoding knows"""
    return re.search(r'\bnan\b|\binf\b|not finite|Singular matrix|ZeroDivisionError', message) is not None


def sampled(h, cfg, seed, n=3):
    """replays at n points which meet the harness's assumptions, stopping at the first that holds"""
    runs = []
    for sd in range(seed, seed + 24):
        r = replay_values(h, cfg, {}, sd)
        if r[1].startswith('assumption not met') or r[0] and outside(r[1]):
            continue
        runs.append(r)
        if len(runs) == n or not r[0]:
            break
    return runs


def findings():
    p = os.path.join(boot.VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def probe(t, h, cfg, seed):
    """What cannot be executed symbolically is not decided; it is replayed at points of the harness's domain, and a failure at all
    of them is reported. Nothing is claimed if they hold. Configurations with a listed finding are left out"""
    if any(f['kind'] == 'finding' and f['harness'] == h.name and all(cfg.get(k) == v for k, v in f['config'].items()) for f in findings()):
        return
    try:
        runs = sampled(h, cfg, seed)
    except Exception:
        return
    if not runs or not all(r[0] for r in runs):
        return
    t.stats.add('probes')
    t.violations.append(dict(label='replay (not encodable)', message=runs[0][1], values={k: str(v) for k, v in runs[0][2].items()}))


def run_task(h, cfg, seed, only_probe=False):
    t = Task()
    t0 = time.time()
    if only_probe:
        if not h.custom:
            probe(t, h, cfg, seed)
        t.wall = time.time() - t0
        return t
    if h.custom:
        with Coverage() as cov:
            h.fn(t, **cfg)
        t.functions = sorted(cov.seen)
        t.wall = time.time() - t0
        return t
    env = SymEnv(seed)
    cov = Coverage()
    try:
        with cov:
            try:
                h.fn(env, **cfg)
            except Unsupported as e:
                if UNDECIDED not in str(e):
                    raise
                # code that branches on coefficients: follow each outcome that is possible
                env = SymEnv(seed)
                try:
                    env.explore(lambda: h.fn(env, **cfg), limit=12)
                except Unsupported as e:
                    t.inconclusive.append('symbolic execution of a branching program: %s' % str(e)[:200])
                    probe(t, h, cfg, seed)
    except Violation as e:
        _report(t, h, cfg, {}, seed, 'static: %s' % e)
    except Exception as e:
        tb = traceback.format_exc()
        if missing_name(e):
            t.inconclusive.append('the harness refers to a name that is gone: %s' % str(e)[:200])
            t.wall = time.time() - t0
            return t
        # the stock code has to raise the same exception on every sampled input
        try:
            runs = sampled(h, cfg, seed)
        except Exception:
            runs = []
        rep = runs and all(r[0] and r[1].startswith('raises %s:' % type(e).__name__) for r in runs)
        if rep:
            msg, used = runs[-1][1:]
            t.violations.append(dict(label='execution', message=msg, values={k: str(v) for k, v in used.items()}))
        else:
            t.inconclusive.append('symbolic execution: %s: %s' % (type(e).__name__, str(e)[:200]))
            t.notes.append(tb[-1500:])
            probe(t, h, cfg, seed)
    t.stats.add('exec_s', time.time() - t0)
    t.functions = sorted(cov.seen)
    t.stats.add('paths', getattr(env, 'paths', 1))
    lemmas = getattr(env, 'lemmas', ())
    t.stats.add('static_facts', env.facts - sum(1 for o in env.obls if o[1] == 'eq'))
    for label, kind, pairs, n, *lem in env.obls:
        t.stats.add('obligations')
        try:
            r, vals, _ = solve_obligation(env, label, kind, pairs, n, t.stats, lemmas=tuple(lemmas) + (lem[0] if lem else ()))
        except Exception as e:
            if type(e).__name__ not in ('Z3Exception', 'MemoryError', 'RecursionError'):
                raise
            r, vals = 'unknown', None
        if any(isinstance(a, Sym) and a.t or isinstance(b, Sym) and b.t for _, a, b in pairs):
            t.stats.add('nontrivial')
        if r == 'unsat':
            t.stats.add('discharged')
            if len(t.samples) < 1 and pairs:
                t.samples.append('%s(%s) %s: %d components unsat, e.g. [%s] %r == %r' % (
                    h.name, cfg, label, len(pairs), pairs[-1][0], pairs[-1][1], pairs[-1][2]))
        elif r == 'sat':
            if not _report(t, h, cfg, vals, seed, label, kind in ('exists', 'defined')) and not refuted(t, h, cfg, seed, label, kind, pairs, n):
                t.inconclusive.append('%s: model did not reproduce' % label)
            if len(t.violations) >= 3:
                break
        elif not refuted(t, h, cfg, seed, label, kind, pairs, n):
            t.inconclusive.append('%s: solver unknown' % label)
    if not t.violations and env.obls:
        v = check_premises(env, t.stats)
        t.stats.add('reachability_' + v)
        if v == 'unsat':
            t.inconclusive.append('vacuous: assumptions unsatisfiable')
    t.wall = time.time() - t0
    return t


def refuted(t, h, cfg, seed, label, kind, pairs, assumed):
    if t.violations or t.searches > 4:
        return False
    t.searches += 1
    t.stats.add('searches')
    found = counterexample(kind, pairs, assumed, seed)
    return found is not None and _report(t, h, cfg, found[0], seed, label, tol=found[1])


def _report(t, h, cfg, vals, seed, label, every=False, tol=TOL):
    """Replay on the stock code. every: the claim is about all inputs, so all sampled inputs have to show it"""
    runs = []
    for sd in (seed, seed + 1, seed + 2):
        rep, msg, used = replay_values(h, cfg, vals, sd, tol)
        runs.append((rep, msg, used))
        if rep != every:
            break
    rep, msg, used = runs[-1]
    if rep and (not every or len({m for _, m, _ in runs}) == 1):
        t.violations.append(dict(label=label, message=msg, tol=tol, values={k: str(v) for k, v in used.items()}))
        return True
    t.notes.append('%s: %s' % (label, msg))
    return False


# ---------------------------------------------------------------- pool

def _worker(conn, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    while True:
        msg = conn.recv()
        if msg is None:
            return
        prop, hi, cfg, only_probe = msg
        try:
            t = run_task(REGISTRY[prop][hi], cfg, seed, only_probe)
            out = dict(stats=dict(t.stats), violations=t.violations, inconclusive=t.inconclusive, notes=t.notes,
                       samples=t.samples, functions=t.functions, wall=t.wall)
        except Exception as e:
            out = dict(stats={}, violations=[], inconclusive=['engine: %s' % e], notes=[traceback.format_exc()[-2000:]],
                       samples=[], functions=[], wall=0)
        conn.send(out)


def run_pool(tasks, seed, nproc, deadline, on_result):
    """tasks: list of (prop, harness index, cfg, timeout)"""
    ctx = mp.get_context('fork')
    todo = list(reversed(tasks))
    slots = []

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, seed), daemon=True)
        p.start()
        b.close()
        return dict(p=p, c=a, task=None, t=0)

    for _ in range(min(nproc, max(1, len(todo)))):
        slots.append(spawn())
    skipped = 0
    while True:
        busy = False
        for i, s in enumerate(slots):
            if s['task'] is None and todo:
                if time.time() > deadline:
                    skipped += len(todo)
                    todo.clear()
                else:
                    s['task'] = todo.pop()
                    s['t'] = time.time()
                    s['c'].send(s['task'][:3] + (s['task'][4:] == ('probe',),))
            if s['task'] is not None:
                busy = True
                if s['c'].poll(0):
                    try:
                        out = s['c'].recv()
                    except EOFError:
                        out = None
                    if out is None:
                        on_result(s['task'], dict(stats={}, violations=[], inconclusive=['worker died'], notes=[], samples=[], functions=[], wall=0))
                        slots[i] = spawn()
                    else:
                        on_result(s['task'], out)
                        s['task'] = None
                elif time.time() - s['t'] > s['task'][3] or not s['p'].is_alive() and not s['c'].poll(0):
                    s['p'].kill()
                    s['p'].join()
                    late = s['task'][4:] == ('probe',)
                    if late:
                        on_result(s['task'], dict(stats={}, violations=[], inconclusive=[], notes=[], samples=[], functions=[], wall=s['task'][3]))
                    else:
                        on_result(s['task'], dict(stats={}, violations=[], inconclusive=['time limit of %ds' % s['task'][3]], notes=[], samples=[], functions=[], wall=s['task'][3]))
                        if time.time() < deadline:
                            todo.append(s['task'][:3] + (40, 'probe'))
                    slots[i] = spawn()
        if not busy and not todo:
            break
        mp.connection.wait([s['c'] for s in slots if s['task'] is not None], timeout=0.2)
    for s in slots:
        try:
            s['c'].send(None)
        except Exception:
            pass
        s['p'].join(0.5)
        if s['p'].is_alive():
            s['p'].kill()
    return skipped
