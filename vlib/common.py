"""Shared machinery: case scheduling, monitors, verdicts, evidence, replay files.

A check module defines
    PROPERTY, RULE, ASSUMPTIONS
    REQUIRED           monitor event names that must be observed at least once, else inconclusive
    def cases(tier, rng)          -> list of JSON-able dicts (each self-contained)
    def run_case(case, mon)       -> executes the real code and reports to the monitor
"""
import hashlib, json, os, sys, time, traceback, tempfile, shutil, signal, warnings
import multiprocessing as mp
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NWORKERS = max(1, min(8, len(os.sched_getaffinity(0))))

def load_target():
    """Import onepower from the working tree of the repository."""
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    warnings.simplefilter('ignore')
    import onepower
    here = os.path.realpath(os.path.dirname(onepower.__file__))
    if not here.startswith(os.path.realpath(src)):
        raise RuntimeError(f'onepower imported from {here}, not from {src}')
    return onepower


class Violation(Exception):
    pass


class Monitor:
    """Collects observed events and violations of one case."""

    def __init__(self):
        self.events = {}
        self.violations = []
        self.trivial = False
        self.sig = None
        self.note = None

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def violate(self, what, **info):
        self.violations.append({'what': what, **{k: clean(v) for k, v in info.items()}})

    def known(self, what):
        """A defect listed in known_findings.txt was seen at its call site."""
        self.event('known finding: ' + what)

    def check(self, name, ok, what, **info):
        self.event(name)
        if not ok:
            self.violate(f'{name}: {what}', **info)
        return ok

    def close(self, name, got, want, rtol=1e-6, scale=None, atol=0.0, **info):
        """got equals want within rtol (elementwise) plus 1e-11 of the scale of its last-axis row."""
        self.event(name)
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            self.violate(f'{name}: not numeric', got=repr(got)[:200], **info)
            return False
        if g.shape != w.shape:
            self.violate(f'{name}: shape', got=list(g.shape), want=list(w.shape), **info)
            return False
        if g.size == 0:
            return True
        bad = mismatch(g, w, rtol, scale, atol)
        if bad is not None:
            self.violate(f'{name}: value', index=bad[0], got=bad[1], want=bad[2], n_bad=bad[3], n=int(g.size), **info)
            return False
        return True


def mismatch(g, w, rtol=1e-6, scale=None, atol=0.0):
    fin = np.isfinite(w)
    if scale is None:
        ww = np.where(fin, np.abs(w), 0.0)
        sc = ww.max(axis=-1, keepdims=True) if w.ndim else ww
    else:
        sc = np.nan_to_num(scale, nan=0., posinf=0., neginf=0.)
    tol = rtol * np.maximum(np.abs(np.where(fin, w, 0.0)), 0.0) + 1e-11 * sc + atol
    with np.errstate(all='ignore'):
        ok = np.where(fin, np.abs(g - w) <= tol, (np.isnan(g) & np.isnan(w)) | (g == w))
    if np.all(ok):
        return None
    badidx = np.argwhere(~np.atleast_1d(ok))
    with np.errstate(all='ignore'):
        rel = np.abs(g - w) / (tol + 1e-300)
    rel = np.atleast_1d(np.where(np.isfinite(rel), rel, np.inf))
    rel = np.where(np.atleast_1d(ok), -1.0, rel)
    i = np.unravel_index(int(np.argmax(rel)), rel.shape)
    return [int(x) for x in i], float(np.atleast_1d(g)[i]), float(np.atleast_1d(w)[i]), int(len(badidx))


def clean(v):
    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 40 else f'array{v.shape}'
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, dict):
        return {str(k): clean(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [clean(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)[:300]


class CaseTimeout(Exception):
    pass


def _alarm(_s, _f):
    raise CaseTimeout('case watchdog')


def _work(args):
    modname, case, limit = args
    import importlib
    mod = importlib.import_module(modname)
    mon = Monitor()
    t = time.time()
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            mod.run_case(case, mon)
    except CaseTimeout:
        err = 'TIMEOUT'
    except Exception:
        err = traceback.format_exc()
    finally:
        signal.alarm(0)
    return dict(case=case, events=mon.events, violations=mon.violations, trivial=mon.trivial,
                sig=mon.sig, note=mon.note, err=err, t=time.time() - t)


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


def run(modname, tier, seed, replay=None):
    t0 = time.time()
    import importlib
    load_target()
    mod = importlib.import_module(modname)
    pid = mod.PROPERTY
    if replay:
        case_list = [json.load(open(replay))['case']]
    else:
        case_list = mod.cases(tier, np.random.default_rng([seed, int(pid[1:])]))
        for i, c in enumerate(case_list):
            c.setdefault('i', i)
    limit = getattr(mod, 'CASE_LIMIT', 240)
    budget = 780 if tier == 'quick' else getattr(mod, 'THOROUGH_BUDGET', 3300)
    args = [(modname, c, limit) for c in case_list]
    results, stopped = [], False
    scratch = tempfile.mkdtemp(prefix='verif_')
    os.environ['VERIF_SCRATCH'] = scratch
    os.environ['MPLCONFIGDIR'] = scratch
    pool = None
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare(scratch)
        if len(args) == 1 or NWORKERS == 1:
            for a in args:
                results.append(_work(a))
        else:
            ctx = mp.get_context('fork')
            pool = ctx.Pool(min(NWORKERS, len(args)), maxtasksperchild=200)
            it = pool.imap_unordered(_work, args, chunksize=1)
            for _ in range(len(args)):
                left = budget - (time.time() - t0)
                try:
                    results.append(it.next(timeout=max(1.0, left)))
                except mp.TimeoutError:
                    stopped = True
                    break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
        shutil.rmtree(scratch, ignore_errors=True)

    results.sort(key=lambda r: r['case'].get('i', 0))
    events, bad, errs, sigs = {}, [], [], set()
    nontrivial = 0
    for r in results:
        for k, n in r['events'].items():
            events[k] = events.get(k, 0) + n
        if r['violations']:
            bad.append(r)
        elif r['err'] == 'TIMEOUT':
            errs.append(r)
        elif r['err']:
            # an exception escaping from the code under test on a valid case
            if 'HarnessError' in r['err']:
                errs.append(r)
            else:
                r['violations'].append({'what': 'exception on a supported case', 'trace': r['err'][-1500:]})
                bad.append(r)
        s = r['sig'] or case_key(r['case'])
        if not r['trivial'] and r['events'] and s not in sigs:
            sigs.add(s)
            nontrivial += 1
    evid_dir = os.path.join(ROOT, 'evidence')
    os.makedirs(evid_dir, exist_ok=True)
    samples = []
    for r in results[:: max(1, len(results) // 4)][:5]:
        samples.append({'case': clean(r['case']), 'observed': r['events'], 'note': clean(r['note']), 'seconds': round(r['t'], 2)})
    ev = dict(property=pid, tier=tier, seed=int(seed), level='exploration',
              coverage=dict(evaluations=len(results), distinct_nontrivial=nontrivial, rule=mod.RULE, samples=samples,
                            monitor_events=events, oracle_evaluations=int(sum(events.values())),
                            cases_planned=len(case_list), cases_unfinished=len(case_list) - len(results) + len(errs)),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=len(bad))
    if not replay:
        with open(os.path.join(evid_dir, f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if not bad:
        for line in open(os.path.join(ROOT, 'known_findings.txt')):
            if line.startswith(f'KNOWN-FINDING: property={pid} ') and any(k.startswith('known finding: ') and k[15:] in line for k in events):
                print(line.strip())
    for r in errs[:5]:
        print('INCONCLUSIVE case', json.dumps(clean(r['case']))[:300], (r['err'] or '')[-800:], file=sys.stderr)
    if bad:
        for n, r in enumerate(bad[:5]):
            path = os.path.join(evid_dir, f'{pid}.replay{n}.json')
            if not replay:
                with open(path, 'w') as f:
                    json.dump(clean({'property': pid, 'case': r['case'], 'violations': r['violations'][:20]}), f, indent=1)
            else:
                path = replay
            for v in r['violations'][:3]:
                print('  ', json.dumps(clean(v))[:1200])
            print(f'VIOLATION property={pid} replay={path}')
        print(f'{pid} {tier}: {len(bad)} of {len(results)} cases violate ({time.time() - t0:.1f}s)')
        return 1
    missing = [] if replay else [k for k in mod.REQUIRED if not events.get(k)]
    if missing:
        print(f'INCONCLUSIVE {pid}: monitors never reached: {missing}', file=sys.stderr)
        return 3
    if errs or (not results):
        print(f'INCONCLUSIVE {pid}: {len(errs)} cases without a verdict', file=sys.stderr)
        if not results or len(errs) > 0.02 * len(results):
            return 3
    if stopped:
        print(f'{pid}: time budget reached after {len(results)} of {len(case_list)} cases', file=sys.stderr)
        if tier == 'quick' and len(results) < 0.5 * len(case_list):
            return 3
    print(f'{pid} {tier}: held on {len(results)} cases ({nontrivial} distinct non-trivial), '
          f'{sum(events.values())} oracle evaluations, {time.time() - t0:.1f}s')
    return 0
