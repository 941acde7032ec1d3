"""Monitor runtime: cases, oracles, event log, evidence, replay.

A check is a module of vmon.checks with
  PROPERTY, RULE, ASSUMPTIONS, ANCHORS and cases(tier) -> [(workload, kwargs)].
A workload is a function f(ctx, **kwargs) which drives the real code of /repo
and reports what it observed to `ctx`. Every case has its own random stream,
derived from (VERIF_SEED, property, workload, index), so that one case can be
replayed alone.

Exit status: 0 held, 1 violated (with a VIOLATION line), 2 the check itself
failed (harness error or nothing observed).
"""
import os
import sys
import json
import time
import math
import shutil
import signal
import hashlib
import tempfile
import traceback
import collections
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMON_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'hookeai')


class CaseTimeout(BaseException):
    pass


class CaseAbort(BaseException):
    """Stop a case after a violation that makes the rest meaningless."""


def setup_path():
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
    for var in ('OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ[var] = '1'
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import warnings
    warnings.filterwarnings('ignore')
    import torch
    torch.set_num_threads(1)


def _tonp(x):
    import numpy as np
    try:
        import torch
        if isinstance(x, torch.Tensor):
            return x.detach().cpu().double().numpy() \
                if x.dtype != torch.bool else x.detach().cpu().numpy()
    except ImportError:
        pass
    return np.asarray(x, dtype=float)


def short(x, n=300):
    import numpy as np
    try:
        if not isinstance(x, (str, bool, int, float, type(None))):
            x = np.array2string(_tonp(x), precision=8, threshold=40,
                                max_line_width=200)
    except Exception:
        pass
    s = str(x)
    return s if len(s) <= n else s[:n] + '...'


class Ctx:
    """What one case observes."""

    def __init__(self, prop, workload, index, seed, kwargs):
        self.prop, self.workload, self.index = prop, workload, index
        self.seed, self.kwargs = seed, kwargs
        self.events = collections.Counter()
        self.states = set()
        self.violations = []
        self.sample = {}
        self.maxerr = {}
        self._tmp = []
        h = hashlib.sha256(
            f'{seed}|{prop}|{workload}|{index}'.encode()).digest()
        self.case_seed = int.from_bytes(h[:4], 'little')
        import numpy as np
        self.rng = np.random.default_rng(self.case_seed)

    # ---- inputs
    def reset_globals(self):
        import random
        import numpy as np
        import torch
        torch.set_default_dtype(torch.float32)
        random.seed(self.case_seed)
        np.random.seed(self.case_seed)
        torch.manual_seed(self.case_seed)

    def size(self, lo, hi, big, p=.05):
        """Random size lo <= n < hi, now and then (p) hi <= n < big."""
        if self.rng.random() < p:
            self.event('large-size')
            return int(self.rng.integers(hi, big))
        return int(self.rng.integers(lo, hi))

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix='vmon_')
        self._tmp.append(d)
        return d

    def cleanup(self):
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)

    # ---- observations
    def event(self, kind, n=1):
        self.events[kind] += n

    def state(self, *sig):
        """Record a distinct non-trivial state/case signature."""
        self.states.add('|'.join(
            f'{s:.6g}' if isinstance(s, float) else str(s) for s in sig))

    def note(self, **kw):
        for k, v in kw.items():
            if k not in self.sample and len(self.sample) < 12:
                self.sample[k] = short(v)

    # ---- oracles
    def fail(self, rule, msg, key=''):
        if len(self.violations) < 20:
            self.violations.append(dict(
                rule=rule, key=str(key), msg=msg, workload=self.workload,
                index=self.index, kwargs={k: short(v)
                                          for k, v in self.kwargs.items()}))

    def ok(self, rule, cond, msg='', key=''):
        self.events['check:' + rule] += 1
        if not bool(cond):
            self.fail(rule, msg, key)
            return False
        return True

    def abort_unless(self, rule, cond, msg='', key=''):
        if not self.ok(rule, cond, msg, key):
            raise CaseAbort()

    def close(self, rule, got, want, rtol=1e-9, atol=0.0, scale=None, msg='',
              key=''):
        """|got-want| <= atol + rtol*scale, with scale = max|want| by
        default; shapes must agree; NaN/inf only where expected."""
        import numpy as np
        self.events['check:' + rule] += 1
        g, w = _tonp(got), _tonp(want)
        if g.shape != w.shape:
            self.fail(rule, f'{msg}: shape {g.shape} instead of {w.shape}',
                      key)
            return False
        if g.size == 0:
            return True
        if not np.array_equal(np.isfinite(g), np.isfinite(w)):
            self.fail(rule, f'{msg}: non-finite mismatch got {short(g)} want '
                      f'{short(w)}', key)
            return False
        m = np.isfinite(w)
        if not m.all():
            same = np.array_equal(np.isnan(g[~m]), np.isnan(w[~m]))
            if not same:
                self.fail(rule, f'{msg}: nan/inf mismatch', key)
                return False
        if not m.any():
            return True
        sc = scale if scale is not None else float(np.max(np.abs(w[m])))
        err = float(np.max(np.abs(g[m] - w[m])))
        tol = atol + rtol * sc
        r = err/tol if tol > 0 else (0.0 if err == 0 else math.inf)
        if r > self.maxerr.get(rule, 0.0):
            self.maxerr[rule] = r
        if err > tol:
            self.fail(rule, f'{msg}: error {err:.3e} > tol {tol:.3e}; got '
                      f'{short(g)} want {short(w)}', key)
            return False
        return True

    def le(self, rule, a, b, msg='', key=''):
        import numpy as np
        self.events['check:' + rule] += 1
        a, b = _tonp(a), _tonp(b)
        if not np.all(a <= b):
            self.fail(rule, f'{msg}: {short(a)} > {short(b)}', key)
            return False
        return True

    def same(self, rule, got, want, msg='', key=''):
        """Exact equality (bitwise for arrays, NaN equal NaN)."""
        import numpy as np
        self.events['check:' + rule] += 1
        try:
            import torch
            if isinstance(got, torch.Tensor):
                got = got.detach().cpu().numpy()
            if isinstance(want, torch.Tensor):
                want = want.detach().cpu().numpy()
        except ImportError:
            pass
        if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
            g, w = np.asarray(got), np.asarray(want)
            eq = g.shape == w.shape and (
                np.array_equal(g, w, equal_nan=True)
                if g.dtype.kind in 'fc' and w.dtype.kind in 'fc'
                else np.array_equal(g, w))
        else:
            eq = got == want
        if not eq:
            self.fail(rule, f'{msg}: got {short(got)} want {short(want)}',
                      key)
            return False
        return True

    def raises(self, rule, fn, exc=Exception, msg='', key=''):
        self.events['check:' + rule] += 1
        try:
            fn()
        except exc:
            return True
        except CaseTimeout:
            raise
        except Exception as e:
            self.fail(rule, f'{msg}: raised {type(e).__name__}: {e}', key)
            return False
        self.fail(rule, f'{msg}: accepted', key)
        return False


def frames_in_repo(tb):
    out = []
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(SRC):
            out.append(f)
    return out


# Results the oracles cannot even read (wrong type, shape, missing entry or
# file). On the unchanged code no workload ends this way.
MALFORMED = (TypeError, ValueError, LookupError, AttributeError, RuntimeError,
             ArithmeticError, AssertionError, FileNotFoundError, EOFError)


def run_case(mod, name, index, kwargs, seed, timeout):
    ctx = Ctx(mod.PROPERTY, name, index, seed, kwargs)
    ctx.reset_globals()
    error = None
    t0 = time.time()

    def onalarm(*_):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(timeout)
    try:
        getattr(mod, name)(ctx, **kwargs)
    except CaseAbort:
        pass
    except (Exception, CaseTimeout, SystemExit) as e:
        fr = frames_in_repo(e.__traceback__)
        text = f'{type(e).__name__}: {e}'
        if fr:
            where = f'{os.path.relpath(fr[-1].filename, SRC)}:{fr[-1].name}'
            rule = 'hang' if isinstance(e, CaseTimeout) else 'exception'
            ctx.fail(rule, f'{text} raised in {where} on an admissible '
                     'input\n' + ''.join(traceback.format_tb(
                         e.__traceback__)[-6:]),
                     key=f'{where}:{type(e).__name__}')
        elif isinstance(e, MALFORMED):
            # The oracle is not defined on what the code returned or wrote
            ctx.fail('malformed', f'{text} while judging what the code '
                     'answered\n' + ''.join(traceback.format_tb(
                         e.__traceback__)[-4:]), key=type(e).__name__)
        else:
            error = text + '\n' + traceback.format_exc()
    finally:
        signal.alarm(0)
        ctx.cleanup()
    return dict(events=dict(ctx.events), states=sorted(ctx.states),
                violations=ctx.violations, sample=ctx.sample, error=error,
                maxerr=ctx.maxerr, name=name, index=index,
                dt=time.time() - t0)


_STATE = {}


def _worker(task):
    mod, seed, timeout = _STATE['mod'], _STATE['seed'], _STATE['timeout']
    name, index, kwargs = task
    return run_case(mod, name, index, kwargs, seed, timeout)


def _init_worker():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('VMON_DEBUG'):
        os.dup2(dn, 2)


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.isfile(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data['findings'] if e['property'] == prop]


def match_known(known, v):
    for e in known:
        if e['rule'] == v['rule'] and e.get('key', '') == v['key'] \
                and e.get('workload', v['workload']) == v['workload']:
            return e
    return None


def main(mod, tier, seed, replay=None, only=None, jobs=None):
    t0 = time.time()
    prop = mod.PROPERTY
    timeout = 150 if tier == 'quick' else 600
    tasks = []
    counters = collections.Counter()
    for name, kwargs in mod.cases(tier):
        tasks.append((name, counters[name], kwargs))
        counters[name] += 1
    if replay:
        with open(replay) as f:
            r = json.load(f)
        seed = r['seed']
        tasks = [t for t in tasks
                 if t[0] == r['workload'] and t[1] == r['index']]
        if not tasks:
            print('replay: no such case', r['workload'], r['index'])
            return 2
    if only:
        tasks = [t for t in tasks if t[0] in only]
    _STATE.update(mod=mod, seed=seed, timeout=timeout)
    njobs = jobs or int(os.environ.get('VMON_JOBS', '0')) or min(
        8, os.cpu_count() or 1)
    results = []
    if njobs == 1 or len(tasks) == 1:
        for t in tasks:
            results.append(_worker(t))
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(njobs, initializer=_init_worker,
                      maxtasksperchild=200) as pool:
            for r in pool.imap_unordered(_worker, tasks, chunksize=1):
                results.append(r)
                # A case that does not end is the answer: the others may
                # not end either
                if any(v['rule'] == 'hang' for v in r['violations']):
                    pool.terminate()
                    break
    results.sort(key=lambda r: (r['name'], r['index']))
    events, states = collections.Counter(), set()
    per_wl = collections.Counter()
    violations, errors, samples, maxerr = [], [], [], {}
    for r in results:
        events.update(r['events'])
        states.update(r['name'] + ':' + s for s in r['states'])
        violations += r['violations']
        per_wl[r['name']] += 1
        if r['error']:
            errors.append((r['name'], r['index'], r['error']))
        for k, v in r['maxerr'].items():
            maxerr[k] = max(maxerr.get(k, 0.0), v)
        if r['sample'] and per_wl[r['name']] <= 1 and len(samples) < 12:
            samples.append(dict(workload=r['name'], index=r['index'],
                                **r['sample']))
    if not samples:
        samples = [dict(workload=t[0], index=t[1], kwargs={
            k: short(v) for k, v in t[2].items()}) for t in tasks[:3]]
    known = load_known(prop)
    new, seen = [], {}
    for v in violations:
        e = match_known(known, v)
        if e is None:
            new.append(v)
        else:
            seen[e['id']] = e
    nchecks = sum(n for k, n in events.items() if k.startswith('check:'))
    cov = dict(
        evaluations=len(results),
        distinct_nontrivial=len(states),
        rule=mod.RULE,
        samples=samples,
        oracle_evaluations=nchecks,
        workloads=dict(per_wl),
        events={k: n for k, n in sorted(events.items())},
        worst_error_over_tolerance={k: round(v, 6)
                                    for k, v in sorted(maxerr.items())},
        case_seconds=round(sum(r['dt'] for r in results), 2),
        longest_case_seconds=round(max(
            (r['dt'] for r in results), default=0.), 2))
    missing = [] if (replay or only) else [
        k for k in getattr(mod, 'REQUIRED_EVENTS', ())
        if events.get(k, 0) == 0]
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=cov, assumptions=list(mod.ASSUMPTIONS),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    if not (replay or only):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', f'{prop}.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + '.tmp', path)
    for e in seen.values():
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    for name, index, err in errors[:5]:
        print(f'HARNESS-ERROR {prop} {name}#{index}: {err}')
    if new:
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for v in new:
            k = (v['workload'], v['rule'], v['key'])
            if k in done or len(done) >= 12:
                continue
            done.add(k)
            rp = os.path.join(
                rdir, f"{prop}-{v['workload']}-{v['index']}-{len(done)}.json")
            with open(rp, 'w') as f:
                json.dump(dict(seed=seed, tier=tier, property=prop, **v), f,
                          indent=1, default=str)
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  rule={v['rule']} key={v['key']} workload="
                  f"{v['workload']}#{v['index']} {v['msg'][:1500]}")
        print(f'{prop} {tier}: {len(new)} violations in {len(results)} cases')
        return 1
    if errors:
        print(f'{prop}: {len(errors)} cases failed in the harness itself')
        return 2
    if missing:
        print(f'{prop}: nothing observed for {missing}')
        return 2
    if nchecks == 0 or (not states and not replay):
        print(f'{prop}: nothing observed')
        return 2
    print(f'{prop} {tier} seed={seed}: held; {len(results)} cases, {nchecks} '
          f'oracle evaluations, {len(states)} distinct non-trivial, '
          f'{time.time() - t0:.1f} s')
    return 0
