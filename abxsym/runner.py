"""Explores the paths of the harnesses of one property in parallel, replays
counterexamples and a sample of path witnesses on the real code, writes the
evidence file and decides the exit status."""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ABX_REPO', '/repo')
PY = sys.executable
NPROC = int(os.environ.get('ABX_NPROC', '0')) or min(8, os.cpu_count() or 1)


class PathTimeout(BaseException):
    pass


class Harness(object):
    def __init__(self, name, fn, quick, thorough=None, path_timeout=60,
                 samples=3, hang_is_violation=True, real_timeout=60,
                 needs_dtw=False, doc='', query_timeout_ms=20000):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.path_timeout = path_timeout
        self.samples = samples
        self.hang_is_violation = hang_is_violation
        self.real_timeout = real_timeout
        self.needs_dtw = needs_dtw
        self.query_timeout_ms = query_timeout_ms
        self.doc = doc or (fn.__doc__ or '').strip()


def load_check(pid):
    sys.path.insert(0, HERE) if HERE not in sys.path else None
    return importlib.import_module('checks.' + pid)


# ---- worker side -------------------------------------------------------------

_W = {}


def _alarm(sig, frame):
    from . import core
    if core.ENGINE is not None:
        core.ENGINE.aborted = 'path timeout'
    raise PathTimeout()


def _trace_functions(root):
    """names of the functions of the code under test that were executed"""
    mon = sys.monitoring
    seen = _W['functions'] = set()
    tool = 3
    try:
        mon.use_tool_id(tool, 'abxsym')
    except ValueError:
        return
    root = os.path.join(root, 'ABXpy')

    def start(code, off):
        f = code.co_filename
        if f.startswith(root):
            if not code.co_name.startswith('<'):
                seen.add(os.path.relpath(f, REPO) + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def _init(pid, scratch):
    from . import core, ctx
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    _W['check'] = load_check(pid)
    _W['scratch'] = tempfile.mkdtemp(dir=scratch, prefix='w')
    _W['job'] = None
    _W['core'], _W['ctx'] = core, ctx
    _trace_functions(REPO)
    signal.signal(signal.SIGALRM, _alarm)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    sys.stderr = devnull
    import resource
    lim = int(float(os.environ.get('ABX_WORKER_GB', '6')) * (1 << 30))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass


def _explore(job, hname, cfg, prefixes, slice_s, max_samples, stop_after):
    core, ctxm = _W['core'], _W['ctx']
    chk = _W['check']
    h = [x for x in chk.HARNESSES if x.name == hname][0]
    if _W['job'] != job:
        _W['job'] = job
        _W['eng'] = core.Engine(h.query_timeout_ms)
        _W['shared'] = ctxm.make_shared()
    eng, shared = _W['eng'], _W['shared']
    core.ENGINE = eng
    eng.queries = eng.unknown = eng.branches = 0
    eng.solver_time = 0.
    eng.degraded = {}
    eng.work = [list(p) for p in prefixes]
    res = {'job': job, 'paths': 0, 'cut': 0, 'proved': 0, 'trivial': 0,
           'undecided': 0, 'violations': [], 'inconclusive': [],
           'samples': [], 'leftover': [], 'decisions': 0, 'max_depth': 0,
           'reached': 0}
    t0 = time.time()
    end = t0 + slice_s
    while eng.work:
        if time.time() > end or len(res['violations']) >= stop_after or \
                len(res['inconclusive']) >= 12:
            break
        prefix = eng.work.pop()
        nwork = len(eng.work)
        eng.start_path(prefix)
        eng.deadline = end
        d = tempfile.mkdtemp(dir=_W['scratch'])
        c = ctxm.SymCtx(eng, shared, d)
        status, info = 'done', None
        signal.setitimer(signal.ITIMER_REAL, h.path_timeout)
        try:
            h.fn(c, **cfg)
            if eng.aborted:
                raise core.PathAbort(eng.aborted)
        except core.PathAbort as e:
            status, info = 'abort', eng.aborted or str(e)
        except ctxm.CheckFailed:
            status = 'done'
        except PathTimeout:
            status, info = 'hang', 'no end after %d s' % h.path_timeout
        except core.Unsupported as e:
            status, info = 'unsupported', 'Unsupported: ' + str(e)
        except MemoryError:
            status, info = 'unsupported', 'MemoryError'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(REPO)]
            w = where[-1] if where else tb[-1]
            if isinstance(e, core.z3.Z3Exception):
                status = 'unsupported'
            else:
                status = 'raise'
            info = '%s: %s (%s:%s)' % (type(e).__name__, str(e)[:200],
                                       os.path.basename(w.filename), w.lineno)
            if os.environ.get('ABX_DEBUG'):
                info += '\n' + ''.join(traceback.format_exception(e))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if eng.aborted == 'path timeout' and status not in ('hang',):
            status, info = 'hang', 'no end after %d s' % h.path_timeout
        if eng.aborted and status in ('raise', 'done', 'unsupported'):
            # the abort was swallowed below (pandas clears errors raised
            # while comparing keys)
            status, info = 'abort', eng.aborted
        try:
            if status == 'abort' and info == 'deadline':
                # come back to it in a later slice
                eng.aborted = None
                res['leftover'].append(list(eng.decisions))
            elif status == 'abort':
                res['cut'] += 1
            else:
                eng.aborted = None
                res['decisions'] += len(eng.decisions)
                res['max_depth'] = max(res['max_depth'], len(eng.decisions))
                res['paths'] += 1
                res['proved'] += c.proved
                res['trivial'] += c.trivial
                res['undecided'] += c.undecided
                for msg, case in c.violations:
                    res['violations'].append({'msg': msg, 'inputs': case})
                if status == 'done':
                    if c.proved or c.trivial:
                        res['reached'] += 1
                    n = res['paths']
                    if not c.violations and len(res['samples']) < \
                            max_samples and (n & (n - 1)) == 0:
                        case = c.case()
                        if case is not None:
                            m = c.case_model
                            ev = lambda e: m.eval(e, model_completion=True)
                            res['samples'].append({
                                'inputs': case,
                                'obs': {k: ctxm.flatten_obs(v, ev)
                                        for k, v in c.observed.items()}})
                else:
                    eng.deadline = None
                    case = c.case()
                    res['inconclusive'].append(
                        {'kind': status, 'msg': info, 'inputs': case})
        except core.PathAbort:
            res['cut'] += 1
        except core.z3.Z3Exception as e:
            res['inconclusive'].append({'kind': 'unsupported', 'msg':
                                        'z3: %s' % e, 'inputs': None})
        shutil.rmtree(d, ignore_errors=True)
    res['leftover'] += eng.work
    eng.work = []
    res.update(queries=eng.queries, unknown=eng.unknown,
               solver_time=eng.solver_time, degraded=eng.degraded,
               functions=sorted(_W['functions']), wall=time.time() - t0)
    return res


# ---- replay on the real code -------------------------------------------------

def real_run(pid, cases, scratch, timeout=60, dtw_dir=None, hashseed='0'):
    """cases: list of {'harness','cfg','inputs'} -> list of outcomes"""
    d = tempfile.mkdtemp(dir=scratch, prefix='real')
    out = []
    todo = list(range(len(cases)))
    results = {}
    while todo:
        inp = os.path.join(d, 'in.json')
        res = os.path.join(d, 'out.jsonl')
        with open(inp, 'w') as f:
            json.dump({'property': pid, 'cases': [cases[i] for i in todo],
                       'timeout': timeout, 'scratch': d}, f)
        if os.path.exists(res):
            os.remove(res)
        env = dict(os.environ, PYTHONHASHSEED=hashseed,
                   PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        if dtw_dir:
            env['ABX_DTW_DIR'] = dtw_dir
        p = subprocess.Popen([PY, '-m', 'abxsym.realrun', inp, res],
                             cwd=HERE, env=dict(env, PYTHONPATH=HERE),
                             stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, start_new_session=True)
        try:
            _, err = p.communicate(timeout=60 + (timeout + 5) * len(todo))
        except subprocess.TimeoutExpired:
            err = b'timeout'
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        lines = []
        if os.path.exists(res):
            with open(res) as f:
                lines = [json.loads(l) for l in f if l.endswith('\n')]
        for i, l in zip(todo, lines):
            results[i] = l
        rest = todo[len(lines):]
        if rest:
            # the process died (or hung) on the first case without an answer
            results[rest[0]] = {'status': 'hang' if err == b'timeout'
                                else 'crash',
                                'failures': [], 'obs': {},
                                'error': err.decode('utf8', 'replace')[-800:]}
            rest = rest[1:]
        todo = rest
    shutil.rmtree(d, ignore_errors=True)
    return [results[i] for i in range(len(cases))]


def compile_dtw(scratch):
    """the Cython module of the current tree, built outside the repository"""
    d = os.path.join(scratch, 'dtw')
    os.makedirs(d, exist_ok=True)
    src = None
    for root, _, files in os.walk(os.path.join(REPO, 'ABXpy')):
        for f in files:
            if f == 'dtw.pyx':
                src = os.path.join(root, f)
    if src is None:
        return None, 'dtw.pyx not found'
    shutil.copy(src, os.path.join(d, 'dtw.pyx'))
    code = (
        'import sys, os, sysconfig, subprocess, numpy\n'
        'from Cython.Compiler.Main import compile_single, '
        'CompilationOptions\n'
        'from Cython.Build.Dependencies import default_create_extension\n'
        'import Cython.Compiler.Main as M\n'
        'M.compile("dtw.pyx", full_module_name='
        '"ABXpy.distances.metrics.dtw", output_file="dtw.c")\n'
        'so = "dtw" + sysconfig.get_config_var("EXT_SUFFIX")\n'
        'subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-w", '
        '"-fwrapv", "-I" + sysconfig.get_paths()["include"], '
        '"-I" + numpy.get_include(), "dtw.c", "-o", so])\n')
    p = subprocess.run([PY, '-c', code], cwd=d, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if p.returncode:
        return None, p.stdout.decode('utf8', 'replace')[-1500:]
    return d, ''


# ---- known findings ----------------------------------------------------------

def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('known', [])
                if k['property'] == pid]


def match_known(known, harness, failure):
    for k in known:
        if k['harness'] == harness and k['failure'] in failure:
            return k
    return None


# ---- main --------------------------------------------------------------------

def run(pid, tier, seed, budget=None):
    t0 = time.time()
    chk = load_check(pid)
    scratch = tempfile.mkdtemp(prefix='abxsym_%s_' % pid)
    rng = random.Random(seed)
    try:
        return _run(pid, tier, seed, chk, scratch, rng, t0, budget)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(pid, tier, seed, chk, scratch, rng, t0, budget):
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, 'replays')
    os.makedirs(rdir, exist_ok=True)
    if budget is None:
        budget = getattr(chk, 'BUDGET', {}).get(
            tier, 150 if tier == 'quick' else 1500)
    jobs = []
    for h in chk.HARNESSES:
        for i, cfg in enumerate(getattr(h, tier)):
            jobs.append((h, cfg, '%s[%d]' % (h.name, i)))
    agg = {}
    for j, (h, cfg, label) in enumerate(jobs):
        agg[j] = {'paths': 0, 'cut': 0, 'proved': 0, 'trivial': 0,
                  'undecided': 0, 'queries': 0, 'unknown': 0,
                  'solver_time': 0., 'decisions': 0, 'max_depth': 0,
                  'reached': 0, 'wall': 0., 'degraded': {},
                  'violations': [], 'inconclusive': [], 'samples': [],
                  'truncated': 0}
    functions = set()
    dtw_proc = None
    need_dtw = any(h.needs_dtw for h, _, _ in jobs)
    mp = multiprocessing.get_context('fork')
    pending = {}
    queue = [(j, [[]]) for j in range(len(jobs))]
    deadline = t0 + budget
    confirmed = []        # (job, violation record, outcome)
    nonrepro = []
    errors = []
    known = known_findings(pid)
    tried = {}
    dtw_dir = None
    dtw_err = None

    def replay_now(j, recs):
        """replay candidate counterexamples of job j"""
        h, cfg, label = jobs[j]
        cases = [{'harness': h.name, 'cfg': cfg, 'inputs': r['inputs']}
                 for r in recs]
        outs = real_run(pid, cases, scratch, h.real_timeout, dtw_dir)
        for r, o in zip(recs, outs):
            bad = list(o['failures'])
            if o['status'] == 'raise':
                bad.append('raised ' + o['error'])
            if o['status'] == 'hang' and h.hang_is_violation:
                bad.append('did not terminate')
            if o['status'] == 'crash':
                bad.append('crashed: ' + o['error'][-200:])
            if bad:
                confirmed.append((j, r, bad))
            else:
                nonrepro.append((j, r, o))

    with cf.ProcessPoolExecutor(NPROC + (1 if need_dtw else 0),
                                mp_context=mp, initializer=_init,
                                initargs=(pid, scratch)) as ex:
        dtw_f = ex.submit(compile_dtw, scratch) if need_dtw else None
        stop = False
        while (queue or pending) and not stop:
            now = time.time()
            # few items in flight, short slices while there is little work
            while queue and len(pending) < NPROC + 2:
                j, prefixes = queue.pop(0)
                if now > deadline:
                    agg[j]['truncated'] += len(prefixes)
                    continue
                spare = len(queue) + len(pending) < NPROC * 2
                sl = 0.8 if spare else 4.0
                sl = min(sl, max(0.5, deadline - now))
                h, cfg, label = jobs[j]
                want = h.samples - len(agg[j]['samples'])
                f = ex.submit(_explore, j, h.name, cfg, prefixes, sl,
                              max(0, want), 3)
                pending[f] = j
            if not pending:
                break
            done, _ = cf.wait(list(pending), timeout=5,
                              return_when=cf.FIRST_COMPLETED)
            for f in done:
                j = pending.pop(f)
                try:
                    r = f.result()
                except Exception as e:
                    errors.append('%s: %s %s' % (jobs[j][2],
                                                 type(e).__name__, e))
                    stop = True
                    continue
                a = agg[j]
                for k in ('paths', 'cut', 'proved', 'trivial', 'undecided',
                          'queries', 'unknown', 'solver_time', 'decisions',
                          'reached', 'wall'):
                    a[k] += r[k]
                a['max_depth'] = max(a['max_depth'], r['max_depth'])
                for k, v in r['degraded'].items():
                    a['degraded'][k] = a['degraded'].get(k, 0) + v
                a['samples'] += r['samples']
                functions.update(r['functions'])
                a['inconclusive'] += r['inconclusive']
                left = r['leftover']
                if r['violations']:
                    a['violations'] += r['violations']
                    n = tried.get(j, 0)
                    if n < 12:
                        tried[j] = n + len(r['violations'][:3])
                        if dtw_f is not None and dtw_dir is None:
                            dtw_dir, dtw_err = dtw_f.result()
                        replay_now(j, r['violations'][:3])
                        if any(not match_known(known, jobs[c[0]][0].name, b)
                               for c in confirmed for b in c[2]):
                            stop = True
                if len(a['inconclusive']) > 40:
                    a['truncated'] += len(left)
                    left = []
                if left:
                    # split for balance
                    k = max(1, min(len(left), NPROC if len(queue) < NPROC
                                   else 2))
                    rng_parts = [left[i::k] for i in range(k)]
                    for part in rng_parts:
                        queue.append((j, part))
        for f in pending:
            f.cancel()
        if dtw_f is not None and dtw_dir is None:
            try:
                dtw_dir, dtw_err = dtw_f.result()
            except Exception as e:
                dtw_err = str(e)
        if stop or errors:
            for p in list(getattr(ex, '_processes', {}).values()):
                try:
                    p.kill()
                except Exception:
                    pass
    for j, prefixes in queue:
        agg[j]['truncated'] += len(prefixes)
    if dtw_err:
        errors.append('compiling dtw: ' + dtw_err)

    unknown_confirmed = [c for c in confirmed if any(
        not match_known(known, jobs[c[0]][0].name, b) for b in c[2])]

    # paths the encoding could not follow: run their model on the real code
    validated = mismatches = 0
    replayed_inc = 0
    notes = []
    if not unknown_confirmed:
        cases, back = [], []
        for j, a in agg.items():
            seen = {}
            for r in a['inconclusive']:
                key = (r['kind'], r['msg'])
                seen[key] = seen.get(key, 0) + 1
                if r['inputs'] is None or seen[key] > 4:
                    continue
                cases.append({'harness': jobs[j][0].name, 'cfg': jobs[j][1],
                              'inputs': r['inputs']})
                back.append((j, 'inc', r))
            smp = a['samples']
            for s in smp:
                cases.append({'harness': jobs[j][0].name, 'cfg': jobs[j][1],
                              'inputs': s['inputs']})
                back.append((j, 'sample', s))
        # in parallel
        chunks = [list(range(len(cases)))[i::NPROC] for i in range(NPROC)]
        chunks = [c for c in chunks if c]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(NPROC) as tp:
            fs = [(c, tp.submit(real_run, pid, [cases[i] for i in c], scratch,
                                max([h.real_timeout for h, _, _ in jobs]
                                    or [60]), dtw_dir)) for c in chunks]
            for c, f in fs:
                for i, o in zip(c, f.result()):
                    j, kind, r = back[i]
                    h = jobs[j][0]
                    bad = list(o['failures'])
                    if o['status'] == 'raise':
                        bad.append('raised ' + o['error'])
                    if o['status'] == 'hang' and h.hang_is_violation:
                        bad.append('did not terminate')
                    if o['status'] == 'crash':
                        bad.append('crashed: ' + o['error'][-200:])
                    if bad:
                        confirmed.append((j, r, bad))
                        continue
                    if kind == 'inc':
                        replayed_inc += 1
                        continue
                    if o['status'] == 'abort':
                        # rounding pushed the model out of the assumptions
                        notes.append('%s: witness left the assumptions'
                                     % jobs[j][2])
                        continue
                    from .ctx import same_obs
                    if same_obs(r['obs'], o['obs']):
                        validated += 1
                    else:
                        mismatches += 1
                        notes.append('%s: prediction %s, real %s' % (
                            jobs[j][2], json.dumps(r['obs'])[:300],
                            json.dumps(o['obs'])[:300]))

    # ---- verdict
    violations = []
    known_lines = []
    for n, (j, r, bad) in enumerate(confirmed):
        h, cfg, label = jobs[j]
        for b in bad:
            k = match_known(known, h.name, b)
            if k is not None:
                line = 'KNOWN-FINDING: property=%s %s' % (pid, k['what'])
                if line not in known_lines:
                    known_lines.append(line)
        new = [b for b in bad if match_known(known, h.name, b) is None]
        if new:
            p = os.path.join(rdir, '%s_%s_%d.json' % (pid, tier, n))
            with open(p, 'w') as f:
                json.dump({'property': pid, 'harness': h.name, 'cfg': cfg,
                           'inputs': r['inputs'], 'expected': r.get('msg'),
                           'observed': new}, f, indent=1, default=str)
            violations.append({'harness': label, 'failure': new[:5],
                               'replay': p})
    tot = {k: sum(a[k] for a in agg.values()) for k in (
        'paths', 'cut', 'proved', 'trivial', 'undecided', 'queries',
        'unknown', 'solver_time', 'decisions', 'reached', 'truncated')}
    inc = [(jobs[j][2], r) for j, a in agg.items() for r in a['inconclusive']]
    degraded = {}
    for a in agg.values():
        for k, v in a['degraded'].items():
            degraded[k] = degraded.get(k, 0) + v
    inc_summary = {}
    for l, r in inc:
        k = '%s: %s: %s' % (l, r['kind'], (r['msg'] or '')[:90000 if os.environ.get("ABX_DEBUG") else 300])
        inc_summary[k] = inc_summary.get(k, 0) + 1
    harness_rows = []
    for j, (h, cfg, label) in enumerate(jobs):
        a = agg[j]
        harness_rows.append({
            'harness': label, 'cfg': cfg, 'paths': a['paths'],
            'infeasible_or_cut': a['cut'], 'assertions_by_solver': a['proved'],
            'assertions_trivially_true': a['trivial'],
            'assertions_undecided': a['undecided'], 'queries': a['queries'],
            'solver_time_s': round(a['solver_time'], 2),
            'cpu_s': round(a['wall'], 2),
            'inconclusive_paths': len(a['inconclusive']),
            'unexplored_prefixes': a['truncated'],
            'paths_reaching_an_assertion': a['reached']})
    vacuous = [r['harness'] for r in harness_rows
               if r['paths_reaching_an_assertion'] == 0]
    samples = []
    for j, a in agg.items():
        for s in a['samples'][:1]:
            samples.append({'harness': jobs[j][2], 'inputs': s['inputs'],
                            'observed': json.dumps(s['obs'])[:400]})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': getattr(chk, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': max(1, tot['paths']),
            'transitions': max(1, tot['decisions'] + tot['queries']),
            'traces_validated_against_impl': validated,
            'samples': samples[:12] or [{'none': True}],
            'technique': 'symbolic execution of the current source with an '
                         'SMT solver (z3) deciding every branch and every '
                         'assertion; states = execution paths, transitions = '
                         'branch decisions + solver queries',
            'functions_encoded': sorted(functions),
            'bounds': getattr(chk, 'BOUNDS', ''),
            'outside_bounds': getattr(chk, 'OUTSIDE', ''),
            'stubs': getattr(chk, 'STUBS', ''),
            'paths': tot['paths'], 'queries': tot['queries'],
            'queries_unknown': tot['unknown'],
            'solver_time_s': round(tot['solver_time'], 2),
            'assertions_decided_by_solver': tot['proved'],
            'assertions_trivially_true': tot['trivial'],
            'assertions_undecided': tot['undecided'],
            'unexplored_prefixes': tot['truncated'],
            'exhaustive_within_bounds': tot['truncated'] == 0 and not inc
            and tot['undecided'] == 0 and not errors,
            'inconclusive_paths': len(inc),
            'inconclusive_summary': inc_summary,
            'inconclusive_replayed_concretely': replayed_inc,
            'counterexamples_not_reproduced': len(nonrepro),
            'validation_mismatches': mismatches,
            'operations_concretised_by_forking': degraded,
            'vacuous_harnesses': vacuous,
            'harnesses': harness_rows,
        },
        'assumptions': list(getattr(chk, 'ASSUMPTIONS', [])),
        'violations': violations,
        'wall_s': round(time.time() - t0, 2),
        'notes': notes[:20] + errors[:10],
    }
    p = os.path.join(HERE, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)
    for l in known_lines:
        print(l)
    print('%s %s: %d paths, %d queries (%.1f s solver), %d+%d assertions, '
          '%d inconclusive, %d unexplored, %d validated, %d mismatches, '
          '%.1f s' % (pid, tier, tot['paths'], tot['queries'],
                      tot['solver_time'], tot['proved'], tot['trivial'],
                      len(inc), tot['truncated'], validated, mismatches,
                      time.time() - t0))
    for k, v in sorted(inc_summary.items()):
        print('INCONCLUSIVE %s (x%d)' % (k[:90000 if os.environ.get("ABX_DEBUG") else 400], v))
    for n in (notes + errors)[:8]:
        print('NOTE ' + n)
    for j, r, o in nonrepro[:5]:
        print('NOT-REPRODUCED %s %s' % (jobs[j][2], r['msg']))
    if violations:
        for v in violations[:5]:
            print('FAILED %s: %s' % (v['harness'], '; '.join(v['failure'])
                                     [:600]))
        print('VIOLATION property=%s replay=%s' % (
            pid, os.path.relpath(violations[0]['replay'], HERE)))
        return 1
    if errors:
        print('ERROR ' + errors[0])
        return 2
    if tot['proved'] + tot['trivial'] == 0:
        print('ERROR nothing was decided')
        return 2
    if nonrepro and os.environ.get('ABX_STRICT'):
        return 2
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    scratch = tempfile.mkdtemp(prefix='abxsym_replay_')
    try:
        hs = [h for h in load_check(d['property']).HARNESSES
              if h.name == d['harness']]
        dtw_dir = compile_dtw(scratch)[0] if hs[0].needs_dtw else None
        o = real_run(d['property'], [d], scratch, hs[0].real_timeout,
                     dtw_dir)[0]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('%s %s' % (o['status'], o['error']))
    for m in o['failures']:
        print(m)
    return 0 if o['status'] == 'done' and not o['failures'] else 1


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--replay', help='run a recorded counterexample again '
                    'on the real code')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--budget', type=float, default=None)
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    return run(a.property, a.tier, a.seed, a.budget)
