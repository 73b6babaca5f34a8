"""Runs the checks: python3-vt -m symx.runner PROPERTY [--tier quick|thorough]"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KLANG_REPO', '/repo')
PYPY = '/opt/pypyvenv/bin/pypy3'
MAX_CANDIDATES = 3
PATH_TIMEOUT = 90
WORKER_MEMORY = 6 << 30
REPLAY_MEMORY = 4 << 30


class PathTimeout(BaseException):
    pass


def _on_alarm(*args):
    raise PathTimeout()


# ------------------------------------------------------------ symbolic side

def explore_job(job):
    """Explore one harness configuration (in a worker process)."""
    from symx import core, loader, shims, spec, state, symctx, arrays
    import logging
    logging.disable(logging.CRITICAL)
    t0 = time.time()
    limit_memory(WORKER_MEMORY)
    res = {'job': job, 'candidates': [], 'witnesses': [], 'degraded': [], 'error': None}
    try:
        loader.install()
        import klang.config
        klang.config.BUFFER_SIZE = job['buffer']
        h = next(h for h in spec.HARNESSES if h.pid == job['pid'] and h.name == job['harness'])
        loader.ENCODED.clear()
        eng = core.Engine(deadline=min(time.time() + job['budget'], job['stop']), maxPaths=job['max_paths'])
        rnd = random.Random('%s/%s/%s' % (job['seed'], job['harness'], job['cfg']))
        snaps = {'snap': None, 'mods': 0}
        signal.signal(signal.SIGALRM, _on_alarm)

        def modules():
            return sum(1 for n in sys.modules if n == 'klang' or n.startswith('klang.'))

        def restore():
            # modules imported during a path are added to the snapshot of the pristine state
            if snaps['snap'] is not None:
                snaps['snap'].restore()
            for c in shims.CACHES:
                c.clear()
            del shims.WAV[:]

        # first concrete-free import pass so that the snapshot covers all modules
        for name in getattr(importlib.import_module('props.%s' % job['pid'].lower()), 'MODULES', ()):
            importlib.import_module(name)
        snaps['snap'] = state.Snapshot()

        def reload_modules():
            for name in [n for n in sys.modules if n == 'klang' or n.startswith('klang.')]:
                del sys.modules[name]
            import klang.config as cfg
            cfg.BUFFER_SIZE = job['buffer']

        mode = {'reload': job.get('reload', False)}

        def candidate(kind, label, info, values, where=None):
            if len(res['candidates']) < MAX_CANDIDATES:
                res['candidates'].append({'kind': kind, 'label': label, 'info': info,
                                          'values': values, 'where': where})

        def run():
            if mode['reload']:
                reload_modules()
            else:
                restore()
            ctx = symctx.SymCtx(eng)
            if 'symx.llvm' in sys.modules:
                sys.modules['symx.llvm'].LOADED.clear()
            signal.setitimer(signal.ITIMER_REAL, PATH_TIMEOUT)
            try:
                h.fn(ctx, **job['cfg'])
            except core.Violation as v:
                candidate(v.kind, v.label, v.info, v.inputs)
            except core.Unsupported as err:
                degrade(str(err))
            except (PathTimeout, MemoryError):
                # most other paths would not end either: replayed, the rest is left out
                signal.setitimer(signal.ITIMER_REAL, 0)
                models = path_models(eng)
                candidate('timeout', 'path does not terminate', None, models)
                eng.deadline = time.time() - 1
            except RecursionError as err:
                candidate('exception', 'RecursionError', None, path_models(eng))
            except Exception as err:
                tb = traceback.extract_tb(err.__traceback__)
                where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-5:]
                candidate('exception', '%s: %s' % (type(err).__name__, err), {'where': where},
                          path_models(eng), tb[-1].filename if tb else '')
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                ctx.undo()

        def path_models(eng):
            try:
                m = eng.nice_model()
                if m is None:
                    return []
                return [eng.input_values(m)] + eng.more_models(m, 3)
            except (core.Unsupported, core.PathAborted):
                return []

        def degrade(msg):
            if len(res['degraded']) < 60:
                res['degraded'].append({'why': msg, 'values': path_models(eng)})
            else:
                res['degraded_more'] = res.get('degraded_more', 0) + 1

        keep = []

        def on_path(eng):
            n = eng.paths
            want = job['witnesses']
            if len(keep) < want or rnd.random() < want / n:
                try:
                    m = eng.nice_model()
                except core.PathAborted:
                    m = None
                if m is None:
                    return
                obs = []
                if not eng.ufApps:
                    for name, value in eng.observed:
                        try:
                            obs.append([name, symctx.eval_model(value, m)])
                        except Exception:
                            obs.append([name, None])
                item = {'values': eng.input_values(m), 'observed': obs, 'labels': len(eng.labelsOfPath)}
                if len(keep) < want:
                    keep.append(item)
                else:
                    keep[rnd.randrange(want)] = item

        try:
            eng.explore(run, on_path)
        except core.Nondeterminism as err:
            # hidden state: re-import the code for every path
            keep.clear()
            res['candidates'].clear()
            res['degraded'].clear()
            loader.ENCODED.clear()
            mode['reload'] = True
            eng = core.Engine(deadline=min(time.time() + job['budget'], job['stop']), maxPaths=job['max_paths'])
            res['reload'] = True
            eng.explore(run, on_path)
        res['witnesses'] = keep
        res['stats'] = {
            'paths': eng.paths, 'infeasible': eng.aborted, 'branches': eng.branches,
            'queries': eng.queries, 'solver_s': round(eng.solverTime, 4), 'checked': eng.checked,
            'simplified': eng.simplified, 'unknowns': eng.unknowns, 'depth': eng.maxDepth,
            'labels': eng.labels}
    except BaseException as err:        # budget, unsupported, internal errors
        if isinstance(err, KeyboardInterrupt):
            raise
        tb = traceback.format_exc().strip().splitlines()
        res['error'] = '%s: %s' % (type(err).__name__, err)
        res['trace'] = tb[-12:]
        try:
            res['stats'] = {'paths': eng.paths, 'checked': eng.checked, 'branches': eng.branches,
                            'queries': eng.queries, 'solver_s': round(eng.solverTime, 3),
                            'labels': eng.labels}
        except NameError:
            pass
    from symx import loader as ld
    res['encoded'] = sorted(ld.ENCODED)
    res['wall'] = round(time.time() - t0, 3)
    return res


# ------------------------------------------------------------ concrete side

def limit_memory(size=REPLAY_MEMORY):
    resource.setrlimit(resource.RLIMIT_AS, (size, size))


ENV = {
    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONWARNINGS': 'ignore', 'PYTHONHASHSEED': '0', 'PYNPUT_BACKEND': 'dummy',
    'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': '/opt/vp/mplconfig', 'OPENBLAS_NUM_THREADS': '1',
    'PYTHONNOUSERSITE': '1', 'PATH': '/usr/bin:/bin', 'HOME': '/root', 'LC_ALL': 'C.UTF-8'}


def build_extensions(folder):
    """Compile the current C sources with address and undefined behaviour checks."""
    from symx import llvm
    ext, running = {}, []
    for name, src in llvm.SOURCES.items():
        out = os.path.join(folder, name.split('.')[-1] + '.pypy39-pp73-x86_64-linux-gnu.so')
        cmd = ['gcc', '-w', '-shared', '-fPIC', '-O1', '-g', '-fsanitize=address,undefined',
               '-fno-sanitize-recover=undefined'] + ['-I' + d for d in llvm.INCLUDES]
        running.append(subprocess.Popen(cmd + [os.path.join(REPO, src), '-o', out, '-lm'],
                                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        ext[name] = out
    for p in running:
        if p.wait():
            raise RuntimeError('C extension does not compile')
    return ext


def sanitizer_env():
    libs = []
    for lib in ('libasan.so', 'libubsan.so'):
        out = subprocess.run(['gcc', '-print-file-name=' + lib], stdout=subprocess.PIPE, text=True)
        libs.append(out.stdout.strip())
    return {'LD_PRELOAD': ':'.join(libs),
            'ASAN_OPTIONS': 'detect_leaks=0,verify_asan_link_order=0,max_malloc_fill_size=65536,malloc_fill_byte=255,'
                            'allocator_may_return_null=1'}


def replay(jobs, procs=6, until=None):
    """Run assignments on the real code.  Returns {id: result}."""
    if not jobs:
        return {}
    results = {}
    tmp = tempfile.mkdtemp(prefix='klangreplay')
    try:
        plain = [j for j in jobs if not j.get('ext')]
        native = [j for j in jobs if j.get('ext')]
        ext = build_extensions(tmp) if native else None
        env = dict(ENV, PYTHONPATH=REPO)
        parts = []
        for group, genv in ((plain, env), (native, dict(env, **sanitizer_env()) if native else env)):
            group = sorted(group, key=lambda j: (j['buffer'], j['harness']))
            n = max(1, min(procs, (len(group) + 39) // 40))
            size = (len(group) + n - 1) // n
            parts += [(group[i * size:(i + 1) * size], genv) for i in range(n) if group[i * size:(i + 1) * size]]
        rounds = 0
        while parts and rounds < 30:
            running = []
            for i, (part, genv) in enumerate(parts):
                src, dst, out = (os.path.join(tmp, '%s%d.%d' % (k, rounds, i)) for k in ('in', 'out', 'log'))
                with open(src, 'w') as fp:
                    json.dump({'repo': REPO, 'verif': HERE, 'ext': ext, 'jobs': part}, fp)
                log = open(out, 'w')
                running.append((subprocess.Popen([PYPY, os.path.join(HERE, 'symx', 'concrete.py'), src, dst],
                                                 env=genv, cwd=tmp, stdout=log, stderr=log,
                                                 preexec_fn=None if ext else limit_memory), dst, part, log, genv))
            parts = []
            for proc, dst, part, log, genv in running:
                try:
                    proc.wait(timeout=300 if until is None else max(20, min(300, until - time.time())))
                except subprocess.TimeoutExpired:
                    proc.kill()
                    proc.wait()
                log.close()
                if os.path.exists(dst):
                    with open(dst) as fp:
                        for r in json.load(fp):
                            results[r['id']] = r
                missing = [j for j in part if j['id'] not in results]
                if missing:
                    with open(log.name) as fp:
                        tail = fp.read()
                    summary = [ln for ln in tail.splitlines() if 'ERROR' in ln or 'runtime error' in ln]
                    # native code: the first missing job ended the interpreter, the others run again
                    stop = 1 if missing[0].get('ext') else len(missing)
                    for j in missing[:stop]:
                        results[j['id']] = {'id': j['id'], 'status': 'crash',
                                            'label': summary[0] if summary else tail[-1500:], 'code': proc.returncode}
                    if missing[stop:]:
                        parts.append((missing[stop:], genv))
            rounds += 1
        for part, _ in parts:
            for j in part:
                results[j['id']] = {'id': j['id'], 'status': 'assume', 'label': 'not replayed'}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return results


# ------------------------------------------------------------ check

def compare(sym, conc, tol=1e-6):
    """Observed values agree?"""
    if len(sym) != len(conc):
        return 'number of observations %d / %d' % (len(sym), len(conc))
    for (n1, a), (n2, b) in zip(sym, conc):
        if n1 != n2:
            return 'observation %s / %s' % (n1, n2)
        if not _close(a, b, tol):
            return 'observation %s: model %s, real code %s' % (n1, _short(a), _short(b))
    return None


def _short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'


def _close(a, b, tol):
    if isinstance(a, list) or isinstance(b, list):
        if not isinstance(a, list) or not isinstance(b, list) or len(a) != len(b):
            return False
        return all(_close(x, y, tol) for x, y in zip(a, b))
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num):
        return abs(float(a) - float(b)) <= tol * max(1., abs(a), abs(b))
    return a == b


def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return json.load(fp)['findings']


def match_finding(pid, harness, cfg, label, values):
    """A finding names harness, assertion and (optionally) a predicate over cfg."""
    for f in known_findings():
        if f.get('property') != pid or f.get('status') == 'fixed':
            continue
        if f.get('harness') == harness and f.get('label') == label and \
                all(cfg.get(k) == v for k, v in f.get('cfg', {}).items()) and \
                all(values.get(k) == v for k, v in f.get('values', {}).items()):
            return f
    return None


def run_check(pid, tier, seed, only=None, verbose=False, jobs_n=8):
    t0 = time.time()
    sys.path.insert(0, HERE)
    from symx import fracshim
    fracshim.install()
    from symx import loader, spec
    loader.install()
    loader.precompile()
    module = importlib.import_module('props.%s' % pid.lower())
    evdir = os.environ.get('EVIDENCE_DIR') or os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    evfile = os.path.join(evdir, '%s.json' % pid)
    if os.path.exists(evfile):
        os.remove(evfile)

    budget, total = (200, 560) if tier == 'quick' else (600, 780)
    jobs = []
    for h in spec.HARNESSES:
        if h.pid != pid or (only and h.name not in only):
            continue
        for i, cfg in enumerate(h.configs(tier)):
            jobs.append({'pid': pid, 'harness': h.name, 'cfg': cfg, 'buffer': cfg.get('buffer_', h.buffer),
                         'seed': seed, 'budget': budget, 'stop': t0 + total, 'max_paths': 200000, 'timeout': h.timeout,
                         'witnesses': 4 if tier == 'quick' else 8})
    for j in jobs:
        j['cfg'] = {k: v for k, v in j['cfg'].items() if k != 'buffer_'}
    mods = getattr(module, 'MODULES', ())
    if any(m.startswith(('klang.audio', 'klang.music', 'klang.sequencer', 'klang.klang')) for m in mods):
        # slow imports shared by all workers (none of them depends on the buffer size)
        importlib.import_module('scipy.signal')
        importlib.import_module('scipy.interpolate')
        importlib.import_module('klang.primes')
    if any(h.ext for h in spec.HARNESSES if h.pid == pid):
        from symx import llvm
        llvm.prepare()
    results = []
    mp = multiprocessing.get_context('fork')
    with mp.Pool(min(jobs_n, max(1, len(jobs))), maxtasksperchild=1) as pool:
        running = pool.imap_unordered(explore_job, jobs, chunksize=1)
        for _ in jobs:
            try:
                r = running.next(timeout=max(1., t0 + total + 120 - time.time()))
            except multiprocessing.TimeoutError:        # a worker was ended from outside
                break
            results.append(r)
            if verbose:
                s = r.get('stats', {})
                print('%-28s %-40s paths=%s checked=%s q=%s solver=%s wall=%s %s%s' % (
                    r['job']['harness'], json.dumps(r['job']['cfg'])[:40], s.get('paths'), s.get('checked'),
                    s.get('queries'), s.get('solver_s'), r['wall'],
                    'CAND ' + str([c['label'] for c in r['candidates']]) if r['candidates'] else '',
                    ' DEGRADED %s' % r['degraded'][0]['why'] if r['degraded'] else ''), flush=True)
                if r['error']:
                    print('   ERROR', r['error'], '\n'.join(r.get('trace', [])))
    done = {(r['job']['harness'], json.dumps(r['job']['cfg'], sort_keys=True)) for r in results}
    for j in jobs:
        if (j['harness'], json.dumps(j['cfg'], sort_keys=True)) not in done:
            results.append({'job': j, 'candidates': [], 'witnesses': [], 'degraded': [], 'encoded': [], 'wall': 0.,
                            'error': 'worker lost'})
    results.sort(key=lambda r: (r['job']['harness'], json.dumps(r['job']['cfg'], sort_keys=True)))

    # replay on the real code
    todo, meta = [], {}
    exts = {h.name: h.ext for h in spec.HARNESSES if h.pid == pid}

    def add(r, values, kind, extra):
        jid = len(todo)
        todo.append({'id': jid, 'pid': pid, 'ext': exts.get(r['job']['harness'], False), 'harness': r['job']['harness'], 'cfg': r['job']['cfg'],
                     'values': values, 'buffer': r['job']['buffer'], 'timeout': r['job']['timeout']})
        meta[jid] = (r, kind, extra)

    for r in results:
        for c in r['candidates']:
            for values in c['values']:
                add(r, values, 'candidate', c)
        for w in r['witnesses']:
            add(r, w['values'], 'witness', w)
        for d in r['degraded']:
            for values in d['values']:
                add(r, values, 'degraded', d)
    real = replay(todo, until=t0 + 840)

    violations, problems, notes, known, undecided = [], [], [], [], []
    validated = compared = degraded = incomplete = 0
    confirmed = set()
    reproduced = set()
    for jid, (r, kind, extra) in meta.items():
        out = real.get(jid)
        job = todo[jid]
        bad = out['status'] in ('violation', 'exception', 'timeout', 'crash')
        if out['status'] == 'exception' and HERE in out.get('inner', '') and \
                (out.get('type') in ('AttributeError', 'ImportError', 'NameError', 'ModuleNotFoundError') or
                 out.get('type') == 'TypeError' and ' argument' in str(out['label'])):
            problems.append('%s: interface of the code changed: %s' % (job['harness'], out['label']))
            continue
        if bad:
            reproduced.add((job['harness'], json.dumps(job['cfg'], sort_keys=True), id(extra)))
            label = out.get('label') if out['status'] in ('violation', 'exception') else out['status']
            key = extra.get('label', label)
            f = match_finding(pid, job['harness'], job['cfg'], label, job['values'])
            if f:
                known.append((f, job, label))
            else:
                violations.append({'property': pid, 'harness': job['harness'], 'cfg': job['cfg'],
                                   'values': job['values'], 'buffer': job['buffer'], 'found_by': kind,
                                   'ext': job['ext'],
                                   'symbolic_label': extra.get('label'), 'real': out, 'label': label})
        elif out['status'] == 'ok':
            validated += 1
            if kind == 'witness' and extra['observed']:
                compared += 1
                diff = compare(extra['observed'], out['observed'])
                if diff:
                    undecided.append('%s %s: encoding differs from real code on %s: %s' % (
                        job['harness'], json.dumps(job['cfg']), job['values'], diff))
    for r in results:
        job = r['job']
        if r['error'] and r['error'].startswith('BudgetExceeded') and (r.get('stats', {}).get('checked') or r['candidates']):
            incomplete += 1
            notes.append('%s %s: not finished within its budget (%s paths explored)' % (
                job['harness'], json.dumps(job['cfg']), r['stats']['paths']))
        elif r['error']:
            problems.append('%s %s: %s' % (job['harness'], json.dumps(job['cfg']), r['error']))
        for c in r['candidates']:
            key = (job['harness'], json.dumps(job['cfg'], sort_keys=True), id(c))
            if key not in reproduced:
                undecided.append('%s %s: counterexample did not reproduce: %s %s %s' % (
                    job['harness'], json.dumps(job['cfg']), c['label'], c['values'][:1], c.get('info')))
        if r['degraded']:
            n = len(r['degraded']) + r.get('degraded_more', 0)
            degraded += n
            notes.append('%s %s: %d paths could not be encoded (%s); only replayed concretely' % (
                job['harness'], json.dumps(job['cfg']), n, r['degraded'][0]['why']))

    stats = collections.Counter()
    labels = collections.Counter()
    encoded = set()
    for r in results:
        for k in ('paths', 'infeasible', 'branches', 'queries', 'checked', 'simplified', 'unknowns'):
            stats[k] += r.get('stats', {}).get(k, 0)
        stats['solver_ms'] += int(1000 * r.get('stats', {}).get('solver_s', 0))
        labels.update(r.get('stats', {}).get('labels', {}))
        encoded.update(r['encoded'])
        if not r['error'] and not r['candidates'] and not r['degraded'] and not r.get('stats', {}).get('checked'):
            problems.append('%s %s: no assertion was reached (vacuous)' % (
                r['job']['harness'], json.dumps(r['job']['cfg'])))
    if not jobs:
        problems.append('no harness registered')

    samples = []
    for r in results:
        for w in r['witnesses'][:1]:
            if len(samples) < 6:
                samples.append({'harness': r['job']['harness'], 'cfg': r['job']['cfg'], 'input': w['values'],
                                'assertions_on_path': w['labels']})
    # Nothing of this reproduces on the real code: the assertion is neither proved nor refuted.
    # Strict runs (development, -v) treat it as a failure of the encoding.
    if verbose or os.environ.get('SYMX_STRICT'):
        problems.extend(undecided)
    else:
        notes[:0] = ['UNDECIDED ' + u for u in undecided]
    prop_encoded = sorted(e for e in encoded if not e.endswith('<module>'))
    coverage = {
        'states': stats['paths'], 'transitions': stats['branches'],
        'traces_validated_against_impl': validated,
        'samples': samples or [{'none': True}],
        'assertions_undecided': len(undecided),
        'exhaustive': not problems and not undecided and not degraded and not incomplete,
        'configurations_cut_by_budget': incomplete,
        'explanation': 'states = feasible paths executed symbolically; transitions = branch/value decisions '
                       'taken on them; every assertion discharged by the solver for all inputs of the path.',
        'assertions_discharged': stats['checked'], 'assertions_by_simplification': stats['simplified'],
        'solver_queries': stats['queries'], 'solver_s': stats['solver_ms'] / 1000.,
        'undecided_branches': stats['unknowns'],
        'infeasible_paths': stats['infeasible'], 'paths_not_encodable': degraded,
        'observations_compared': compared, 'harness_configurations': len(jobs),
        'functions_encoded': prop_encoded, 'assertions': dict(sorted(labels.items())[:60]),
        'bounds': getattr(module, 'BOUNDS', ''),
        'outside_bounds': getattr(module, 'OUTSIDE', ''),
        'known_findings_seen': sorted({f['id'] for f, _, _ in known}),
        'notes': notes[:20], 'problems': problems[:20],
    }
    evidence = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
                'assumptions': COMMON_ASSUMPTIONS + list(getattr(module, 'ASSUMPTIONS', [])),
                'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    with open(evfile, 'w') as fp:
        json.dump(evidence, fp, indent=1)
    return report(pid, evdir, violations, problems, notes, known, stats, validated, t0,
                  bool(verbose or os.environ.get('SYMX_STRICT')))


COMMON_ASSUMPTIONS = [
    'floating point numbers are modelled as exact reals (a double constant stands for the nearest short '
    'fraction); rounding is outside the claim, sampled paths are replayed on the real code',
    'numpy array operations are interpreted element by element by the encoder (symx/arrays.py); scipy '
    'lfilter / interp1d, json and random are replaced by their documented contract',
    'the pure Python fallbacks of the C extensions are used unless the property is about the C code']


def report(pid, evdir, violations, problems, notes, known, stats, validated, t0, strict):
    """Exit code: 1 for a violation, 2 for no answer (strict runs: also for parts which could not be explored)."""
    for f in {f['id']: f for f, _, _ in known}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    for n in notes[:10]:
        print('NOTE: ' + n)
    for p in problems[:10]:
        print(('INCONCLUSIVE: ' if strict else 'NOT EXPLORED: ') + p)
    if violations:
        v = violations[0]
        digest = hashlib.sha1(json.dumps([v['harness'], v['cfg'], v['values']], sort_keys=True,
                                         default=str).encode()).hexdigest()[:10]
        path = os.path.join(evdir, 'replay', '%s-%s.json' % (pid, digest))
        with open(path, 'w') as fp:
            json.dump(v, fp, indent=1, default=str)
        print('%s %s: %s with %s' % (v['harness'], json.dumps(v['cfg']), v['label'], json.dumps(v['values'])))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if problems and (strict or not stats['checked']):
        return 2
    print('OK property=%s paths=%d assertions=%d queries=%d solver=%.1fs replayed=%d wall=%.1fs' % (
        pid, stats['paths'], stats['checked'], stats['queries'], stats['solver_ms'] / 1000., validated,
        time.time() - t0))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only', nargs='*')
    ap.add_argument('-v', '--verbose', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--replay', help='replay a recorded violation on the real code')
    args = ap.parse_args()
    if args.replay:
        with open(args.replay) as fp:
            v = json.load(fp)
        sys.path.insert(0, HERE)
        out = replay([{'id': 0, 'pid': v['property'], 'ext': v.get('ext', False), 'harness': v['harness'], 'cfg': v['cfg'],
                       'values': v['values'], 'buffer': v['buffer'], 'timeout': 20}])
        print(json.dumps(out[0], indent=1))
        sys.exit(1 if out[0]['status'] in ('violation', 'exception', 'timeout', 'crash') else 0)
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(run_check(args.property.upper(), args.tier, args.seed, args.only, args.verbose, args.j))


if __name__ == '__main__':
    main()
