"""Replays assignments on the real code (runs under the interpreter klang's tests use).

usage: pypy3 concrete.py JOBS.json RESULTS.json
JOBS: {"repo": path, "verif": path, "ext": dir or None, "jobs": [{pid, harness, cfg, values, buffer}]}
"""
import collections
import json
import os
import signal
import sys
import traceback


class Timeout(BaseException):
    pass


def on_alarm(*args):
    raise Timeout()


def main(src, dst):
    with open(src) as fp:
        spec = json.load(fp)
    sys.dont_write_bytecode = True
    sys.path[:0] = [spec['repo'], spec['verif']]
    signal.signal(signal.SIGALRM, on_alarm)
    import numpy as np
    real_empty = np.empty

    def poisoned(shape, dtype=float, *args, **kwargs):
        ret = real_empty(shape, dtype, *args, **kwargs)
        if ret.dtype.kind == 'f':
            ret.fill(7777.25)
        return ret
    np.empty = poisoned
    import importlib
    from symx import spec as registry
    from symx.ctx import AssumptionFailed, CheckFailed, ConcCtx
    from symx.state import Snapshot
    from symx import standins
    sys.modules['pynput'], sys.modules['pynput.keyboard'] = standins.pynput, standins.pynput.keyboard
    results = []
    loaded = {}
    current = [None]
    snap = [None]

    def load(buffer, ext):
        if current[0] == (buffer, ext):
            snap[0].restore()
            return
        for name in [n for n in sys.modules if n == 'klang' or n.startswith('klang.')]:
            del sys.modules[name]
        if ext:
            import importlib.util
            for name, path in spec['ext'].items():
                s = importlib.util.spec_from_file_location(name, path)
                m = importlib.util.module_from_spec(s)
                s.loader.exec_module(m)
                sys.modules[name] = m
        else:
            sys.modules['klang.audio._envelope'] = None
            sys.modules['klang.audio._filters'] = None
        import klang.config
        klang.config.BUFFER_SIZE = buffer
        current[0] = (buffer, ext)
        snap[0] = Snapshot()

    slow = collections.Counter()
    for job in spec['jobs']:
        pid = job['pid']
        if slow[job['harness']] >= 3:       # hangs: enough of that
            results.append({'id': job['id'], 'status': 'assume', 'label': 'not replayed', 'observed': []})
            continue
        if pid not in loaded:
            importlib.import_module('props.%s' % pid.lower())
            loaded[pid] = True
        h = next(h for h in registry.HARNESSES if h.pid == pid and h.name == job['harness'])
        res = {'id': job['id']}
        ctx = ConcCtx(job['values'])
        signal.alarm(min(job.get('timeout', 20), 30))
        try:
            load(job['buffer'], h.ext)
            h.fn(ctx, **job['cfg'])
            res['status'] = 'ok'
        except CheckFailed as err:
            res.update(status='violation', label=err.label, info=err.info)
        except AssumptionFailed as err:
            res.update(status='assume', label=str(err))
        except (Timeout, MemoryError):
            res.update(status='timeout')
            slow[job['harness']] += 1
        except Exception as err:
            tb = traceback.extract_tb(err.__traceback__)
            res.update(status='exception', label='%s: %s' % (type(err).__name__, err),
                       type=type(err).__name__,
                       where=['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-6:],
                       inner=tb[-1].filename if tb else '')
        finally:
            signal.alarm(0)
            ctx.undo()
        try:
            json.dumps(ctx.observed)
            res['observed'] = ctx.observed
        except (TypeError, ValueError):
            res['observed'] = []
        results.append(res)
        # results so far survive a crash of the interpreter
        if h.ext or len(results) % 50 == 0 or res['status'] == 'timeout':
            dump(dst, results)
    dump(dst, results)


def dump(dst, results):
    with open(dst + '.tmp', 'w') as fp:
        json.dump(results, fp)
    os.replace(dst + '.tmp', dst)


if __name__ == '__main__':
    main(*sys.argv[1:3])
