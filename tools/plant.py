"""Development tool: writes and verifies the planted bugs of tools/plants.py into /verif/seeded.

usage: plant.py [ID ...]      create + verify (patch applies, builds, tests pass, demo 0 / != 0)
       plant.py --check [ID ...]   run the check of the property against the patched copy
All work happens in scratch copies under /tmp.
"""
import concurrent.futures
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = '/opt/pypyvenv/bin/pypy3'


def load():
    spec = importlib.util.spec_from_file_location('plants', os.path.join(HERE, 'tools', 'plants.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.PLANTS


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy(name):
    dst = '/tmp/plant_%s' % name
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', dst])
    return dst


def patch_tree(dst, plant):
    for path, old, new in plant['edits']:
        full = os.path.join(dst, path)
        s = open(full).read()
        assert s.count(old) == 1, '%s: %s occurs %d times' % (plant['id'], path, s.count(old))
        open(full, 'w').write(s.replace(old, new))


def env(dst):
    e = dict(os.environ, PYTHONPATH=dst, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             PYNPUT_BACKEND='dummy', MPLBACKEND='Agg', MPLCONFIGDIR=dst + '/.mpl', OPENBLAS_NUM_THREADS='1')
    return e


def create(plant):
    pid = plant['id']
    dst = copy(pid)
    try:
        seeded = os.path.join(HERE, 'seeded', pid)
        shutil.rmtree(seeded, ignore_errors=True)
        os.makedirs(seeded)
        with open(seeded + '/demo.py', 'w') as fp:
            fp.write(plant['demo'].lstrip('\n'))
        with open(seeded + '/demo.sh', 'w') as fp:
            fp.write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
                     'PYNPUT_BACKEND=dummy MPLBACKEND=Agg PYTHONWARNINGS=ignore\n'
                     'exec timeout 120 %s "$(dirname "$0")/demo.py"\n' % PYPY)
        os.chmod(seeded + '/demo.sh', 0o755)
        with open(seeded + '/meta.json', 'w') as fp:
            json.dump({'property': plant['property'], 'needs': plant['needs'], 'what_it_breaks': plant['breaks']},
                      fp, indent=1)
        r = run(['bash', seeded + '/demo.sh'], cwd=dst, env=env(dst))
        if r.returncode:
            return pid, 'DEMO FAILS ON CLEAN TREE\n' + r.stdout[-1500:]
        patch_tree(dst, plant)
        with open(seeded + '/patch.diff', 'w') as fp:
            fp.write(subprocess.check_output(['git', 'diff'], cwd=dst, text=True))
        cmod = any(p.endswith('.c') for p, _, _ in plant['edits'])
        if cmod:
            r = run([PYPY, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=dst, env=env(dst))
            if r.returncode or 'Failed to built' in r.stdout:
                return pid, 'BUILD FAILS\n' + r.stdout[-1500:]
        r = run([PYPY, '-m', 'pytest', '-q', 'tests', '-p', 'no:cacheprovider', '--timeout=300', '-x'],
                cwd=dst, env=env(dst))
        if r.returncode:
            return pid, 'TESTS FAIL\n' + r.stdout[-1800:]
        r = run(['bash', seeded + '/demo.sh'], cwd=dst, env=env(dst))
        if r.returncode == 0:
            return pid, 'DEMO PASSES ON PATCHED TREE\n' + r.stdout[-500:]
        return pid, 'ok: ' + (r.stdout.strip().splitlines() or [''])[-1]
    finally:
        shutil.rmtree(dst, ignore_errors=True)


def check(plant):
    pid = plant['id']
    dst = copy(pid)
    try:
        r = run(['git', 'apply', os.path.join(HERE, 'seeded', pid, 'patch.diff')], cwd=dst)
        if r.returncode:
            return pid, 'PATCH DOES NOT APPLY ' + r.stdout
        ev = dst + '_ev'
        r = run(['timeout', '900', HERE + '/check.sh', plant['property'], 'quick'],
                env=dict(os.environ, KLANG_REPO=dst, EVIDENCE_DIR=ev))
        shutil.rmtree(ev, ignore_errors=True)
        lines = [x for x in r.stdout.splitlines() if not x.startswith('NOTE')]
        verdict = {1: 'CAUGHT', 0: 'MISSED'}.get(r.returncode, 'RC%d' % r.returncode)
        return pid, '%s %s: %s' % (verdict, plant['property'], ' | '.join(lines[-2:])[:300])
    finally:
        shutil.rmtree(dst, ignore_errors=True)


def main():
    args = sys.argv[1:]
    fn, workers = create, 6
    if '--check' in args:
        args.remove('--check')
        fn, workers = check, 1
    plants = [p for p in load() if not args or p['id'] in args or p['property'] in args]
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for pid, msg in ex.map(fn, plants):
            print(pid, msg, flush=True)


if __name__ == '__main__':
    main()
