"""Writes MANIFEST.json: every property with a module in props/ is claimed, the others need a reason."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = 'symbolic execution of the real Python source into SMT (z3), counterexamples replayed on the real code'
TECH_C = 'symbolic execution of the compiled LLVM IR of the C extension into SMT (z3), counterexamples ' \
         'replayed on the freshly compiled extension'
NOTE = ('Every feasible path of the harness within the stated bounds (props/{m}.py: BOUNDS) is executed '
        'symbolically from the current source and each assertion is discharged by z3 for all inputs of the '
        'path. Trusts the encoder (symx/), z3 and exact real arithmetic in place of doubles; sampled paths are '
        'compared with the real code on every run.')
NOTE_C = ('The LLVM IR of the current C source is executed symbolically (memory, reference counts and error '
          'paths modelled); assertions are discharged by z3 within the stated bounds. Trusts clang -O0 IR, the '
          'IR interpreter, the model of the CPython/NumPy C API and real arithmetic in place of doubles.')
C_PROPS = ('C12', 'C13', 'C14')
REASONS = {
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as fp:
        props = [json.loads(line)['id'] for line in fp]
    checks, na = [], []
    for pid in props:
        m = pid.lower()
        if os.path.exists(os.path.join(HERE, 'props', m + '.py')) and pid not in REASONS:
            checks.append({
                'property': pid, 'quick_cmd': './check.sh %s quick' % pid,
                'thorough_cmd': './check.sh %s thorough' % pid,
                'evidence_file': 'evidence/%s.json' % pid,
                'technique': TECH_C if pid in C_PROPS else TECH, 'level': 'model_checking',
                'level_note': (NOTE_C if pid in C_PROPS else NOTE).format(m=m)})
        else:
            na.append({'property': pid, 'reason': REASONS.get(pid, 'check not built yet')})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, fp, indent=1)
        fp.write('\n')
    print(len(checks), 'claimed,', len(na), 'not applicable')


if __name__ == '__main__':
    main()
