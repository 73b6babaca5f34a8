#!/bin/bash
# lists the lines changed by planted bugs which are not lines of the original repository
for f in /verif/seeded/*/patch.diff; do python3 - $f <<'P'
import sys, re, subprocess
f = sys.argv[1]
path, n = None, 0
for l in open(f):
    if l.startswith('--- a/'):
        path = l[6:].strip()
    m = re.match(r'@@ -(\d+)', l)
    if m:
        n = int(m[1])
    elif path and l[0] == '-' and not l.startswith('---'):
        b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-L%d,%d' % (n, n), 'HEAD', '--', path], text=True)
        if b[0] != '^':
            print(f.split('/')[-2], b[:9], l.strip()[:70])
        n += 1
    elif path and l[0] == ' ':
        n += 1
P
done
