"""Writes DESIGN.md out of tools/design_head.md, the notes and the check modules (run by hand)."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from design_notes import NOTES


def main():
    out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '', '## 7. The properties one by one', '']
    plants = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        plants.setdefault(m['property'], []).append(os.path.basename(os.path.dirname(f)))
    costs = json.load(open(os.path.join(HERE, 'tools', 'costs.json')))
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        pid = p['id']
        tree = ast.parse(open(os.path.join(HERE, 'props', pid.lower() + '.py')).read())
        consts, harnesses = {}, []
        for n in tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                if n.targets[0].id in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
                    consts[n.targets[0].id] = ast.literal_eval(n.value)
            if isinstance(n, ast.FunctionDef) and any('harness' in ast.unparse(d) for d in n.decorator_list):
                doc = ast.get_docstring(n)
                harnesses.append('`%s`%s' % (n.name, ' (%s)' % doc.split('\n')[0].rstrip('.') if doc else ''))
        out += ['### %s %s' % (pid, p['title']), '', NOTES[pid], '',
                '- Anchors: ' + ', '.join('`%s`' % a for a in p['anchors']['files']),
                '- Harnesses (`props/%s.py`): %s' % (pid.lower(), '; '.join(harnesses)),
                '- Bounds: ' + consts['BOUNDS'], '- Outside: ' + consts['OUTSIDE']]
        if consts.get('ASSUMPTIONS'):
            out.append('- Assumed: ' + '; '.join(consts['ASSUMPTIONS']))
        c = costs.get(pid, {})
        out.append('- Cost: quick about %s s, thorough about %s s (8 cores)' % (c.get('quick', '?'), c.get('thorough', '?')))
        out.append('- Planted bugs caught: ' + (', '.join(plants.get(pid, [])) or 'none planted yet'))
        out.append('')
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as fp:
        fp.write('\n'.join(out).rstrip() + '\n')


if __name__ == '__main__':
    main()
