"""Writes DESIGN.md from design_head.md, the table, the bounds of the harnesses and design_tail.md.  Run with python3-vt or /opt/venv."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [here, root]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import table, oracle_notes
from symx import harness
out = [open(os.path.join(here, 'design_head.md')).read()]
for id, p in sorted(table.P.items()):
    importlib.import_module('props.' + id)
    text, cost = oracle_notes.O[id]
    out.append('### %s %s\n\n%s\n\n- Over: %s. Beyond the tests: %s\n- Encoded: %s (and what they call).\n- Oracle: %s.\n- Cost of the quick check: about %d s.\n- Bounds:\n%s\n' % (
        id, p['title'], p['statement'], p['text'], p['why'], '; '.join(b for a, b in p['mech']), text, cost,
        '\n'.join('  - `%s`: %s' % (h.name, h.bounds) for h in harness.REGISTRY[id])))
out.append(open(os.path.join(here, 'design_tail.md')).read())
import glob, json
missed = json.load(open(os.path.join(here, 'missed_at_first.json')))
out.append('| change | caught by | what it breaks | needs | at first |\n|---|---|---|---|---|\n' + ''.join(
    '| %s | %s | %s | %s | %s |\n' % (n, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), missed.get(n, 'caught'))
    for n, m in ((os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))))))
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
