"""Writes properties.jsonl and MANIFEST.json from table.py.  python3 tools/meta.py"""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import table
root = os.path.dirname(here)
SM = 'starwinds_magnetogram/'
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for id, p in sorted(table.P.items()):
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(
            id=id, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=[SM + x for x in p['files']],
                         mechanism=[dict(name=a, where=SM + b) for a, b in p['mech']]))) + '\n')
checks = []
for id, p in sorted(table.P.items()):
    if id in table.NOT_APPLICABLE:
        continue
    checks.append(dict(
        property=id, quick_cmd='./check %s --tier quick' % id, thorough_cmd='./check %s --tier thorough' % id,
        technique='symbolic execution of the real Python source, obligations decided by z3, counterexamples replayed on the real code',
        level='model_checking',
        level_note='Bounds: %s. Holds for all values within these bounds. Assumes exact real arithmetic (tolerance 1e-9 relative) and the '
                   'contracts of numpy/scipy functions in symx, which setup and replayed traces validate.' % p['note']))
man = dict(version=1, setup_cmd='./check --setup', checks=checks,
           not_applicable=[dict(property=k, reason=v) for k, v in sorted(table.NOT_APPLICABLE.items())],
           notes='Engine in symx/, harnesses in props/ (one file per property), table of properties in tools/table.py.')
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
