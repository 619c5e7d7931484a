"""Functions of the package no check encodes (from the evidence of the last runs)."""
import ast, glob, json, os
R = os.environ.get('VERIF_REPO', '/repo')
seen = set()
for f in glob.glob('/verif/evidence/C*.json'):
    seen |= set(json.load(open(f))['coverage'].get('functions_encoded', []))
for p in sorted(glob.glob(R + '/starwinds_magnetogram/**/*.py', recursive=True)):
    rel = os.path.relpath(p, R)

    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = pre + c.name
                if isinstance(c, ast.FunctionDef) and not any(s.split(':')[0] == rel and s.split(':')[1].split('.')[-1] == c.name for s in seen):
                    print(rel, q)
                walk(c, q + '.')
            else:
                walk(c, pre)
    walk(ast.parse(open(p).read()), '')
