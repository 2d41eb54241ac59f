"""Records the local variables of the functions under contract (run when contracts are written)."""
import json, os, sys, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(here, 'vc'), os.path.join(here, 'contracts')]
import ast, names
out = {}
src = sys.argv[1] if len(sys.argv) > 1 else '/repo/qosy'
for f in sorted(os.listdir(src)):
    if f.endswith('.py'):
        t = ast.parse(open(os.path.join(src, f)).read())

        def walk(body, pre):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    out['{}.{}{}'.format(f[:-3], pre, n.name)] = names.local_names(n)
                    walk(n.body, pre + n.name + '.')
                elif isinstance(n, ast.ClassDef):
                    walk(n.body, pre + n.name + '.')
        walk(t.body, '')
json.dump(out, open(names.FILE, 'w'), indent=0, sort_keys=True)
