"""Local variables of a function in the order in which they first occur, and the renaming
between the text for which the invariants were written (contracts/locals.json) and the present
text. The names only serve to find the values that an invariant speaks about: a wrong match
makes an obligation fail, it cannot make one hold."""
import ast
import difflib
import json
import os

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'locals.json')


def local_names(node):
    out = []

    class V(ast.NodeVisitor):
        def visit_arg(self, n):
            if n.arg not in out:
                out.append(n.arg)

        def visit_Assign(self, n):
            for t in n.targets:
                self.visit(t)
            self.visit(n.value)

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
    V().visit(node)
    return out


_stored = None


def aliases(mod, qual, node):
    """{name then: name now} of the variables that were renamed."""
    global _stored
    if _stored is None:
        try:
            _stored = json.load(open(FILE))
        except OSError:
            _stored = {}
    then = _stored.get('{}.{}'.format(mod, qual))
    if then is None:
        return {}
    now = local_names(node)
    r = {}
    gone = [x for x in then if x not in now]
    new = [x for x in now if x not in then]
    if not gone or not new:
        return {}
    if len(then) == len(now):
        for x, y in zip(then, now):
            if x in gone and y in new:
                r[x] = y
    if len(gone) == len(new):
        for x, y in zip(gone, new):
            if x not in r and y not in r.values():
                r[x] = y
        return r
    for t, i1, i2, j1, j2 in difflib.SequenceMatcher(a=then, b=now, autojunk=False).get_opcodes():
        if t == 'replace':
            for x, y in zip(then[i1:i2], now[j1:j2]):
                if x in gone and y in new and x not in r and y not in r.values():
                    r[x] = y
    return r
