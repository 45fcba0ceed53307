"""Dictionary of literals found in the code under test.

Only used to aim the workload generators (which tokens and which sizes to
try); no verdict depends on it.  Literals that the committed snapshot does not
contain are tried more often.
"""
import ast
import json
import os
import collections

REPO = os.environ.get('VERIF_REPO', '/repo')
SNAP = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'literals.json')


def _walk(root):
    for base, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d not in ('testsuite', '__pycache__'))
        for name in sorted(files):
            if name.endswith('.py'):
                yield os.path.join(base, name)


def collect(root=None):
    strings = collections.Counter()
    ints = collections.Counter()
    for path in _walk(root or os.path.join(REPO, 'verktyg')):
        with open(path, encoding='utf-8') as f:
            try:
                tree = ast.parse(f.read())
            except SyntaxError:
                continue
        docs = set()
        for node in ast.walk(tree):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                docs.add(id(node.value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in docs:
                v = node.value
                if isinstance(v, bytes):
                    v = v.decode('latin1')
                if isinstance(v, str):
                    if 0 < len(v) <= 40:
                        strings[v] += 1
                elif isinstance(v, int) and not isinstance(v, bool):
                    if 0 <= v <= 1 << 20:
                        ints[str(v)] += 1
    return {'strings': dict(strings), 'ints': dict(ints)}


def load():
    cur = collect()
    try:
        with open(SNAP) as f:
            snap = json.load(f)
    except (OSError, ValueError):
        snap = {'strings': {}, 'ints': {}}
    new_s = sorted(s for s, n in cur['strings'].items()
                   if n > snap['strings'].get(s, 0))
    new_i = sorted(int(s) for s, n in cur['ints'].items()
                   if n > snap['ints'].get(s, 0))
    return {
        'strings': sorted(cur['strings']),
        'ints': sorted(int(s) for s in cur['ints']),
        'new_strings': new_s,
        'new_ints': new_i,
    }


if __name__ == '__main__':
    with open(SNAP, 'w') as f:
        json.dump(collect(), f, indent=0, sort_keys=True)
        f.write('\n')
