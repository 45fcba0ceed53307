"""Systematic mutation of /repo to find behaviour no check watches.

  mutants.py list OUT.json          enumerate mutants that pass the tests
  mutants.py run  OUT.json RES.json try the checks on each of them

Works on private copies under /tmp; nothing here is used by a check.
"""
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import multiprocessing

REPO = os.environ.get('MUT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ROOT = '/tmp/w/mut'

SWAP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE],
        ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
        ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
        ast.IsNot: [ast.Is]}
DROPCALL = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'copy', 'title',
            'encode', 'decode', 'replace', 'items', 'split', 'quote'}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                out.add(id(n.body[0].value))
    return out


def mutants(src):
    """(start, end, replacement, label) with byte offsets."""
    tree = ast.parse(src)
    data = src.encode()
    starts = [0]
    for line in data.split(b'\n'):
        starts.append(starts[-1] + len(line) + 1)

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    docs = docstrings(tree)
    out = []

    def add(n, new, label):
        a, b = span(n)
        if isinstance(new, ast.AST):
            new = ast.unparse(new)
            if isinstance(n, ast.expr):
                new = '(' + new + ')'
        out.append((a, b, new, label, n.lineno))

    import copy
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for alt in SWAP.get(type(op), ()):
                    m = copy.deepcopy(n)
                    m.ops[i] = alt()
                    add(n, m, 'cmp')
            if len(n.ops) == 1 and isinstance(n.ops[0], (
                    ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                m = copy.deepcopy(n)
                m.ops[0] = {ast.Lt: ast.GtE, ast.LtE: ast.Gt,
                            ast.Gt: ast.LtE, ast.GtE: ast.Lt}[
                                type(n.ops[0])]()
                add(n, m, 'cmp-neg')
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            add(n, m, 'bool')
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                add(n, m.values[0] if len(m.values) == 1 else m,
                    'bool-drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, n.operand, 'not')
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                add(n, repr(not v), 'const')
            elif isinstance(v, int):
                add(n, repr(v + 1), 'const')
                if v > 0:
                    add(n, repr(v - 1), 'const')
            elif v is None:
                pass
            elif isinstance(v, (str, bytes)) and len(v) and len(v) < 60 \
                    and '%' not in repr(v)[2:6]:
                add(n, repr(v[:-1]), 'str')
                if len(v) > 1:
                    add(n, repr(v[1:]), 'str')
        elif isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv,
                   ast.BitOr: ast.BitAnd}.get(type(n.op))
            if alt and not isinstance(n.left, ast.Constant) or \
                    alt and not isinstance(n.left.value, str):
                m = copy.deepcopy(n)
                m.op = alt()
                add(n, m, 'arith')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in DROPCALL and \
                    f.attr not in ('items', 'encode', 'decode', 'split'):
                add(n, f.value, 'drop-call')
            if isinstance(f, ast.Attribute):
                for a, b in (('lstrip', 'strip'), ('rstrip', 'strip'),
                             ('split', 'rsplit'), ('partition',
                                                   'rpartition'),
                             ('startswith', 'endswith'), ('append',
                                                          'extend'),
                             ('match', 'search'), ('search', 'match'),
                             ('strip', 'rstrip'), ('find', 'rfind'),
                             ('get', '__getitem__'), ('rsplit', 'split')):
                    if f.attr == a:
                        m = copy.deepcopy(n)
                        m.func.attr = b
                        add(n, m, 'swap-call')
            for i in range(len(n.keywords)):
                m = copy.deepcopy(n)
                del m.keywords[i]
                add(n, m, 'drop-kw')
            if len(n.args) > 1:
                m = copy.deepcopy(n)
                m.args.pop()
                add(n, m, 'drop-arg')
        elif isinstance(n, ast.IfExp):
            add(n, n.body, 'ifexp')
            add(n, n.orelse, 'ifexp')
        elif isinstance(n, ast.If):
            add(n.test, 'not (%s)' % ast.unparse(n.test), 'if-neg')
            if not (isinstance(n.test, ast.Constant)):
                add(n.test, 'False', 'if-false')
                add(n.test, 'True', 'if-true')
        elif isinstance(n, ast.ExceptHandler) and isinstance(
                n.type, ast.Tuple):
            for i in range(len(n.type.elts)):
                m = copy.deepcopy(n.type)
                del m.elts[i]
                add(n.type, m, 'except')
        elif isinstance(n, ast.Continue):
            add(n, 'break', 'continue')
        elif isinstance(n, ast.Break):
            add(n, 'continue', 'break')
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant) and
                    n.value.value is None):
                add(n, 'return None', 'return')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                          ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            add(n, 'pass', 'drop-stmt')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            m = copy.deepcopy(n)
            if m.slice.lower is not None:
                m.slice.lower = None
                add(n, m, 'slice')
            m = copy.deepcopy(n)
            if m.slice.upper is not None:
                m.slice.upper = None
                add(n, m, 'slice')
    return out


def apply(src, m):
    data = src.encode()
    return (data[:m[0]] + m[2].encode() + data[m[1]:]).decode()


def worker_dir():
    i = multiprocessing.current_process()._identity[0]
    d = os.path.join(ROOT, 'w%d' % i)
    if not os.path.exists(d):
        os.makedirs(d)
        shutil.copytree(REPO, d + '/repo',
                        ignore=shutil.ignore_patterns('.git', '__pycache__'))
        shutil.copytree(VERIF, d + '/verif', ignore=shutil.ignore_patterns(
            '.git', '__pycache__', 'seeded', 'evidence'))
        p = d + '/verif/vf/engine.py'
        s = open(p).read()
        s = re.sub(r'^WORKERS = \d+', 'WORKERS = 1', s, flags=re.M)
        s = re.sub(r"'quick': 3,", "'quick': %s," % os.environ.get(
            'MUT_SCALE', '1'), s)
        s = s.replace('CASE_CPU_S = 40', 'CASE_CPU_S = 15')
        open(p, 'w').write(s)
    return d


ENV = dict(os.environ, PYTHONHASHSEED='0', TZ='UTC',
           PYTHONDONTWRITEBYTECODE='1', PIP_NO_INDEX='1')


def test_one(job):
    rel, m = job
    d = worker_dir()
    p = os.path.join(d, 'repo', rel)
    src = open(os.path.join(REPO, rel)).read()
    try:
        new = apply(src, m)
        if new == src:
            return None
        compile(new, rel, 'exec')
    except SyntaxError:
        return None
    open(p, 'w').write(new)
    try:
        try:
            r = subprocess.run(
                ['timeout', '40', PY, '-m', 'pytest', '-q', '-x', '-p',
                 'no:cacheprovider', 'verktyg/testsuite'],
                cwd=d + '/repo', env=ENV, capture_output=True, timeout=60)
            ok = r.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
    finally:
        open(p, 'w').write(src)
    return job if ok else None


def run_checks(job):
    rel, m, props = job
    d = worker_dir()
    p = os.path.join(d, 'repo', rel)
    src = open(os.path.join(REPO, rel)).read()
    open(p, 'w').write(apply(src, m))
    out = None
    tried = []
    try:
        for prop in props:
            try:
                r = subprocess.run(
                    ['timeout', '-k', '5', '300', 'bash', 'run.sh', prop,
                     'quick'], cwd=d + '/verif',
                    env=dict(ENV, VERIF_REPO=d + '/repo', VERIF_CAP_S='200'),
                    capture_output=True, timeout=400)
                rc, o = r.returncode, r.stdout.decode(errors='replace')
            except subprocess.TimeoutExpired:
                rc, o = 99, ''
            tried.append((prop, rc))
            if rc == 1 and 'VIOLATION property=%s' % prop in o:
                k = re.search(r'kind: (.*)', o)
                out = (prop, k.group(1) if k else '')
                break
    finally:
        open(p, 'w').write(src)
    return rel, m, out, tried


def main(argv):
    what = argv[0]
    if what == 'list':
        jobs = []
        files = argv[2:] or sorted(
            os.path.relpath(f, REPO) for f in
            glob.glob(REPO + '/verktyg/**/*.py', recursive=True)
            if 'testsuite' not in f)
        for rel in files:
            src = open(os.path.join(REPO, rel)).read()
            for m in mutants(src):
                jobs.append((rel, m))
        print(len(jobs), 'mutants', flush=True)
        ok = []
        with multiprocessing.Pool(int(os.environ.get('MUT_N', '8'))) as pool:
            for i, r in enumerate(pool.imap_unordered(test_one, jobs, 4)):
                if r:
                    ok.append(r)
                if i % 500 == 0:
                    print(i, len(ok), flush=True)
        json.dump(ok, open(argv[1], 'w'))
        print(len(ok), 'pass the tests')
    else:
        ok = json.load(open(argv[1]))
        lines = json.load(open(os.path.join(ROOT, 'lines.json')))
        res = []
        jobs = []
        only = os.environ.get('MUT_PROPS')
        for rel, m in ok:
            f = rel[len('verktyg/'):]
            data = open(os.path.join(REPO, rel)).read().encode()
            l1 = m[4]
            l2 = l1 + data[m[0]:m[1]].count(b'\n')
            props = []
            for prop, d in lines.items():
                mine = set(d['lines'].get(f, ()))
                if mine & set(range(l1, l2 + 1)):
                    props.append((len(mine) and 0, d['cost'], prop))
            if not props:
                for prop, d in lines.items():
                    if d['lines'].get(f):
                        props.append((1, d['cost'], prop))
            props = [x[2] for x in sorted(props)]
            if only:
                props = [x for x in props if x in only.split(',')]
            jobs.append((rel, m, props))
        random.Random(1).shuffle(jobs)
        with multiprocessing.Pool(int(os.environ.get('MUT_N', '8'))) as pool:
            for i, r in enumerate(pool.imap_unordered(run_checks, jobs, 1)):
                res.append(r)
                if i % 50 == 0:
                    print(i, len(jobs), sum(1 for x in res if not x[2]),
                          flush=True)
                    json.dump(res, open(argv[2], 'w'))
        json.dump(res, open(argv[2], 'w'))
        print(len(res), 'run', sum(1 for x in res if not x[2]), 'missed')


if __name__ == '__main__':
    main(sys.argv[1:])
