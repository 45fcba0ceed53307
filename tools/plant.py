"""Makes a planted bug from a spec and confirms it in a scratch copy.

    python tools/plant.py SPEC.py [ID ...]

SPEC defines BUGS = [dict(id, prop, file, edits=[(old, new)], needs, breaks,
demo)].  Writes seeded/<id>/ when the changed tree builds, passes the tests,
and the demonstration tells the two trees apart; then runs the property's
check on the scratch copy and says whether it is caught."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; run with the repository as cwd
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def run(cmd, cwd, env=None, **kw):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.pop('VERIF_TIER', None)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def base_lines(path):
    base = run(['git', 'rev-list', '--max-parents=0', 'HEAD'],
               '/repo').stdout.split()[0]
    t = run(['git', 'show', '%s:%s' % (base, path)], '/repo').stdout
    return set(x.strip() for x in t.splitlines())


def plant(b):
    sc = '/tmp/w/sc-' + b['id']
    shutil.rmtree(sc, ignore_errors=True)
    run(['git', 'clone', '-q', '/repo', sc], '/')
    try:
        for f, old, new in b['edits']:
            p = os.path.join(sc, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit matches %d times in %s' % (s.count(old), f)
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], sc).stdout
        fname, orig = None, False
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                fname = base_lines(line[6:])
            elif line.startswith('-') and line[1:].strip():
                orig = orig or line[1:].strip() in fname
        if not orig:
            return 'changes no original line'
        r = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x',
                 'verktyg/testsuite'], sc,
                {'PYTHONPATH': sc, 'TZ': 'UTC', 'PYTHONHASHSEED': '0'})
        if r.returncode:
            return 'TESTS FAIL\n' + r.stdout[-1500:]
        if '241 passed' not in r.stdout:
            return 'tests?\n' + r.stdout[-300:]
        out = os.path.join(HERE, 'seeded', b['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        demo = os.path.join(out, 'demo.sh')
        good = run(['bash', demo], '/repo', timeout=300)
        bad = run(['bash', demo], sc, timeout=300)
        if good.returncode or not bad.returncode:
            keep = '/tmp/w/bad-demo-' + b['id']
            shutil.rmtree(keep, ignore_errors=True)
            shutil.move(out, keep)
            return 'DEMO: clean %d, patched %d\n%s\n--\n%s' % (
                good.returncode, bad.returncode, good.stdout[-800:],
                bad.stdout[-800:])
        r = run(['bash', 'run.sh', b['prop'], 'quick'], HERE,
                {'VERIF_REPO': sc, 'VERIF_SEED': '1'})
        if r.returncode == 1 and 'VIOLATION property=' + b['prop'] in r.stdout:
            kinds = [x for x in r.stdout.splitlines() if 'kind:' in x][:2]
            return 'CAUGHT ' + ' '.join(k.strip() for k in kinds)
        return 'MISSED rc=%d %s' % (r.returncode, r.stdout[-600:])
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns['BUGS']:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]:
            continue
        print(b['id'], b['prop'], plant(b), flush=True)


if __name__ == '__main__':
    main()
