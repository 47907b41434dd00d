"""Plant bugs: python3 tools/seed.py SPEC.py [ID ...]   (development tool)

SPEC.py defines BUGS, a list of dicts(id, property, edits=[(file, old, new)],
demo=source of demo.py, needs, breaks). Every bug is applied in a scratch copy
of /repo, where the demonstration (which must fail there and pass on /repo) and
the stable tests (which must pass) are run. Kept bugs are written to
seeded/<id>/ and the checks are run against them (QOPT_REPO).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as the property says, nonzero: it does not
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    return p.returncode, p.stdout


def stable(copy):
    with tempfile.TemporaryDirectory() as tmp:
        run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-cov',
             '--timeout=300', '-o', 'python_files=*.py',
             '-o', 'junit_family=xunit2', '--junitxml=' + tmp + '/j.xml',
             'qopt_tests', 'temp/unrefactored_integration_tests'], copy,
            dict(ENV, PYTHONPATH=copy))
        run(['python3', '/opt/vp/results.py', tmp + '/o.json',
             'junit:' + tmp + '/j.xml'], copy)
        passed = set(json.load(open(tmp + '/o.json'))['passed'])
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return base - passed


def plant(b, checks):
    with tempfile.TemporaryDirectory(prefix='qopt_seed_') as tmp:
        copy = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        dst = os.path.join(VERIF, 'seeded', b['id'])
        if 'edits' in b:
            for f, old, new in b['edits']:
                p = os.path.join(copy, f)
                s = open(p).read()
                if s.count(old) != 1:
                    return b['id'], 'edit matches %d times in %s: %r' % (
                        s.count(old), f, old)
                open(p, 'w').write(s.replace(old, new))
            patch = run(['git', 'diff'], copy)[1]
        else:
            patch = open(dst + '/patch.diff').read()
            rc, out = run(['git', 'apply', dst + '/patch.diff'], copy)
            if rc:
                return b['id'], 'does not apply ' + out
        if 'edits' in b:
            d = tmp + '/demo'
            os.mkdir(d)
            open(d + '/demo.sh', 'w').write(DEMO_SH)
            open(d + '/demo.py', 'w').write(b['demo'])
            rc, out = run(['bash', d + '/demo.sh'], '/repo')
            if rc:
                return b['id'], 'demo fails on the unchanged tree\n' + out
            rc, out = run(['bash', d + '/demo.sh'], copy)
            if not rc:
                return b['id'], 'demo passes with the change'
            miss = stable(copy)
            if miss:
                return b['id'], 'tests fail: %s' % miss
            shutil.rmtree(dst, ignore_errors=True)
            os.makedirs(dst)
            for f in ('demo.sh', 'demo.py'):
                shutil.copy(d + '/' + f, dst)
            open(dst + '/patch.diff', 'w').write(patch)
            json.dump({'property': b['property'], 'needs': b['needs'],
                       'what_it_breaks': b['breaks']},
                      open(dst + '/meta.json', 'w'), indent=1)
        res = []
        for c in checks or [b['property']]:
            rc, out = run(['bash', VERIF + '/check.sh', c], VERIF,
                          dict(ENV, QOPT_REPO=copy, VERIF_JOBS='2',
                               VERIF_EVIDENCE=tmp, VERIF_SEED='1'))
            sub = [l for l in out.splitlines() if 'VIOLATION' in l]
            res.append('%s:%s %s' % (c, {0: 'MISSED', 1: 'caught'}.get(
                rc, 'ERROR %s\n%s' % (rc, out[-1500:])), sub[:1]))
        return b['id'], 'kept; ' + ' '.join(res)


def main():
    args = sys.argv[1:]
    checks = []
    if '--checks' in args:
        i = args.index('--checks')
        checks = args[i + 1].split(',')
        del args[i:i + 2]
    if args and args[0].endswith('.py'):
        ns = {}
        exec(open(args[0]).read(), ns)
        bugs = [b for b in ns['BUGS'] if not args[1:] or b['id'] in args[1:]]
    else:
        ids = args or sorted(os.listdir(VERIF + '/seeded'))
        bugs = [dict(json.load(open(VERIF + '/seeded/%s/meta.json' % i)),
                     id=i) for i in ids]
    with ThreadPoolExecutor(6) as ex:
        for i, msg in ex.map(lambda b: plant(b, checks), bugs):
            print(i, '->', msg, flush=True)


main()
