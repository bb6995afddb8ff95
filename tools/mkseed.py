#!/usr/bin/python3
"""mkseed.py [--check] [ID...]: build /verif/seeded/<ID> from tools/seeds/*.py

Each spec file defines SEEDS = [dict(id, property, edits=[(file, old, new)],
demo=python text, needs, breaks)].  Every bug is confirmed in a scratch copy:
the stable tests pass with it, the demo passes without and fails with it.
--check also runs the property's check against the patched copy.
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           TZ='UTC')
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def load():
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
        spec = importlib.util.spec_from_file_location('s', p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.SEEDS
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, env=ENV, **kw)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b


def one(s, do_check):
    work = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    repo = os.path.join(work, 'repo')
    try:
        sh(['git', '-C', '/repo', 'worktree', 'prune'])
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns(
            '__pycache__'))
        dst = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(dst, exist_ok=True)
        with open(os.path.join(dst, 'demo.py'), 'w') as f:
            f.write(s['demo'].lstrip())
        with open(os.path.join(dst, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
        r = sh(['bash', os.path.join(dst, 'demo.sh')], cwd=repo)
        if r.returncode:
            return 'DEMO FAILS ON CLEAN TREE\n' + r.stdout + r.stderr
        for fn, old, new in s['edits']:
            p = os.path.join(repo, fn)
            t = open(p).read()
            if t.count(old) != 1:
                return 'edit matches %d times: %r' % (t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        d = sh(['git', '-C', repo, 'diff']).stdout
        r = sh(['bash', os.path.join(dst, 'demo.sh')], cwd=repo)
        if r.returncode == 0:
            return 'DEMO PASSES WITH BUG'
        r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
                'no:cacheprovider', 'verktyg/testsuite', '--timeout=120'],
               cwd=repo)
        if r.returncode and '--allow' not in sys.argv:
            return 'TESTS FAIL\n' + r.stdout[-200:]
        open(os.path.join(dst, 'patch.diff'), 'w').write(d)
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        res = 'ok'
        if do_check:
            e = dict(ENV, VERIF_REPO=repo, EVID=work)
            pid = s['property']
            r = subprocess.run(['/usr/bin/python3', 'check.py', pid],
                               cwd=HERE, capture_output=True, text=True,
                               env=e)
            res += ' check exit=%d %s' % (
                r.returncode, (r.stdout + r.stderr).strip().split('\n')[0]
                [:150])
            if r.returncode == 0:
                res = 'MISSED ' + res
        return res
    finally:
        shutil.rmtree(work)


def main():
    args = sys.argv[1:]
    do_check = '--check' in args
    ids = [a for a in args if not a.startswith('--')]
    from concurrent.futures import ThreadPoolExecutor
    ss = [s for s in load() if not ids or s['id'] in ids or
          s['property'] in ids]
    with ThreadPoolExecutor(4) as ex:
        for s, r in zip(ss, ex.map(lambda s: one(s, do_check), ss)):
            print(s['id'], s['property'], r)


main()
