#!/usr/bin/python3
"""matrix.py [--jobs J]: runs every planted bug under /verif/seeded against
the check of its property, on scratch copies, and writes
tools/seeds/results.json (seed -> property, what it breaks, first violation).
Development aid; no check reads the seeds."""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(d):
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='matrix-')
    try:
        shutil.copytree('/repo/verktyg', tmp + '/verktyg')
        p = subprocess.run(['patch', '-sp1', '-i',
                            os.path.join(d, 'patch.diff')], cwd=tmp)
        if p.returncode:
            return os.path.basename(d), meta, None, 'does not apply'
        r = subprocess.run(
            [sys.executable, os.path.join(HERE, 'check.py'),
             meta['property']], cwd=HERE, stdout=subprocess.PIPE, text=True,
            env=dict(os.environ, VERIF_REPO=tmp, EVID=tmp,
                     PYTHONDONTWRITEBYTECODE='1'))
        first = [x.strip() for x in r.stdout.splitlines()
                 if x.startswith('  [')]
        return os.path.basename(d), meta, r.returncode, (
            first[0] if first else '')
    finally:
        shutil.rmtree(tmp)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--new', action='store_true',
                    help='only seeds not in the results yet')
    a = ap.parse_args()
    seeds = sorted(glob.glob(HERE + '/seeded/*'))
    names = {os.path.basename(d) for d in seeds}
    out = {}
    if a.new:
        out = {n: v for n, v in json.load(open(
            HERE + '/tools/seeds/results.json')).items() if n in names}
        seeds = [d for d in seeds if os.path.basename(d) not in out]
    with ThreadPoolExecutor(a.jobs) as ex:
        for n, meta, rc, first in ex.map(one, seeds):
            out[n] = {'property': meta['property'],
                      'breaks': meta['what_it_breaks'],
                      'needs': meta['needs'],
                      'caught': rc == 1, 'by': first[:150]}
            if rc != 1:
                print('not caught', n, meta['property'], rc, first)
    json.dump(out, open(HERE + '/tools/seeds/results.json', 'w'), indent=1,
              sort_keys=True)
    print(len(out), 'seeds,', sum(x['caught'] for x in out.values()),
          'caught')


main()
