#!/usr/bin/env python3
"""bugs.py new FILE.py | check ID... | all      (development tool: plants bugs in scratch copies of /repo, never in /repo)

FILE.py defines BUGS = [dict(id, property, file, edits=[(old, new), ...], needs, breaks, demo='python source')].
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1',
           MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
           OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_pml='ob1',
           OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_plm='isolated', OMPI_MCA_hwloc_base_binding_policy='none')
DEMO_SH = '''#!/bin/bash
# run with cwd /repo; exit 0: the property's demonstration holds, nonzero: broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONPATH="$PWD/src"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_plm=isolated OMPI_MCA_hwloc_base_binding_policy=none
D=$(mktemp -d); export MPLCONFIGDIR=$D SCRATCH=$D
H=$(cd "$(dirname "$0")" && pwd)
/opt/venv/bin/python -W ignore "$H/demo.py" > $D/out 2>&1; R=$?
tail -5 $D/out
[ -n "$D" ] && rm -rf "$D"
exit $R
'''


def copy():
    d = tempfile.mkdtemp(prefix='bug_')
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    return d


def demo(bid, repo):
    return subprocess.run(['bash', f'{HERE}/seeded/{bid}/demo.sh'], cwd=repo, env=ENV, capture_output=True, text=True, timeout=300)


def stable(repo):
    out = tempfile.mkdtemp(prefix='bugt_')
    env = dict(ENV, PYTHONPATH=f'{repo}/src:/opt/vp/plugin', PYTHONHASHSEED='0', MPLCONFIGDIR=out)
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_dgapy', '-n', '6', '-W', 'ignore',
                    '--tb=no', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', f'--junitxml={out}/j.xml', 'tests'], cwd=repo, env=env,
                   capture_output=True)
    subprocess.run(['python3', '/opt/vp/results.py', f'{out}/o.json', f'junit:{out}/j.xml'], cwd=repo, capture_output=True)
    r = json.load(open(f'{out}/o.json'))
    want = [x.replace('::', '::') for x in STABLE['stable']]
    missing = sorted(set(want) - set(r['passed']))
    shutil.rmtree(out)
    return missing


def check(bid, repo, prop):
    env = dict(os.environ, DGA_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick')
    p = subprocess.run([f'{HERE}/run.sh', prop, 'quick'], env=env, capture_output=True, text=True, timeout=900)
    return p


def new(b):
    bid = b['id']
    sd = f'{HERE}/seeded/{bid}'
    d = copy()
    repo = d + '/repo'
    try:
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo, check=True)
        for e in b['edits']:
            f, old, new_ = e if len(e) == 3 else (b['file'],) + tuple(e)
            path = f'{repo}/src/dga/{f}' if '/' not in f else f'{repo}/{f}'
            s = open(path).read()
            if s.count(old) != 1:
                print(bid, f'old text occurs {s.count(old)} times:', old)
                return False
            open(path, 'w').write(s.replace(old, new_))
        patch = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True, check=True).stdout
        os.makedirs(sd, exist_ok=True)
        open(sd + '/patch.diff', 'w').write(patch)
        open(sd + '/demo.py', 'w').write(b['demo'])
        open(sd + '/demo.sh', 'w').write(DEMO_SH)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(sd + '/meta.json', 'w'), indent=1)
        clean = demo(bid, '/repo')
        bad = demo(bid, repo)
        miss = stable(repo)
        ok = clean.returncode == 0 and bad.returncode != 0 and not miss
        c = check(bid, repo, b['property'])
        verdict = 'CAUGHT' if c.returncode == 1 and f'VIOLATION property={b["property"]}' in c.stdout else f'missed({c.returncode})'
        print(f'{bid}: valid={ok} clean={clean.returncode} patched={bad.returncode} tests_missing={miss} {verdict}', flush=True)
        if not ok:
            print(clean.stdout[-600:], bad.stdout[-600:])
        for line in c.stdout.splitlines():
            if line.startswith('---') or line.startswith('ERROR'):
                print('    ', line[:230])
        return ok
    finally:
        shutil.rmtree(d)


def recheck(bid):
    meta = json.load(open(f'{HERE}/seeded/{bid}/meta.json'))
    d = copy()
    repo = d + '/repo'
    try:
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo, check=True)
        p = subprocess.run(['git', 'apply', f'{HERE}/seeded/{bid}/patch.diff'], cwd=repo, capture_output=True, text=True)
        if p.returncode:
            print(bid, 'patch does not apply', p.stderr[:300])
            return
        c = check(bid, repo, meta['property'])
        verdict = 'CAUGHT' if c.returncode == 1 else f'missed({c.returncode})'
        laws = [x.split(':')[0].replace('--- ', '') for x in c.stdout.splitlines() if x.startswith('---')]
        print(f'{bid} [{meta["property"]}]: {verdict} {laws}', flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        for b in runpy.run_path(sys.argv[2])['BUGS']:
            if len(sys.argv) > 3 and b['id'] not in sys.argv[3:]:
                continue
            new(b)
    elif sys.argv[1] == 'check':
        for i in sys.argv[2:]:
            recheck(i)
    else:
        for i in sorted(os.listdir(HERE + '/seeded')):
            recheck(i)
