"""
run.py PROP [quick|thorough]   every law of a property, in parallel worker processes
run.py --replay FILE           one saved case
exit 0: held on everything explored; 1 + VIOLATION line: broken; 2: the check itself failed
"""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from vpbt import core


def lawnames(prop):
    """law names without importing the code under test in this process"""
    path = os.path.join(core.HERE, 'vpbt', 'laws', prop.lower() + '.py')
    with open(path, encoding='utf-8') as f:
        src = f.read()
    return re.findall(r"^@law\(.*?^def (\w+)\(", src, flags=re.S | re.M)


def replay(path):
    with open(path, encoding='utf-8') as f:
        d = json.load(f)
    importlib.import_module(f'vpbt.laws.{d["property"].lower()}')
    law = [x for x in core.REGISTRY[d['property']] if x.name == d['law']][0]
    try:
        core.run_case(law, d['case'], d.get('tier', 'quick'))
    except core.Violation as e:
        print(e)
        print(f'VIOLATION property={d["property"]} replay={path}')
        return 1
    print('held')
    return 0


def hangs(out):
    """one generated case without an answer for much longer than the alarm inside the worker allows"""
    try:
        return time.time() - os.stat(out + '.case').st_mtime > core.CASE_SECONDS + 120
    except OSError:
        return False


def died(n, out, code, tail):
    """a crash (signal other than the memory guard's) or a hang on a generated case is a violation by that case"""
    msg = f'worker died with {code}: {tail}' if code is not None else 'no answer: the call does not return'
    if code is None or (code < 0 and code not in (-9, -15, -2)):
        try:
            with open(out + '.case', encoding='utf-8') as f:
                return dict(law=n, violation=dict(case=json.load(f), message=msg, source='crash'))
        except (OSError, ValueError):
            pass
    return dict(law=n, error=msg)


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'vpbt_{prop}_')
    env = dict(os.environ, VPBT_SCRATCH=scratch, MPLCONFIGDIR=os.path.join(scratch, 'mpl'), TMPDIR=scratch,
               VERIF_SEED=str(seed), VERIF_TIER=tier, HOME=scratch)
    os.makedirs(env['MPLCONFIGDIR'])
    evdir = os.path.join(core.HERE, 'evidence')
    os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
    names = [n for n in lawnames(prop) if only is None or n in only]
    if not names:
        print('no laws')
        return 2
    limit = float(os.environ.get('VPBT_LIMIT', '800' if tier == 'quick' else '0'))
    njobs = int(os.environ.get('VPBT_JOBS', '8'))
    pending, running, results, starts = list(names), {}, {}, {}
    try:
        while pending or running:
            while pending and len(running) < njobs:
                n = pending.pop(0)
                out = os.path.join(scratch, n + '.json')
                err = open(os.path.join(scratch, n + '.err'), 'wb')
                starts[n] = starts.get(n, 0) + 1
                own = os.path.join(scratch, f'w{names.index(n)}_{starts[n]}')  # the MPI library keeps files there: not shared between workers
                os.makedirs(own)
                p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'vpbt.worker', prop, n, tier, str(seed), out],
                                     cwd=core.HERE, env=dict(env, VPBT_CASE=out + '.case', TMPDIR=own, VPBT_SCRATCH=own), stdout=err, stderr=err,
                                     stdin=subprocess.DEVNULL)
                running[n] = (p, out)
            for n, (p, out) in list(running.items()):
                if p.poll() is not None:
                    if os.path.exists(out):
                        with open(out, encoding='utf-8') as f:
                            results[n] = json.load(f)
                    else:
                        with open(os.path.join(scratch, n + '.err'), 'rb') as f:
                            tail = f.read()[-3000:].decode('utf-8', 'replace')
                        if 'MPI_INIT' in tail and not os.path.exists(out + '.case') and starts[n] < 4:
                            pending.append(n)  # the MPI library could not start: nothing of the code has run
                        else:
                            results[n] = died(n, out, p.returncode, tail)
                    del running[n]
                elif hangs(out):
                    p.kill()
                    p.wait()
                    results[n] = died(n, out, None, '')
                    del running[n]
            if limit and time.time() - t0 > limit:
                for n in list(running) + pending:
                    results[n] = dict(law=n, evaluations=0, capped=True, unfinished=True)
                break
            time.sleep(0.03)
    finally:
        for n, (p, out) in running.items():
            p.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    errors, violations, known = [], [], {}
    unfinished = [n for n in names if results[n].get('unfinished')]
    per_law, samples = [], []
    ev = nt = 0
    for n in names:
        r = results[n]
        if r.get('error'):
            errors.append((n, r['error']))
        if r.get('violation'):
            v = r['violation']
            key = core.case_key(dict(l=n, c=v['case']))[:10]
            path = os.path.join(evdir, 'replays', f'{prop}-{n}-{key}.json')
            with open(path, 'w', encoding='utf-8') as f:
                json.dump(dict(property=prop, law=n, tier=tier, seed=seed, case=v['case'], message=v['message'],
                               source=v['source']), f, indent=1, default=str)
            violations.append((n, path, v))
        known.update(r.get('known') or {})
        ev += r.get('evaluations', 0)
        nt += r.get('distinct_nontrivial', 0)
        per_law.append({k: r.get(k) for k in ('law', 'rule', 'evaluations', 'nontrivial', 'distinct_nontrivial', 'labels',
                                              'regressions', 'capped') if r.get(k) is not None})
        for s in (r.get('samples') or [])[:2]:
            samples.append(dict(law=n, case=s))
    evidence = dict(property=prop, tier=tier, seed=seed, level='exploration',
                    coverage=dict(evaluations=ev, distinct_nontrivial=nt,
                                  rule='cases are drawn by Hypothesis from the strategy of each law; a case counts as '
                                       'non-trivial by the rule given per law under "laws" and is distinct by its JSON',
                                  samples=samples, laws=per_law, inconclusive=[n for n, _ in errors] + unfinished),
                    assumptions=['float64 rounding within the tolerances written in the laws',
                                 'generated inputs are those the code documents or its callers produce (DESIGN.md)'],
                    wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(evdir, prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1, default=str)
    for fid, msg in sorted(known.items()):
        print(f'KNOWN-FINDING: property={prop} {fid}: {msg.splitlines()[0]}')
    for n, path, v in violations:
        print(f'--- {prop}.{n}: {v["message"]}\n    case: {json.dumps(v["case"], default=str)[:1500]}')
        print(f'VIOLATION property={prop} replay={path}')
    for n, e in errors:
        print(f'ERROR in law {n}: {e}')
    print(f'{prop} {tier} seed={seed}: {ev} cases, {nt} distinct non-trivial, {len(violations)} violations, '
          f'{len(errors)} errors, {time.time() - t0:.1f}s')
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == '__main__':
    sys.exit(main())
