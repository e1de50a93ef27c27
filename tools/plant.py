#!/opt/venv/bin/python
"""Materialise and confirm planted bugs (development aid; no check uses it).

usage: plant.py SPEC.py [ID ...]      SPEC defines BUGS: id -> dict(prop, file, edits=[(old,new)..], demo, needs, breaks, checks)
For each bug: scratch copy of /repo under /tmp, apply edits, build patch.diff, run the repository's stable tests in the
copy, run the demo on both trees, run the checks listed (VERIF_REPO=copy), print one line, delete the copy.
"""
import sys, os, subprocess, json, shutil, tempfile, runpy, re
from concurrent.futures import ThreadPoolExecutor
SEED = '/verif/seeded'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', NUMBA_NUM_THREADS='1')
DEMO_SH = '#!/bin/bash\ncd "${PWD}"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'

def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, '', 'TIMEOUT')

def stable_fail(cp):
    xml = os.path.join(cp, '.junit.xml')
    sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-n', '4',
        '--continue-on-collection-errors', '--ignore=examples/test_GTO2GEO_caseB.py', '--ignore=examples/test_GTO2GEO_perturbed.py',
        'tests', 'examples', '--junitxml=' + xml], cp, dict(ENV, PYTHONPATH=cp))
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(xml).getroot().iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
            ok.add(tc.get('classname') + '::' + tc.get('name'))
    return sorted(STABLE - ok)

def one(bid, b):
    d = os.path.join(SEED, bid); os.makedirs(d, exist_ok=True)
    cp = tempfile.mkdtemp(prefix='plant_%s_' % bid)
    subprocess.run(['cp', '-a', '/repo/.', cp], check=True)
    out = []
    try:
        for (fn, old, new) in b['edits']:
            p = os.path.join(cp, fn); s = open(p).read()
            n = s.count(old)
            if n != 1:
                return bid, 'EDIT-ERROR %s: %d matches of %r' % (fn, n, old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], cp).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        # only original lines changed?
        removed = blame_added(cp, diff)
        r0 = sh(['bash', d + '/demo.sh'], '/repo', timeout=300); r1 = sh(['bash', d + '/demo.sh'], cp, timeout=300)
        out.append('demo %d/%d' % (r0.returncode, r1.returncode))
        if r0.returncode != 0: out.append('DEMO-BAD-CLEAN ' + (r0.stdout + r0.stderr)[-300:])
        if r1.returncode == 0: out.append('DEMO-NOT-FAILING ' + r1.stdout[-200:])
        if removed: out.append('NON-ORIGINAL lines touched: %s' % removed)
        f = stable_fail(cp)
        out.append('stable ok' if not f else 'STABLE-FAIL %s' % f)
        for c in b.get('checks') or [b['prop']]:
            r = sh(['bash', '/verif/check.sh', c, 'quick'] if not CHK else CHK + [c], '/verif',
                   dict(ENV, VERIF_REPO=cp, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick', VERIF_EVIDENCE=cp))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('%s rc=%d %s' % (c, r.returncode, 'CAUGHT' if v and r.returncode == 1 else 'MISSED ' + (r.stdout + r.stderr)[-200:]))
    finally:
        shutil.rmtree(cp)
    return bid, ' | '.join(out)

def blame_added(cp, diff):
    """lines removed by the patch that are not in the base commit"""
    bad = []
    fn = None
    for l in diff.splitlines():
        if l.startswith('--- '): fn = l[6:]
        elif l.startswith('-') and fn and l[1:].strip():
            base = subprocess.run(['git', 'show', '161d1f2:' + fn], cwd='/repo', capture_output=True, text=True).stdout.splitlines()
            if l[1:] not in base: bad.append(l[1:].strip()[:50])
    return bad

CHK = None
if __name__ == '__main__':
    spec = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:] or list(spec)
    with ThreadPoolExecutor(int(os.environ.get('PJ', '2'))) as ex:
        for bid, msg in ex.map(lambda i: one(i, spec[i]), ids):
            print(bid, '::', msg, flush=True)
