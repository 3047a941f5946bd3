"""plant bugs: python3 tools/seed.py SPEC.py ... ; SPEC defines ID, PROP, FILE, OLD, NEW (or EDITS), NEEDS, BREAKS, DEMO.
Confirms each in a scratch copy and keeps it in /verif/seeded/<ID>."""
import sys, os, subprocess, shutil, json, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'd2966e5'
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', json.load(open('/opt/vp/BASELINE.json')).get('passing', [])) or [])


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    edits = ns.get('EDITS') or [(ns['FILE'], ns['OLD'], ns['NEW'])]
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp'); r = d + '/repo'
    try:
        subprocess.check_call(['cp', '-a', '/repo', r])
        for f, o, n in edits:
            s = open(r + '/' + f).read()
            if s.count(o) != 1: return 'OLD text found %d times in %s' % (s.count(o), f)
            i = s[:s.index(o)].count('\n') + 1; k = o.rstrip('\n').count('\n')
            bl = sh('git -C %s blame -s -L%d,%d %s' % (r, i, i + k, f)).stdout
            oth = [l for l in bl.splitlines() if not l.startswith('^' + BASE) and not l.startswith(BASE)]
            if oth: print('   note: lines of later commits: %s' % oth)
            open(r + '/' + f, 'w').write(s.replace(o, n))
        diff = sh('git -C %s diff' % r).stdout
        out = H + '/seeded/' + ns['ID']
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(ns['DEMO'].strip() + '\n')
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % out, cwd='/repo'); b = sh('bash %s/demo.sh' % out, cwd=r)
        t = sh("cd %s && PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -W ignore -o python_files='*_tests.py *_test.py test_*.py' paramz/tests 2>&1 | tail -12" % (r, r))
        res = 'demo clean rc=%d, patched rc=%d; tests: %s' % (a.returncode, b.returncode, t.stdout.strip().splitlines()[-1])
        ok = a.returncode == 0 and b.returncode != 0 and t.stdout.strip().splitlines()[-1].startswith('3 failed') and 'error' not in t.stdout.splitlines()[-1]
        if not ok:
            shutil.rmtree(out)
            return 'REJECTED ' + res + '\n' + a.stdout[-500:] + b.stdout[-500:] + '\n'.join(l for l in t.stdout.splitlines() if l.startswith('FAILED'))
        chk = sh('VERIF_REPO=%s VERIF_SEED=1 %s/check %s 2>&1 | tail -3' % (r, H, ns['PROP']), env=dict(os.environ, PYTHONPATH=r))
        return 'kept; ' + res + '\n   ' + chk.stdout.strip()[-400:]
    finally:
        shutil.rmtree(d)


for s in sys.argv[1:]:
    print(os.path.basename(s), main(s), flush=True)
