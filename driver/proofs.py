"""Runs the deductive part of a check in a process of its own and reads its results.

A contract is 'proved' when every obligation generated from the current source was discharged, 'refuted' when the solver
found an obligation false, and 'undecided' when the engine met something it has no meaning for, ran out of time, or the
solver gave no answer; undecided contracts are left to the bounded stand-in and reported as such, never as a violation."""
import json, os, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE_TRUST = ['PyDeduct (deduct/): its meaning of Python values, numpy functions and loops over collections; CPython executes the code',
              'z3 5.3.2 (and cvc5 where it is asked)', 'numpy and scipy behave as the shim assumes (see deduct/selfcheck.py)']


class Proof(object):
    def __init__(self, prop, data, wall, cmd):
        self.prop = prop; self.data = data; self.wall = wall; self.cmd = cmd
        self.res = data.get('results', [])
    def _obl(self):
        for r in self.res:
            for n, o in r['obligations'].items(): yield r, n, o
    def obligations(self): return sum(o['checks'] for _, _, o in self._obl())
    def discharged(self): return sum(o['checks'] for _, _, o in self._obl() if o['status'] == 'proved')
    def failed(self): return any(r['status'] == 'refuted' for r in self.res)
    def failed_names(self): return ['%s: %s' % (r['contract'], n) for r, n, o in self._obl() if o['status'] == 'refuted']
    def first_failed(self):
        for r, n, o in self._obl():
            if o['status'] == 'refuted':
                return dict(obligation=n, contract=r['contract'], functions=r['functions'], all_failed=self.failed_names(), verifier=o['info'], replay_cmd='./check %s --only proof' % self.prop)
    def undecided(self): return ['%s (%s): %s' % (r['contract'], ', '.join(r['functions']), r['why']) for r in self.res if r['status'] == 'undecided']
    def coverage(self):
        be = {}
        for _, _, o in self._obl():
            for b in o['backends']: be[b] = be.get(b, 0) + 1
        return dict(obligations=self.obligations(), discharged=self.discharged(), checker_cmd=self.cmd,
                    functions_under_contract=sorted({f for r in self.res if r['status'] == 'proved' for f in r['functions']}),
                    contracts=[dict(contract=r['contract'], functions=r['functions'], status=r['status'], why=r['why'], paths=r['paths'], paths_to_the_end=r['ended'], paths_of_loop_bodies=r['cut'],
                                    obligations={n: dict(status=o['status'], checks=o['checks'], backends=o['backends'], seconds=o['time']) for n, o in r['obligations'].items()},
                                    solver_queries=r['queries'], solver_seconds=r['solver_s'], cvc5_cross_check=r['crossed']) for r in self.res],
                    undecided_left_to_bounded_check=self.undecided(), obligation_names_by_back_end=be, solver_seconds=round(sum(r['solver_s'] for r in self.res), 2),
                    proof_seconds=round(self.wall, 2), engine_error=self.data.get('error'), import_errors=self.data.get('import_errors', []),
                    instrumentation=self.data.get('instrumentation'), trusted_base=BASE_TRUST + sorted({t for r in self.res for t in r['trusted']}))
    def assumptions(self): return sorted({a for r in self.res for a in r['assumes'] + r['trusted']}) or ['none']
    def summary(self):
        n = len(self.res); p = sum(r['status'] == 'proved' for r in self.res)
        s = '%s proof: %d of %d contracts proved, %d of %d obligations discharged, %.1f s' % (self.prop, p, n, self.discharged(), self.obligations(), self.wall)
        for u in self.undecided(): s += '\n  undecided (bounded check decides): ' + u[:300]
        if self.data.get('error'): s += '\n  engine error (bounded check decides): ' + self.data['error'].strip().split('\n')[-1][:300]
        for f in self.failed_names(): s += '\n  FAILED OBLIGATION ' + f
        return s


def run(prop, tier, seed, deadline):
    t = time.time()
    budget = 200 if tier == 'quick' else 1200
    fd, path = tempfile.mkstemp(suffix='.json'); os.close(fd)
    cmd = [PY, '-m', 'deduct.run', prop, '--budget', str(budget), '--out', path] + (['--cross'] if tier != 'quick' else [])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
    data = {}
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env, timeout=budget + 120, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        with open(path) as f: txt = f.read()
        data = json.loads(txt) if txt else dict(error='engine ended with %r: %s' % (p.returncode, p.stderr.decode('utf8', 'replace')[-1500:]))
    except subprocess.TimeoutExpired: data = dict(error='engine timed out')
    except Exception as e: data = dict(error='engine: %r' % e)
    finally: os.unlink(path)
    if not data.get('results') and not data.get('error') and prop not in NONE: pass
    return Proof(prop, data, time.time() - t, ' '.join(cmd[:4]))


NONE = ()


def replay(d):
    p = run(d['property'], 'quick', 1, time.time() + 300)
    print(p.summary())
    return 1 if p.failed() else 0
