"""Mutation sweep (development aid, not a check): python3 tools/mutate.py gen|tests|proof|bounded [--files ...] ; state in $MUT (default /tmp/x/mut).
gen: AST mutants of every function; tests: which pass the stable tests; proof: which the contracts refute; bounded: which the bounded checks find."""
import ast, copy, json, os, re, shutil, subprocess, sys, time
from multiprocessing import Pool, current_process
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = os.environ.get('MUT', '/tmp/x/mut')
FILES = ['paramz/' + f for f in ('caching.py', 'model.py', 'param.py', 'parameterized.py', 'transformations.py', 'core/constrainable.py', 'core/gradcheckable.py', 'core/index_operations.py',
         'core/indexable.py', 'core/nameable.py', 'core/observable.py', 'core/observable_array.py', 'core/parameter_core.py', 'core/parentable.py', 'core/pickleable.py', 'core/updateable.py', 'core/lists_and_dicts.py',
         'optimization/optimization.py', 'optimization/scg.py', '__init__.py')]
SKIP = re.compile(r'__str__|__repr__|_repr_html_|__format__|_format_spec|build_pydot|_debug|plot|_ties_|_priors_str|_constraints_str|_indices_str|parameter_shapes|_max_len|_description_str|print|_short|_fixes_str|_name_str|_value_str|add_index_to_string|_index_str|formatname|to_dict|from_dict')


class M(ast.NodeVisitor):
    def __init__(self): self.out = []; self.stack = []
    def visit_FunctionDef(self, n):
        self.stack.append(n.name); self.body(n); self.stack.pop()
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for x in n.body: self.visit(x)
        self.stack.pop()
    def body(self, fn):
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.ClassDef)): continue
            for op in ops(n): self.out.append(('.'.join(self.stack), getattr(n, 'lineno', fn.lineno), n, op))


CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult]}
NAMES = {'union1d': 'intersect1d', 'intersect1d': 'union1d', 'append': 'insert0', 'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'argmin': 'argmax', 'empty': 'zeros', 'sorted': 'list', 'popleft': 'pop'}


def ops(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1: return [('cmp', c.__name__) for c in CMP.get(type(n.ops[0]), [])]
    if isinstance(n, ast.BinOp): return [('bin', c.__name__) for c in BIN.get(type(n.op), [])]
    if isinstance(n, ast.AugAssign): return [('aug', c.__name__) for c in BIN.get(type(n.op), [])] + [('del', '')]
    if isinstance(n, ast.BoolOp): return [('bool', '')] + [('drop', str(i)) for i in range(len(n.values))]
    if isinstance(n, (ast.If, ast.While, ast.IfExp)): return [('neg', ''), ('true', '')] + ([('false', '')] if not isinstance(n, ast.While) else [])
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)): return [('const', '')]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)): return [('un', '')]
    if isinstance(n, ast.Return) and n.value is not None: return [('retnone', '')]
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): return [('del', '')]
    if isinstance(n, (ast.Assign, ast.Delete, ast.Raise)): return [('del', '')]
    if isinstance(n, (ast.Break, ast.Continue)): return [('del', '')]
    if isinstance(n, ast.Attribute) and n.attr in NAMES and isinstance(n.ctx, ast.Load): return [('attr', NAMES[n.attr])] if NAMES[n.attr] != 'insert0' else []
    if isinstance(n, ast.Call):
        r = []
        if isinstance(n.func, ast.Name) and n.func.id in NAMES: r.append(('name', NAMES[n.func.id]))
        if len(n.args) == 2: r.append(('swap', ''))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'flatten', 'astype'): r.append(('unwrap', ''))
        for i, k in enumerate(n.keywords):
            if k.arg: r.append(('dropkw', str(i)))
        return r
    if isinstance(n, ast.Slice): return [('slice', '')] if n.lower or n.upper else []
    return []


def apply(tree, i):
    v = M(); v.visit(tree)
    q, line, n, (op, x) = v.out[i]
    def rep(new):
        for p in ast.walk(tree):
            for f, val in ast.iter_fields(p):
                if val is n: setattr(p, f, new); return
                if isinstance(val, list):
                    for j, y in enumerate(val):
                        if y is n: val[j] = new; return
    c = ast.Constant
    if op == 'cmp': n.ops = [getattr(ast, x)()]
    elif op in ('bin', 'aug'): n.op = getattr(ast, x)()
    elif op == 'del': rep(ast.Pass())
    elif op == 'bool': n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif op == 'drop':
        del n.values[int(x)]
        if len(n.values) == 1: rep(n.values[0])
    elif op == 'neg': n.test = ast.UnaryOp(ast.Not(), n.test)
    elif op == 'true': n.test = ast.BoolOp(ast.Or(), [n.test, c(True)]) if not isinstance(n, ast.While) else ast.BoolOp(ast.And(), [n.test, c(False)])
    elif op == 'false': n.test = ast.BoolOp(ast.And(), [n.test, c(False)])
    elif op == 'const': n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1
    elif op == 'un': rep(n.operand)
    elif op == 'retnone': n.value = None
    elif op == 'attr': n.attr = x
    elif op == 'name': n.func.id = x
    elif op == 'swap': n.args = n.args[::-1]
    elif op == 'unwrap': rep(n.func.value)
    elif op == 'dropkw': del n.keywords[int(x)]
    elif op == 'slice':
        if n.lower: n.lower = None
        else: n.upper = None
    return ast.unparse(ast.fix_missing_locations(tree))


def gen():
    out = []
    for f in FILES:
        src = open('/repo/' + f).read(); t = ast.parse(src)
        v = M(); v.visit(t)
        for i, (q, line, n, op) in enumerate(v.out):
            if SKIP.search(q): continue
            out.append(dict(id=len(out), file=f, i=i, func=q, line=line, op=list(op), text=ast.unparse(n).split('\n')[0][:100]))
    json.dump(out, open(MUT + '/mutants.json', 'w'))
    print(len(out))


def wdir():
    w = MUT + '/w%s' % current_process().name.split('-')[-1]
    if not os.path.exists(w): subprocess.check_call(['cp', '-a', '/repo', w])
    return w


class Mutated(object):
    def __init__(self, m): self.m = m
    def __enter__(self):
        self.w = wdir(); self.p = self.w + '/' + self.m['file']; self.src = open('/repo/' + self.m['file']).read()
        open(self.p, 'w').write(apply(ast.parse(self.src), self.m['i'])); return self.w
    def __exit__(self, *a): open(self.p, 'w').write(self.src)


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MPLBACKEND='agg', VERIF_SEED='1', VERIF_TIER='quick', PYTHONHASHSEED='0')


def sh(c, cwd, timeout, **e):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, env=dict(ENV, **e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return -9, 'timeout'


def t_tests(m):
    try:
        with Mutated(m) as w:
            rc, o = sh("/opt/venv/bin/python -m pytest -x --maxfail=4 -q -p no:cacheprovider --timeout=60 -W ignore -o python_files='*_tests.py *_test.py test_*.py' paramz/tests 2>&1 | tail -6", w, 120, PYTHONPATH=w)
            return m['id'], '3 failed, 107 passed' in o
    except Exception as e: return m['id'], None


def t_proof(m):
    try:
        with Mutated(m) as w:
            fd = MUT + '/o%d.json' % m['id']
            rc, o = sh('/opt/venv/bin/python -m deduct.run all --budget 300 --only %s --out %s' % (','.join(m['contracts']), fd), H, 400, VERIF_REPO=w)
            try: d = json.load(open(fd))
            except Exception: return m['id'], dict(error=o[-300:])
            os.unlink(fd)
            if d.get('error'): return m['id'], dict(error=d['error'][-300:])
            return m['id'], dict(refuted=[[r['contract'], [n for n, o in r['obligations'].items() if o['status'] == 'refuted'][:3]] for r in d['results'] if r['status'] == 'refuted'],
                                 undecided=[[r['contract'], r['why'][:100]] for r in d['results'] if r['status'] == 'undecided'], proved=[r['contract'] for r in d['results'] if r['status'] == 'proved'])
    except Exception as e: return m['id'], dict(error=repr(e))


ANY = [('hist', p) for p in ('C05', 'C06', 'C09', 'C11', 'C14', 'C25', 'C10', 'C27', 'C08', 'C12', 'C26')] + [('build', 'C08'), ('build', 'C10'), ('extra', 'C18'), ('extra', 'C09'), ('twin', 'C19'), ('twin', 'C20')]
RUNS = {'caching': [('cache', 'C16'), ('cache', 'C17')], 'model': [('optim', 'C22'), ('optim', 'C21'), ('optim', 'C24'), ('hist', 'C06')], 'transformations': [('transf', 'C01'), ('transf', 'C02'), ('extra', 'C09'), ('twin', 'C20')],
        'gradcheckable': [('optim', 'C24')], 'index_operations': [('idx', 'C03'), ('idx', 'C04')] + ANY, 'indexable': [('idx', 'C04')] + ANY, 'observable': [('obs', 'C13'), ('obs', 'C15')] + ANY,
        'lists_and_dicts': [('obs', 'C13'), ('obs', 'C15'), ('cache', 'C17')] + ANY, 'observable_array': [('obs', 'C15'), ('obs', 'C13')] + ANY, 'optimization': [('optim', 'C22'), ('optim', 'C23')], 'scg': [('optim', 'C23')]}
NQ = dict(hist=40, build=60, extra=150, twin=80, cache=250, optim=400, transf=300, idx=80, obs=500)
ONE = """
import sys, json, time, importlib, os, warnings
CAP = float(os.environ.get('CAP', '100')); warnings.simplefilter('ignore'); real = sys.stdout; sys.stdout = open(os.devnull, 'w')
from driver import main as D
t = time.time(); k = None
runs = json.loads(sys.argv[1])
for i in range(max(n for m, p, n in runs)):
    for mod, prop, n in runs:
        if i >= n: continue
        if time.time() - t > CAP: break
        r = D.one((mod, prop, 7000003 + i))
        v = r['viol'] or r['other']
        if v: k = [mod, prop, i, str(v['what'] if isinstance(v, dict) else v)[:200]]; break
    if k: break
real.write('KILL ' + json.dumps(k) + chr(10))
"""


def t_bounded(m):
    try:
        with Mutated(m) as w:
            runs = [(a, b, NQ[a]) for a, b in RUNS.get(os.path.basename(m['file'])[:-3], ANY)]
            rc, o = sh("/opt/venv/bin/python -W ignore -c '%s' '%s'" % (ONE.replace("'", '"'), json.dumps(runs)), H, 330, VERIF_REPO=w, PYTHONPATH=w + ':' + H)
            l = [x for x in o.splitlines() if x.startswith('KILL ')]
            return m['id'], dict(killed=json.loads(l[0][5:]) if l else ['crash', rc, o[-200:]])
    except Exception as e: return m['id'], dict(error=repr(e))


def run(fn, ms, out, n=int(os.environ.get('PROCS', '8'))):
    done = {}
    if os.path.exists(out): done = json.load(open(out))
    ms = [m for m in ms if str(m['id']) not in done]
    print(len(ms), 'to do'); t = time.time()
    with Pool(n) as p:
        for k, (i, r) in enumerate(p.imap_unordered(fn, ms)):
            done[str(i)] = r
            if k % 50 == 49: json.dump(done, open(out, 'w')); print(k + 1, '%.0f s' % (time.time() - t), flush=True)
    json.dump(done, open(out, 'w'))
    for d in os.listdir(MUT):
        if re.match(r'w\d+$', d): shutil.rmtree(MUT + '/' + d)


def main():
    what = sys.argv[1]
    os.makedirs(MUT, exist_ok=True)
    if what == 'gen': return gen()
    ms = json.load(open(MUT + '/mutants.json'))
    if what == 'tests': return run(t_tests, ms, MUT + '/tests.json')
    ts = json.load(open(MUT + '/tests.json')); ms = [m for m in ms if ts.get(str(m['id']))]
    if what == 'proof':
        cov = json.load(open(MUT + '/cov.json'))     # function -> contracts (tools/mutate.py cov)
        for m in ms: m['contracts'] = cov.get(m['file'] + ':' + m['func'], [])
        return run(t_proof, [m for m in ms if m['contracts']], MUT + '/proof.json')
    if what == 'bounded':
        pr = json.load(open(MUT + '/proof.json')) if os.path.exists(MUT + '/proof.json') else {}
        ms = [m for m in ms if not pr.get(str(m['id']), {}).get('refuted')]
        if os.environ.get('UNPROVED'):      # only what no contract has accepted
            ms = [m for m in ms if pr.get(str(m['id']), {}).get('undecided') or not pr.get(str(m['id']), {}).get('proved')]
        return run(t_bounded, ms, MUT + '/bounded.json')


if __name__ == '__main__': main()
