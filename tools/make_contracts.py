"""writes CONTRACTS.md: every contract with its functions and assumptions (run with /opt/venv/bin/python from /verif)"""
import sys, os, collections
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import numpy, scipy.optimize
from deduct import load, base
load.install('/repo')
import importlib, pkgutil
from deduct import contracts
for m in pkgutil.iter_modules(contracts.__path__): importlib.import_module('deduct.contracts.' + m.name)
A = collections.OrderedDict(); 
def num(t): return A.setdefault(t, len(A) + 1)
rows = []
for c in base.CONTRACTS:
    rows.append('| %s | %s | %s | %s | %s |' % (c.name, c.fn.__module__.split('.')[-1], ' '.join(c.props), ', '.join(c.func), ' '.join('A%d' % num(t) for t in c.assumes + c.trusted)))
F = {f for c in base.CONTRACTS for f in c.func}
with open(os.path.join(H, 'CONTRACTS.md'), 'w') as f:
    f.write('# Contracts (generated by tools/make_contracts.py)\n\n%d contracts on %d functions. What each one specifies is its source in deduct/contracts/.\n\n| contract | file | properties | functions of /repo whose bodies are executed | assumes / trusts |\n|---|---|---|---|---|\n' % (len(rows), len(F)))
    f.write('\n'.join(rows) + '\n\n## Assumptions and trusted contracts\n\n')
    for t, i in A.items(): f.write('A%d. %s\n\n' % (i, t))
