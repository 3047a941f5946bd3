"""python -m deduct.run PROP [--cross] [--budget S] [--out FILE] [--only CONTRACT]: decides the contracts of one property, prints JSON"""
import argparse, importlib, json, os, pkgutil, sys, time
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


COV = {}
def cover(fr, ev, n):
    if ev == 'call':
        co = fr.f_code
        if '/paramz/' in co.co_filename and not co.co_name.startswith('<'): COV.setdefault('paramz/' + co.co_filename.split('/paramz/')[-1] + ':' + getattr(co, 'co_qualname', co.co_name).replace('<locals>.', ''), set()).add(n)


def spread(one, todo, jobs, dl):
    """contracts in parallel, each in a process of its own forked from here: results in the order of the contracts"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    def body(i, w):
        try: r = one(i)
        except BaseException as e:
            r = lost(todo[i], 'engine: %r' % e)
        try: w.send(r)
        except Exception as e: w.send(lost(todo[i], 'engine: result not readable, %r' % e))
        w.close()
    res = {}; running = {}; nxt = 0; shown = 0
    while shown < len(todo):
        while nxt < len(todo) and len(running) < jobs:
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=body, args=(nxt, w), daemon=True); p.start(); w.close()
            running[r] = (nxt, p); nxt += 1
        for r in wait(list(running), timeout=5):
            i, p = running.pop(r)
            try: res[i] = r.recv()
            except EOFError: res[i] = lost(todo[i], 'engine: process ended')
            r.close(); p.join()
        if time.time() > dl + 60:
            for r, (i, p) in list(running.items()):
                p.kill(); p.join(); res[i] = lost(todo[i], 'out of time'); del running[r]
        while shown in res:
            yield res[shown]; shown += 1


def lost(c, why):
    return dict(contract=c.name, functions=c.func, props=c.props, status='undecided', why=why, traceback=None, paths=0, ended=0, cut=0, restarts=0, obligations={}, seconds=0, queries=0, solver_s=0, cvc5=0,
                crossed=dict(agree=0, disagree=0, unknown=0), hypotheses={}, assumes=[], trusted=[])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--cross', action='store_true'); ap.add_argument('--budget', type=float, default=120)
    ap.add_argument('--out'); ap.add_argument('--only'); ap.add_argument('--cov'); ap.add_argument('--jobs', type=int, default=8); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.setrecursionlimit(3000)
    t0 = time.time(); dl = t0 + a.budget
    import logging; logging.disable(logging.CRITICAL)
    import warnings; warnings.simplefilter('ignore')
    import numpy, scipy.optimize   # before the instrumented import
    from deduct import load, base
    out = dict(prop=a.prop, results=[], error=None)
    try:
        load.install(os.environ.get('VERIF_REPO', '/repo'))
        from deduct import contracts
        for m in pkgutil.iter_modules(contracts.__path__):
            try: importlib.import_module('deduct.contracts.' + m.name)
            except Exception as e:
                out.setdefault('import_errors', []).append('%s: %r' % (m.name, e))
                if a.v: raise
    except Exception as e:
        import traceback
        out['error'] = traceback.format_exc()[-2000:]
    if a.v and out['error']: print(out['error'], file=sys.stderr)
    if not out['error']:
        todo = [c for c in base.CONTRACTS if (a.prop == 'all' or a.prop in c.props) and (not a.only or c.name in a.only.split(','))]
        def one(i):
            if a.cov: sys.setprofile(lambda fr, ev, x, n=todo[i].name: cover(fr, ev, n))
            r = base.run_contract(todo[i], max(dl, time.time() + 5.), a.cross)
            sys.setprofile(None)
            return r
        for r in (map(one, range(len(todo))) if a.cov or a.jobs < 2 or len(todo) < 2 else spread(one, todo, min(a.jobs, len(todo)), dl)):
            out['results'].append(r)
            if a.v:
                print('%-10s %-40s %5.1fs paths %d/%d/%d q %d obl %s %s' % (r['status'], r['contract'], r['seconds'], r['paths'], r['ended'], r['cut'], r['queries'],
                      '%d/%d' % (len(r['obligations']), sum(o['checks'] for o in r['obligations'].values())), r['why']), file=sys.stderr)
                if r['traceback']: print(r['traceback'], file=sys.stderr)
                for n, o in r['obligations'].items():
                    if o['status'] != 'proved': print('   ', n, json.dumps(o['info'], indent=2)[:2500], file=sys.stderr)
        out['instrumentation'] = load.COUNT
    if a.cov: json.dump({k: sorted(v) for k, v in COV.items()}, open(a.cov, 'w'), indent=1)
    out['seconds'] = round(time.time() - t0, 2)
    s = json.dumps(out)
    if a.out: open(a.out, 'w').write(s)
    elif not a.v: print(s)


if __name__ == '__main__': main()
