"""Runs one check: proof obligations first, then the run-time contracts (bounded), then verdict and evidence."""
import os, sys, json, time, argparse, importlib, traceback, resource, signal
import concurrent.futures as cf
import multiprocessing as mp

# property -> [(module of bounded/, number of cases quick, thorough, rule)]
R_HIST = 'a case is a random hierarchy and a random history of public operations, all state compared with the specification after each step; non-trivial: at least 3 steps of at least 2 kinds; distinct by operations'
R = 'a case is a random scenario compared with an independent specification; distinct by its operations and inputs'
PLAN = {
 'C01': [('transf', 2400, 60000, R)], 'C02': [('transf', 2400, 60000, R)],
 'C03': [('idx', 1000, 15000, R)], 'C04': [('idx', 480, 8000, R)],
 'C09': [('hist', 440, 8000, R_HIST), ('extra', 1600, 20000, R)],
 'C13': [('obs', 4000, 100000, R)], 'C15': [('obs', 4000, 100000, R)],
 'C16': [('cache', 3200, 60000, R)], 'C17': [('cache', 800, 12000, R)],
 'C18': [('hist', 440, 8000, R_HIST), ('extra', 2000, 20000, R)],
 'C19': [('twin', 1000, 12000, R)], 'C20': [('twin', 900, 12000, R)],
 'C21': [('optim', 3000, 60000, R)], 'C22': [('optim', 2400, 60000, R)], 'C23': [('optim', 6000, 150000, R)], 'C24': [('optim', 1500, 40000, R)],
}
for _p in ('C05', 'C06', 'C07', 'C08', 'C10', 'C11', 'C12', 'C14', 'C25', 'C26', 'C27'):
    PLAN[_p] = [('hist', 480, 9000, R_HIST)]
PLAN['C18'].append(('build', 1000, 20000, R))
for _p in ('C07', 'C08', 'C10', 'C11', 'C12'): PLAN[_p].append(('build', 1600, 30000, R))
PLAN['C14'].append(('extra', 2000, 30000, R))


class Slow(Exception):
    pass


def init_worker():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.stdout = open(os.devnull, 'w')


def one(arg):
    mod, prop, seed = arg
    m = importlib.import_module('bounded.' + mod)
    def h(s, f): raise Slow('no result within 120 s')
    signal.signal(signal.SIGALRM, h); signal.alarm(120)
    try:
        r = m.case(prop, seed)
    except Slow as e:
        r = dict(n=0, key=None, viol=dict(what=str(e), detail=[], seed=seed, history=[]), other=None, sample=[])
    finally:
        signal.alarm(0)
    if r['viol']: r['viol']['module'] = mod
    return r


def chunk(args):
    out = []
    for a in args:
        r = one(a)
        out.append(r)
        if r['viol']: break
    return out


def run_bounded(prop, tier, seed, deadline):
    """all cases of the plan: (counts, violation or None)"""
    total = dict(evaluations=0, cases=0, steps=0, keys=set(), samples=[], others={}, rules=[], unreproduced=0, cut=False)
    viol = None
    ctx = mp.get_context('fork')
    for mod, nq, nt, rule in PLAN[prop]:
        n = nq if tier == 'quick' else nt
        importlib.import_module('bounded.' + mod)
        total['rules'].append('%s: %d cases. %s' % (mod, n, rule))
        seeds = [seed * 1000003 + i for i in range(n)]
        size = max(1, min(25, n // 64))
        chunks = [[(mod, prop, s) for s in seeds[i:i + size]] for i in range(0, n, size)]
        with cf.ProcessPoolExecutor(8, mp_context=ctx, initializer=init_worker) as ex:
            fs = [ex.submit(chunk, c) for c in chunks]
            found = None
            for f in cf.as_completed(fs):
                try: rs = f.result()
                except cf.CancelledError: continue
                for r in rs:
                    total['cases'] += 1; total['steps'] += r['n']
                    if r['key']: total['keys'].add(r['key'])
                    if r['other']: k = str(r['other']).split('\n')[0][:60]; total['others'][k] = total['others'].get(k, 0) + 1
                    if r['viol'] and (found is None or r['viol']['seed'] < found['seed']): found = r['viol']
                    elif not r['viol'] and len(total['samples']) < 2 and r['n'] and r['sample']: total['samples'].append(str(r['sample'])[:900])
                if found is not None or time.time() > deadline:
                    if found is None: total['cut'] = True
                    for g in fs: g.cancel()
        if found is not None:
            # the failing case once more, in a fresh process
            for _ in range(3):
                with cf.ProcessPoolExecutor(1, mp_context=ctx, initializer=init_worker) as ex:
                    r = ex.submit(one, (mod, prop, found['seed'])).result()
                if r['viol']: viol = r['viol']; break
            if viol is not None: break
            total['unreproduced'] += 1
    return total, viol


def known(here):
    out = []
    for l in open(os.path.join(here, 'known-findings.txt')):
        l = l.strip()
        if l.startswith('finding:'):
            d = dict(x.split('=', 1) for x in l[8:].split('|')[0].split())
            out.append((d['property'], d['probe'], l.split('|', 1)[1].strip()))
    return out


def main(here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay'); ap.add_argument('--only')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import paramz
    if not os.path.realpath(paramz.__file__).startswith(os.path.realpath(repo) + os.sep):
        print('paramz is imported from %s, not from %s' % (paramz.__file__, repo)); sys.exit(2)
    if a.replay:
        d = json.load(open(a.replay))
        print(json.dumps(d, indent=1)[:4000])
        if d.get('kind') == 'bounded':
            r = one((d['module'], d['property'], d['seed']))
            print('REPLAY:', json.dumps(r['viol'], indent=1, default=str)[:3000] if r['viol'] else 'no violation')
            sys.exit(1 if r['viol'] else 0)
        from driver import proofs
        sys.exit(proofs.replay(d))
    budget = 600 if tier == 'quick' else 3000
    proof = None
    if a.only != 'bounded':
        try:
            from driver import proofs
        except ImportError:
            proofs = None
        if proofs is not None: proof = proofs.run(prop, tier, seed, t0 + budget)
    total, viol = (None, None)
    if a.only != 'proof':
        total, viol = run_bounded(prop, tier, seed, t0 + budget)
        if viol is None and proof is not None and proof.failed():
            # a failed obligation: look longer for an input that shows it on the real code
            extra, viol = run_bounded(prop, 'search', seed + 1000003, min(t0 + budget, time.time() + 120))
            for k in ('cases', 'steps'): total[k] += extra[k]
    # known findings
    from driver import probes
    for p, name, text in known(here):
        if p == prop:
            res = getattr(probes, name)()
            if res: print('KNOWN-FINDING: property=%s %s' % (prop, text))
    report(here, prop, tier, seed, t0, proof, total, viol)


def report(here, prop, tier, seed, t0, proof, total, viol):
    rep = os.path.join(here, 'replay'); os.makedirs(rep, exist_ok=True); os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    lines = []
    def out(kind, body, suffix=''):
        path = os.path.join(rep, '%s-%s.json' % (prop, kind))
        body = dict(property=prop, tier=tier, **body)
        with open(path, 'w') as f: json.dump(body, f, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, suffix))
    if viol is not None:
        b = dict(kind='bounded', **viol)
        if proof: b['failed_obligations'] = proof.failed_names()
        out('bounded', b)
    elif proof is not None and proof.failed():
        f = proof.first_failed()
        hit = f.get('replayed')
        out('proof', dict(kind='proof', **f), '' if hit else ' no-failing-input-found')
    cov = {}
    if proof is not None: cov.update(proof.coverage())
    if total is not None:
        cov.update(evaluations=total['cases'], distinct_nontrivial=len(total['keys']), rule=' | '.join(total['rules']),
                   samples=total['samples'] or ['none'], bounded_steps=total['steps'], bounded_histories_ended_by_other_mismatch=total['others'],
                   bounded_unreproduced=total['unreproduced'], bounded_cut_by_time=total['cut'])
    # the level claimed in MANIFEST.json; a run in which a contract is not discharged does not claim a proof
    try: level = [c['level'] for c in json.load(open(os.path.join(here, 'MANIFEST.json')))['checks'] if c['property'] == prop][0]
    except Exception: level = 'exploration'
    if level == 'proof' and (proof is None or not proof.obligations() or proof.undecided() or proof.data.get('error')): level = 'exploration'
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=proof.assumptions() if proof is not None else ['bounded run-time contracts only'],
              wall_s=round(time.time() - t0, 2), violations=len(lines))
    with open(os.path.join(here, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    if proof is not None: print(proof.summary())
    if total is not None: print('%s bounded: %d cases, %d steps, %d distinct, %.1f s; other: %r' % (prop, total['cases'], total['steps'], len(total['keys']), time.time() - t0, total['others']))
    for l in lines: print(l)
    sys.stdout.flush()
    sys.exit(1 if lines else 0)
