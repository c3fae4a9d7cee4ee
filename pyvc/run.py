#!/usr/bin/env python3
"""run.py PID [--out FILE] [--tier quick|thorough] [--func SUBSTRING] : generate and discharge the obligations of one property"""
import sys, os, json, time, argparse, multiprocessing as mp, importlib, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'specs')]
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':
    # the order of sets decides the order of facts: the same on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)


def load():
    import lib
    for f in sorted(glob.glob(os.path.join(VERIF, 'specs', 's_*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])
    return lib.CONTRACTS


def job(args):
    i, ms, limit, part = args
    import prover
    from engine import Program
    cons = load()
    specs = {k.qual: k for k in cons}
    prog = Program(os.path.join(REPO, 'src'))
    con = cons[i]
    if part is not None:
        con.cases = [con.cases[j] for j in part]
    t0 = time.time()
    try:
        r = prover.verify(prog, specs, con, limit, ms)
    except BaseException as e:
        import traceback
        r = dict(function=con.qual, obligations=[], degraded=['%s: %s: %s' % (con.qual, type(e).__name__, e)], vacuity={}, solver_time=0, queries=0, assumed=set(), used=set(), inlined=set(), trace=traceback.format_exc())
    r['wall'] = time.time() - t0
    if os.environ.get("PYVC_LOG"):
        print("job", con.qual, part, round(r["wall"]), round(time.time()), flush=True)
    return i, r


def merged(a, b):
    for k in ('obligations', 'degraded'):
        a[k] = a[k] + b[k]
    a['vacuity'].update(b['vacuity'])
    for k in ('solver_time', 'queries', 'wall'):
        a[k] += b[k]
    for k in ('assumed', 'used', 'inlined'):
        a[k] = set(a[k]) | set(b[k])
    if 'trace' in b:
        a['trace'] = a.get('trace', '') + b['trace']
    return a


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--func')
    ap.add_argument('--budget', type=int, default=100000)
    ap.add_argument('--jobs', type=int, default=max(2, min(8, os.cpu_count() or 4)))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    cons = load()
    idx = [i for i, k in enumerate(cons) if (a.pid in k.props or a.pid == 'all') and not k.trusted and (not a.func or a.func in k.qual)]
    by = {k.qual: i for i, k in enumerate(cons)}
    ms = 4000 if a.tier == 'quick' else 15000
    done, asked, running, late = {}, set(), {}, []
    end = time.time() + a.budget
    with mp.get_context('fork').Pool(a.jobs, maxtasksperchild=1) as pool:
        def ask(todo):
            jobs = []
            for i in todo:
                asked.add(i)
                n, k = len(cons[i].cases), cons[i].chunk
                jobs += [(i, ms, None if a.tier == 'quick' else 600, None if not k else list(range(j, min(j + k, n)))) for j in range(0, n, k or n)]
            # the expensive ones first
            jobs.sort(key=lambda x: -cons[x[0]].weight)
            for j in jobs:
                running[(j[0], str(j[3]))] = (pool.apply_async(job, (j,)), j)
        ask(idx)
        while running and time.time() < end:
            ready = [k for k, (h, j) in running.items() if h.ready()]
            if not ready:
                time.sleep(0.05)
            for k in ready:
                i, r = running.pop(k)[0].get()
                done[i] = r if i not in done else merged(done[i], r)
                if a.tier == 'quick' and any(o['status'] == 'refuted' for o in r['obligations']):
                    end = min(end, time.time() + 60)      # the answer is known; the rest is for the record only
                # contracts the verified functions rely on are verified with them
                if not a.func:
                    ask(sorted(set(by[q] for q in r['used'] if q in by and not cons[by[q]].trusted) - asked))
        late = sorted(cons[k[0]].qual + ('' if j[3] is None else ' ' + ', '.join(cons[k[0]].cases[x].name for x in j[3])) for k, (h, j) in running.items())
        pool.terminate()
    obls, degr, vac, fns, assumed, be = [], [], {}, [], set(), {}
    st = 0.0
    degr += ['%s: not finished in time' % x for x in late]
    for i in sorted(done):
        r = done[i]
        obls += r['obligations']
        degr += r['degraded']
        vac.update(r['vacuity'])
        st += r['solver_time']
        assumed |= set(r['assumed'])
        fns.append(dict(function=r['function'], obligations=len(r['obligations']), discharged=sum(1 for o in r['obligations'] if o['status'] == 'discharged'),
                        contracts_used=sorted(r['used']), inlined=sorted(x for x in r['inlined'] if x != r['function']), wall_s=round(r['wall'], 2)))
        if a.v and 'trace' in r:
            print(r['trace'])
    for o in obls:
        if o['status'] == 'discharged':
            be[o['back_end']] = be.get(o['back_end'], 0) + 1
    import lib
    trusted = sorted(set(k.qual + (' (%s)' % k.note if k.note else '') for k in cons if k.trusted and any(k.qual in d['used'] for d in done.values())))
    res = dict(property=a.pid, functions=fns, obligations=obls, degraded=degr, vacuity=vac, solver_time_s=round(st, 2), back_ends=be,
               assumptions=sorted(assumed) + ['assumed contract: ' + t for t in trusted],
               trusted_base=['pyvc: the verification-condition generator of /verif/pyvc (reads the functions from /repo/src by ast.parse on every run)', 'z3 5.3 / cvc5 1.1.2'] + trusted,
               not_proved=[o['name'] for o in obls if o['status'] != 'discharged'])
    if a.out:
        json.dump(res, open(a.out, 'w'), indent=1)
    if a.v or not a.out:
        for f in fns:
            print('%-70s %d/%d  %.1fs  uses %s' % (f['function'], f['discharged'], f['obligations'], f['wall_s'], ','.join(x.split('.')[-1] for x in f['contracts_used'])))
        for o in obls:
            if o['status'] != 'discharged':
                print('  %s: %s  %s' % (o['status'].upper(), o['name'], o['reason'][:300]))
        for d in degr:
            print('  DEGRADED:', d)
        if a.v:
            for k, v in vac.items():
                print('   ', k, v)
    print('%s: %d/%d obligations, solver %.1f s' % (a.pid, sum(be.values()), len(obls), st))


if __name__ == '__main__':
    main()
