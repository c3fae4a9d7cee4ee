"""usage: main.py PID --seed S --tier quick|thorough --out result.json
         main.py --replay FILE"""
import sys, os, json, time, argparse
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
repo_src = os.environ.get('VERIF_REPO', '/repo') + '/src'
sys.path.insert(0, repo_src)
import lib
import glob, importlib


def load():
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c_*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])


def work(job):
    pid, fname, i, seed = job
    f = [x for x in lib.REG[pid] if x[0] == fname][0][1]
    return job, lib.run_case(pid, fname, f, i, seed)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--budget', type=float, default=240)
    a = ap.parse_args()
    load()
    import CTL
    assert os.path.realpath(CTL.__file__).startswith(os.path.realpath(repo_src)), CTL.__file__
    if a.replay:
        r = json.load(open(a.replay))
        if 'contract' not in r:
            print(json.dumps(r, indent=1)[:4000]); sys.exit(1)
        _, res = work((r['property'], r['contract'], r['index'], r['seed']))
        print(res)
        sys.exit(0 if res[0] in ('ok', 'skip') else 1)
    t0 = time.time()
    jobs = []
    for fname, f, n, th, key in lib.REG.get(a.pid, []):
        for i in range({'quick': n * 4, 'deep': n * 12}.get(a.tier, th * 3)):
            jobs.append((a.pid, fname, i, a.seed))
    import multiprocessing as mp
    out = dict(evaluations=0, skipped=0, per_contract={}, samples=[], violations=[], distinct=0, truncated=False)
    seen = set()
    ctx = mp.get_context('fork')
    with ctx.Pool(a.jobs) as pool:
        nto = 0
        for (pid, fname, i, seed), (st, d, key) in pool.imap_unordered(work, jobs, chunksize=4):
            pc = out['per_contract'].setdefault(fname, [0, 0])
            if st == 'skip':
                out['skipped'] += 1
            else:
                out['evaluations'] += 1
                pc[0] += 1
                if st == 'ok':
                    seen.add((fname, str(d)))
                    if len([s for s in out['samples'] if s['contract'] == fname]) < 1 and d is not None:
                        out['samples'].append(dict(contract=fname, index=i, case=str(d)[:300]))
                else:
                    pc[1] += 1
                    out['violations'].append(dict(property=pid, contract=fname, index=i, seed=seed, message=d, key=key))
            if st == 'viol' and 'non-terminating' in d:
                nto += 1
            if time.time() - t0 > a.budget or nto > 4:
                out['truncated'] = True
                pool.terminate()
                break
    out['distinct'] = len(seen)
    out['wall_s'] = time.time() - t0
    out['violations'].sort(key=lambda v: (v['contract'], v['index']))
    s = json.dumps(out, indent=1)
    if a.out:
        open(a.out, 'w').write(s)
    else:
        print(s)


if __name__ == '__main__':
    main()
