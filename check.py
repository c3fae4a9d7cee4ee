#!/usr/bin/env python3
"""usage: check.py PID [--tier quick|thorough]   (run in /verif; decides one property on /repo's working tree)

1. pyvc/run.py PID : regenerates every proof obligation of the property from the
   current source of /repo and discharges it (z3, cvc5 as second back end);
2. rt/main.py PID  : evaluates the executable form of the contracts on the real
   code (bounded; replays refuted obligations, stands in for what is not proved);
3. merges both into evidence/PID.json and decides.
Exit 0: held.  Exit 1: VIOLATION line printed.
"""
import sys, os, json, subprocess, time, argparse, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
RTPY = next((p for p in ('/opt/venv/bin/python', sys.executable) if os.path.exists(p)), sys.executable)
VTPY = next((p for p in ('/opt/veriftools/pyvenv/bin/python', '/opt/veriftools/pyvenv/bin/python3') if os.path.exists(p)), 'python3-vt')


def known():
    fixed, find = [], []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = dict(x.split('=', 1) for x in line[8:].split(' | ')[0].split() if '=' in x)
                d['text'] = line[8:].split(' | ', 1)[-1].strip()
                find.append(d)
    return find


def run(cmd, timeout, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_REPO=REPO, **(env or {}))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=HERE)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as x:
        return 124, '', 'timeout after %d s' % timeout


LEMMAS = dict(C02=('specs/Network.lean', ['network_contraction', 'network_legs', 'order_independent']), C13=('specs/Network.lean', ['order_independent']))


def lemmas(pid, proof):
    """lemmas over the contracts, checked by Lean; they do not depend on the code"""
    f, names = LEMMAS[pid]
    t = time.time()
    rc, out, err = run(['lean', os.path.join(HERE, f)], 300)
    for n in names:
        ok = [l for l in out.split('\n') if '.%s\' depends on axioms' % n in l and 'sorryAx' not in l]
        good = rc == 0 and bool(ok) and 'error' not in out
        proof['obligations'].append(dict(name='lemma %s: %s' % (f, n), status='discharged' if good else 'undecided', back_end='lean 4 + Mathlib', time_s=round(time.time() - t, 2), reason='' if good else (out + err)[-300:]))
        if good:
            b = proof.setdefault('back_ends', {})
            b['lean'] = b.get('lean', 0) + 1
        else:
            proof.setdefault('not_proved', []).append('lemma ' + n)
    proof.setdefault('assumptions', []).append('the lemmas of %s speak about the contracts: `mul` is the contract of contractTwoTensors on the dense forms (C01, C09), `Run` the loop contract of contractAndCostWithSequence; no tensor is linked to itself' % f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    pid, tier = a.pid, ('thorough' if a.tier == 'thorough' else 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', 'replay')

    # ---- proofs
    proof = None
    pj = os.path.join(tmp, pid + '.proof.json')
    if os.path.exists(pj):
        os.remove(pj)
    if os.path.exists(os.path.join(HERE, 'pyvc', 'run.py')):
        rc, out, err = run([VTPY, os.path.join(HERE, 'pyvc', 'run.py'), pid, '--out', pj, '--tier', tier, '--budget', '400' if tier == 'quick' else '3000'], 450 if tier == 'quick' else 3100)
        if os.path.exists(pj):
            proof = json.load(open(pj))
        else:
            proof = dict(error='prover ended with code %d: %s' % (rc, (err or out)[-1500:]), functions=[], obligations=[])

    if proof is not None and pid in LEMMAS:
        lemmas(pid, proof)

    # ---- run-time contracts
    rj = os.path.join(tmp, pid + '.rt.json')
    if os.path.exists(rj):
        os.remove(rj)
    refuted = [o for o in (proof or {}).get('obligations', []) if o['status'] == 'refuted']
    jobs = str(max(2, min(6, (os.cpu_count() or 4) - 1)))
    rtier = 'thorough' if tier == 'thorough' else ('deep' if refuted or (proof and (proof.get('degraded') or proof.get('not_proved') or proof.get('error'))) else 'quick')
    rc, out, err = run([RTPY, os.path.join(HERE, 'rt', 'main.py'), pid, '--seed', str(seed), '--tier', rtier, '--out', rj, '--jobs', jobs, '--budget', '200' if tier == 'quick' else '900'], 330 if tier == 'quick' else 1200)
    rt = None
    if os.path.exists(rj):
        rt = json.load(open(rj))
    violations = []
    find = [k for k in known() if k.get('property') == pid]
    used = set()
    if rt is None:
        rp = os.path.join(tmp, pid + '-load.json')
        json.dump(dict(property=pid, problem='the contracts could not be evaluated on the code of %s' % REPO, returncode=rc, stderr=err[-3000:]), open(rp, 'w'), indent=1)
        violations.append(('the code under contract cannot be loaded or run: ' + err.strip().split('\n')[-1][:200], rp, False))
        rt = dict(evaluations=0, distinct=0, skipped=0, per_contract={}, samples=[], violations=[], truncated=False, wall_s=0)
    seen = set()
    for v in rt['violations']:
        k = [x for x in find if x.get('contract') == v['contract'] and (x.get('key') is None or x.get('key') == v.get('key'))]
        if k and v.get('key'):
            used.add(k[0]['text']); continue
        if v['contract'] in seen:
            continue
        seen.add(v['contract'])
        rp = os.path.join(tmp, '%s-%s-%d-%d.json' % (pid, v['contract'], v['index'], v['seed']))
        json.dump(dict(v, replay_cmd='%s rt/main.py --replay %s' % (RTPY, os.path.relpath(rp, HERE)),
                       refuted_obligations=[o['name'] for o in refuted][:10]), open(rp, 'w'), indent=1)
        violations.append(('%s: %s' % (v['contract'], v['message']), rp, True))
    if refuted and not violations:
        rp = os.path.join(tmp, '%s-obligations.json' % pid)
        json.dump(dict(property=pid, failed_obligations=refuted), open(rp, 'w'), indent=1)
        violations.append(('obligation %s is refuted: %s' % (refuted[0]['name'], refuted[0].get('reason', '')[:200]), rp, False))

    # ---- evidence
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    chk = [c for c in man['checks'] if c['property'] == pid]
    level = chk[0]['level'] if chk else 'exploration'
    cov = dict(evaluations=rt['evaluations'], distinct_nontrivial=rt['distinct'],
               rule='executable contracts on the real code: each case builds a pre-state from (contract, index, seed), calls the real function and evaluates the postcondition; cases differing in kind, shapes, labels or operation history count as distinct; skipped (precondition not met) cases are not counted',
               samples=rt['samples'][:12], per_contract={k: dict(cases=v[0], violations=v[1]) for k, v in rt['per_contract'].items()},
               skipped=rt['skipped'], truncated=rt['truncated'])
    assumptions = []
    if proof is not None:
        obl = proof.get('obligations', [])
        cov.update(obligations=len(obl), discharged=sum(1 for o in obl if o['status'] == 'discharged'),
                   checker_cmd='%s pyvc/run.py %s' % (VTPY, pid), trusted_base=proof.get('trusted_base', []),
                   functions_under_contract=proof.get('functions', []), solver_time_s=proof.get('solver_time_s', 0),
                   back_ends=proof.get('back_ends', {}), obligation_list=[dict(name=o['name'], status=o['status'], back_end=o.get('back_end', ''), time_s=o.get('time_s', 0)) for o in obl],
                   not_proved=proof.get('not_proved', []), degraded=proof.get('degraded', []), vacuity=proof.get('vacuity', {}))
        if 'error' in proof:
            cov['prover_error'] = proof['error']
        assumptions = proof.get('assumptions', [])
        if level == 'proof' and not cov['trusted_base']:
            cov['trusted_base'] = ['pyvc']
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in find:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    print('%s: %d contract evaluations (%d distinct)%s, %.1f s' % (pid, rt['evaluations'], rt['distinct'],
          '' if proof is None else ', %d/%d obligations discharged' % (cov['discharged'], cov['obligations']), ev['wall_s']))
    for d in (proof or {}).get('degraded', []):
        print('  outside the verifier\'s reach on this tree, bounded stand-in only: %s' % d)
    for msg, rp, replay in violations:
        print('  ' + msg.replace('\n', ' ')[:400])
    for msg, rp, replay in violations[:6]:
        print('VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(rp, HERE), '' if replay else ' no-failing-input-found'))
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
