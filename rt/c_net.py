"""executable contracts: C02 (network contraction), C11 (costs), C12 (order search), C13 (finite networks)"""
from lib import *
from CTL.tensor.contract.contract import contractTwoTensors, shareBonds
from CTL.tensor.contract.optimalContract import (contractTensorList, contractWithSequence, contractCost,
    contractAndCostWithSequence, generateOptimalSequence, generateGreedySequence, makeTensorGraph, copyTensorList)
from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
from CTL.tensornetwork.tensordict import TensorDict
import itertools


def rand_seq(rng, n):
    alive = list(range(n)); seq = []
    while len(alive) > 1:
        a, b = rng.sample(alive, 2)
        seq.append((a, b))
        alive.remove(max(a, b))
    return seq


def check_seq(seq, n):
    alive = set(range(n))
    for s, t in seq:
        require(s in alive and t in alive and s != t, 'step %r of sequence %r uses a slot that is not alive' % ((s, t), seq))
        alive.remove(max(s, t))
    require(alive == ({0} if n else set()), 'sequence %r does not contract all %d tensors into the first slot' % (seq, n))


# ------------------------------------------------------------------ C02
@contract('C02', 500)
def network_value(rng, i):
    n = rng.randrange(1, 7)
    ts = rand_network(rng, n, diagp=[0, .4, 1][i % 3], maxdim=3)
    size = 1
    R, labs = oracle_network(ts)
    if R.size > 20000:
        raise Skip()
    # numpy gives rank-0 operands of the same kind no say in the result type: compare kinds, and the type if all agree
    dts = set(np.asarray(t.a).dtype for t in ts)
    exp_dtype = dts.pop() if len(dts) == 1 else (np.complex64 if any(d.kind == 'c' for d in dts) else np.float32 if any(d.kind == 'f' for d in dts) else np.int8)
    snaps = [snapshot(t) for t in ts]
    mode = i % 5
    if mode == 0:
        res = contractTensorList(ts, outProductWarning=bool(rng.randrange(2)))
    elif mode == 1:
        res = contractWithSequence(ts, bf=True, typicalDim=rng.choice([None, 2, 10]))
    elif mode == 2:
        res = contractWithSequence(ts, seq=rand_seq(rng, n))
    elif mode == 3:
        res, _ = contractAndCostWithSequence(ts, greedy=True)
    else:
        res = contractWithSequence(ts, typicalDim=rng.choice([None, 2, 10]))
    wf(res, 'result')
    A = by_label(res, labs)
    require(same(A, R) if A.dtype != np.float32 else close(A, R, 1e-4), 'network contraction (mode %d) differs from the sum over all linked indices' % mode)
    require(np.can_cast(exp_dtype, A.dtype), 'result dtype %s loses precision of %s' % (A.dtype, exp_dtype))
    for t, s in zip(ts, snaps):
        require(same_snapshot(s, snapshot(t)), 'an input tensor was changed although no in-place work was requested')
    if n > 1:
        require(all(res is not t for t in ts), 'the result is one of the inputs')
    if i % 2 and n > 1:
        # inputs can be contracted again, in place this time
        res2 = contractWithSequence(ts, seq=rand_seq(rng, n), inplace=True)
        A2 = by_label(res2, labs)
        require(same(A2, R) if A2.dtype != np.float32 else close(A2, R, 1e-4), 'second contraction (in place) gives another value')
    return (mode, n, R.shape, [t.diagonalFlag for t in ts])


@contract('C02', 60)
def network_all_orders(rng, i):
    """every order of a small network gives the same tensor"""
    n = 3 + (i % 2)
    ts = rand_network(rng, n, diagp=[0, .5, 1][i % 3], maxdim=2)
    R, labs = oracle_network(ts)
    cnt = 0

    def rec(alive, seq):
        nonlocal cnt
        if len(alive) == 1:
            cnt += 1
            if cnt > 60:
                return
            res = contractWithSequence(ts, seq=seq, outProductWarning=False)
            require(close(by_label(res, labs), R, 1e-4), 'order %r gives another tensor' % (seq,))
            return
        for a, b in itertools.permutations(alive, 2):
            rec([x for x in alive if x != max(a, b)], seq + [(a, b)])
    import random as _r
    rec(list(range(n)), [])
    return (n, R.shape, cnt)


# ------------------------------------------------------------------ C11
def true_step(A, B, d=None):
    """A = (set of edge ids, dims dict, diag). returns (cost, level, result)"""
    ea, eb = A[0], B[0]
    com = [e for e in ea if e in eb]
    dim = (lambda e: A[1].get(e, B[1].get(e))) if d is None else (lambda e: d)
    da, db = A[2], B[2]
    diagres = False
    out = [e for e in ea if e not in com] + [e for e in eb if e not in com]
    if da and db and (com or not ea or not eb):
        lev = 1
        if d is None:
            cost = max([dim(e) for e in ea + eb] + [1])
        else:
            cost = d
        diagres = True
    elif da or db:
        cost = 1
        for e in out:
            cost *= dim(e)
        lev = len(out)
    else:
        cost = 1
        for e in out + com:
            cost *= dim(e)
        lev = len(out) + len(com)
    dims = {e: A[1].get(e, B[1].get(e)) for e in out}
    return cost, lev, (out, dims, diagres)


def abstract(ts):
    res, ids = [], {}
    for t in ts:
        es, dims = [], {}
        for l in t.legs:
            k = id(l.bond) if l.bond is not None else id(l)
            ids.setdefault(k, len(ids))
            es.append(ids[k]); dims[ids[k]] = l.dim
        res.append((es, dims, t.diagonalFlag))
    return res


@contract('C11', 800)
def pair_cost(rng, i):
    like = (True, True) if i % 3 == 0 else (False, False)
    ta, tb, bonds, others = rand_pair(rng, i, like=like)
    A, B = abstract([ta, tb])
    c, lev, _ = true_step(A, B)
    sa, sb = snapshot(ta), snapshot(tb)
    got = contractCost(ta, tb)
    require(tuple(got) == (c, lev), 'cost %r, operation count %r' % (got, (c, lev)))
    require(same_snapshot(sa, snapshot(ta)) and same_snapshot(sb, snapshot(tb)), 'computing the cost changed a tensor')
    return (ta.diagonalFlag, tb.diagonalFlag, ta.shape, tb.shape, len(bonds))


@contract('C11', 250)
def sequence_cost(rng, i):
    n = rng.randrange(1, 6)
    ts = rand_network(rng, n, diagp=[0, .4, 1][i % 3], maxdim=3)
    seq = rand_seq(rng, n)
    st = abstract(ts)
    tot = 0
    for s, t in seq:
        c, _, r = true_step(st[s], st[t])
        tot += c
        st[min(s, t)] = r
    res, cost = contractAndCostWithSequence(ts, seq=seq, outProductWarning=False)
    require(cost == tot, 'reported cost %r, sum of the step costs %r' % (cost, tot))
    if n > 1:
        g = makeTensorGraph(ts)
        bf = bool(i % 2)
        g.optimalContractSequence(bf=bf, typicalDim=None)
        seq = g.optimalContractSequence(bf=bf, typicalDim=None)
        pred = g.optimalCostResult()
        res, cost = contractAndCostWithSequence(ts, seq=seq, outProductWarning=False)
        require(cost == pred, 'cost predicted by the search %r, cost reported for its sequence %r' % (pred, cost))
        seqg = generateGreedySequence(ts)
        g = makeTensorGraph(ts)
        g.optimalContractSequence(greedy=True, typicalDim=None)
        res, cost = contractAndCostWithSequence(ts, greedy=True, outProductWarning=False)
        require(cost == g.greedyCost, 'cost predicted by the greedy search %r, reported %r' % (g.greedyCost, cost))
    return (n, tot)


# ------------------------------------------------------------------ C12
def min_cost(ts, d, ban):
    """minimum over all orders; with ban, over the orders which never form the outer
    product of two diagonal tensors of one connected part of the network"""
    st0 = abstract(ts)
    n = len(ts)
    part = {}
    for es, _, _ in st0:
        for e in es:
            part.setdefault(e, e)
        ps = set(part[e] for e in es)
        for e in part:
            if part[e] in ps:
                part[e] = min(ps)
    best = {}
    for j in range(n):
        best[1 << j] = {st0[j][2]: (0, st0[j])}
    for m in range(1, 1 << n):
        if m & (m - 1) == 0:
            continue
        cur = {}
        s = (m - 1) & m
        while s:
            r = m ^ s
            if s > r:
                for (ca, A) in best[s].values():
                    for (cb, B) in best[r].values():
                        if ban and A[2] and B[2] and A[0] and B[0] and not set(A[0]) & set(B[0]) and part[A[0][0]] == part[B[0][0]]:
                            continue
                        c, _, R = true_step(A, B, d)
                        tot = ca + cb + c
                        if R[2] not in cur or tot < cur[R[2]][0]:
                            cur[R[2]] = (tot, R)
            s = (s - 1) & m
        best[m] = cur
    return min(v[0] for v in best[(1 << n) - 1].values())



def seq_cost(ts, seq, d):
    st = abstract(ts)
    tot = 0
    for s, t in seq:
        c, _, r = true_step(st[s], st[t], d)
        tot += c
        st[min(s, t)] = r
    return tot


@contract('C12', 220)
def optimal_search(rng, i):
    n = rng.randrange(1, 7)
    ts = rand_network(rng, n, diagp=[0, 0, .4, 1][i % 4], maxdim=rng.choice([3, 5, 9]), like=True, connected=True if i % 5 else None)
    d = [None, 10, 2, None][(i // 4) % 4]
    g = makeTensorGraph(ts)
    m, m0 = min_cost(ts, d, True), min_cost(ts, d, False)
    for bf in (False, True):
        seq = g.optimalContractSequence(bf=bf, typicalDim=d)
        check_seq(seq, n)
        c = seq_cost(ts, seq, d)
        require(m0 <= c <= m, '%s search: sequence %r costs %r, minimum over all orders is %r' % ('exhaustive' if bf else 'pruned', seq, c, m))
        require(g.optimalCostResult() == c, '%s search predicts cost %r, its sequence costs %r' % ('exhaustive' if bf else 'pruned', g.optimalCostResult(), c))
        s2 = generateOptimalSequence(ts, bf=bf, typicalDim=d)
        check_seq(s2, n)
        require(m0 <= seq_cost(ts, s2, d) <= m, 'a fresh search returns a sequence that is not optimal')
    return (n, d, m)


@contract('C12', 200)
def greedy_search(rng, i):
    n = rng.randrange(1, 8)
    ts = rand_network(rng, n, diagp=[0, .4, 1][i % 3], maxdim=4, like=True, connected=[True, False, None][i % 3])
    seq = generateGreedySequence(ts)
    check_seq(seq, n)
    return (n, seq)


# ------------------------------------------------------------------ C13
def ftn_random(rng, n):
    names = ['t%d' % j for j in range(n)]
    ftn = FiniteTensorNetwork(tensorNames=list(names), realCost=bool(rng.randrange(2)))
    spec = dict(names=names, links=[], pre=[], post=[], outp=[])
    legs = {nm: [] for nm in names}          # (label, kind)
    cnt = 0
    for j in range(1, n):
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(0, j)
            la, lb = 'x%d' % cnt, 'x%d' % (cnt if rng.random() < .5 else cnt + 100)
            cnt += 1
            legs[names[j]].append(la); legs[names[k]].append(lb)
            if rng.random() < .5:
                ftn.addLink(names[j], la, names[k], lb); spec['links'].append(((names[j], la), (names[k], lb)))
            else:
                ftn.addLink(names[k], lb, names[j], la); spec['links'].append(((names[k], lb), (names[j], la)))
    free = []
    for nm in names:
        for f in range(rng.randrange(0, 3)):
            l = 'o%d' % cnt; cnt += 1
            legs[nm].append(l); free.append((nm, l))
    # pre renames: the given tensors carry another label
    given = {nm: list(ls) for nm, ls in legs.items()}
    for nm in names:
        for k, l in enumerate(given[nm]):
            if rng.random() < .25:
                given[nm][k] = 'g' + l
                ftn.addPreNameChange(nm, 'g' + l, l); spec['pre'].append((nm, 'g' + l, l))
    # post out products
    pool = list(free); rng.shuffle(pool)
    left = list(pool)
    if len(pool) >= 2 and rng.random() < .6:
        k = rng.randrange(2, len(pool) + 1)
        grp = pool[:k]; left = pool[k:]
        lab = [x if rng.random() < .5 else x[0] + '-' + x[1] for x in grp]
        new = rng.choice(['m0', 'm-0'])
        ftn.addPostOutProduct(lab, new); spec['outp'].append((grp, new))
    for (nm, l) in left:
        if rng.random() < .3:
            new = rng.choice(['p', 'p-', 'p-q-']) + l      # a declared name may contain dashes
            ftn.addPostNameChange(nm, l, new); spec['post'].append((nm, l, new))
    return ftn, spec, legs, given


def ftn_tensors(rng, spec, legs, given):
    diag = {nm: rng.random() < .25 and len(legs[nm]) > 0 for nm in legs}
    items = [(nm, l) for nm in legs for l in legs[nm]]
    par = {x: x for x in items}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for a, b in spec['links']:
        par[find(a)] = find(b)
    for nm in legs:
        if diag[nm]:
            for l in legs[nm][1:]:
                par[find((nm, l))] = find((nm, legs[nm][0]))
    dims = {}
    for x in items:
        dims.setdefault(find(x), rng.randrange(1, 4))
    td = {}
    order = list(legs); rng.shuffle(order)
    for nm in order:
        td[nm] = rtensor(rng, [dims[find((nm, l))] for l in legs[nm]], given[nm], diag[nm])
    return td


def ftn_oracle(spec, legs, td):
    ids, c, out, labs, ops = {}, 0, [], [], []
    for a, b in spec['links']:
        ids[a] = ids[b] = c; c += 1
    linked = set(ids)
    for nm in spec['names']:
        s = []
        for l in legs[nm]:
            if (nm, l) not in ids:
                ids[(nm, l)] = c; c += 1
                out.append(ids[(nm, l)]); labs.append(nm + '-' + l)
            s.append(ids[(nm, l)])
        ops += [dense(td[nm]), s]
    R = np.einsum(*ops, out)
    for grp, new in spec['outp']:
        ls = [a + '-' + b for a, b in grp]
        rest = [x for x in labs if x not in ls]
        R = np.transpose(R, [labs.index(x) for x in ls + rest])
        k = len(ls)
        R = R.reshape((int(np.prod(R.shape[:k])),) + R.shape[k:])
        labs = ['res-' + new] + rest
    for nm, l, new in spec['post']:
        labs[labs.index(nm + '-' + l)] = nm + '-' + new
    return R, labs


def all_diag(td):
    return any(t.diagonalFlag for t in td.values())


@contract('C13', 260)
def ftn_history(rng, i):
    n = rng.randrange(1, 5)
    ftn, spec, legs, given = ftn_random(rng, n)
    other = FiniteTensorNetwork()
    for rep in range(rng.randrange(1, 4)):
        td = ftn_tensors(rng, spec, legs, given)
        if spec['outp'] and all(t.diagonalFlag for t in td.values()):
            raise Skip()
        R, labs = ftn_oracle(spec, legs, td)
        snaps = {k: snapshot(t) for k, t in td.items()}
        tag = bool(rng.randrange(2))
        arg = dict(td)
        arg = TensorDict(arg) if rng.randrange(2) else arg
        ks = list(arg.tensors if isinstance(arg, TensorDict) else arg)
        res = ftn.contract(arg, removeTensorTag=tag)
        wf(res, 'result')
        exp = [x.split('-', 1)[1] for x in labs] if tag else labs
        A = by_label(res, exp)
        require(same(A, R), 'contraction %d of the network differs from the declared network' % rep)
        cur = arg.tensors if isinstance(arg, TensorDict) else arg
        require(list(cur) == ks and all(cur[k] is td[k] for k in cur), 'the given dictionary was changed')
        for k, t in td.items():
            require(same_snapshot(snaps[k], snapshot(t)), 'given tensor %s was modified' % k)
        require(ftn.locked, 'network is not locked after a contraction')
        if rng.random() < .5 and rep == 0:
            # grow the declared network between contractions
            ftn.unlock()
            nm = 'z%d' % rep
            ftn.addTensor(nm)
            spec['names'] = spec['names'] + [nm]
            tgt = rng.choice([x for x in spec['names'] if x != nm])
            la, lb = 'w%d' % rep, 'w%d' % (rep + 50)
            legs[nm] = [la, 'oz%d' % rep]; legs[tgt] = legs[tgt] + [lb]
            given[nm] = list(legs[nm]); given[tgt] = given[tgt] + [lb]
            ftn.addLink(nm, la, tgt, lb)
            spec['links'].append(((nm, la), (tgt, lb)))
    require(other.tensorNames == [] and other.links == [] and other.bondDims == {} and other.changeNameBefore == [] and
            other.changeNameAfter == [] and other.outProductAfter == [] and other.optimalSeq is None and not other.locked,
            'another network shares state with this one')
    return (n, len(spec['links']), len(spec['outp']), len(spec['pre']), len(spec['post']))


@contract('C13', 60)
def ftn_lock_and_edit(rng, i):
    names = ['a', 'b', 'c'][:rng.randrange(1, 4)]
    src = list(names)
    f = FiniteTensorNetwork(src)
    g = FiniteTensorNetwork(src) if i % 2 else FiniteTensorNetwork()
    f.addTensor('q')
    require(src == names and 'q' not in g.tensorNames, 'networks share their name list')
    require(f.tensorCount == len(names) + 1 and f.tensorNames == names + ['q'], 'tensorCount/tensorNames wrong after addTensor')
    f.removeTensor('q')
    require(f.tensorNames == names, 'removeTensor removed something else')
    expect_raises(AssertionError, lambda: f.removeTensor('q'), 'removing an absent tensor')
    f.addPreNameChange('a', 'x', 'y'); f.addPostNameChange('a', 'y', 'z')
    ops = dict(addTensor=lambda: f.addTensor('n'), removeTensor=lambda: f.removeTensor('a'), addLink=lambda: f.addLink('a', 'x', 'a', 'y'),
               addPre=lambda: f.addPreNameChange('a', 'b', 'c'), addPost=lambda: f.addPostNameChange('a', 'b', 'c'),
               remPre=lambda: f.removePreNameChange('a', 'x', 'y'), remPost=lambda: f.removePostNameChange('a', 'y', 'z'),
               addOut=lambda: f.addPostOutProduct(['a'], 'k'))

    def st():
        return (list(f.tensorNames), list(f.links), list(f.changeNameBefore), list(f.changeNameAfter), list(f.outProductAfter))
    f.lock()
    s = st()
    for k, op in ops.items():
        expect_raises(AssertionError, op, '%s on a locked network' % k)
        require(st() == s, '%s changed a locked network' % k)
    f.unlock()
    ks = list(ops); rng.shuffle(ks)
    exp = [list(x) for x in s]
    for k in ks:
        ops[k]()
        if k == 'addTensor': exp[0].append('n')
        elif k == 'removeTensor': exp[0].remove('a')
        elif k == 'addLink': exp[1].append((('a', 'a-x'), ('a', 'a-y')))
        elif k == 'addPre': exp[2].append(('a', 'b', 'c'))
        elif k == 'addPost': exp[3].append(('a', 'b', 'c'))
        elif k == 'remPre': exp[2].remove(('a', 'x', 'y'))
        elif k == 'remPost': exp[3].remove(('a', 'y', 'z'))
        elif k == 'addOut': exp[4].append((['a'], 'k'))
        require([list(x) for x in st()] == exp, '%s did not record exactly its declaration' % k)
    require(g.links == [] and g.changeNameBefore == [] and g.outProductAfter == [], 'networks share state')
    return (len(names), tuple(ks[:3]))


@contract('C13', 60)
def ftn_wrong_names(rng, i):
    f = FiniteTensorNetwork(['a', 'b'])
    f.addLink('a', 'x', 'b', 'x')
    a = rtensor(rng, (2, 3), ['x', 'y']); b = rtensor(rng, (2, 3), ['x', 'z']); c = rtensor(rng, (2,), ['x'])
    bad = [{'a': a}, {'a': a, 'c': b}, {'a': a, 'b': b, 'c': c}, {}][i % 4]
    expect_raises(AssertionError, lambda: f.contract(bad), 'contracting with other tensor names')
    R = np.einsum('xy,xz->yz', a.a, b.a)
    res = f.contract({'b': b, 'a': a})
    require(same(by_label(res, ['y', 'z']), R), 'network value wrong after a refused contraction')
    return i % 4
