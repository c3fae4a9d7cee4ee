from lib import *
from CTL.tensor.contract.contract import contractTwoTensors, shareBonds, merge
from CTL.tensor.contract.optimalContract import copyTensorList, contractTensorList, contractWithSequence
import CTL.funcs.funcs as F
import itertools


# ------------------------------------------------------------------ C01
@contract('C01', 900)
def contract_two(rng, i):
    ta, tb, bonds, others = rand_pair(rng, i)
    use = None
    if i % 3 == 1 and bonds:
        use = list(bonds); rng.shuffle(use)
        if rng.random() < .5 and len(use) > 1 and not (ta.diagonalFlag or tb.diagonalFlag):
            use = use[:rng.randrange(1, len(use))]
    order = use if use is not None else bonds
    R, legs = oracle_pair(ta, tb, order)
    meta = [(l.name, l.dim, None if l.bond is None else id(l.bond)) for l in legs]
    exp_dtype = np.result_type(ta.a, tb.a)
    fa = [l for l in ta.legs if any(l is x for x in legs)]
    desc = (ta.diagonalFlag, tb.diagonalFlag, ta.shape, tb.shape, len(bonds), use is not None)
    if use is None and i % 2:
        res = ta @ tb
    else:
        res = contractTwoTensors(ta, tb, bonds=use, outProductWarning=bool(i % 5))
    wf(res, 'result')
    require(len(res.legs) == len(legs), 'result has %d legs, expected %d' % (len(res.legs), len(legs)))
    A = aligned(res, legs)
    require(same(A, R), 'entries differ from the sum of products: case %r' % (desc,))
    require(np.can_cast(exp_dtype, dense(res).dtype), 'result dtype %s loses precision of %s' % (dense(res).dtype, exp_dtype))
    require([(l.name, l.dim, None if l.bond is None else id(l.bond)) for l in legs] == meta, 'a remaining leg changed name, dimension or link')
    linkd = ta.diagonalFlag and tb.diagonalFlag and len(order) > 0
    if not (ta.diagonalFlag and tb.diagonalFlag):
        require(not res.diagonalFlag, 'result of a dense contraction claims to be diagonal')
    return desc


@contract('C01', 120)
def contract_two_mixed_kind_rejected(rng, i):
    ta, tb, bonds, others = rand_pair(rng, i, like=((True, False), (False, True))[i % 2])
    expect_raises(TypeError, lambda: contractTwoTensors(ta, tb), 'contracting an object with data and one without')
    return (ta.diagonalFlag, tb.diagonalFlag, i % 2)


@contract('C01', 150)
def contract_two_repeated(rng, i):
    """chains of contractions, results used as operands"""
    ts = rand_network(rng, rng.randrange(3, 5), diagp=.3, maxdim=3, connected=True)
    R, labs = oracle_network(ts)
    cur = ts[0]
    rest = ts[1:]
    while rest:
        nxt = [t for t in rest if len([1 for l in cur.legs if l.bond is not None and l.anotherSide().tensor is t])]
        t = rng.choice(nxt)
        rest.remove(t)
        cur = contractTwoTensors(cur, t) if rng.random() < .5 else contractTwoTensors(t, cur)
        wf(cur)
    require(same(by_label(cur, labs), R), 'chained contraction differs from the sum of products')
    return (len(ts), R.shape)


# ------------------------------------------------------------------ C03
def rand_any(rng, i, rank=None, dup=False, like=False, bonds=True):
    r = rng.randrange(0, 5) if rank is None else rank
    diag = bool(i % 2)
    labels = [rng.choice('ab') if dup else x for x in rng.sample('abcdefgh', r)]
    if diag:
        shape = [rng.randrange(1, 4)] * r
    else:
        shape = [rng.randrange(1, 4) for _ in range(r)]
    t = rtensor(rng, shape, labels, diag, like=like)
    if bonds:
        for leg in t.legs:
            if rng.random() < .3:
                o = rtensor(rng, (leg.dim,), ['z'], like=like)
                makeLink(leg, o.legs[0])
    return t


def sel(rng, legs):
    k = rng.randrange(0, len(legs) + 1)
    return rng.sample(list(legs), k)


@contract('C03', 300)
def move_legs(rng, i):
    t = rand_any(rng, i, dup=(i % 5 == 0))
    before, olds = dense(t).copy(), list(t.legs)
    names = [(l.name, l.dim, l.bond) for l in olds]
    s = sel(rng, t.legs)
    arg = list(s)
    if i % 7 == 3:
        s = list(t.legs); arg = t.legs
    t.moveLegsToFront(arg)
    wf(t)
    exp = list(s) + [l for l in olds if not any(l is x for x in s)]
    require(len(t.legs) == len(exp) and all(x is y for x, y in zip(t.legs, exp)), 'legs are not (requested) + (others in order)')
    require(same(aligned(t, olds), before), 'entries moved relative to their legs')
    require([(l.name, l.dim, l.bond) for l in olds] == names, 'leg attributes changed')
    if arg is not t.legs and i % 7 != 3:
        require(len(arg) == len(s) and all(x is y for x, y in zip(arg, s)), 'the caller\'s list was changed')
    n0 = len(t.legs)
    arg.append('x') if arg is not t.legs else None
    require(len(t.legs) == n0, 'tensor keeps the caller\'s list as its own leg list')
    return (t.diagonalFlag, t.shape, len(s))


@contract('C03', 300)
def move_labels(rng, i):
    t = rand_any(rng, i, dup=(i % 3 == 0))
    before, olds = dense(t).copy(), list(t.legs)
    k = rng.randrange(0, len(olds) + 1)
    idx = rng.sample(range(len(olds)), k)
    labs = [olds[x].name for x in idx]
    # duplicate labels: the j-th request of a label is its j-th occurrence
    exp, cnt = [], {}
    for lab in labs:
        occ = [l for l in olds if l.name == lab]
        exp.append(occ[cnt.get(lab, 0)]); cnt[lab] = cnt.get(lab, 0) + 1
    exp += [l for l in olds if not any(l is x for x in exp)]
    which = i % 3
    if which == 0 or k < len(olds):
        t.moveLabelsToFront(labs)
    elif which == 1:
        t.reArrange(labs)
    else:
        a = t.toTensor(labels=labs)
        require(same(a, np.transpose(before, [[id(l) for l in olds].index(id(x)) for x in exp])), 'toTensor array is not in the requested label order')
    wf(t)
    require(all(x is y for x, y in zip(t.legs, exp)) and len(t.legs) == len(exp), 'legs not in the requested label order')
    require(same(aligned(t, olds), before), 'entries moved relative to their legs')
    return (t.diagonalFlag, t.shape, tuple(labs))


@contract('C03', 80)
def bad_labels_rejected(rng, i):
    t = rand_any(rng, i, rank=rng.randrange(1, 4))
    s = snapshot(t)
    expect_raises(ValueError, lambda: t.moveLabelsToFront([t.labels[0], 'nope']), 'moving an absent label')
    if len(t.legs) > 1:
        expect_raises(AssertionError, lambda: t.reArrange(t.labels[1:]), 'rearranging to an incomplete label list')
    expect_raises(AssertionError, lambda: t.reArrange(t.labels[1:] + ['nope']), 'rearranging to wrong labels')
    require(same_snapshot(s, snapshot(t)), 'tensor changed by a refused request')
    return (t.diagonalFlag, t.shape)


@contract('C03', 350)
def to_matrix(rng, i):
    t = rand_any(rng, i, rank=rng.randrange(1, 5))
    s0, olds, D = snapshot(t), list(t.legs), dense(t).copy()
    perm = rng.sample(range(len(olds)), len(olds))
    k = rng.randrange(0, len(olds) + 1)
    r, c = perm[:k], perm[k:]
    mode = i % 5
    rest = lambda used: [x for x in range(len(olds)) if x not in used]
    byl = rng.random() < .5
    conv = (lambda ix: [olds[x].name for x in ix]) if byl else (lambda ix: [olds[x] for x in ix])
    if mode == 0:
        m = t.toMatrix(rows=conv(r), cols=None); c = rest(r)
    elif mode == 1:
        m = t.toMatrix(rows=None, cols=conv(c)); r = rest(c)
    else:
        m = t.toMatrix(rows=conv(r), cols=conv(c))
    E = np.transpose(D, r + c).reshape(int(np.prod([D.shape[x] for x in r], dtype=int)), -1 if D.size else 0)
    require(same(m, E), 'matrix differs from the row-major matricisation for rows %r cols %r' % (r, c))
    require(same_snapshot(s0, snapshot(t)), 'toMatrix changed the tensor')
    m[...] = 77
    require(same(dense(t), D), 'matrix shares storage with the tensor')
    if not t.diagonalFlag:
        v = t.toVector()
        require(same(v, D.reshape(-1)), 'toVector is not the row-major vector')
        v[...] = 5
        require(same(dense(t), D), 'vector shares storage with the tensor')
    return (t.diagonalFlag, t.shape, tuple(r), tuple(c), mode)


# ------------------------------------------------------------------ C04
@contract('C04', 500)
def construct(rng, i):
    diag = bool(i % 2)
    r = rng.randrange(0, 4)
    like = rng.random() < .2
    shape = tuple([rng.randrange(1, 4)] * r) if diag else tuple(rng.randrange(1, 4) for _ in range(r))
    labels = rng.sample('pqrstuv', r)
    give = [rng.random() < .5 for _ in range(4)]      # shape labels legs data
    C = DiagonalTensor if diag else Tensor
    kw = {}
    d0 = None
    if give[0]:
        kw['shape'] = shape if rng.random() < .7 or diag or give[2] is False and not give[3] else list(shape)
        kw['shape'] = tuple(kw['shape'])
    if give[1]:
        kw['labels'] = list(labels) if rng.random() < .7 else tuple(labels)
    if give[2]:
        kw['legs'] = [Leg(None, d, n) for d, n in zip(shape, labels)]
    if give[3] and not like:
        if diag:
            if r == 0:
                d0 = rdata(rng, ())
            elif rng.random() < .6 and (give[0] or give[1] or give[2]):
                d0 = rdata(rng, (shape[0],))
            else:
                d0 = rdata(rng, shape)
        else:
            d0 = rdata(rng, shape)
            if rng.random() < .4 and (give[0] or give[2]):
                d0 = d0.reshape(-1) if rng.random() < .5 else d0.reshape((-1, 1))
        kw['data'] = d0
    if not (give[0] or give[2] or (give[3] and not like)):
        if not (like and give[1]):
            expect_raises(ValueError, lambda: C(tensorLikeFlag=like, **kw), 'construction from nothing but labels')
            return ('insufficient', diag, tuple(kw))
        if diag:
            raise Skip()
    t = C(tensorLikeFlag=like, name='nm', degreeOfFreedom=3, **kw)
    require(t.name == 'nm' and t.degreeOfFreedom == 3, 'name or degree of freedom lost')
    if like and not (give[0] or give[2]):
        require([l.name for l in t.legs] == list(labels), 'labels lost')
        return ('like-labels', r)
    wf(t)
    require(tuple(t.shape) == shape or (give[3] and not (give[0] or give[2])), 'shape %r, expected %r' % (t.shape, shape))
    if give[1] or give[2]:
        require(list(t.labels) == list(labels), 'labels %r expected %r' % (t.labels, labels))
    else:
        require(list(t.labels) == list(LET[:len(t.legs)]), 'default labels %r' % (t.labels,))
    if give[2]:
        require(all(x is y for x, y in zip(t.legs, kw['legs'])), 'given legs not used')
    require(t.diagonalFlag == diag and t.tensorLikeFlag == like, 'kind of the new object')
    if d0 is not None:
        D = dense(t)
        if diag:
            if d0.ndim == 1:
                E = np.zeros(t.shape, dtype=d0.dtype)
                for k in range(d0.shape[0]):
                    E[(k,) * len(t.shape)] = d0[k]
            else:
                E = np.zeros(d0.shape, dtype=d0.dtype)
                for k in range(d0.shape[0] if d0.ndim else 0):
                    E[(k,) * d0.ndim] = d0[(k,) * d0.ndim]
                if d0.ndim == 0:
                    E = d0.copy()
        else:
            E = d0.reshape(shape)
        require(same(D, E) and D.dtype == d0.dtype, 'stored data differs from the given data')
        keep = D.copy()
        if d0.size:
            d0[...] = 99
            require(same(dense(t), keep), 'tensor aliases the caller\'s data')
    return (diag, like, tuple(give), shape)


@contract('C04', 400)
def construct_inconsistent(rng, i):
    diag = bool(i % 2)
    C = DiagonalTensor if diag else Tensor
    r = rng.randrange(1, 4)
    shape = tuple([rng.randrange(2, 4)] * r) if diag else tuple(rng.randrange(1, 4) for _ in range(r))
    labels = rng.sample('pqrstuv', r)
    legs = [Leg(None, d, n) for d, n in zip(shape, labels)]
    like = rng.random() < .3
    kind = rng.randrange(0, 9)
    j = rng.randrange(r)
    bad = list(shape); bad[j] += 1
    bl = list(labels); bl[j] = 'zz'
    wrongl = shape[0] + rng.choice([1, -1])
    if kind == 4 and diag and r == 1:
        bad = [wrongl]
    if kind == 5 and diag and r == 1:
        bad = [wrongl]
    if kind == 0:
        f = lambda: C(shape=shape, labels=labels + ['x'], tensorLikeFlag=like)
    elif kind == 1:
        f = lambda: C(legs=legs, labels=bl, tensorLikeFlag=like)
    elif kind == 2:
        f = lambda: C(legs=legs, shape=tuple(bad), tensorLikeFlag=like)
    elif kind == 3:
        f = lambda: C(legs=legs, shape=shape + (1,), tensorLikeFlag=like)
    elif kind == 4:
        f = lambda: C(legs=legs, data=np.ones(tuple(bad) if not diag or r == 1 else (wrongl,)))
    elif kind == 5:
        f = lambda: C(shape=shape, data=np.ones(tuple(bad) if not diag or r == 1 else (wrongl,)))
    elif kind == 6:
        f = lambda: C(labels=labels + ['x', 'y'], data=np.ones(shape) if not (diag and r == 1) else np.ones((2, 2)))
        if diag and r == 1:
            f = lambda: C(labels=['x', 'y', 'z'], data=np.ones((2, 2)))
    elif kind == 7:
        f = lambda: C(legs=legs, labels=labels[:-1], tensorLikeFlag=like)
    else:
        if not diag or r < 2:
            f = lambda: C(legs=legs + [Leg(None, 2, 'x')], labels=labels)
        else:
            which = rng.randrange(3)
            f = [lambda: C(shape=tuple(bad), tensorLikeFlag=like), lambda: C(data=np.ones(tuple(bad))),
                 lambda: C(legs=[Leg(None, d, n) for d, n in zip(bad, labels)], tensorLikeFlag=like)][which]
    expect_raises(ValueError, f, 'inconsistent construction kind %d diag %s shape %r' % (kind, diag, shape))
    return (diag, kind, shape)


@contract('C04', 60)
def construct_accidental_size(rng, i):
    """data whose total size matches but whose layout cannot be a diagonal"""
    n = rng.randrange(2, 4)
    r = rng.randrange(2, 4)
    data = np.arange(float(n ** r))
    if i % 3 == 1:
        data = data.reshape(-1, 1)
    if i % 3 == 2:
        data = data.reshape(1, -1)
    kw = dict(shape=(n,) * r) if i % 2 else dict(legs=[Leg(None, n, x) for x in LET[:r]])
    expect_raises(ValueError, lambda: DiagonalTensor(data=data, **kw), 'diagonal tensor of shape %r from data of shape %r' % ((n,) * r, data.shape))
    return (n, r, i % 3)


@contract('C04', 40)
def construct_default_data(rng, i):
    shape = tuple([rng.randrange(1, 4)] * rng.randrange(1, 4))
    if i % 2:
        t = DiagonalTensor(shape=shape)
        require(same(t.a, np.ones(shape[0])), 'a diagonal tensor without data is not the identity')
        t = DiagonalTensor(shape=shape[0], labels=list(LET[:len(shape)]))
        require(tuple(t.shape) == shape, 'integer shape not expanded')
        wf(t)
    else:
        dt = [np.float64, np.complex128][i % 4 // 2]
        t = Tensor(shape=shape, dtype=dt)
        wf(t)
        require(np.iscomplexobj(t.a) == (dt is np.complex128), 'random data has the wrong kind')
    return shape


# ------------------------------------------------------------------ C05
@contract('C05', 400)
def copies(rng, i):
    like = i % 5 == 4
    t = rand_any(rng, i // 2, like=like)
    t.name = rng.choice([None, 'n']); t.degreeOfFreedom = rng.choice([None, 4])
    s = snapshot(t)
    kind = i % 3
    if kind == 0:
        cs = [t.copy()]
    elif kind == 1:
        cs = t.copyN(rng.randrange(0, 4))
    else:
        cs = [t.toTensorLike()]
    require(same_snapshot(s, snapshot(t)), 'copying changed the original')
    for c in cs:
        wf(c)
        require(list(c.labels) == list(t.labels) and tuple(c.shape) == tuple(t.shape), 'labels/shape of the copy')
        require(c.name == t.name and c.degreeOfFreedom == t.degreeOfFreedom, 'name/degree of freedom of the copy')
        require(c.diagonalFlag == t.diagonalFlag and type(c) is type(t), 'kind of the copy')
        require(c.tensorLikeFlag == (like or kind == 2), 'data-free flag of the copy')
        require(np.dtype(c.dtype) == np.dtype(t.dtype), 'dtype of the copy')
        require(all(l.bond is None for l in c.legs), 'copy carries links')
        require(not any(x is y for x in c.legs for y in t.legs), 'copy shares legs')
        if not c.tensorLikeFlag:
            require(same(c.a, t.a) and np.asarray(c.a).dtype == np.asarray(t.a).dtype, 'data of the copy')
            require(not np.shares_memory(c.a, t.a), 'copy shares data')
            c.a[...] = 55
        for l in c.legs:
            l.name = 'changed'
        require(same_snapshot(s, snapshot(t)), 'changing the copy changed the original')
    for x, y in itertools.combinations(cs, 2):
        require(x is not y and not any(a is b for a in x.legs for b in y.legs), 'copies share legs')
        if not x.tensorLikeFlag:
            require(not np.shares_memory(x.a, y.a), 'copies share data')
    if kind == 1:
        pass
    return (kind, t.diagonalFlag, like, t.shape)


@contract('C05', 300)
def copy_list(rng, i):
    n = rng.randrange(1, 5)
    ts = rand_network(rng, n, diagp=.3, connected=(i % 2 == 0))
    # links to tensors that are not in the list, same-named labels everywhere
    if i % 3 == 0:
        for t in ts:
            for l in t.legs:
                l.name = 'x'
    sub = ts if i % 4 else rng.sample(ts, rng.randrange(1, n + 1))
    if i % 5 == 0:
        sub = list(sub); rng.shuffle(sub)
    snaps = [snapshot(t) for t in ts]
    like = i % 7 == 6
    cs = copyTensorList(sub, tensorLikeFlag=like)
    require(all(same_snapshot(a, snapshot(t)) for a, t in zip(snaps, ts)), 'originals changed')
    require(len(cs) == len(sub), 'number of copies')
    for t, c in zip(sub, cs):
        wf(c)
        require(list(c.labels) == list(t.labels) and tuple(c.shape) == tuple(t.shape) and c.diagonalFlag == t.diagonalFlag, 'copy differs')
        require(c.tensorLikeFlag == like, 'data-free flag')
        if not like:
            require(same(c.a, t.a) and not np.shares_memory(c.a, t.a), 'data of the copy')
        for x, l in enumerate(t.legs):
            o = l.anotherSide()
            inside = o is not None and any(o.tensor is s for s in sub)
            if not inside:
                require(c.legs[x].bond is None, 'copy linked where the original is not linked inside the list')
            else:
                k = [id(s) for s in sub].index(id(o.tensor))
                y = [id(q) for q in o.tensor.legs].index(id(o))
                require(c.legs[x].anotherSide() is cs[k].legs[y], 'link between copies joins the wrong legs')
    return (n, len(sub), like, [t.shape for t in sub])


@contract('C05', 60)
def copy_list_outgoing(rng, i):
    a = rtensor(rng, (2, 3, 2), ['x', 'y', 'z']); b = rtensor(rng, (3, 2), ['p', 'q']); c = rtensor(rng, (2,), ['r'])
    makeLink('y', 'p', a, b); makeLink(*((a.legs[2], c.legs[0]) if i % 2 else (c.legs[0], a.legs[2])))
    sub = [a, b] if i % 4 < 2 else [b, a]
    D = [dense(t).copy() for t in (a, b, c)]
    cs = copyTensorList(sub, linkOutgoingBonds=True)
    for t in cs + [b, c]:
        wf(t)
    na = cs[sub.index(a)]; nb = cs[sub.index(b)]
    require(na.legs[2].anotherSide() is c.legs[0] and c.legs[0].anotherSide() is na.legs[2], 'outgoing link not moved to the copy')
    require(na.legs[1].anotherSide() is nb.legs[0], 'inner link')
    require(a.legs[2].bond is None and a.legs[2].anotherSide() is None, 'original leg is not free after its link moved to the copy')
    require(a.legs[1].anotherSide() is b.legs[0], 'inner link of the originals changed')
    require(all(same(d, dense(t)) for d, t in zip(D, (a, b, c))), 'data changed')
    return i % 4


# ------------------------------------------------------------------ C06
@contract('C06', 400)
def out_product(rng, i):
    r = rng.randrange(1, 5)
    like = i % 5 == 4
    dup = i % 4 == 3
    t = rand_any(rng, 0, rank=r, like=like, dup=dup)
    olds = list(t.legs)
    k = rng.randrange(1, r + 1)
    idx = rng.sample(range(r), k)
    rest = [x for x in range(r) if x not in idx]
    names = [(l.name, l.dim, l.bond) for l in olds]
    D = None if like else dense(t).copy()
    legs = [olds[x] for x in idx]
    arg = list(legs)
    if i % 2 and not dup:
        arg = [l.name for l in legs]
    elif i % 6 == 0 and k == r:
        arg = t.legs; idx = list(range(r)); rest = []; legs = list(t.legs)
    nd = int(np.prod([l.dim for l in legs]))
    res = t.outProduct(arg, 'new')
    wf(t)
    require(res is t.legs[0] and res.name == 'new' and res.tensor is t and res.bond is None, 'new leg')
    require(res.dim == nd, 'dimension of the combined leg is %r, expected %d' % (res.dim, nd))
    require(len(t.legs) == 1 + len(rest) and all(a is olds[x] for a, x in zip(t.legs[1:], rest)), 'other legs not kept in order')
    require([(olds[x].name, olds[x].dim, olds[x].bond) for x in rest] == [names[x] for x in rest], 'other legs changed')
    if not like:
        E = np.transpose(D, idx + rest).reshape((nd,) + tuple(D.shape[x] for x in rest))
        require(same(t.a, E), 'entries are not in row-major order of the combined legs')
    return (like, [n[1] for n in names], idx)


@contract('C06', 40)
def out_product_refused(rng, i):
    t = rand_any(rng, 1, rank=rng.randrange(1, 4))
    s = snapshot(t)
    expect_raises(TypeError, lambda: t.outProduct([t.legs[0]], 'x'), 'combining legs of a diagonal tensor')
    require(same_snapshot(s, snapshot(t)), 'diagonal tensor changed')
    t = rand_any(rng, 0, rank=2)
    expect_raises(AssertionError, lambda: t.outProduct([], 'x'), 'combining no legs')
    return t.shape


@contract('C06', 300)
def merge_links(rng, i):
    k = rng.randrange(1, 4)
    fa, fb = rng.randrange(0, 3), rng.randrange(0, 3)
    sd = [rng.randrange(1, 4) for _ in range(k)]
    sa = [('s', j, d) for j, d in enumerate(sd)] + [('f', j, rng.randrange(1, 3)) for j in range(fa)]
    sb = [('s', j, d) for j, d in enumerate(sd)] + [('f', j, rng.randrange(1, 3)) for j in range(fb)]
    rng.shuffle(sa); rng.shuffle(sb)
    ta = rtensor(rng, [x[2] for x in sa], ['%s%dA' % x[:2] for x in sa])
    tb = rtensor(rng, [x[2] for x in sb], ['%s%dB' % x[:2] for x in sb])
    la = {x[:2]: l for x, l in zip(sa, ta.legs)}
    lb = {x[:2]: l for x, l in zip(sb, tb.legs)}
    for j in rng.sample(range(k), k):
        makeLink(*((la['s', j], lb['s', j]) if rng.random() < .5 else (lb['s', j], la['s', j])))
    third = []
    for l in list(ta.legs) + list(tb.legs):
        if l.bond is None and rng.random() < .3:
            o = rtensor(rng, (l.dim,), ['t']); makeLink(l, o.legs[0]); third.append((l, o.legs[0]))
    R, legs = oracle_pair(ta, tb, [l.bond for x, l in la.items() if x[0] == 's'])
    namesA = [l.name for l in ta.legs if l.bond is not None and l.anotherSide().tensor is tb]
    namesB = [l.anotherSide().name for l in ta.legs if l.bond is not None and l.anotherSide().tensor is tb]
    mode = i % 4
    bn = [None, 'm', ('mA', 'mB'), None][mode]
    if mode == 3:
        ra, rb = mergeLink(ta, tb, renameWarning=False) if i % 8 == 3 else merge(ta, tb, chi=None, renameWarning=False)
    else:
        ra, rb = mergeLink(ta, tb, bondName=bn)
    wf(ra); wf(rb)
    sb_ = [l for l in ra.legs if l.bond is not None and l.anotherSide().tensor is rb]
    require(len(sb_) == 1, '%d links left after merging' % len(sb_))
    L = sb_[0]; M = L.anotherSide()
    require(L.dim == int(np.prod(sd)), 'dimension of the merged link')
    if bn is None:
        require(L.name == '|'.join(namesA) and M.name == '|'.join(namesB), 'names of the merged link: %r, %r' % (L.name, M.name))
    elif mode == 1:
        require(L.name == 'm' and M.name == 'm', 'names of the merged link')
    elif mode == 2:
        require(L.name == 'mA' and M.name == 'mB', 'names of the merged link')
    for l, o in third:
        require(l.anotherSide() is o and o.anotherSide() is l, 'link to a third tensor changed')
    R2, legs2 = oracle_pair(ra, rb, [L.bond])
    require(len(legs2) == len(legs), 'outer legs')
    perm = [[id(x) for x in legs2].index(id(l)) for l in legs]
    require(same(np.transpose(R2, perm), R), 'merging changed the contraction')
    return (k, sd, sa, sb, mode)


@contract('C06', 30)
def merge_without_links(rng, i):
    ta = rtensor(rng, (2, 2), ['a', 'b']); tb = rtensor(rng, (2,), ['c'])
    tc = rtensor(rng, (2,), ['d']); makeLink('a', 'd', ta, tc)
    s = [snapshot(x) for x in (ta, tb, tc)]
    ra, rb = mergeLink(ta, tb) if i % 2 else merge(ta, tb)
    require(ra is ta and rb is tb and all(same_snapshot(x, snapshot(y)) for x, y in zip(s, (ta, tb, tc))), 'tensors without common link changed')
    return i % 2


# ------------------------------------------------------------------ C07
@contract('C07', 500)
def sum_out(rng, i):
    r = rng.randrange(1, 5)
    t = rand_any(rng, i, rank=r, dup=(i % 6 == 5))
    olds = list(t.legs)
    D = dense(t).copy()
    names = [(l.name, l.dim, l.bond) for l in olds]
    how = i % 3
    weighted = rng.random() < .6
    w = None
    if how == 0 or i % 6 == 5:
        idx = [rng.randrange(r)]
        if weighted:
            w = rdata(rng, (olds[idx[0]].dim,), rng.choice([np.float64, np.complex128]))
        if i % 6 == 5 and how == 2:
            back = rng.random() < .5
            lab = olds[idx[0]].name
            occ = [x for x in range(r) if olds[x].name == lab]
            idx = [occ[-1] if back else occ[0]]
            if weighted:
                w = rdata(rng, (olds[idx[0]].dim,), np.float64)
            t.sumOutLegByLabel(lab, backward=back, weights=w)
        else:
            t.sumOutLeg(olds[idx[0]], weights=w)
    elif how == 1:
        idx = [rng.randrange(r)]
        if weighted:
            w = rdata(rng, (olds[idx[0]].dim,), np.float64)
        t.sumOutLegByLabel(olds[idx[0]].name, weights=w)
    else:
        d = rng.choice([l.dim for l in olds])
        cand = [x for x in range(r) if olds[x].dim == d] if weighted else list(range(r))
        idx = rng.sample(cand, rng.randrange(1, len(cand) + 1))
        if weighted:
            w = rdata(rng, (d,), np.float64)
        t.sumOutLegByLabel([olds[x].name for x in idx], weights=w)
    wf(t)
    rest = [x for x in range(r) if x not in idx]
    require(len(t.legs) == len(rest) and all(a is olds[x] for a, x in zip(t.legs, rest)), 'remaining legs')
    require([(olds[x].name, olds[x].dim, olds[x].bond) for x in rest] == [names[x] for x in rest], 'remaining legs changed')
    ops = [D, list(range(r))]
    for x in idx:
        if w is not None:
            ops += [w, [x]]
    E = np.einsum(*ops, rest)
    require(same(dense(t), E), 'entries are not the weighted sums (legs %r, weights %r)' % (idx, w))
    return (t.diagonalFlag, [n[1] for n in names], idx, how, w is not None)


@contract('C07', 60)
def sum_out_absent(rng, i):
    t = rand_any(rng, i)
    s = snapshot(t)
    if i % 3 == 0:
        t.sumOutLegByLabel('nope')
    elif i % 3 == 1:
        t.sumOutLeg(Leg(None, 2, 'a'), weights=np.array([1., 2.]))
    else:
        o = rand_any(rng, i + 1, rank=2, bonds=False)
        t.sumOutLeg(o.legs[0])
    require(same_snapshot(s, snapshot(t)), 'tensor changed although the leg is absent')
    return (t.diagonalFlag, t.shape, i % 3)


@contract('C07', 60)
def sum_out_data_free(rng, i):
    t = rand_any(rng, i, rank=rng.randrange(1, 4), like=True)
    olds = list(t.legs)
    x = rng.randrange(len(olds))
    t.sumOutLeg(olds[x], weights=None if i % 4 < 2 else np.ones(olds[x].dim))
    wf(t)
    require(all(a is b for a, b in zip(t.legs, olds[:x] + olds[x + 1:])) and len(t.legs) == len(olds) - 1, 'remaining legs')
    return (t.diagonalFlag, t.shape, x)


# ------------------------------------------------------------------ C08
@contract('C08', 300)
def linking(rng, i):
    n = rng.randrange(2, 5)
    ts = [rtensor(rng, [rng.randrange(1, 3) for _ in range(rng.randrange(1, 5))]) for _ in range(n)]
    partner = {}
    for step in range(rng.randrange(1, 8)):
        a, b = rng.randrange(n), rng.randrange(n)
        fa = [l for l in ts[a].legs if l.bond is None]
        fb = [l for l in ts[b].legs if l.bond is None]
        if a == b:
            rng.shuffle(fa)
            fa, fb = fa[:len(fa) // 2], fa[len(fa) // 2:]
        k = rng.randrange(1, 3)
        if len(fa) < k or len(fb) < k:
            continue
        la = rng.sample(fa, k); lb = rng.sample(fb, k)
        snap = [(l, l.bond, l.name, l.dim, l.tensor) for t in ts for l in t.legs]
        bylab = rng.random() < .5
        A = [l.name for l in la] if bylab else list(la)
        B = [l.name for l in lb] if rng.random() < .5 else list(lb)
        if k == 1 and rng.random() < .5:
            A, B = A[0], B[0]
        ok = [x.dim == y.dim for x, y in zip(la, lb)]
        if all(ok):
            bonds = makeLink(A, B, ts[a], ts[b])
            require(len(bonds) == k, 'number of links')
            for x, y, bd in zip(la, lb, bonds):
                require(isinstance(bd, Bond) and x.bond is bd and y.bond is bd, 'legs do not refer to the new link')
                require(x.anotherSide() is y and y.anotherSide() is x and bd.anotherSide(x) is y and bd.anotherSide(y) is x, 'other side')
                require(set(map(id, bd.legs)) == {id(x), id(y)}, 'legs of the link')
                partner[id(x)] = y; partner[id(y)] = x
            lim = k
        else:
            lim = ok.index(False)
            expect_raises(AssertionError, lambda: makeLink(A, B, ts[a], ts[b]), 'linking legs of different dimension')
            for x, y in list(zip(la, lb))[:lim]:
                require(x.anotherSide() is y and y.anotherSide() is x, 'earlier pairs of the list')
                partner[id(x)] = y; partner[id(y)] = x
        touched = set(map(id, la[:lim] + lb[:lim]))
        for l, bd, nm, d, tt in snap:
            require(l.name == nm and l.dim == d and l.tensor is tt, 'leg attributes changed by linking')
            if id(l) not in touched:
                require(l.bond is bd, 'an uninvolved leg changed its link')
    for t in ts:
        for l in t.legs:
            require(l.anotherSide() is partner.get(id(l)), 'other side of a leg')
    for _ in range(3):
        a, b = rng.sample(range(n), 2)
        exp = [l.bond for l in ts[a].legs if id(l) in partner and any(partner[id(l)] is x for x in ts[b].legs)]
        got = shareBonds(ts[a], ts[b])
        require(len(got) == len(exp) and all(x is y for x, y in zip(got, exp)), 'shared links')
        for bd in got:
            require(bd.sideLeg(ts[a]) in ts[a].legs and bd.sideLeg(ts[b]) in ts[b].legs, 'leg of a link in a tensor')
        for t in ts:
            for l in t.legs:
                require(l.anotherSide() is partner.get(id(l)), 'asking for shared links changed a link')
    return (n, [t.shape for t in ts], len(partner))


@contract('C08', 60)
def linking_refused(rng, i):
    a = rtensor(rng, (2, 3, 2)); b = rtensor(rng, (2, 3, 3))
    s = [snapshot(a), snapshot(b)]
    if i % 4 == 0:
        expect_raises(AssertionError, lambda: makeLink(['a', 'b'], ['a'], a, b), 'lists of different length')
    elif i % 4 == 1:
        expect_raises(AssertionError, lambda: makeLink('a', 'b', a, b), 'different dimensions')
    elif i % 4 == 2:
        expect_raises(AssertionError, lambda: Bond(a.legs[0], b.legs[1]), 'different dimensions')
    else:
        expect_raises(AssertionError, lambda: makeLink(a.legs, b.legs[:2]), 'lists of different length')
    require(all(same_snapshot(x, snapshot(t)) for x, t in zip(s, (a, b))), 'refused link left a trace')
    makeLink('a', 'a', a, b)
    other = rtensor(rng, (2,))
    expect_raises(AssertionError, lambda: a.legs[0].bond.anotherSide(other.legs[0]), 'other side of a foreign leg')
    expect_raises((ValueError, AssertionError), lambda: a.legs[0].bond.sideLeg(other), 'side in a foreign tensor')
    require(a.legs[1].anotherSide() is None, 'free leg has an other side')
    return i % 4


# ------------------------------------------------------------------ C09
def to_dense(d):
    return Tensor(labels=list(d.labels), data=dense(d), shape=tuple(d.shape))


@contract('C09', 400)
def diag_ops(rng, i):
    r = rng.randrange(0 if i % 3 else 1, 5)
    d = rand_any(rng, 1, rank=r)
    D = dense(d).copy()
    e = to_dense(d)
    require(close(d.norm(), np.linalg.norm(D.ravel())), 'norm %r, dense norm %r' % (d.norm(), np.linalg.norm(D.ravel())))
    require(same(d.toTensor(), D), 'total array')
    require(np.can_cast(D.dtype, np.asarray(d.toTensor()).dtype), 'total array loses precision')
    require(tuple(d.shape) == D.shape and d.dim == D.ndim, 'shape')
    if r >= 2 and r % 2 == 0:
        idx = rng.sample(range(r), r)
        rows = [d.labels[x] for x in idx[:r // 2]]; cols = [d.labels[x] for x in idx[r // 2:]]
        require(same(d.trace(rows=rows, cols=cols), e.trace(rows=rows, cols=cols)) and same(d.trace(), np.sum(D[tuple([np.arange(D.shape[0])] * r)])), 'trace')
    if r >= 1:
        idx = rng.sample(range(r), r); k = rng.randrange(0, r + 1)
        rows = [d.labels[x] for x in idx[:k]]; cols = [d.labels[x] for x in idx[k:]]
        require(same(d.toMatrix(rows=rows, cols=cols), e.toMatrix(rows=rows, cols=cols)), 'matrix form')
        labs = [d.labels[x] for x in idx]
        require(same(d.toTensor(labels=labs), e.toTensor(labels=labs)), 'array in label order')
        require(list(d.labels) == list(e.labels), 'labels after reordering')
        require(same(dense(d.copy()), dense(e)), 'copy')
        seq = rng.sample(labs, rng.randrange(0, r + 1))
        for lab in seq:
            w = rdata(rng, (D.shape[0],), rng.choice([np.float64, np.complex128])) if rng.random() < .6 else None
            d.sumOutLegByLabel(lab, weights=w); e.sumOutLegByLabel(lab, weights=w)
            require(list(d.labels) == list(e.labels) and same(dense(d), e.a), 'leg summation with weights %r' % (w,))
            wf(d)
    if len(d.legs) == 0:
        require(same(d.single(), dense(d)), 'single value')
    return (r, D.shape, str(D.dtype))


@contract('C09', 500)
def diag_contract(rng, i):
    ta, tb, bonds, others = rand_pair(rng, 1 + i % 3)
    R, legs = oracle_pair(ta, tb, bonds)
    names = [l.name for l in legs]
    both = ta.diagonalFlag and tb.diagonalFlag and len(bonds) > 0
    desc = (ta.diagonalFlag, tb.diagonalFlag, ta.shape, tb.shape, len(bonds))
    res = contractTwoTensors(ta, tb)
    require(same(aligned(res, legs), R), 'contraction with diagonal operands differs from the dense one')
    require(res.diagonalFlag or not both, 'two linked diagonal tensors give a non-diagonal result')
    require(isinstance(res, DiagonalTensor) == bool(res.diagonalFlag), 'kind of the result')
    wf(res)
    return desc


# ------------------------------------------------------------------ C10
@contract('C10', 400)
def data_free_mirror(rng, i):
    t = rand_any(rng, i, rank=rng.randrange(1, 5), bonds=False)
    q = t.toTensorLike()
    trace = []
    for step in range(rng.randrange(1, 5)):
        n = len(t.legs)
        require(len(q.legs) == n, 'number of legs')
        op = rng.randrange(6)
        if n == 0 and op < 4:
            continue
        if op == 0:
            s = rng.sample(range(n), rng.randrange(0, n + 1))
            t.moveLegsToFront([t.legs[x] for x in s]); q.moveLegsToFront([q.legs[x] for x in s])
        elif op == 1:
            s = rng.sample(range(n), rng.randrange(1, n + 1))
            if t.diagonalFlag:
                expect_raises(TypeError, lambda: q.outProduct([q.legs[x] for x in s], 'z'), 'combining data-free diagonal legs')
                continue
            t.outProduct([t.legs[x] for x in s], 'N%d' % step); q.outProduct([q.legs[x] for x in s], 'N%d' % step)
        elif op == 2:
            x = rng.randrange(n)
            w = rng.choice([None, np.ones(t.legs[x].dim)])
            t.sumOutLeg(t.legs[x], weights=w); q.sumOutLeg(q.legs[x], weights=w)
        elif op == 3:
            x = rng.randrange(n)
            t.renameLabel(t.labels[x], 'R%d' % step); q.renameLabel(q.labels[x], 'R%d' % step)
        elif op == 4:
            t = t.copy(); q = q.copy()
        else:
            q = q.toTensorLike()
        trace.append(op)
        wf(t); wf(q)
        require(q.a is None and q.tensorLikeFlag, 'data-free object holds data')
        require(list(q.labels) == list(t.labels) and tuple(q.shape) == tuple(t.shape), 'labels/shape %r %r instead of %r %r' % (q.labels, q.shape, t.labels, t.shape))
        require(q.diagonalFlag == t.diagonalFlag and type(q) is type(t), 'kind')
        require(q.totalSize == t.totalSize and q.dim == t.dim, 'size')
    return (t.diagonalFlag, tuple(trace), t.shape)


@contract('C10', 300)
def data_free_contract(rng, i):
    ta, tb, bonds, others = rand_pair(rng, i)
    for o in others:
        pass
    la, lb = copyTensorList([ta, tb], tensorLikeFlag=True)
    use = None
    if i % 3 == 2 and bonds and not (ta.diagonalFlag or tb.diagonalFlag):
        k = rng.randrange(1, len(bonds) + 1)
        use = bonds[:k]
        m = {id(b): [x for l, x in zip(ta.legs, la.legs) if l.bond is b][0].bond for b in use}
        ul = [m[id(b)] for b in use]
    if i % 5 == 4 and len(bonds) > 1 and not (ta.diagonalFlag or tb.diagonalFlag):
        for x in others:
            pass
        mergeLink(ta, tb); mergeLink(la, lb)
        use = None
    r = contractTwoTensors(ta, tb, bonds=use) if use else contractTwoTensors(ta, tb)
    q = contractTwoTensors(la, lb, bonds=ul) if use else contractTwoTensors(la, lb)
    wf(q)
    require(q.a is None and q.tensorLikeFlag and not r.tensorLikeFlag, 'data-free result')
    require(sorted(zip(q.labels, q.shape)) == sorted(zip(r.labels, r.shape)), 'legs %r instead of %r' % (list(zip(q.labels, q.shape)), list(zip(r.labels, r.shape))))
    require(q.diagonalFlag == r.diagonalFlag and type(q) is type(r), 'kind of the result')
    return (ta.diagonalFlag, tb.diagonalFlag, r.shape)


@contract('C10', 120)
def data_free_network(rng, i):
    ts = rand_network(rng, rng.randrange(1, 5), diagp=.3)
    ls = copyTensorList(ts, tensorLikeFlag=True)
    r = contractTensorList(ts); q = contractTensorList(ls)
    require(q.a is None and sorted(zip(q.labels, q.shape)) == sorted(zip(r.labels, r.shape)) and q.diagonalFlag == r.diagonalFlag, 'network prediction')
    return (len(ts), r.shape)


@contract('C10', 40)
def data_free_refuses_numbers(rng, i):
    t = rand_any(rng, i, rank=rng.randrange(0, 3) * 2, like=True)
    labs = list(t.labels)
    for nm, f in [('norm', lambda: t.norm()), ('trace', lambda: t.trace(rows=labs[:len(labs) // 2], cols=labs[len(labs) // 2:])),
                  ('matrix', lambda: t.toMatrix(rows=labs[:1], cols=labs[1:])), ('vector', lambda: t.toVector()),
                  ('array', lambda: t.toTensor()), ('single value', lambda: t.single())]:
        expect_raises(AssertionError, f, nm + ' of a data-free object')
    return (t.diagonalFlag, t.shape)


@contract('C10', 60)
def data_free_merge(rng, i):
    a = rtensor(rng, (2, 3, 2), ['a', 'b', 'c']); b = rtensor(rng, (3, 2, 2), ['p', 'q', 'r'])
    makeLink(['b', 'c'], ['p', 'q'], a, b)
    la, lb = copyTensorList([a, b], tensorLikeFlag=True)
    bn = [None, 'm', ('u', 'v')][i % 3]
    chi = None
    a, b = merge(a, b, chi=chi, bondName=bn); la, lb = merge(la, lb, chi=chi, bondName=bn)
    for x, y in ((a, la), (b, lb)):
        wf(y)
        require(list(x.labels) == list(y.labels) and tuple(x.shape) == tuple(y.shape) and y.a is None, 'merged data-free tensors')
    return i % 3


@contract('C04', 40)
def construct_scalar(rng, i):
    d = rdata(rng, ())
    C = [Tensor, DiagonalTensor][i % 2]
    bad = rng.choice([(2, 2), (3,)])
    if i % 4 < 2:
        expect_raises(ValueError, lambda: C(shape=bad, data=d), 'shape %r from a single number' % (bad,))
        expect_raises(ValueError, lambda: C(shape=(), data=np.arange(3.)), 'shape () from three numbers')
        return (C.__name__, 'bad')
    t = C(data=d) if rng.random() < .5 else C(data=d, shape=())
    wf(t)
    v = d.copy()
    d[...] = 99
    require(same(t.single(), v) and list(t.labels) == [] and tuple(t.shape) == (), 'value of a rank-0 tensor')
    return (C.__name__, str(v))
