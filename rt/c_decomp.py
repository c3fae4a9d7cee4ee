"""executable contracts: C14 (decompositions), C15 (MPS), C20 (impurity networks)"""
from lib import *
import CTL.funcs.funcs as F
from CTL.funcs.decompose import SVDDecomposition
from CTL.tensor.tensorFunc import tensorSVDDecomposition, isIsometry
from CTL.tensor.contract.contract import contractTwoTensors, shareBonds, merge
from CTL.tensor.contract.optimalContract import contractTensorList, contractWithSequence, copyTensorList
from CTL.examples.Schimdt import SchimdtDecomposition, matrixSchimdtDecomposition
from CTL.examples.MPS import FreeBoundaryMPS, makeRandomMPS, createMPSFromTensor, contractMPS, mergeMPS, contractWithMPS
from CTL.examples.impurity import ImpurityTensorNetwork
import itertools, math


def fmat(rng, shape, cplx=None, rank=None):
    st = np.random.RandomState(rng.randrange(2 ** 31))
    cplx = rng.random() < .4 if cplx is None else cplx

    def one(sh):
        a = st.uniform(-1, 1, size=sh)
        if cplx:
            a = a + 1j * st.uniform(-1, 1, size=sh)
        return a
    if rank is not None and len(shape) == 2:
        return one((shape[0], rank)) @ one((rank, shape[1]))
    return one(shape)


def check_trunc(M, A, kept, msg):
    """A is a best approximation of rank <= kept of M (Frobenius norm)"""
    s = np.linalg.svd(M, compute_uv=False)
    n = np.linalg.norm(M) + 1e-300
    require(A.shape == M.shape, msg + ': shape of the product %r, original %r' % (A.shape, M.shape))
    opt = np.sqrt(np.sum(s[kept:] ** 2))
    err = np.linalg.norm(M - A)
    require(abs(err - opt) <= 1e-7 * n, msg + ': error %g, best possible with %d values is %g' % (err, kept, opt))
    if kept < min(M.shape):
        require(np.linalg.matrix_rank(A, tol=1e-8 * n) <= kept, msg + ': more than %d values kept' % kept)


@contract('C14', 300)
def svd_matrix(rng, i):
    r, c = rng.randrange(1, 6), rng.randrange(1, 6)
    M = fmat(rng, (r, c), rank=rng.randrange(1, 4) if i % 3 == 0 else None)
    chi = rng.randrange(1, 8)
    order = rng.choice([1, 2, 2, 3])
    M0 = M.copy()
    s0 = np.linalg.svd(M, compute_uv=False)
    k = min(chi, len(s0))
    exp = 0.0 if chi >= len(s0) else np.sum(s0[chi:] ** order) / np.sum(s0 ** order)
    if i % 2:
        u, s, vh, err = SVDDecomposition(M, chi, returnSV=True, errorOrder=order)
        require(u.shape == (r, k) and s.shape == (k,) and vh.shape == (k, c), 'factor shapes %r %r %r for chi %d' % (u.shape, s.shape, vh.shape, chi))
        require(close(s, s0[:k]), 'kept values are not the leading singular values')
        require(close(u.conj().T @ u, np.eye(k)) and close(vh @ vh.conj().T, np.eye(k)), 'factors are not isometric')
        P = (u * s) @ vh
    else:
        u, v, err = SVDDecomposition(M, chi, errorOrder=order) if order != 2 or rng.random() < .5 else SVDDecomposition(M, chi)
        require(u.shape == (r, k) and v.shape == (c, k), 'factor shapes %r %r for chi %d' % (u.shape, v.shape, chi))
        P = u @ v.conj().T
    require(abs(err - exp) <= 1e-9, 'reported error %r, discarded share of the order %d sum is %r' % (err, order, exp))
    check_trunc(M, P, k, 'SVDDecomposition')
    require(same(M, M0), 'the matrix was changed')
    return (r, c, chi, order, i % 2)


@contract('C14', 250)
def svd_tensor(rng, i):
    n = rng.randrange(2, 5)
    shape = [rng.randrange(1, 4) for _ in range(n)]
    diag = i % 5 == 4
    labels = list(LET[:n])
    if diag:
        l = rng.randrange(1, 4)
        shape = [l] * n
        a = DiagonalTensor(labels=labels, data=fmat(rng, (l,)), shape=tuple(shape))
    else:
        a = Tensor(labels=labels, data=fmat(rng, tuple(shape)))
    k = rng.randrange(1, n)
    perm = list(labels); rng.shuffle(perm)
    rows, cols = perm[:k], perm[k:]
    chi = rng.randrange(1, 10); order = rng.choice([1, 2, 3])
    inner = ('x', 'y') if i % 2 else None
    full = np.transpose(dense(a), [labels.index(x) for x in perm])
    mode = rng.randrange(3)
    if mode == 1:
        cols = [x for x in labels if x in cols]
        kw = dict(rows=rows)
    elif mode == 2:
        rows = [x for x in labels if x in rows]
        kw = dict(cols=cols)
    else:
        kw = dict(rows=rows, cols=cols)
    full = np.transpose(dense(a), [labels.index(x) for x in rows + cols])
    R = int(np.prod(full.shape[:k])); M = full.reshape(R, -1)
    s0 = np.linalg.svd(M, compute_uv=False)
    kept = min(chi, len(s0))
    exp = 0.0 if chi >= len(s0) else np.sum(s0[chi:] ** order) / np.sum(s0 ** order)
    d0 = dense(a).copy(); l0 = sorted(a.labels)
    res = tensorSVDDecomposition(a, innerLabels=inner, chi=chi, errorOrder=order, **kw)
    u, s, v = res['u'], res['s'], res['v']
    for t in (u, s, v):
        wf(t)
    rn, cn = '|'.join(rows), '|'.join(cols)
    ri, ci = inner if inner else ('inner:' + rn, 'inner:' + cn)
    require(list(u.labels) == [rn, ri] and list(v.labels) == [ci, cn], 'labels of the factors: %r %r' % (u.labels, v.labels))
    require(tuple(u.shape) == (R, kept) and tuple(v.shape) == (kept, M.shape[1]) and tuple(s.shape) == (kept, kept) and s.diagonalFlag, 'shapes of the factors %r %r %r, kept %d' % (u.shape, s.shape, v.shape, kept))
    require(abs(res['error'] - exp) <= 1e-9, 'reported error %r, discarded share is %r' % (res['error'], exp))
    require(close(s.a, s0[:kept]), 'kept values are not the leading singular values')
    check_trunc(M, u.a @ dense(s) @ v.a, kept, 'tensorSVDDecomposition')
    require(sorted(a.labels) == l0 and same(np.transpose(dense(a), [list(a.labels).index(x) for x in labels]), d0), 'the tensor was changed')
    return (tuple(shape), k, chi, mode, bool(inner), diag)


def pair_for_split(rng, i, like=False):
    na, nb, k = rng.randrange(0, 3), rng.randrange(0, 3), rng.randrange(1, 3)
    da = [rng.randrange(1, 4) for _ in range(na)]; db = [rng.randrange(1, 4) for _ in range(nb)]; ds = [rng.randrange(1, 4) for _ in range(k)]
    la = ['a%d' % x for x in range(na)] + ['s%d' % x for x in range(k)]
    lb = ['b%d' % x for x in range(nb)] + ['r%d' % x for x in range(k)]
    pa = list(range(na + k)); rng.shuffle(pa)
    pb = list(range(nb + k)); rng.shuffle(pb)
    sa, sb = da + ds, db + ds
    cplx = rng.random() < .4

    def mk(sh, ls, p):
        sh = tuple(sh[x] for x in p); ls = [ls[x] for x in p]
        if like:
            return Tensor(shape=sh, labels=ls, tensorLikeFlag=True)
        return Tensor(data=fmat(rng, sh, cplx), labels=ls)
    ta, tb = mk(sa, la, pa), mk(sb, lb, pb)
    order = list(range(k)); rng.shuffle(order)
    for x in order:
        if rng.random() < .5:
            makeLink('s%d' % x, 'r%d' % x, ta, tb)
        else:
            makeLink('r%d' % x, 's%d' % x, tb, ta)
    outer = []
    for t in (ta, tb):
        for leg in t.legs:
            if leg.bond is None and rng.random() < .3:
                o = Tensor(shape=(leg.dim,), labels=['q'])
                makeLink(leg, o.legs[0]); outer.append(o)
    return ta, tb, outer


@contract('C14', 350)
def schmidt(rng, i):
    ta, tb, outer = pair_for_split(rng, i)
    chi = rng.choice([1, 2, 3, 20])
    sw = ([], [])
    legA = [l for l in ta.legs if l.bond is None or l.anotherSide().tensor is not tb]
    legB = [l for l in tb.legs if l.bond is None or l.anotherSide().tensor is not ta]
    if i % 3 == 0 and legA and legB:
        k = rng.randrange(1, min(len(legA), len(legB)) + 1)
        xa, xb = rng.sample(legA, k), rng.sample(legB, k)
        sw = ([l.name for l in xa], [l.name for l in xb])
        UA = [l for l in legA if l not in xa] + xb
        UB = [l for l in legB if l not in xb] + xa
    else:
        UA, UB = legA, legB
    A = np.tensordot(0 * ta.a.reshape(-1)[:1], np.zeros(1), 0)
    sh = [l for l in ta.legs if l not in legA]
    Rr, legs = oracle_pair(ta, tb, [l.bond for l in sh])
    perm = [[id(x) for x in legs].index(id(l)) for l in UA + UB]
    M = np.transpose(Rr, perm).reshape(int(np.prod([l.dim for l in UA] + [1])), -1)
    meta = [(id(l), l.name, l.dim, id(l.bond) if l.bond else None) for l in UA + UB]
    nA, nB = [s.name for s in sh], None
    first = shareBonds(ta, tb)[0]
    sqrt = bool(i % 2)
    s0 = np.linalg.svd(M, compute_uv=False)
    avail = int(np.sum(s0 > 1e-10))
    if any(1e-13 < x < 1e-7 for x in s0):
        raise Skip()
    kept = min(chi, avail)
    namesA = [l.name for l in sh]; namesB = [l.anotherSide().name for l in sh]
    u, s, v = SchimdtDecomposition(ta, tb, chi, squareRootSeparation=sqrt, swapLabels=sw)
    wf(u, 'u'); wf(v, 'v')
    require(meta == [(id(l), l.name, l.dim, id(l.bond) if l.bond else None) for l in UA + UB], 'an outer leg changed name, dimension or link')
    ou = [l for l in u.legs if not any(l is x for x in UA)]; ov = [l for l in v.legs if not any(l is x for x in UB)]
    require(len(ou) == 1 and len(ov) == 1 and len(u.legs) == len(UA) + 1 and len(v.legs) == len(UB) + 1, 'factors do not carry exactly the outer legs and one inner leg')
    require(ou[0].name in namesA and ov[0].name in namesB and namesA.index(ou[0].name) == namesB.index(ov[0].name), 'inner legs are not named after a shared link')
    require(ou[0].dim == kept and ov[0].dim == kept, 'inner dimension %r/%r, expected %d' % (ou[0].dim, ov[0].dim, kept))
    if sqrt:
        require(s is None and ou[0].anotherSide() is ov[0], 'factors are not linked to each other')
        P = aligned(u, UA + ou).reshape(M.shape[0], kept) @ aligned(v, ov + UB).reshape(kept, M.shape[1])
    else:
        wf(s, 's')
        require(s.diagonalFlag and s.dim == 2, 'middle factor is not a diagonal matrix')
        require(shareBonds(u, s) != [] and shareBonds(s, v) != [] and ou[0].anotherSide().tensor is s and ov[0].anotherSide().tensor is s, 'factors are not linked u-s-v')
        require(close(s.a, s0[:kept]), 'kept values are not the leading singular values')
        U = aligned(u, UA + ou).reshape(M.shape[0], kept); V = aligned(v, ov + UB).reshape(kept, M.shape[1])
        require(close(U.conj().T @ U, np.eye(kept)) and close(V @ V.conj().T, np.eye(kept)), 'outer factors are not isometries')
        P = (U * s.a) @ V
    check_trunc(M, P, kept, 'SchimdtDecomposition')
    return (len(UA), len(UB), len(sh), chi, sqrt, len(sw[0]))


@contract('C14', 80)
def schmidt_data_free(rng, i):
    ta, tb, outer = pair_for_split(rng, i, like=True)
    legA = [l for l in ta.legs if l.bond is None or l.anotherSide().tensor is not tb]
    legB = [l for l in tb.legs if l.bond is None or l.anotherSide().tensor is not ta]
    pr = lambda ls: int(np.prod([l.dim for l in ls] + [1]))
    chi = rng.choice([1, 2, 3, 20])
    inner = pr([l for l in ta.legs if l not in legA])
    kept = min(chi, pr(legA), pr(legB), inner)
    u, s, v = SchimdtDecomposition(ta, tb, chi, squareRootSeparation=bool(i % 2))
    for t in (u, v) + ((s,) if s is not None else ()):
        wf(t)
        require(t.tensorLikeFlag and t.a is None, 'a factor of data-free tensors holds data')
    require([l for l in u.legs if l not in legA][0].dim == kept and [l for l in v.legs if l not in legB][0].dim == kept, 'inner dimension differs from min(chi, sizes)')
    return (len(legA), len(legB), chi)


@contract('C14', 150)
def matrix_schmidt(rng, i):
    dim = rng.randrange(1, 4); rest = rng.randrange(1, 5); s0 = rng.randrange(1, 4)
    shape = (dim * rest,) if i % 2 else (s0, dim * rest)
    a = fmat(rng, shape)
    if i % 7 == 0:
        a = np.round(a)
        if not a.any():
            raise Skip()
    chi = rng.choice([None, 1, 2, 30])
    M = a.reshape((dim, -1)) if i % 2 else a.reshape((s0 * dim, -1))
    sv = np.linalg.svd(M, compute_uv=False)
    if any(1e-13 < x < 1e-7 for x in sv):
        raise Skip()
    kept = int(np.sum(sv > 1e-10))
    kept = kept if chi is None else min(chi, kept)
    u, v = matrixSchimdtDecomposition(a.copy(), dim, chi) if i % 3 else matrixSchimdtDecomposition(a.copy(), dim=dim, chi=chi)
    require(u.shape == ((dim, kept) if i % 2 else (s0, dim, kept)) and v.shape == (kept, M.shape[1]), 'factor shapes %r %r, kept %d' % (u.shape, v.shape, kept))
    U = u.reshape(-1, kept)
    require(close(U.conj().T @ U, np.eye(kept)), 'first factor is not an isometry')
    check_trunc(M, U @ v, kept, 'matrixSchimdtDecomposition')
    if rest > 0 and dim > 1 and shape[-1] % (dim * 7 + 1):
        expect_raises(AssertionError, lambda: matrixSchimdtDecomposition(a, shape[-1] + 1), 'splitting with a dimension that does not divide')
    return (shape, dim, chi)


@contract('C14', 150)
def merge_truncated(rng, i):
    like = i % 6 == 5
    ta, tb, outer = pair_for_split(rng, i, like=like)
    legA = [l for l in ta.legs if l.bond is None or l.anotherSide().tensor is not tb]
    legB = [l for l in tb.legs if l.bond is None or l.anotherSide().tensor is not ta]
    sh = [l for l in ta.legs if l not in legA]
    pr = lambda ls: int(np.prod([l.dim for l in ls] + [1]))
    chi = rng.choice([1, 2, 3, 20])
    if like:
        kept = min(chi, pr(sh), pr(legA), pr(legB))
    else:
        M = np.transpose(oracle_pair(ta, tb, [l.bond for l in sh])[0], range(len(legA) + len(legB))).reshape(pr(legA), pr(legB))
        s0 = np.linalg.svd(M, compute_uv=False)
        if any(1e-13 < x < 1e-7 for x in s0):
            raise Skip()
        kept = min(chi, int(np.sum(s0 > 1e-10)))
    u, v = merge(ta, tb, chi=chi, bondName='m', renameWarning=False)
    wf(u); wf(v)
    ou = [l for l in u.legs if l not in legA]; ov = [l for l in v.legs if l not in legB]
    require(len(ou) == 1 and len(ov) == 1 and ou[0].anotherSide() is ov[0] and ou[0].name == 'm' and ov[0].name == 'm', 'merged tensors are not joined by exactly one link of the given name')
    require(ou[0].dim == kept, 'inner dimension %d, expected %d' % (ou[0].dim, kept))
    require(len(u.legs) == len(legA) + 1 and len(v.legs) == len(legB) + 1, 'legs lost in merge')
    if not like:
        P = aligned(u, legA + ou).reshape(M.shape[0], kept) @ aligned(v, ov + legB).reshape(kept, M.shape[1])
        check_trunc(M, P, kept, 'merge')
    return (len(legA), len(legB), len(sh), chi, like)


# ------------------------------------------------------------------ C15
def site_order(mps):
    """outer leg of each site (the leg not linked to a neighbour)"""
    res = []
    n = mps.n
    for k in range(n):
        t = mps.getTensor(k)
        outs = []
        for l in t.legs:
            o = l.anotherSide()
            if o is not None and ((k > 0 and o.tensor is mps.getTensor(k - 1)) or (k < n - 1 and o.tensor is mps.getTensor(k + 1))):
                continue
            outs.append(l)
        require(len(outs) == 1, 'site %d has %d outer legs' % (k, len(outs)))
        res.append(outs[0])
    return res


def mps_structure(mps, names=True):
    n = mps.n
    outs = site_order(mps)
    for k in range(n):
        t = mps.getTensor(k)
        wf(t, 'site %d' % k)
        require(t.dim == 1 + (k > 0) + (k < n - 1), 'site %d has %d legs' % (k, t.dim))
        if k + 1 < n:
            ls = [l for l in t.legs if l.bond is not None and l.anotherSide().tensor is mps.getTensor(k + 1)]
            require(len(ls) == 1, 'sites %d and %d share %d links' % (k, k + 1, len(ls)))
            if names:
                require(ls[0].name == 'r' and ls[0].anotherSide().name == 'l', 'internal legs of sites %d,%d are named %r,%r' % (k, k + 1, ls[0].name, ls[0].anotherSide().name))
        if names and n > 1:
            require(outs[k].name == 'o', 'outer leg of site %d is named %r' % (k, outs[k].name))
    return outs


def mps_value(mps, legs):
    """tensor represented, as function of the given outer leg objects"""
    ids, c, ops, out = {}, 0, [], {}
    inner = set()
    n = mps.n
    for k in range(n - 1):
        for l in mps.getTensor(k).legs:
            if l.bond is not None and l.anotherSide().tensor is mps.getTensor(k + 1):
                inner.add(id(l.bond))
    for k in range(n):
        s = []
        for l in mps.getTensor(k).legs:
            key = id(l.bond) if l.bond is not None and id(l.bond) in inner else id(l)
            if key not in ids:
                ids[key] = len(ids)
            s.append(ids[key])
        ops += [dense(mps.getTensor(k)), s]
    for l in legs:
        require(id(l) in ids, 'an outer leg was lost')
    return np.einsum(*ops, [ids[id(l)] for l in legs])


def bond_dims(mps):
    return [[l.dim for l in mps.getTensor(k).legs if l.bond is not None and l.anotherSide().tensor is mps.getTensor(k + 1)][0] for k in range(mps.n - 1)]


def isometry(t, out):
    """t^dagger t = 1 over all legs but `out`"""
    rest = [l for l in t.legs if l is not out]
    M = aligned(t, rest + [out]).reshape(-1, out.dim)
    return close(M.conj().T @ M, np.eye(out.dim))


def check_canonical(mps, idx):
    for k in range(mps.n):
        if k == idx:
            continue
        t = mps.getTensor(k)
        nb = mps.getTensor(k + 1) if k < idx else mps.getTensor(k - 1)
        o = [l for l in t.legs if l.bond is not None and l.anotherSide().tensor is nb][0]
        require(isometry(t, o), 'site %d is not an isometry after canonicalising at %d' % (k, idx))


def new_mps(rng, i, chi=None):
    """(mps, outer legs, value)"""
    n = rng.randrange(2, 6)
    if i % 2:
        st = rng.randrange(1, 3)
        shape = [rng.randrange(1, 4) for _ in range(n)]
        t = Tensor(data=fmat(rng, tuple(shape)), labels=list(LET[:n]))
        legs = list(t.legs); val = dense(t).copy()
        mps = createMPSFromTensor(t, chi=chi or 100)
    else:
        vd = [rng.randrange(1, 4) for _ in range(n - 1)]; pd = [rng.randrange(1, 4) for _ in range(n)]
        ts = []
        cplx = rng.random() < .4
        for k in range(n):
            sh, ls = [], []
            for nm, d in (('x', vd[k - 1] if k else None), ('y', pd[k]), ('z', vd[k] if k < n - 1 else None)):
                if d is not None:
                    sh.append(d); ls.append(nm)
            p = list(range(len(sh))); rng.shuffle(p)
            ts.append(Tensor(data=fmat(rng, tuple(sh[x] for x in p), cplx), labels=[ls[x] for x in p]))
        for k in range(n - 1):
            if rng.random() < .5:
                makeLink('z', 'x', ts[k], ts[k + 1])
            else:
                makeLink('x', 'z', ts[k + 1], ts[k])
        legs = [t.getLeg('y') for t in ts]
        mps = FreeBoundaryMPS(ts, chi=chi or 100)
        val = mps_value(mps, legs)
    return mps, legs, val


@contract('C15', 300)
def mps_operations(rng, i):
    mps, legs, val = new_mps(rng, i)
    n = mps.n
    outer = []
    for l in legs:
        if rng.random() < .3:
            o = Tensor(shape=(l.dim,), labels=['q']); makeLink(l, o.legs[0]); outer.append((l, o.legs[0]))
    order = list(legs)

    def check(what):
        outs = mps_structure(mps)
        require(mps.n == n and [id(x) for x in outs] == [id(x) for x in order], what + ': sites are not in the requested order')
        require(close(mps_value(mps, legs), val, 1e-7), what + ': the represented tensor changed')
        for l, o in outer:
            require(l.anotherSide() is o, what + ': link of an outer leg changed')
        require(all(d <= mps.chi for d in bond_dims(mps)), what + ': bond limit exceeded')
    check('construction')
    ops = []
    for _ in range(rng.randrange(1, 5)):
        k = rng.randrange(4)
        if k == 0:
            idx = rng.randrange(n)
            mps.canonicalize(idx); ops.append('canonicalize %d' % idx)
            check(ops[-1])
            check_canonical(mps, idx)
            require(mps.activeIdx == idx and (0 in val.shape or mps.checkCanonical()), ops[-1] + ': not reported as canonical')
        elif k == 1:
            a = rng.randrange(n - 1); b = a + 1
            if rng.random() < .5:
                a, b = b, a
            mps.swap(a, b); ops.append('swap %d %d' % (a, b))
            order[a], order[b] = order[b], order[a]
            check(ops[-1])
        elif k == 2:
            a, b = rng.randrange(n), rng.randrange(n)
            mps.moveTensor(a, b, warningFlag=False); ops.append('move %d %d' % (a, b))
            order.insert(b, order.pop(a))
            check(ops[-1])
        else:
            a, b = rng.sample(range(n), 2)
            r = mps.makeAdjacent(a, b); ops.append('adjacent %d %d' % (a, b))
            lo, hi = min(a, b), max(a, b)
            order.insert(hi - 1, order.pop(lo))
            require(tuple(r) == (hi - 1, hi), ops[-1] + ': reported positions %r' % (r,))
            check(ops[-1])
        if k == 1:
            require(mps.activeIdx is None, ops[-1] + ': still claims to be canonical')
    return (n, val.shape, tuple(ops))


@contract('C15', 150)
def mps_to_tensor(rng, i):
    mps, legs, val = new_mps(rng, i)
    for k, l in enumerate(mps_structure(mps)):
        l.name = 'o%d' % k
    t = mps.toTensor()
    require(close(by_label(t, ['o%d' % k for k in range(mps.n)]), val, 1e-8), 'toTensor differs from the represented tensor')
    require(close(mps_value(mps, legs), val), 'toTensor changed the state')
    cp = None
    for l in legs:
        l.name = 'o'
    cps = mps.copyOfTensors()
    c = FreeBoundaryMPS(cps, chi=mps.chi)
    outs = mps_structure(c)
    require(close(mps_value(c, outs), val) and all(a is not b for a, b in zip(outs, legs)), 'copy of the tensors does not represent the same tensor')
    return (mps.n, val.shape)


@contract('C15', 120)
def mps_truncating(rng, i):
    """structure and bond limit when the limit cuts"""
    chi = rng.randrange(1, 4)
    mps, legs, val = new_mps(rng, 2 * i + 1, chi=chi)
    require(mps.chi <= chi or True, '')
    n = mps.n
    mps_structure(mps)
    require(all(d <= chi for d in bond_dims(mps)), 'creation exceeds the bond limit %d: %r' % (chi, bond_dims(mps)))
    require(mps.chi == chi, 'chi is %r, given %d' % (mps.chi, chi))
    for _ in range(3):
        if rng.random() < .5:
            idx = rng.randrange(n); mps.canonicalize(idx); check_canonical(mps, idx)
        else:
            a = rng.randrange(n - 1); mps.swap(a, a + 1)
        mps_structure(mps)
        require(all(d <= chi for d in bond_dims(mps)), 'bond limit %d exceeded: %r' % (chi, bond_dims(mps)))
    return (n, chi)


@contract('C15', 100)
def mps_construction(rng, i):
    n = rng.randrange(2, 6)
    vd = [rng.randrange(1, 4) for _ in range(n - 1)]; pd = [rng.randrange(1, 4) for _ in range(n)]
    m = makeRandomMPS(n, vd if i % 2 else vd[0], pd if i % 3 else pd[0], chi=50 if i % 4 else -1)
    mps_structure(m)
    require(m.n == n, 'wrong number of sites')
    require(bond_dims(m) == (vd if i % 2 else [vd[0]] * (n - 1)), 'bond dimensions %r' % bond_dims(m))
    require([l.dim for l in site_order(m)] == (pd if i % 3 else [pd[0]] * n), 'outer dimensions differ from the given ones')
    # the limit is never below the bonds the state has
    want = rng.choice([None, 1, 2, 50])
    m2 = FreeBoundaryMPS([m.getTensor(k) for k in range(n)], chi=want)
    mx = max(bond_dims(m))
    if want is None:
        NONE_CHI = (m2.chi, mx)
    else:
        # below the bonds present: refused with a warning (documented) or kept for the next operation
        require(m2.chi in (want, max(want, mx)), 'chi %r for bonds %r and given %r' % (m2.chi, bond_dims(m), want))
        NONE_CHI = None
    outs = site_order(m)
    val = mps_value(m, outs)
    m3 = FreeBoundaryMPS([m.getTensor(k) for k in range(n)], chi=want or 50, inplace=False)
    o3 = mps_structure(m3)
    require(close(mps_value(m3, o3), val) and all(m3.getTensor(k) is not m.getTensor(k) for k in range(n)), 'non in-place construction is not an independent copy')
    mps_structure(m)
    require(close(mps_value(m, outs), val), 'non in-place construction changed the original')
    # not a chain
    a = Tensor(shape=(2, 2), labels=['a', 'b']); b = Tensor(shape=(2, 2), labels=['a', 'b'])
    expect_raises(ValueError, lambda: FreeBoundaryMPS([a, b]), 'building a state from unlinked tensors')
    expect_raises(ValueError, lambda: FreeBoundaryMPS([]), 'building a state without tensors')
    idx = rng.choice([-1, n, n + 3])
    expect_raises(AssertionError, lambda: m.canonicalize(idx), 'canonicalising at site %d of %d' % (idx, n))
    expect_raises(AssertionError, lambda: m.moveTensor(0, idx), 'moving to site %d of %d' % (idx, n))
    expect_raises(AssertionError, lambda: m.makeAdjacent(0, 0), 'making a site adjacent to itself')
    if n > 2:
        expect_raises(AssertionError, lambda: m.swap(0, 2), 'swapping sites which are not neighbours')
    require(close(mps_value(m, outs), val), 'a refused operation changed the state')
    if NONE_CHI is not None:
        require(NONE_CHI[0] == NONE_CHI[1], 'limit %r without a given one, largest bond is %r' % NONE_CHI, key='chi-none-is-minus-one' if NONE_CHI[0] == -1 else None)
    return (n, tuple(vd), tuple(pd))


@contract('C15', 120)
def mps_network(rng, i):
    """contracting a network of tensors through MPS without truncation is exact"""
    n = rng.randrange(2, 5)
    ts = rand_network(rng, n, maxdim=2, connected=True, dtype=np.complex128 if i % 2 else np.float64)
    if any(t.dim < 1 for t in ts) or sum(t.dim for t in ts) > 14:
        raise Skip()
    for t in ts:
        t.a = fmat(rng, t.a.shape, bool(i % 2))
    # no outer legs: the result is a number whatever the leg names
    R, labs = oracle_network(ts)
    if labs:
        caps = []
        for t in ts:
            for l in t.legs:
                if l.bond is None:
                    o = Tensor(data=fmat(rng, (l.dim,), False), labels=['q']); makeLink(l, o.legs[0]); caps.append(o)
        ts = ts + caps
        if len(ts) > 8:
            raise Skip()
        R, labs = oracle_network(ts)
    res = contractWithMPS(ts, chi=1000, seq=None)
    require(res.dim == 0 and close(res.a, R, 1e-7), 'contraction through matrix product states gives %r, network value %r' % (np.asarray(res.a).tolist(), np.asarray(R).tolist()))
    return (len(ts), float(abs(R)))


# ------------------------------------------------------------------ C20
class FakeRG:
    def __init__(self, rng, parts, labels, cplx):
        self.impurityParts = parts
        self.norms = [rng.uniform(.5, 3) for _ in range(8)]
        self.rng = rng
        self.labels = labels
        self.sh = 0
        self.cplx = cplx
        self.calls = []

    def getNorm(self, k):
        return self.norms[k]

    def raw(self, arrays, idx):
        """multilinear in all arguments, not symmetric"""
        r = arrays[0] * (idx + 1.5)
        for k, a in enumerate(arrays[1:]):
            r = np.einsum('ab,bc->ac', r, a) + (k + 1) * np.einsum('ab,cb->ac', r, a)
        return r

    def impurityIterate(self, tensors, idx):
        arrs = [t.toTensor(self.labels) for t in tensors]
        d = self.raw(arrs, idx)
        ls = list(self.labels)
        if self.sh % 2:
            d = d.T; ls = ls[::-1]
        self.sh += self.rng.randrange(2)
        return Tensor(data=d.copy(), labels=ls)

    def tensorTrace(self, t):
        return np.trace(t.toTensor(self.labels)) * 2.0

    def pureTensorTrace(self, idx):
        return 1.5 + idx * .25


def tuples_with_sum(n, k):
    if k == 1:
        yield (n,)
        return
    for x in range(n + 1):
        for r in tuples_with_sum(n - x, k - 1):
            yield (x,) + r


@contract('C20', 200)
def impurity_network(rng, i):
    parts = rng.randrange(1, 4); orders = rng.randrange(1, 5); d = rng.randrange(1, 3)
    labels = ['x', 'y']
    dof = rng.randrange(1, 4)
    extra = rng.randrange(0, 2)
    tens = [Tensor(data=fmat(rng, (d, d), False), labels=labels, degreeOfFreedom=dof) for _ in range(orders + extra)]
    if i % 4 == 3:
        tens[-1].reArrange(['y', 'x'])
    start = [np.array(t.a.T if t.labels[0] == 'y' else t.a) for t in tens]
    snaps = [snapshot(t) for t in tens]
    rg = FakeRG(rng, parts, labels, False)
    net = ImpurityTensorNetwork(tens, orders) if extra or i % 2 else ImpurityTensorNetwork(tens)
    net.setRG(rg)
    cur = [a / rg.norms[0] for a in start[:orders]]
    arch = [cur]
    frozen = []
    for step in range(rng.randrange(1, 4)):
        net.iterate()
        new = []
        for k in range(orders):
            tot, w = 0, 0
            for p in tuples_with_sum(k, parts):
                m = math.factorial(k)
                for x in p:
                    m //= math.factorial(x)
                tot = tot + m * rg.raw([cur[x] for x in p], step); w += m
            new.append(tot / w / rg.norms[step + 1])
        cur = new
        arch.append(cur)
        require(len(net.impurities) == orders, 'number of orders changed')
        for k in range(orders):
            wf(net.impurities[k])
            require(close(net.impurities[k].toTensor(labels), cur[k], 1e-9), 'order %d after step %d is not the weighted average divided by the norm' % (k, step + 1))
            require(net.impurities[k].degreeOfFreedom == dof * parts ** (step + 1), 'degree of freedom %r, expected %r' % (net.impurities[k].degreeOfFreedom, dof * parts ** (step + 1)))
        require(len(net.impurityArchive) == len(arch), 'number of stored steps')
        for s, (ia, aa) in enumerate(zip(net.impurityArchive, arch)):
            require(len(ia) == orders and all(close(x.toTensor(labels), y, 1e-9) for x, y in zip(ia, aa)), 'stored tensors of step %d changed or are wrong after step %d' % (s, step + 1))
    obs = net.measureObservables()
    require(len(obs) == len(arch) and all(len(o) == orders for o in obs), 'number of measured values')
    for s in range(len(arch)):
        for k in range(orders):
            require(close(obs[s][k], np.trace(arch[s][k]) * 2.0 / (1.5 + s * .25), 1e-9), 'measured value of order %d at step %d is wrong' % (k, s))
    for t, s in zip(tens, snaps):
        require(same_snapshot(s, snapshot(t)), 'a given impurity tensor was changed')
    return (parts, orders, d, step + 1)


@contract('C20', 10)
def impurity_needs_rg(rng, i):
    net = ImpurityTensorNetwork([Tensor(data=np.ones((2, 2)), labels=['x', 'y'])])
    expect_raises(AssertionError, net.initialize, 'initialising without a renormalisation scheme')
    return i
