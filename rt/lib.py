"""Run-time evaluation of the contracts on the real code (CPython replay layer).

Every contract of /verif/specs has an executable form here: a *case* builds a
pre-state from (seed, index), calls the real function of /repo and evaluates
the postcondition on the post-state.  A case is identified by (contract name,
index, seed) and is replayed from exactly that triple.
"""
import sys, os, random, warnings, json, time, traceback, signal, io, contextlib
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS'):
    os.environ.setdefault(v, '1')
warnings.simplefilter('ignore')
import numpy as np


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    pass


class CaseTimeout(BaseException):
    pass


REG = {}


def contract(pid, n, thorough=None, key=None):
    def deco(f):
        REG.setdefault(pid, []).append((f.__name__, f, n, thorough or n * 12, key))
        return f
    return deco


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


def rng_for(name, i, seed):
    return random.Random('%s|%d|%d' % (name, i, seed))


def expect_raises(exc, f, msg):
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Violation('%s: expected %s, got %s: %s' % (msg, exc, type(e).__name__, e))
    raise Violation('%s: expected %s, got result %r' % (msg, exc, r))


def same(a, b):
    """exact equality of arrays, shape included"""
    a = np.asarray(a); b = np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def close(a, b, tol=1e-8):
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    sc = max(1.0, float(np.max(np.abs(b))))
    return bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b))) <= tol * sc


def run_case(pid, fname, f, i, seed, limit=20):
    """returns None or (message, key)"""
    rng = rng_for(fname, i, seed)
    np.random.seed(rng.randrange(2 ** 31))

    def onalarm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            desc = f(rng, i)
        signal.alarm(0)
        return ('ok', desc, None)
    except Skip:
        signal.alarm(0)
        return ('skip', None, None)
    except Violation as v:
        signal.alarm(0)
        return ('viol', str(v), v.key)
    except CaseTimeout:
        return ('viol', 'no result after %d s (non-terminating call)' % limit, None)
    except Exception as e:
        signal.alarm(0)
        tb = traceback.extract_tb(e.__traceback__)
        loc = '; '.join('%s:%d %s' % (os.path.basename(t.filename), t.lineno, t.name) for t in tb[-4:])
        return ('viol', 'unexpected %s: %s [%s]' % (type(e).__name__, str(e)[:300], loc), None)
    finally:
        signal.alarm(0)


# ---------------------------------------------------------------- builders
from CTL.tensor.tensor import Tensor, TensorLike
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.leg import Leg
from CTL.tensor.bond import Bond
from CTL.tensor.contract.link import makeLink, mergeLink

DTYPES = [np.float64, np.float64, np.complex128, np.int64, np.float32]


def rdata(rng, shape, dtype=None):
    dtype = dtype or rng.choice(DTYPES)
    st = np.random.RandomState(rng.randrange(2 ** 31))
    a = st.randint(-4, 5, size=shape)
    a = np.asarray(a)
    if np.issubdtype(dtype, np.complexfloating):
        a = a + 1j * st.randint(-4, 5, size=shape)
    a = np.asarray(a).astype(dtype)
    return np.asfortranarray(a) if a.ndim > 1 and rng.random() < .25 else a


def dense(t):
    """the dense array a tensor stands for (independent of the code under test)"""
    if not t.diagonalFlag:
        return np.asarray(t.a)
    n = len(t.legs)
    if n == 0:
        return np.asarray(t.a)
    a = np.asarray(t.a)
    res = np.zeros((a.shape[0],) * n, dtype=a.dtype)
    for k in range(a.shape[0]):
        res[(k,) * n] = a[k]
    return res


def aligned(t, legs):
    """dense array of t with axes in the order of the given leg objects"""
    ids = [id(l) for l in t.legs]
    perm = [ids.index(id(l)) for l in legs]
    require(sorted(perm) == list(range(len(ids))), 'legs of result differ from the expected legs')
    return np.transpose(dense(t), perm)


def by_label(t, labels):
    ls = list(t.labels)
    require(sorted(map(str, ls)) == sorted(map(str, labels)), 'labels %r, expected a permutation of %r' % (ls, labels))
    return np.transpose(dense(t), [ls.index(x) for x in labels])


def wf(t, what='tensor'):
    """well-formedness of a tensor: legs, labels, shape and data agree"""
    require(len(t.legs) == len(set(map(id, t.legs))), what + ': a leg object appears twice')
    for l in t.legs:
        require(l.tensor is t, what + ': leg %r does not point back to its tensor' % l.name)
    require(list(t.labels) == [l.name for l in t.legs], what + ': labels differ from leg names')
    require(tuple(t.shape) == tuple(l.dim for l in t.legs), what + ': shape %r differs from leg dims %r' % (t.shape, [l.dim for l in t.legs]))
    require(t.dim == len(t.legs), what + ': dim %r differs from the number of legs %d' % (t.dim, len(t.legs)))
    if t.tensorLikeFlag:
        require(t.a is None, what + ': tensor-like object holds data')
    elif t.diagonalFlag:
        a = np.asarray(t.a)
        if len(t.legs) == 0:
            require(a.shape == (), what + ': rank-0 diagonal tensor holds data of shape %r' % (a.shape,))
        else:
            require(a.shape == (t.legs[0].dim,), what + ': diagonal data shape %r does not match leg dim %d' % (a.shape, t.legs[0].dim))
            require(all(l.dim == t.legs[0].dim for l in t.legs), what + ': legs of a diagonal tensor with different dims')
    else:
        require(tuple(np.shape(t.a)) == tuple(l.dim for l in t.legs), what + ': data shape %r differs from leg dims' % (np.shape(t.a),))
    for l in t.legs:
        if l.bond is not None:
            require(any(x is l for x in l.bond.legs), what + ': leg %r not part of its own bond' % l.name)
            o = l.anotherSide()
            require(o is not None and o.bond is l.bond and o.anotherSide() is l and o.dim == l.dim, what + ': link of leg %r is not symmetric' % l.name)


LET = 'abcdefghijklmnopqrstuvwxyz'


def rtensor(rng, shape, labels=None, diag=False, dtype=None, like=False):
    shape = tuple(shape)
    labels = list(labels) if labels is not None else list(LET[:len(shape)])
    if diag:
        if len(shape) == 0:
            if like:
                return DiagonalTensor(shape=(), tensorLikeFlag=True)
            return DiagonalTensor(data=rdata(rng, (), dtype))
        if like:
            return DiagonalTensor(shape=shape, labels=labels, tensorLikeFlag=True)
        return DiagonalTensor(shape=shape, labels=labels, data=rdata(rng, (shape[0],), dtype))
    if like:
        return Tensor(shape=shape, labels=labels, tensorLikeFlag=True)
    data = rdata(rng, shape, dtype)
    T = Tensor(shape=shape, labels=labels, data=data)
    if len(shape) >= 2 and rng.random() < .4:
        # a tensor with a history: its array is a transposed view, as after moving legs
        p = rng.sample(range(len(shape)), len(shape))
        if T.a.shape == data.shape:
            T.a = np.ascontiguousarray(T.a.transpose(p)).transpose([p.index(x) for x in range(len(p))])
    return T


def rand_pair(rng, i, like=(False, False), maxk=3):
    """two tensors with k links, free legs and possibly links to third tensors.
    returns ta, tb, bonds(list), others(list of other tensors)"""
    mode = i % 4
    diagA, diagB = [(False, False), (True, False), (False, True), (True, True)][mode]
    k = rng.choice([0, 1, 1, 2, 2, 3][:3 + maxk])
    fa = rng.randrange(0, 3)
    fb = rng.randrange(0, 3)
    if diagA and k + fa == 0 and rng.random() < .5:
        fa = 1
    l = rng.randrange(1, 4)
    sd = [rng.randrange(1, 4) for _ in range(k)]
    if (diagA or diagB) and k > 0:
        sd = [l] * k
    da = [l] * fa if diagA else [rng.randrange(1, 4) for _ in range(fa)]
    db = [l if k else rng.randrange(1, 4)] * fb if diagB else [rng.randrange(1, 4) for _ in range(fb)]
    if diagB and k == 0:
        l2 = rng.randrange(1, 4)
        db = [l2] * fb
    sa = [('s', j, d) for j, d in enumerate(sd)] + [('f', j, d) for j, d in enumerate(da)]
    sb = [('s', j, d) for j, d in enumerate(sd)] + [('f', j, d) for j, d in enumerate(db)]
    rng.shuffle(sa); rng.shuffle(sb)
    ta = rtensor(rng, [x[2] for x in sa], ['a%s%d' % x[:2] for x in sa], diagA, like=like[0])
    tb = rtensor(rng, [x[2] for x in sb], ['b%s%d' % x[:2] for x in sb], diagB, like=like[1])
    bonds = []
    order = list(range(k)); rng.shuffle(order)
    for j in order:
        la = ta.legs[[x[:2] for x in sa].index(('s', j))]
        lb = tb.legs[[x[:2] for x in sb].index(('s', j))]
        bonds.extend(makeLink(la, lb) if rng.random() < .5 else makeLink(lb, la))
    others = []
    for t in (ta, tb):
        for leg in t.legs:
            if leg.bond is None and rng.random() < .25:
                o = rtensor(rng, (leg.dim, 2), ['x', 'y'])
                makeLink(leg, o.legs[0])
                others.append(o)
    return ta, tb, bonds, others


def oracle_pair(ta, tb, bonds):
    """dense contraction over the given bonds; returns (array, legs)"""
    A, B = dense(ta), dense(tb)
    ids = {}
    c = 0
    for b in bonds:
        for l in b.legs:
            ids[id(l)] = c
        c += 1
    out, legs = [], []
    sa, sb = [], []
    for t, s in ((ta, sa), (tb, sb)):
        for leg in t.legs:
            if id(leg) not in ids:
                ids[id(leg)] = c
                out.append(c); legs.append(leg)
                c += 1
            s.append(ids[id(leg)])
    R = np.einsum(A, sa, B, sb, out)
    return R, legs


def rand_network(rng, n, diagp=0.0, maxdim=3, connected=None, rank0=True, like=False, dtype=None, dupnames=True):
    """random network of n tensors; unique free labels; returns list"""
    edges = []
    if connected is None:
        connected = rng.random() < .7
    if connected:
        for j in range(1, n):
            edges.append((rng.randrange(0, j), j))
    for _ in range(rng.randrange(0, n + 1)):
        if n >= 2:
            a, b = rng.sample(range(n), 2)
            edges.append((a, b))
    isd = [rng.random() < diagp for _ in range(n)]
    # dims: components of diagonal tensors force equal dims; use union-find over edges
    free = [rng.randrange(0, 3) if sum(1 for e in edges if j in e) < 3 else rng.randrange(0, 2) for j in range(n)]
    items = [('e', x) for x in range(len(edges))] + [('f', j, y) for j in range(n) for y in range(free[j])]
    par = {it: it for it in items}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    inc = {j: [('e', x) for x, e in enumerate(edges) if j in e] + [('f', j, y) for y in range(free[j])] for j in range(n)}
    for j in range(n):
        if isd[j]:
            for it in inc[j][1:]:
                par[find(it)] = find(inc[j][0])
    dims = {}
    for it in items:
        r = find(it)
        if r not in dims:
            dims[r] = rng.randrange(1, maxdim + 1)
    tensors, legmap = [], {}
    same_names = dupnames and rng.random() < .3       # linked legs of one tensor may share a name
    for j in range(n):
        its = list(inc[j]); rng.shuffle(its)
        labs = ['f%d_%d' % (it[1], it[2]) if it[0] == 'f' else 'e%d' % (it[1] % 2 if same_names else it[1]) for it in its]
        t = rtensor(rng, [dims[find(it)] for it in its], labs, isd[j], like=like, dtype=dtype)
        for it, leg in zip(its, t.legs):
            legmap[(j, it)] = leg
        tensors.append(t)
    for x, (a, b) in enumerate(edges):
        if rng.random() < .5:
            a, b = b, a
        makeLink(legmap[(a, ('e', x))], legmap[(b, ('e', x))])
    return tensors


def oracle_network(tensors):
    ids, c, out, labs, ops = {}, 0, [], [], []
    for t in tensors:
        s = []
        for leg in t.legs:
            if leg.bond is not None:
                key = id(leg.bond)
                if key not in ids:
                    ids[key] = c; c += 1
                s.append(ids[key])
            else:
                s.append(c); out.append(c); labs.append(leg.name); c += 1
        ops += [dense(t), s]
    if c > 50:
        raise Skip()
    return np.einsum(*ops, out, optimize=len(tensors) > 3), labs


def snapshot(t):
    return (id(t), list(map(id, t.legs)), [(l.name, l.dim, id(l.bond), id(l.tensor)) for l in t.legs],
            None if t.a is None else np.array(t.a, copy=True), t.name, t.degreeOfFreedom,
            [tuple(map(id, l.bond.legs)) if l.bond is not None else None for l in t.legs])


def same_snapshot(s1, s2, orient=True):
    if s1[:3] != s2[:3] or s1[4:6] != s2[4:6]:
        return False
    for x, y in zip(s1[6], s2[6]):
        if (x is None) != (y is None):
            return False
        if x is not None and set(x) != set(y):
            return False
    if (s1[3] is None) != (s2[3] is None):
        return False
    return s1[3] is None or (same(s1[3], s2[3]) and s1[3].dtype == s2[3].dtype)
