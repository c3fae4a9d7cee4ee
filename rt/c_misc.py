"""executable contracts: C16 (graphs), C17 (Ising), C18 (helpers), C19 (name registries)"""
from lib import *
import CTL.funcs.funcs as F
from CTL.funcs.graph import Graph, UndirectedGraph, GraphEdge, GraphVertex
from CTL.funcs.graphFuncs import squareLatticePBC, squareLatticeFBC, doubleSquareLatticeFBC, completeGraph
from CTL.tensor.contract.tensorGraph import TensorGraph
from CTL.models.Ising import (squareIsingTensor, plaquetteIsingTensor, IsingEdgeMatrix, IsingSiteTensor,
    IsingTNFromUndirectedGraph, getIsingWeight, exactZFromGraphIsing, squareTensorMeasure)
from CTL.tensor.contract.optimalContract import contractTensorList
from CTL.funcs.stringSet import StringSet
import CTL.funcs.stringSet as SS
from collections import Counter
import itertools, math


# ------------------------------------------------------------------ C16
def graph_edges(g, exp, n, undirected=True):
    """exp: multiset of (a, b, weight) with a <= b"""
    require(g.n == n and len(g.v) == n and [v.index for v in g.v] == list(range(n)), 'vertices are not numbered 0..%d' % (n - 1))
    es = g.getEdges()
    require(len(set(map(id, es))) == len(es), 'an edge is listed twice')
    got = Counter()
    for e in es:
        a, b = e.vertices
        require(a is g.v[a.index] and b is g.v[b.index], 'edge end is not a vertex of the graph')
        got[(min(a.index, b.index), max(a.index, b.index), e.weight)] += 1
        require(any(x is e for x in a.edges) and any(x is e for x in b.edges), 'edge %r missing in the list of an end vertex' % e)
        require(e.anotherSide(a) is b and (a is b or e.anotherSide(b) is a), 'anotherSide is wrong')
    require(got == Counter(exp), 'edges %r, expected %r' % (sorted(got.items(), key=str)[:8], sorted(Counter(exp).items(), key=str)[:8]))
    cnt = Counter()
    for v in g.v:
        require(v.degree == len(v.edges), 'degree differs from the number of edges')
        for e in v.edges:
            require(any(x is e for x in es), 'edge of vertex %d is not listed' % v.index)
            require(v in e.vertices, 'vertex list holds an edge that does not touch it')
            cnt[id(e)] += 1
    require(all(cnt[id(e)] == 2 for e in es), 'an edge does not appear exactly once at each end')


def weights(rng, i):
    k = i % 4
    if k == 0:
        return {}, (0.0, 0.0)
    if k == 1:
        w = rng.choice([.5, 2, 1])
        return dict(weight=w), (w, w)
    w = (rng.choice([.25, 3]), rng.choice([.75, 7]))
    return dict(weight=w), w


@contract('C16', 120)
def square_pbc(rng, i):
    n, m = rng.randrange(1, 6), rng.randrange(1, 6)
    kw, (wv, wh) = weights(rng, i)
    if i % 3 == 0:
        m = n; g = squareLatticePBC(n, **kw)
    else:
        g = squareLatticePBC(n, m, **kw)
    exp = []
    for x in range(n):
        for y in range(m):
            for (p, q, w) in ((x, (y + 1) % m, wh), ((x + 1) % n, y, wv)):
                a, b = x * m + y, p * m + q
                exp.append((min(a, b), max(a, b), w))
    graph_edges(g, exp, n * m)
    return ('pbc', n, m, wv, wh)


@contract('C16', 120)
def square_fbc(rng, i):
    n, m = rng.randrange(1, 6), rng.randrange(1, 6)
    kw, (wv, wh) = weights(rng, i)
    if i % 3 == 0:
        m = n; g = squareLatticeFBC(n, **kw)
    else:
        g = squareLatticeFBC(n, m, **kw)
    exp = []
    for x in range(n):
        for y in range(m):
            if y + 1 < m:
                exp.append((x * m + y, x * m + y + 1, wh))
            if x + 1 < n:
                exp.append((x * m + y, (x + 1) * m + y, wv))
    graph_edges(g, exp, n * m)
    return ('fbc', n, m, wv, wh)


@contract('C16', 100)
def double_fbc(rng, i):
    n, m = rng.randrange(1, 5), rng.randrange(1, 5)
    kw, (ttb, btt) = weights(rng, i)
    if i % 3 == 0:
        m = n; g = doubleSquareLatticeFBC(n, **kw)
    else:
        g = doubleSquareLatticeFBC(n, m, **kw)
    N = n * (m + 1) + m * (n + 1)
    H = lambda x, y: x * m + y
    V = lambda x, y: (n + 1) * m + x * (m + 1) + y
    exp = []
    for x in range(n):
        for y in range(m):
            for v, h, w in ((V(x, y), H(x, y), btt), (V(x, y), H(x + 1, y), ttb), (V(x, y + 1), H(x, y), ttb), (V(x, y + 1), H(x + 1, y), btt)):
                exp.append((min(v, h), max(v, h), w))
    graph_edges(g, exp, N)
    return ('double', n, m, ttb, btt)


@contract('C16', 30)
def complete(rng, i):
    n = rng.randrange(1, 9); w = rng.choice([0.0, .5, 3])
    g = completeGraph(n, weight=w) if i % 3 else completeGraph(n)
    w = w if i % 3 else 0.0
    graph_edges(g, [(a, b, w) for a in range(n) for b in range(a + 1, n)], n)
    return ('complete', n, w)


@contract('C16', 150)
def later_edges(rng, i):
    n = rng.randrange(1, 6)
    cls = [UndirectedGraph, TensorGraph][i % 2]
    g = cls(n)
    exp, free = [], [0] * n
    nf = 0
    for _ in range(rng.randrange(1, 8)):
        if n > 1 and (i % 2 == 0 or rng.random() < .6):
            a, b = rng.sample(range(n), 2); w = rng.choice([1, 2, None])
            e = g.addEdge(a, b, w) if rng.random() < .5 else g.addEdge(idx1=a, idx2=b, weight=w)
            require(e.weight == w and set(e.vertices) == {g.v[a], g.v[b]}, 'addEdge returned a wrong edge')
            exp.append((min(a, b), max(a, b), w))
        elif i % 2:
            a = rng.randrange(n); g.addFreeEdge(a, 3); free[a] += 1; nf += 1
        if rng.random() < .5:
            es = g.getEdges()
            require(len(es) == len(exp) + nf, 'listing has %d edges, %d were added' % (len(es), len(exp) + nf))
    es = g.getEdges()
    require(es == g.getEdges(), 'listing is not stable')
    if nf == 0:
        graph_edges(g, exp, n)
    else:
        fe = [e for e in es if None in e.vertices]
        require(len(fe) == nf and all(sum(1 for e in g.v[a].edges if None in e.vertices) == free[a] for a in range(n)), 'free edges are not listed')
        require(len(es) == len(set(map(id, es))) == len(exp) + nf, 'edges are not listed once')
    for bad in ((-1, 0), (0, n), (n, 0), (n + 3, n + 3)):
        expect_raises(AssertionError, lambda: g.addEdge(bad[0], bad[1]), 'adding an edge at %r' % (bad,))
    require(len(g.getEdges()) == len(exp) + nf, 'a refused edge was added')
    e = GraphEdge(g.v[0], g.v[-1], weight=2)
    other = GraphVertex(99)
    expect_raises(ValueError, lambda: e.anotherSide(other), 'other side of a vertex the edge does not have')
    return (cls.__name__, n, len(exp), nf)


@contract('C16', 20)
def directed_graph(rng, i):
    n = rng.randrange(2, 6)
    g = Graph(n)
    exp = []
    for _ in range(5):
        a, b = rng.sample(range(n), 2)
        e = g.addEdge(a, b, 1.5)
        require(e.vertices == (g.v[a], g.v[b]) and e.weight == 1.5, 'directed edge joins other vertices')
        exp.append(a)
    require([v.degree for v in g.v] == [exp.count(k) for k in range(n)], 'directed edges are not stored at their start')
    expect_raises(AssertionError, lambda: g.addEdge(0, n), 'edge to a vertex out of range')
    return (n, tuple(exp))


# ------------------------------------------------------------------ C17
@contract('C17', 60)
def square_tensor(rng, i):
    beta = rng.uniform(-1, 1.5); h = rng.choice([0.0, 0.3, -.7]); obs = [None, 'M', 'E'][i % 3]
    t = squareIsingTensor(beta, obs=obs, symmetryBroken=h) if i % 2 else squareIsingTensor(beta, obs)
    h = h if i % 2 else 0.0
    wf(t)
    require(list(t.labels) == ['u', 'l', 'd', 'r'] and tuple(t.shape) == (2, 2, 2, 2) and t.degreeOfFreedom == 2, 'labels, shape or degree of freedom wrong')
    for c in itertools.product((0, 1), repeat=4):
        E = -sum(1 if c[k] == c[(k + 1) % 4] else -1 for k in range(4))
        M = sum(.5 if x else -.5 for x in c)
        o = {None: 1.0, 'M': M, 'E': E}[obs]
        require(close(t.a[c], o * math.exp(-beta * E + h * M)), 'entry %r is not the Boltzmann weight (times %s)' % (c, obs))
    expect_raises(AssertionError, lambda: squareTensorMeasure((0, 1, 0, 1), 'X'), 'unknown observable')
    return (round(beta, 3), h, obs)


@contract('C17', 40)
def plaquette_tensor(rng, i):
    w = (rng.uniform(-1, 1), rng.uniform(-1, 1))
    arg = [w, list(w), w[0]][i % 3]
    if i % 3 == 2:
        w = (w[0], w[0])
    d = bool(i % 2)
    t = plaquetteIsingTensor(arg, diamondForm=d)
    wf(t)
    require(list(t.labels) == (['r', 'd', 'l', 'u'] if d else ['ru', 'rd', 'ld', 'lu']) and t.degreeOfFreedom == 2, 'labels wrong')
    for c in itertools.product((0, 1), repeat=4):
        E = -sum(w[k % 2] * (1 if c[k] == c[(k + 1) % 4] else -1) for k in range(4))
        require(close(t.a[c], math.exp(-E)), 'entry %r is not the Boltzmann weight' % (c,))
    expect_raises(AssertionError, lambda: plaquetteIsingTensor((1.0, 2.0, 3.0)), 'three weights')
    return (round(w[0], 3), round(w[1], 3), d)


def rand_graph(rng, i):
    n = rng.randrange(1, 7)
    g = UndirectedGraph(n)
    edges = []
    for _ in range(rng.randrange(0, 2 * n)):
        if n < 2:
            break
        a, b = rng.sample(range(n), 2)
        w = rng.choice([0.0, 1, .5, rng.uniform(0, 1.2)])
        g.addEdge(a, b, w); edges.append((a, b, w))
    return g, edges, n


def boltz(edges, n, S):
    sp = [(S >> k) & 1 for k in range(n)]
    return math.exp(sum(w if sp[a] == sp[b] else -w for a, b, w in edges))


@contract('C17', 120)
def ising_network(rng, i):
    if i % 6 == 0:
        n, m = rng.randrange(2, 4), rng.randrange(2, 4)
        w = (rng.uniform(0, 1), rng.uniform(0, 1))
        g = [squareLatticePBC, squareLatticeFBC][i % 4 // 2](n, m, weight=w)
        edges = [(e.vertices[0].index, e.vertices[1].index, e.weight) for e in g.getEdges()]; n = n * m
    else:
        g, edges, n = rand_graph(rng, i)
    Z = sum(boltz(edges, n, S) for S in range(1 << n))
    zz = exactZFromGraphIsing(g)
    require(close(zz, Z, 1e-9), 'direct enumeration gives %r, sum over configurations %r' % (zz, Z))
    for S in rng.sample(range(1 << n), min(4, 1 << n)):
        require(close(getIsingWeight(g, S), boltz(edges, n, S), 1e-9), 'weight of configuration %d' % S)
    ts = IsingTNFromUndirectedGraph(g)
    require(len(ts) == n, 'one tensor per vertex')
    for k, t in enumerate(ts):
        wf(t)
        require(t.dim == g.v[k].degree, 'site tensor rank differs from the degree')
    # the network must have exactly the links of the graph
    got = Counter()
    for k, t in enumerate(ts):
        for l in t.legs:
            require(l.bond is not None, 'a leg of the network is not linked')
            o = [j for j in range(n) if l.anotherSide().tensor is ts[j]][0]
            got[(min(k, o), max(k, o))] += 1
    require({k: v // 2 for k, v in got.items()} == dict(Counter((min(a, b), max(a, b)) for a, b, _ in edges)), 'links of the network differ from the edges of the graph')
    if len(edges) <= 14:
        R, labs = oracle_network(ts)
        require(close(R, Z, 1e-8), 'network sums to %r, partition sum is %r' % (float(R), Z))
        res = contractTensorList(ts, outProductWarning=False)
        require(res.dim == 0 and close(res.a, Z, 1e-8), 'network contracts to %r, partition sum is %r' % (res.a, Z))
    return (n, len(edges), round(Z, 6))


@contract('C17', 40)
def ising_site(rng, i):
    dim = rng.randrange(0, 5)
    same_ = i % 2
    js = [rng.uniform(0, 1.5) for _ in range(dim)]
    if same_:
        js = [js[0] if dim else .5] * dim
    labs = list(LET[:dim]) if i % 3 else None
    t = IsingSiteTensor((js[0] if dim else .5) if same_ else js, dim=dim, labels=labs)
    wf(t)
    require(t.dim == dim and (labs is None or list(t.labels) == labs), 'rank or labels wrong')
    A = [None] * dim
    for k, j in enumerate(js):
        m = IsingEdgeMatrix(j)
        require(close(m, m.T) and close(m @ m, [[math.exp(j), math.exp(-j)], [math.exp(-j), math.exp(j)]]), 'edge matrix is not the symmetric root of the edge weight')
        A[k] = m
    R = np.zeros((2,) * dim)
    for s in (0, 1):
        T = np.array(1.0)
        for m in A:
            T = np.multiply.outer(T, m[s])
        R = R + T
    require(close(t.a, R), 'site tensor differs from the sum over its spin')
    expect_raises(AssertionError, lambda: IsingSiteTensor([.1] * (dim + 1), dim=dim), 'wrong number of couplings')
    expect_raises(AssertionError, lambda: IsingSiteTensor(.1, dim=dim, labels=['q'] * (dim + 1)), 'wrong number of labels')
    return (dim, same_, tuple(round(x, 3) for x in js))


# ------------------------------------------------------------------ C18
def rint(rng):
    return rng.choice([0, 1, 2, 3, 5, 7, rng.randrange(0, 100), rng.randrange(0, 10 ** 6), rng.randrange(0, 2 ** 70)])


@contract('C18', 400)
def digits(rng, i):
    x, dim = rint(rng), rng.randrange(0, 12)
    b = F.intToBitList(x, dim); t = F.intToBitTuple(x, dim)
    require(type(b) is list and tuple(b) == t and len(b) == dim, 'bit list and tuple differ')
    require(all(v in (0, 1) for v in b) and sum(v << k for k, v in enumerate(b)) == x % (1 << dim), 'bits of %d' % x)
    D = rng.randrange(2, 17)
    d = F.intToDBaseTuple(x, dim, D)
    require(type(d) is tuple and len(d) == dim and all(0 <= v < D for v in d) and sum(v * D ** k for k, v in enumerate(d)) == x % D ** dim, 'digits of %d in base %d' % (x, D))
    m = rng.randrange(1, 50); y = rng.choice([-1, 1]) * x
    r = F.safeMod(y, m)
    require(0 <= r < m and (y - r) % m == 0, 'safeMod(%d, %d) = %d' % (y, m, r))
    shape = [rng.randrange(1, 5) for _ in range(rng.randrange(1, 5))]
    labels = list(LET[:len(shape)]); p = 1
    for s in shape: p *= s
    idx = x % p
    dd = F.getIndexDict(idx, labels, shape)
    v = 0
    for l, s in zip(labels, shape):
        require(0 <= dd[l] < s, 'index out of range'); v = v * s + dd[l]
    require(v == idx and set(dd) == set(labels), 'getIndexDict is not the row-major index')
    return (x, dim, D, m)


@contract('C18', 120)
def divisions(rng, i):
    n, k = rng.randrange(0, 7), rng.randrange(1, 5)
    r = [tuple(p) for p in F.divideIntoKParts(n, k)]
    exp = [p for p in itertools.product(range(n + 1), repeat=k) if sum(p) == n]
    require(sorted(r) == sorted(exp), 'divisions of %d into %d parts' % (n, k))
    require(sum(F.calculateDivisionTimes(p) for p in r) == k ** n, 'multinomials do not sum to %d^%d' % (k, n))
    N = rng.randrange(0, 60); p = rng.randrange(0, 60)
    require(F.myComb(N, p) == math.comb(N, p) and isinstance(F.myComb(N, p), int), 'binomial(%d, %d)' % (N, p))
    d = [rng.randrange(0, 9) for _ in range(rng.randrange(1, 5))]
    m = math.factorial(sum(d))
    for x in d: m //= math.factorial(x)
    require(F.calculateDivisionTimes(d) == m, 'multinomial of %r' % (d,))
    return (n, k, N, p, tuple(d))


@contract('C18', 500)
def lists(rng, i):
    a = [rng.randrange(6) for _ in range(rng.randrange(0, 8))]
    b = [rng.randrange(6) for _ in range(rng.randrange(0, 8))]
    if i % 2:
        a = [LET[x] for x in a]; b = [LET[x] for x in b]
    if i % 5 == 0:
        b = list(a); rng.shuffle(b)
    a0, b0 = list(a), list(b)
    sub = [x for x in a if rng.random() < .5]; rng.shuffle(sub)
    d = F.listDifference(a, sub) if i % 3 else F.listDifference(tuple(a), tuple(sub))
    require(type(d) is list and Counter(d) == Counter(a) - Counter(sub), 'listDifference(%r, %r) = %r' % (a, sub, d))
    # first occurrences are the ones removed: order of the rest is kept
    e = list(a)
    for x in sub: e.remove(x)
    require(d == e, 'listDifference changes the order: %r' % (d,))
    require(F.deleteAllInUsed(a, b) == [x for x in a if x not in b], 'deleteAllInUsed')
    require(F.compareLists(a, b) == (sorted(a) == sorted(b)), 'compareLists(%r, %r)' % (a, b))
    ce = F.commonElements(a, b)
    require(Counter(ce) == Counter(a) & Counter(b), 'commonElements(%r, %r) = %r' % (a, b, ce))
    sd = F.listSymmetricDifference(a, b)
    require(len(sd) == len(set(sd)) and set(sd) == set(a) ^ set(b), 'listSymmetricDifference(%r, %r) = %r' % (a, b, sd))
    require([tuple(p) for p in F.pairIterator(a)] == [(a[x], a[y]) for x in range(len(a)) for y in range(x + 1, len(a))], 'pairIterator')
    idx = [rng.randrange(0, len(a) + 2) for _ in range(rng.randrange(0, 4))]
    require(F.tupleRemoveByIndex(tuple(a), idx) == tuple(x for k, x in enumerate(a) if k not in idx), 'tupleRemoveByIndex(%r, %r)' % (a, idx))
    # occurrence-aware lookup
    g = F.generateIndices(a, b)
    seen = Counter(); exp = []
    for x in b:
        pos = [k for k, y in enumerate(a) if y == x]
        exp.append(pos[seen[x]] if seen[x] < len(pos) else None); seen[x] += 1
    require(list(g) == exp, 'generateIndices(%r, %r) = %r, expected %r' % (a, b, g, exp))
    nums = [rng.randrange(0, 9) for _ in range(rng.randrange(0, 5))]
    p = 1
    for x in nums: p *= x
    require(F.tupleProduct(tuple(nums)) == p, 'tupleProduct(%r)' % (nums,))
    require(F.checkAllEqual(tuple(a)) == (len(set(a)) <= 1), 'checkAllEqual(%r)' % (a,))
    require(F.tupleSwap((1, i)) == (i, 1), 'tupleSwap')
    require(a == a0 and b == b0, 'an argument list was changed')
    return (tuple(a), tuple(b), tuple(sub))


@contract('C18', 100)
def bisection(rng, i):
    l = rng.uniform(-10, 10); r = l + rng.uniform(.1, 20); t = rng.uniform(l, r); eps = 10 ** -rng.randrange(1, 9)
    if i % 10 == 0: t = l - 1
    if i % 10 == 1: t = r + 1
    m = F.binarySearch(l, r, lambda x: x >= t, eps)
    tt = min(max(t, l), r)
    require(l <= m <= r and abs(m - tt) <= eps, 'bisection result %r, threshold %r, eps %r' % (m, t, eps))
    expect_raises(AssertionError, lambda: F.binarySearch(r, l, lambda x: True, eps), 'bisection on an empty interval')
    return (round(l, 2), round(r, 2), eps)


@contract('C18', 100)
def array_helpers(rng, i):
    n, d = rng.randrange(1, 5), rng.randrange(1, 4)
    a = rdata(rng, (n,))
    x = F.diagonalNDTensor(a, d)
    require(x.shape == (n,) * d and x.dtype == a.dtype and all(x[c] == (a[c[0]] if len(set(c)) == 1 else 0) for c in itertools.product(range(n), repeat=d)), 'diagonalNDTensor')
    e = F.ndEye(d, n)
    require(e.shape == (n,) * d and all(e[c] == (1 if len(set(c)) == 1 else 0) for c in itertools.product(range(n), repeat=d)), 'ndEye')
    sh = tuple(rng.randrange(1, 4) for _ in range(rng.randrange(1, 4)))
    b = rdata(rng, sh); ax = rng.randrange(len(sh)); w = rdata(rng, (sh[ax],))
    require(same(F.sumOnAxis(b, ax), b.sum(axis=ax)) or b.dtype == np.float32, 'sumOnAxis')
    require(same(F.sumOnAxis(b, ax, w), np.tensordot(b, w, (ax, 0))) or np.float32 in (b.dtype, w.dtype), 'weighted sumOnAxis')
    m = rdata(rng, (n, d)); u = rdata(rng, (d,)); v = rdata(rng, (n,))
    require(same(F.rightDiagonalProduct(m, u), m @ np.diag(u)) and same(F.leftDiagonalProduct(m, v), np.diag(v) @ m), 'diagonal products')
    return (n, d, sh, ax)


# ------------------------------------------------------------------ C19
@contract('C19', 200)
def registry_history(rng, i):
    s = StringSet(n=rng.choice([1, 2, 5])) if i % 4 else StringSet()
    other = StringSet()
    if s.n == 1 and i % 3:
        pass
    held = set()
    names = ['a', 'b', 'c', 'abc', 'Z', '']
    real = getattr(SS, 'randomString', None)
    if i % 2:
        # force collisions: the generator repeats itself
        cnt = [0]

        def fake(n=10):
            cnt[0] += 1
            return 'g%d' % (cnt[0] // 3) if cnt[0] % 5 else (sorted(held)[0] if held else 'g0')
        if real is not None:
            SS.randomString = fake
    try:
        for _ in range(rng.randrange(3, 25)):
            k = rng.randrange(5)
            if k == 0:
                r = s.newString()
                require(r not in held, 'generated name %r is already held' % r)
                require(isinstance(r, str), 'name is not a string')
                held.add(r)
            elif k == 1:
                x = rng.choice(names)
                if x in held:
                    expect_raises(AssertionError, lambda: s.newString(x), 'supplying the name %r twice' % x)
                else:
                    r = s.newString(x) if rng.random() < .5 else s.newString(inputStr=x)
                    require(r == x, 'supplied name %r became %r' % (x, r)); held.add(x)
            elif k == 2:
                x = rng.choice(names)
                if x in held:
                    expect_raises(AssertionError, lambda: s.add(x), 'adding the name %r twice' % x)
                else:
                    s.add(x); held.add(x)
            elif k == 3:
                x = rng.choice(names + sorted(held)[:2])
                if x not in held:
                    expect_raises(AssertionError, lambda: s.remove(x), 'removing the absent name %r' % x)
                else:
                    s.remove(x); held.discard(x)
            for x in names + sorted(held):
                require(bool(s.contains(x)) == (x in held), 'membership of %r is %r' % (x, s.contains(x)))
            require(not hasattr(s, 'stringSet') or set(s.stringSet) == held, 'registry holds %r, expected %r' % (s.stringSet, held))
        require(not any(other.contains(x) for x in names + sorted(held)), 'registries share names')
    finally:
        if real is not None:
            SS.randomString = real
    return (i % 2, tuple(sorted(held))[:4])


@contract('C19', 40)
def module_registries(rng, i):
    a = SS.getTensorName(); b = SS.getTensorName(); c = SS.getBondName()
    require(a != b and SS.TensorStringSet.contains(a) and SS.TensorStringSet.contains(b), 'tensor names repeat')
    nm = 'x%d_%d' % (i, rng.randrange(10 ** 9))
    d = SS.getBondName(nm)
    require(d == nm, 'supplied name changed')
    expect_raises(AssertionError, lambda: SS.getBondName(nm), 'the same bond name twice')
    known = set([F.randomString(1) for _ in range(60)])
    if len(known) < 52:
        s = F.getNewString(known, 1)
        require(s not in known and len(s) == 1, 'getNewString returned a known string')
    require(len(F.randomString(7)) == 7, 'random string length')
    return (i,)
