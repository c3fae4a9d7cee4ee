"""contracts of graphs and lattice builders (C16)

Edges added to a graph under construction are counted: for an arbitrary pair of vertices P, Q and an arbitrary weight w the
graph carries ghost counters of the edges added so far that join P and Q with weight w.  The contract of addEdge adds to
them; the contract of a builder states their value."""
import ast
from tens import *
GR = 'CTL.funcs.graph.'
GF = 'CTL.funcs.graphFuncs.'
UG = GR + 'UndirectedGraph'


class Ghost:
    """the edge being counted: end vertices (as numbers) and weight; hints: numbers at which a loop may meet it"""
    def __init__(self, P, Q, w):
        self.P, self.Q, self.w = P, Q, w


def sites(c):
    """one pair of counters for every place that adds edges"""
    r = ['other']
    m = c.prog.func(c.target)
    for x in ast.walk(m.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'addEdge':
            r.append('%d.%d' % (x.lineno, x.col_offset))
    return ['#%s%s' % (s, d) for s in r for d in 'fb']


def total(g):
    r = 0
    for k, v in g.fields.items():
        if k.startswith('#'):
            r = add(r, v)
    return r


def counting(c, e):
    return getattr(c, 'ghost', None) is not None and is_int(e.get('n', 0))


# ------------------------------------------------------------------ vertices and edges
EDGE, VERTEX, G_ = GR + 'GraphEdge', GR + 'GraphVertex', GR + 'Graph'


def vertex(c, name, vid=None):
    """a vertex with any edges"""
    k = klass(c, VERTEX)
    i = Int(name + '.id')
    fact(c, z3.And(1 <= i, i < c.frontier('GraphVertex')))
    n = length(c, name + '.edges')
    f = z3.Function(name + '.edge', z3.IntSort(), z3.IntSort())
    j = Int('i?')
    c.cls_of['GraphEdge'] = klass(c, EDGE)
    fact(c, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(1 <= f(j), f(j) < c.frontier('GraphEdge'))), patterns=[f(j)]))
    return Obj(k, i, dict(name=z3.String(name + '.name'), index=Int(name + '.index') if vid is None else vid, edges=Lst(FSeq(n, lambda t: Ref('GraphEdge', simp_id(f(Z(t)))), None, name))))


def edge(c, name='e'):
    c.cls_of['GraphEdge'] = klass(c, EDGE)
    i = Int(name)
    fact(c, z3.And(1 <= i, i < c.frontier('GraphEdge')))
    return Ref('GraphEdge', i)


def vref(c, name):
    i = Int(name)
    fact(c, z3.And(1 <= i, i < c.frontier('GraphVertex')))
    return Ref('GraphVertex', i)


def isvertex(v):
    return isinstance(v, Obj) and v.cls.qual == VERTEX or isinstance(v, Ref) and v.cls == 'GraphVertex'


@contract(EDGE + '.__init__', ['C16'], [('any', lambda c: dict(self=Ref('GraphEdge', c.newid('GraphEdge')), a=vref(c, 'a'), b=vref(c, 'b'), weight=Real('w')))], applies=lambda c, e: isinstance(e['self'], Ref) and isvertex(e['a']) and isvertex(e['b']))
def edge_init(c, e):
    c.hset('GraphEdge', 'vertices', e['self'].id, Tup(CSeq([e['a'], e['b']])))
    c.hset('GraphEdge', 'weight', e['self'].id, e['weight'])


@contract(EDGE + '.anotherSide', ['C16'], [('any vertex', lambda c: dict(self=edge(c), a=vref(c, 'a')))], applies=lambda c, e: isinstance(e['self'], Ref) and isinstance(e['a'], Ref) and e['a'].cls == 'GraphVertex')
def edge_other(c, e):
    x, y = [c.hget('GraphEdge', 'vertices', e['self'].id).seq.at(k) for k in (0, 1)]
    if c.branch(eqterm(e['a'], x)):
        return y
    if c.branch(eqterm(e['a'], y)):
        return x
    raise_('ValueError')


@contract(VERTEX + '.__init__', ['C16'], [(k, lambda c, v=v: dict(self=Obj(klass(c, VERTEX), c.newid('GraphVertex'), {}), index=Int('i'), name=v)) for k, v in (('no name', None), ('name', z3.String('s')))],
          applies=lambda c, e: is_int(e['index']))
def vertex_init(c, e):
    """no edges"""
    e['self'].fields.update(name=e['name'], index=e['index'], edges=Lst(CSeq([])))


@contract(VERTEX + '.addEdge', ['C16'], [('another vertex', lambda c: dict(self=vertex(c, 'a'), v=vref(c, 'b'), weight=Real('w'))), ('itself', lambda c: (lambda v: dict(self=v, v=v, weight=Real('w')))(vertex(c, 'a')))],
          applies=lambda c, e: isinstance(e['self'], Obj) and isvertex(e['v']))
def vertex_addEdge(c, e):
    """a new edge from this vertex to v, the last of the edges of this vertex"""
    r = Ref('GraphEdge', c.newid('GraphEdge'))
    edge_init(c, dict(self=r, a=e['self'], b=e['v'], weight=e['weight']))
    l = e['self'].fields['edges']
    l.seq = cat(l.seq, CSeq([r]))
    return r


@contract(VERTEX + '.degree', ['C16'], [('any', lambda c: dict(self=vertex(c, 'a')))], applies=lambda c, e: isinstance(e['self'], Obj))
def degree(c, e):
    return e['self'].fields['edges'].seq.n


class Vertices(FSeq):
    """the vertices of a graph, some of them named: at their numbers the list has these vertices"""
    def __init__(self, c, n, known):
        self.c, self.known = c, known
        FSeq.__init__(self, n, self.vertex, None, 'v')

    def vertex(self, i):
        for k, v in self.known:
            if Z(i).eq(Z(k)) or self.c.valid(Z(i) == Z(k)):
                return v
        raise Unsupported('vertex %s' % (i,))


def graph(c, cls, same=None):
    n = length(c, 'V')
    F = dict(n=n)
    x, y = Int('idx1'), Int('idx2')
    if same:
        y = x
    elif same is False:
        c.assume(x != y)
    v1 = vertex(c, 'v1', x)
    v2 = v1 if same else vertex(c, 'v2', y)
    if not same:
        fact(c, Z(v1.id) != Z(v2.id))
    F['v'] = Lst(Vertices(c, n, [(x, v1), (y, v2)]))
    if cls == UG:
        F.update(edges=Opaque('edges'), updated=z3.Bool('upd'))
    return Obj(klass(c, cls), Int('g.id'), F), x, y


def add_setup(c, cls, same):
    g, x, y = graph(c, cls, same)
    v1, v2 = [v for k, v in g.fields['v'].seq.known]
    return dict(self=g, idx1=x, idx2=y, weight=Real('w'), _v1=v1, _v2=v2)


@contract(G_ + '.assertIndex', ['C16'], [('any', lambda c: dict(self=graph(c, G_)[0], idx=Int('i')))], applies=lambda c, e: isinstance(e['self'], Obj) and is_int(e['idx']) and 'n' in e['self'].fields)
def assertIndex(c, e):
    i = Z(e['idx'])
    if c.branch(neg(z3.And(0 <= i, i < Z(e['self'].fields['n'])))):
        raise_('AssertionError')


def concrete(c, e):
    s = e['self']
    return isinstance(s, Obj) and isinstance(s.fields.get('v'), Lst) and isinstance(s.fields['v'].seq, Vertices) and is_int(e['idx1']) and is_int(e['idx2'])


def ends(c, e):
    g = e['self']
    for k in ('idx1', 'idx2'):
        assertIndex(c, dict(self=g, idx=e[k]))
    return [g.fields['v'].seq.at(e[k]) for k in ('idx1', 'idx2')]


TWO = [('different vertices', False), ('one vertex', True)]


@contract(G_ + '.addEdge', ['C16'], [(k, lambda c, v=v: add_setup(c, G_, v)) for k, v in TWO], applies=lambda c, e: concrete(c, e))
def g_addEdge(c, e):
    """an edge of the first vertex; numbers that are no vertices are refused"""
    a, b = ends(c, e)
    return vertex_addEdge(c, dict(self=a, v=b, weight=e['weight']))


def init_cases(cls):
    return [('%d vertices' % n, lambda c, n=n: dict(self=Obj(klass(c, cls), Int('g.id'), {}), n=n)) for n in (0, 1, 2, 3)]


@contract(G_ + '.__init__', ['C16'], init_cases(G_), applies=lambda c, e: isinstance(e['n'], int), note='for at most three vertices')
def g_init(c, e):
    vs = []
    for k in range(e['n']):
        o = Obj(klass(c, VERTEX), c.newid('GraphVertex'), {})
        vertex_init(c, dict(self=o, index=k, name=None))
        vs.append(o)
    e['self'].fields.update(v=Lst(CSeq(vs)), n=e['n'])


# ------------------------------------------------------------------ undirected graphs
@contract(UG + '.__init__', ['C16'], init_cases(UG), applies=lambda c, e: isinstance(e['n'], int) or counting(c, e), note='for at most three vertices; assumed for more')
def ug_init(c, e):
    g = e['self']
    if isinstance(e['n'], int) and not counting(c, e):
        g_init(c, e)
        g.fields.update(edges=None, updated=False)
        return
    g.fields.update(n=e['n'], edges=None, updated=False, v=Opaque('vertices'))
    for k in sites(c):
        g.fields[k] = 0


def ug_applies(c, e):
    if concrete(c, e):
        return True
    return isinstance(e['self'], Obj) and '#otherf' in e['self'].fields and is_int(e['idx1']) and is_int(e['idx2']) and (is_real(e['weight']) or is_int(e['weight']))


@contract(UG + '.addEdge', ['C16'], [(k, lambda c, v=v: add_setup(c, UG, v)) for k, v in TWO], applies=ug_applies)
def ug_addEdge(c, e):
    """a new edge (v1, v2) with this weight, the last of the edges of both vertices (twice for a loop); numbers that are no vertices are refused

    In terms of the counters: the number of edges (P, Q) with weight w grows by one if P is the first and Q the second vertex, and by one
    if it is the other way round and P and Q differ."""
    g = e['self']
    if concrete(c, e):
        a, b = ends(c, e)
        r = vertex_addEdge(c, dict(self=a, v=b, weight=e['weight']))
        l = b.fields['edges']
        l.seq = cat(l.seq, CSeq([r]))
        g.fields['updated'] = True
        return r
    assertIndex(c, dict(self=g, idx=e['idx1']))
    assertIndex(c, dict(self=g, idx=e['idx2']))
    x, y = Z(e['idx1']), Z(e['idx2'])
    G = c.ghost
    s = '#%s' % getattr(c.interp, 'site', 'other')
    if s + 'f' not in g.fields:
        s = '#other'
    same = simp(Z(eqterm(e['weight'], G.w)))
    for d, a, b in (('f', x, y), ('b', y, x)):
        t = z3.And(Z(same), a == G.P, b == G.Q)
        if d == 'b':
            t = z3.And(t, G.P != G.Q)
        g.fields[s + d] = simp(add(g.fields[s + d], z3.If(t, 1, 0)))
    return Opaque('edge')


def compare(c, p, s, goals):
    a, b = p.out[1], s.out[1]
    from prover import Goal
    if not (isinstance(a, Obj) and a.cls.qual == UG and '#otherf' in a.fields):
        goals.append(Goal('result is an undirected graph', False, 'other result'))
        return
    goals.append(Goal('number of vertices', simp(Z(a.fields['n']) == Z(b['n']))))
    goals.append(Goal('number of edges joining P and Q with weight w', simp(Z(total(a)) == Z(b['count']))))


def ghost2(c, pbc, mm, wt):
    n = Int('n')
    m = Int('m') if mm else n
    c.assume(z3.And(n >= 1, m >= 1))
    px, py, qx, qy = z3.Ints('px py qx qy')
    for x, y in ((px, py), (qx, qy)):
        fact(c, z3.And(0 <= x, x < n, 0 <= y, y < m))
    w = Real('w')
    c.sizes = (n, m) if mm else (n,)
    c.products, c.hints = True, [px, qx, py, qy]
    c.ghost = Ghost(px * m + py, qx * m + qy, w)
    c.ghost.at = (n, m, px, py, qx, qy)
    return dict(n=n, m=m if mm else None, weight=Real('W') if not wt else Tup(CSeq([Real('WV'), Real('WH')])))


def wvh(e):
    if isinstance(e['weight'], Tup):
        return e['weight'].seq.items
    return e['weight'], e['weight']


def ind(*cs):
    return z3.If(z3.And(*[Z(x) for x in cs]), 1, 0)


def lcases(f):
    return [('%s, %s' % (a, b), lambda c, i=i, j=j: f(c, i, j)) for i, a in enumerate(('n x n', 'n x m')) for j, b in enumerate(('one weight', 'two weights'))]


@contract(GF + 'squareLatticePBC', ['C16'], lcases(lambda c, i, j: ghost2(c, True, i, j)), applies=lambda c, e: False, compare=compare, chunk=1, weight=3)
def pbc(c, e):
    """one edge from every vertex to the next in its row and one to the next in its column, cyclically"""
    n, m, px, py, qx, qy = c.ghost.at
    V, H = wvh(e)
    w = c.ghost.w
    right = lambda y: z3.If(y == m - 1, 0, y + 1)
    down = lambda x: z3.If(x == n - 1, 0, x + 1)
    differ = z3.Or(px != qx, py != qy)
    c.newid('UndirectedGraph')
    return dict(n=n * m, count=ind(H == w, px == qx, qy == right(py)) + ind(differ, H == w, px == qx, py == right(qy)) +
                ind(V == w, py == qy, qx == down(px)) + ind(differ, V == w, py == qy, px == down(qx)))


@contract(GF + 'squareLatticeFBC', ['C16'], lcases(lambda c, i, j: ghost2(c, False, i, j)), applies=lambda c, e: False, compare=compare, chunk=1, weight=3)
def fbc(c, e):
    """one edge between neighbours in a row or column"""
    n, m, px, py, qx, qy = c.ghost.at
    V, H = wvh(e)
    w = c.ghost.w
    c.newid('UndirectedGraph')
    return dict(n=n * m, count=ind(H == w, px == qx, z3.Or(qy == py + 1, py == qy + 1)) + ind(V == w, py == qy, z3.Or(qx == px + 1, px == qx + 1)))


def ghost1(c):
    n = Int('n')
    c.assume(n >= 0)
    p, q = z3.Ints('p q')
    fact(c, z3.And(0 <= p, p < n, 0 <= q, q < n))
    c.hints = [p, q]
    c.ghost = Ghost(p, q, Real('w'))
    return dict(n=n, weight=Real('W'))


@contract(GF + 'completeGraph', ['C16'], [('any', ghost1)], applies=lambda c, e: False, compare=compare, chunk=1, weight=3)
def complete(c, e):
    """one edge between any two different vertices"""
    G = c.ghost
    c.newid('UndirectedGraph')
    return dict(n=e['n'], count=ind(G.P != G.Q, e['weight'] == G.w))


def ghostd(c, dp, dq, mm, wt):
    """kind 0: the (n + 1) x m upper and lower corners, kind 1: the n x (m + 1) left and right ones"""
    n = Int('n')
    m = Int('m') if mm else n
    c.assume(z3.And(n >= 1, m >= 1))
    v = z3.Ints('px py qx qy')
    for d, x, y in ((dp, v[0], v[1]), (dq, v[2], v[3])):
        fact(c, z3.And(0 <= x, x < n + (1 - d), 0 <= y, y < m + d))
    num = lambda d, x, y: x * m + y if d == 0 else (n + 1) * m + x * (m + 1) + y
    c.sizes = (n, m) if mm else (n,)
    c.products, c.hints = True, [v[0], v[2], v[1], v[3]] + [t + k for k in (-1, 1) for t in v]
    c.ghost = Ghost(simp(num(dp, v[0], v[1])), simp(num(dq, v[2], v[3])), Real('w'))
    c.ghost.at = (n, m, dp, dq) + tuple(v)
    return dict(n=n, m=m if mm else None, weight=Real('W') if not wt else Tup(CSeq([Real('WT'), Real('WB')])))


@contract(GF + 'doubleSquareLatticeFBC', ['C16'], [('%s, %s, kinds %d %d' % (('n x n', 'n x m')[i], ('one weight', 'two weights')[j], dp, dq), lambda c, a=(dp, dq, i, j): ghostd(c, *a)) for i in (0, 1) for j in (0, 1) for dp in (0, 1) for dq in (0, 1)],
          applies=lambda c, e: False, compare=compare, chunk=1, weight=3)
def double(c, e):
    """the corners of a square: left (x, y), right (x, y + 1), upper (x, y), lower (x + 1, y)"""
    n, m, dp, dq, px, py, qx, qy = c.ghost.at
    w = c.ghost.w
    TTB, BTT = wvh(e)
    c.newid('UndirectedGraph')
    N = n * (m + 1) + m * (n + 1)
    if dp == dq:
        return dict(n=N, count=0)
    (sx, sy), (tx, ty) = ((px, py), (qx, qy)) if dp == 1 else ((qx, qy), (px, py))      # s: left/right corner, t: upper/lower
    inside = lambda x, y: z3.And(0 <= x, x < n, 0 <= y, y < m)
    return dict(n=N, count=ind(BTT == w, tx == sx, ty == sy, inside(sx, sy)) + ind(TTB == w, tx == sx + 1, ty == sy, inside(sx, sy)) +
                ind(TTB == w, tx == sx, ty == sy - 1, inside(sx, sy - 1)) + ind(BTT == w, tx == sx + 1, ty == sy - 1, inside(sx, sy - 1)))


# ------------------------------------------------------------------ the list of edges
def with_edges(c, sizes):
    """vertices with so many edges each, edges arbitrary (the same edge may occur several times)"""
    c.cls_of['GraphEdge'] = klass(c, EDGE)
    vs = []
    for k, m in enumerate(sizes):
        v = vertex(c, 'v%d' % k, k)
        v.fields['edges'] = Lst(CSeq([edge(c, 'e%d.%d' % (k, t)) for t in range(m)]))
        vs.append(v)
        for u in vs[:-1]:
            fact(c, Z(u.id) != Z(v.id))
    return vs


def edges_setup(c, sizes, old, upd):
    vs = with_edges(c, sizes)
    g = Obj(klass(c, UG), Int('g.id'), dict(n=len(sizes), v=Lst(CSeq(vs)), updated=upd, edges=None if not old else Lst(ints_of(c, 'old'))))
    return dict(self=g)


def ints_of(c, name):
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    return FSeq(length(c, name), lambda t: Ref('GraphEdge', simp_id(f(Z(t)))), None, name)


ECASES = [('%s edges, %s' % ('+'.join(map(str, z)) or 'no', nm), lambda c, z=z, a=a, b=b: edges_setup(c, z, a, b)) for z in ((), (2,), (2, 2), (1, 1, 1)) for nm, a, b in (('no list yet', False, True), ('no list yet, unchanged', False, False), ('old list', True, True))]
ECASES.append(('list up to date', lambda c: dict(self=Obj(klass(c, UG), Int('g.id'), dict(n=Int('n'), v=Opaque('vertices'), updated=False, edges=Lst(ints_of(c, 'old')))))))


@contract(UG + '.getEdges', ['C16', 'C17'], ECASES, applies=lambda c, e: isinstance(e['self'], Obj) and e['self'].cls.qual == UG and e['self'].fields.get('updated') is False and isinstance(e['self'].fields.get('edges'), Lst), note='for graphs of at most four edge entries, and for every graph whose list is up to date')
def getEdges(c, e):
    """every edge once, in the order of the vertices and of their edges; the list is kept until an edge is added"""
    g = e['self']
    if g.fields['edges'] is not None and not g.fields['updated']:
        return g.fields['edges']
    r = []
    for v in g.fields['v'].seq.items:
        for x in v.fields['edges'].seq.items:
            if not any(c.branch(eqterm(x, y)) for y in r):
                r.append(x)
    g.fields['edges'] = Lst(CSeq(r))
    g.fields['updated'] = False
    return g.fields['edges']
