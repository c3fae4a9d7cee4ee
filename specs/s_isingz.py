"""contracts of the Ising model on graphs (C17)"""
from s_ising import *
from s_graph import UG, EDGE, VERTEX
import s_graph
I = z3.IntSort()
import s_funcs


def ising_graph(c, known=True):
    """any graph whose list of edges is up to date: ends of the edges are vertices of the graph"""
    classes(c)
    c.cls_of['GraphEdge'] = klass(c, EDGE)
    c.cls_of['GraphVertex'] = klass(c, VERTEX)
    c.vheap = True
    n, m = length(c, 'V'), length(c, 'E')
    e, a, b = [z3.Function(k, I, I) for k in ('edge', 'end0', 'end1')]
    w = z3.Function('coupling', I, R)
    j = Int('i?')
    edges = FSeq(m, lambda i: Ref('GraphEdge', e(Z(i))), None, 'edges')
    return n, m, edges


def ends(c, x):
    """vertex numbers of the ends and coupling of an edge"""
    v = c.hget('GraphEdge', 'vertices', x.id).seq
    return [Z(c.hget('GraphVertex', 'index', v.at(k).id)) for k in (0, 1)] + [Z(c.hget('GraphEdge', 'weight', x.id))]


def weight_setup(c):
    n, m, edges = ising_graph(c)
    g = Obj(klass(c, UG), Int('g.id'), dict(n=n, v=Lst(FSeq(n, lambda i: Opaque('vertex'), None, 'v')), updated=False, edges=Lst(edges)))
    i = Int('i?')
    x = edges.at(i)
    a, b, w = ends(c, x)
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(x.id >= 1, *[Z(c.hget('GraphEdge', 'vertices', x.id).seq.at(k).id) >= 1 for k in (0, 1)], x.id < c.frontier('GraphEdge'), 0 <= a, a < n, 0 <= b, b < n)), patterns=[x.id]))
    return dict(g=g, S=Int('S'))


@contract(M + 'getIsingWeight', ['C17'], [('any graph', weight_setup)], applies=lambda c, e: isinstance(e['g'], Obj) and e['g'].cls.qual == UG)
def getIsingWeight(c, e):
    """exp of the sum over the edges of the coupling, negative when the bits of S at the two ends differ"""
    g = e['g'].fields
    spin = s_funcs.intToBitList(c, dict(x=e['S'], dim=g['v'].seq.n)).seq

    def term(i):
        a, b, w = ends(c, g['edges'].seq.at(i))
        return z3.If(Z(spin.at(a)) == Z(spin.at(b)), w, -w)
    return rf(c, 'exp', c.sumseq(FSeq(g['edges'].seq.n, lambda i: simp(term(i)))))


@contract(M + 'exactZFromGraphIsing', ['C17'], [('any graph', lambda c: dict(g=weight_setup(c)['g']))], applies=lambda c, e: False)
def exactZ(c, e):
    """the sum over all 2^n configurations of their weight"""
    n = z3.Function('pow2', I, I)(Z(e['g'].fields['v'].seq.n))
    w = lambda x: getIsingWeight(c, dict(g=e['g'], S=x))
    return NDArr(CSeq([]), lambda f: SSum(CSeq([n]), lambda s: SNum(w(s(0)))), DType('float64'))
