"""contracts of the remaining views and renamings of tensors"""
from s_ops import *
from s_diag import D, isdiag, dcases
KINDS = [('dense', False, False, None), ('data-free', True, False, None), ('diagonal', False, True, None), ('diagonal data-free', True, True, None), ('diagonal rank 0', False, True, 0), ('diagonal rank 0, data-free', True, True, 0)]


def kinds(**kw):
    return [(k, setup(like, diag=g, rank=r, **kw)) for k, like, g, r in KINDS]


def known(c, e):
    t = e['self']
    return istensor(t) and isinstance(t.fields['tensorLikeFlag'], bool)


def dims(c, t):
    """dimension of every leg"""
    a = t.fields['a']
    if t.fields['diagonalFlag']:
        L = t.fields['_length']
        n = t.fields['legs'].seq.n
        return CSeq([L] * n) if isinstance(n, int) else FSeq(n, lambda i: L)
    return dims_of(c, t.fields['legs'].seq) if a is None else a.shape


@contract(T + 'dim', ['C04', 'C03', 'C10'], [(k, setup(like)) for k, like in LIKES], applies=plain)
def dim(c, e):
    """number of legs"""
    return S(e).n


@contract(T + 'totalSize', ['C04', 'C11'], [(k, setup(like)) for k, like in LIKES], applies=plain)
def totalSize(c, e):
    """product of the dimensions"""
    return c.prod(dims(c, e['self']))


@contract(T + 'chi', ['C04'], [(k, setup(like, rank=2)) for k, like in LIKES], applies=lambda c, e: False)
def chi(c, e):
    return dims(c, e['self']).at(0)


@contract(D + 'chi', ['C04', 'C09'], dcases(), applies=isdiag)
def dchi(c, e):
    return e['self'].fields['_length']


@contract(T + 'isFloatTensor', ['C04', 'C01'], kinds(), applies=known)
def isFloatTensor(c, e):
    return npmodel.f_issubdtype(c.interp, e['self'].fields['dtype'], NPRef(('floating',)))


@contract(T + 'deduceDataType', ['C04', 'C01'], [('no data', setup(data=None, dtype=DType('dt'))), ('data', setup(data=lambda c, t: npmodel.fresh_array(c, 'data', ints(c, 'da'), DType('data.dtype')), dtype=DType('dt')))], applies=lambda c, e: False)
def deduceDataType(c, e):
    return e['dtype'] if e['data'] is None else e['data'].dtype


@contract(T + 'typeName', ['C10'], [(k, setup(like)) for k, like in LIKES], applies=plain)
def typeName(c, e):
    return 'TensorLike' if e['self'].fields['tensorLikeFlag'] else 'Tensor'


@contract(D + 'typeName', ['C10'], dcases(), applies=isdiag)
def dtypeName(c, e):
    return 'DiagonalTensorLike' if e['self'].fields['tensorLikeFlag'] else 'DiagonalTensor'


def square(c, t):
    """some leg"""
    c.assume(Z(t.fields['legs'].seq.n) >= 1)


def bd(like, g):
    def f(c):
        d = setup(like, diag=g)(c)
        c.assume(Z(S(d).n) >= 1)
        return d
    return f


@contract(T + 'bondDimension', ['C11', 'C04'], [('dense', bd(False, False)), ('data-free', bd(True, False)), ('diagonal', bd(False, True)), ('diagonal data-free', bd(True, True))], applies=lambda c, e: known(c, e) and prove(c, Z(S(e).n) >= 1))
def bondDimension(c, e):
    """dimension of the first leg (a warning when the others differ)"""
    return dims(c, e['self']).at(0)


@contract(T + 'shapeOfIndices', ['C03'], kinds(indices=lambda c, t: Lst(inrange(c, t))), applies=lambda c, e: False)
def shapeOfIndices(c, e):
    d = dims(c, e['self'])
    return Tup(smap(e['indices'].seq, lambda i: d.at(i)))


def inrange(c, t):
    s = ints(c, 'ix')
    i = z3.Int('i?')
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(s.n)), z3.And(0 <= s.at(i), s.at(i) < Z(t.fields['legs'].seq.n))), patterns=[s.at(i)]))
    return s


@contract(T + 'getLabelIndices', ['C03'], kinds(labs=lambda c, t: Lst(dset(c, 'labs', sort=z3.StringSort())), backward=False), applies=lambda c, e: False)
def getLabelIndices(c, e):
    """of different labels: the first leg of every name, -1 without one"""
    ns = names_of(c, S(e))

    def at(l):
        m = c.member(l, ns)
        return ite(m, Z(c.find(ns, l, True)[1]), -1)
    return Lst(smap(e['labs'].seq, at))


@contract(T + 'copyN', ['C05'], [(k, setup(like, n=2)) for k, like in LIKES], applies=lambda c, e: plain(c, e) and isinstance(e['n'], int))
def copyN(c, e):
    return Lst(CSeq([copied(c, e) for _ in range(e['n'])]))
