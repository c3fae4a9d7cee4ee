"""contracts of the matrix helpers and of the truncated singular value decomposition (C14)"""
from s_build import *
from values import SOp, SSum, SNum, SIte, NDArr
F = 'CTL.funcs.funcs.'


def matrix(c, name='a', n=None, m=None, dtype=None):
    sh = []
    for k, x in (('rows', n), ('cols', m)):
        if x is None:
            x = z3.Int('%s.%s' % (name, k))
            c.assume(x >= 1)
        sh.append(x)
    return npmodel.fresh_array(c, name, CSeq(sh), DType(name + '.dtype') if dtype is None else dtype)


def vector(c, name, n):
    return npmodel.fresh_array(c, name, CSeq([n]), DType('float64'))


def ismat(*names):
    return lambda c, e: all(isinstance(e[x], NDArr) and isinstance(e[x].shape.n, int) and e[x].shape.n == 2 and not isinstance(e[x], (Grouped, npmodel.Reshaped)) for x in names)


def one(c):
    return dict(a=matrix(c))


def swap(f):
    return lambda j: f(simp(1 - Z(j))) if isz(j) else f(1 - j)


def conj_(s):
    return npmodel.sfun('conjugate', s)


def dagger(a):
    return NDArr(CSeq([a.shape.at(1), a.shape.at(0)]), lambda f: conj_(a.elem(swap(f))), a.dtype)


@contract(F + 'transposeConjugate', ['C14'], [('matrix', one)], applies=ismat('a'))
def transposeConjugate(c, e):
    """entry (i, j) is the conjugate of entry (j, i)"""
    return dagger(e['a'])


def product(a, b):
    d = a.shape.at(1)
    return NDArr(CSeq([a.shape.at(0), b.shape.at(1)]), lambda f: SSum(CSeq([d]), lambda s: SOp('*', [a.elem(lambda j: npmodel.pick([f(0), s(0)], j)), b.elem(lambda j: npmodel.pick([s(0), f(1)], j))])), npmodel.prom(a.dtype, b.dtype))


@contract(F + 'aDaggerAProduct', ['C14', 'C15'], [('matrix', one)], applies=ismat('a'))
def aDaggerAProduct(c, e):
    return product(dagger(e['a']), e['a'])


@contract(F + 'aADaggerProduct', ['C14', 'C15'], [('matrix', one)], applies=ismat('a'))
def aADaggerProduct(c, e):
    return product(e['a'], dagger(e['a']))


@contract(F + 'rightDiagonalProduct', ['C14', 'C15'], [('matrix', lambda c: (lambda a: dict(a=a, diag=vector(c, 'd', a.shape.at(1))))(matrix(c)))], applies=lambda c, e: False)
def rightDiagonalProduct(c, e):
    """entry (i, j) times d[j]"""
    a, d = e['a'], e['diag']
    return NDArr(a.shape, lambda f: SOp('*', [a.elem(f), d.elem(lambda j: f(1))]), npmodel.prom(a.dtype, d.dtype))


@contract(F + 'leftDiagonalProduct', ['C14', 'C15'], [('matrix', lambda c: (lambda a: dict(a=a, diag=vector(c, 'd', a.shape.at(0))))(matrix(c)))], applies=lambda c, e: False)
def leftDiagonalProduct(c, e):
    """entry (i, j) times d[i]"""
    a, d = e['a'], e['diag']
    return NDArr(a.shape, lambda f: SOp('*', [a.elem(f), d.elem(lambda j: f(0))]), npmodel.prom(a.dtype, d.dtype))


def svd_pre(sv, order=None):
    def f(c):
        x = Int('chi')
        c.assume(x >= 0)
        return dict(a=matrix(c), chi=x, returnSV=sv, errorOrder=Int('order') if order is None else order)
    return f


@contract('CTL.funcs.decompose.SVDDecomposition', ['C14'], [('factors with singular values%s' % ('' if o is None else ', order %d' % o), svd_pre(False, o)) for o in (None, 2, 1)] + [('isometries and singular values', svd_pre(True))], applies=lambda c, e: False)
def SVDDecomposition(c, e):
    """the first min(chi, number) singular triples; the error is the discarded share of the sum of the given power"""
    a, chi, p = e['a'], e['chi'], e['errorOrder']
    u, s, vh = npmodel.f_svd(c.interp, a).seq.items
    L = s.shape.at(0)
    n, m = a.shape.at(0), a.shape.at(1)
    power = lambda i: SOp('**', [s.elem(lambda j: i), npmodel.num(p)])
    if c.branch(simp(Z(chi) >= Z(L))):
        k, err = L, 0.0
    else:
        k = chi
        tail = SSum(CSeq([simp(Z(L) - Z(chi))]), lambda q: power(simp(Z(chi) + Z(q(0)))))
        err = npmodel.NPScal(SOp('/', [tail, SSum(CSeq([L]), lambda q: power(q(0)))]), DType('float64'))
    if c.target.endswith('.SVDDecomposition'):
        # reconstruction: the products of the factors over the kept index are the terms of the singular value decomposition
        x, y, z = z3.Reals('u_il v_jl s_l')
        r = npmodel.rfun(c, 'sqrt', z)
        c.assumed.add('numpy: svd returns u, s >= 0, vh with a = sum_l u[i, l] s[l] vh[l, j]; the first k terms are the best approximation of rank k (Eckart-Young); sqrt(s) ** 2 = s')
        c.oblige('reconstruction: the l-th term of the product of the factors is u[i, l] s[l] vh[l, j]', z3.Implies(r * r == z, (x * r) * (r * y) == x * z * y), 'lemma')
    sv = NDArr(CSeq([k]), s.elem, s.dtype)
    if e['returnSV']:
        return Tup(CSeq([NDArr(CSeq([n, k]), u.elem, u.dtype), sv, NDArr(CSeq([k, m]), vh.elem, vh.dtype), err]))
    root = lambda i: npmodel.sfun('sqrt', s.elem(lambda j: i))
    left = NDArr(CSeq([n, k]), lambda f: SOp('*', [u.elem(f), root(f(1))]), npmodel.prom(u.dtype, s.dtype))
    right = NDArr(CSeq([m, k]), lambda f: conj_(SOp('*', [root(f(1)), vh.elem(swap(f))])), npmodel.prom(s.dtype, vh.dtype))
    return Tup(CSeq([left, right, err]))
