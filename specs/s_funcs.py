"""contracts of CTL.funcs.funcs"""
from lib import *
F = 'CTL.funcs.funcs.'
I, S, R = z3.IntSort(), z3.StringSort(), z3.RealSort()


def seqarg(v):
    return isinstance(v, (Lst, Tup))


@contract(F + 'tupleProduct', ['C18', 'C04', 'C11'], [('any integers', lambda c: dict(shapeTuple=Tup(ints(c, 'd'))))], applies=lambda c, e: seqarg(e['shapeTuple']))
def tupleProduct(c, e):
    return c.prod(e['shapeTuple'].seq)


@contract(F + 'listDifference', ['C18', 'C03'], [
    ('distinct', lambda c: dict(total=Lst(dset(c, 'total')), used=Lst(dset(c, 'used')))),
    ('one removed', lambda c: dict(total=Lst(ints(c, 'total')), used=Lst(CSeq([Int('x')]))))],
    applies=lambda c, e: seqarg(e['total']) and seqarg(e['used']) and (isinstance(e['used'].seq, CSeq) or all(isprov(c, c.distinct(e[k].seq)) for k in ('total', 'used'))))
def listDifference(c, e):
    """every element of used is removed once, the rest keeps its order; ValueError if one is missing"""
    t, u = e['total'].seq, e['used'].seq
    if isinstance(u, CSeq):
        l = Lst(t)
        for x in u.items:
            loops.list_remove(c.interp, l, x)
        return l
    missing = neg(forall(u.n, lambda k: c.member(u.at(k), t)))
    if c.branch(missing):
        raise_('ValueError')
    return Lst(c.filt(t, lambda q: neg(c.member(t.at(q), u))))


def isprov(c, f):
    return f is True or (f is not False and c.valid(f))


@contract(F + 'deleteAllInUsed', ['C18'], [('integers', lambda c: dict(total=Lst(ints(c, 'total')), used=Lst(ints(c, 'used'))))], applies=lambda c, e: seqarg(e['total']) and seqarg(e['used']))
def deleteAllInUsed(c, e):
    t, u = e['total'].seq, e['used'].seq
    return Lst(c.filt(t, lambda q: neg(c.member(t.at(q), u))))


@contract(F + 'tupleRemoveByIndex', ['C18'], [('any', lambda c: dict(initTuple=Tup(ints(c, 't')), indexList=Lst(ints(c, 'idx'))))], applies=lambda c, e: seqarg(e['initTuple']) and seqarg(e['indexList']))
def tupleRemoveByIndex(c, e):
    t, u = e['initTuple'].seq, e['indexList'].seq
    return Tup(c.filt(t, lambda q: neg(c.member(q, u))))


@contract(F + 'tupleSwap', ['C18'], [('pair', lambda c: dict(tp=Tup(CSeq([Int('a'), Int('b')]))))])
def tupleSwap(c, e):
    t = e['tp'].seq
    if not isinstance(t.n, int) or t.n != 2:
        raise Unsupported('tupleSwap of no pair')
    return Tup(CSeq([t.at(1), t.at(0)]))


@contract(F + 'checkAllEqual', ['C18'], [('any', lambda c: dict(tp=Tup(ints(c, 'tp'))))], applies=lambda c, e: seqarg(e['tp']))
def checkAllEqual(c, e):
    t = e['tp'].seq
    return forall(t.n, lambda k: eqterm(t.at(k), t.at(0)))


@contract(F + 'safeMod', ['C18'], [('positive modulus', lambda c: (c.assume(Int('m') > 0), dict(x=Int('x'), m=Int('m')))[1])],
          applies=lambda c, e: is_int(e['x']) and is_int(e['m']) and isprov(c, simp(Z(e['m']) > 0)))
def safeMod(c, e):
    x, m = Z(e['x']), Z(e['m'])
    if c.products and isprov(c, z3.And(0 <= x, x < m)):
        return simp(x)
    if c.products and isprov(c, z3.And(0 <= x, x < 2 * m)):
        return simp(z3.If(x >= m, x - m, x))
    return simp(x % m)


def dig(c, x, D):
    return c.recur(x, lambda p, j: interp.floordiv(p, Z(D)) if not isinstance(D, int) else p / D)


@contract(F + 'intToBitList', ['C18', 'C17'], [('any', lambda c: dict(x=Int('x'), dim=Int('dim')))], applies=lambda c, e: not isinstance(e['dim'], int) and is_int(e['x']))
def intToBitList(c, e):
    """bit j of x is floor(x / 2^j) mod 2; dim bits, least significant first"""
    q = dig(c, e['x'], 2)
    n = Z(e['dim'])
    return Lst(FSeq(simp(z3.If(n < 0, 0, n)), lambda j: simp(q(Z(j)) % 2), None, 'bits'))


@contract(F + 'intToBitTuple', ['C18', 'C17'], [('any', lambda c: dict(x=Int('x'), dim=Int('dim')))], applies=lambda c, e: not isinstance(e['dim'], int) and is_int(e['x']))
def intToBitTuple(c, e):
    return Tup(intToBitList(c, e).seq)


@contract(F + 'intToDBaseTuple', ['C18'], [('positive base', lambda c: (c.assume(Int('D') > 0), dict(x=Int('x'), dim=Int('dim'), D=Int('D')))[1])],
          applies=lambda c, e: not isinstance(e['dim'], int) and is_int(e['x']) and is_int(e['D']) and isprov(c, simp(Z(e['D']) > 0)))
def intToDBaseTuple(c, e):
    D = Z(e['D'])
    q = c.recur(e['x'], lambda p, j: p / D)
    n = Z(e['dim'])
    return Tup(FSeq(simp(z3.If(n < 0, 0, n)), lambda j: simp(q(Z(j)) % D), None, 'digits'))


def distinct_args(c, e, *names):
    return all(seqarg(e[k]) for k in names) and all(isprov(c, c.distinct(e[k].seq)) for k in names)


@contract(F + 'generateIndices', ['C03', 'C13', 'C18'], [('different elements', lambda c: dict(elemList=Lst(strs(c, 'lst')), elems=Lst(dset(c, 'elems', sort=S)))), ('different elements of a list without repetition', lambda c: dict(elemList=Lst(dset(c, 'lst')), elems=Lst(dset(c, 'elems'))))],
          applies=lambda c, e: seqarg(e['elemList']) and not isinstance(e['elems'].seq, CSeq) and distinct_args(c, e, 'elems'))
def generateIndices(c, e):
    """the first position of every element, None for missing ones (elements asked for once)"""
    s, u = e['elemList'].seq, e['elems'].seq

    def at(k):
        f = c.find(s, u.at(k), True)
        return optv(neg(f[0]), simp(f[1]))
    return Lst(FSeq(u.n, at))


@contract(F + 'compareLists', ['C18', 'C03'], [('different elements', lambda c: dict(a=Lst(ints(c, 'a')), b=Lst(dset(c, 'b'))))], applies=lambda c, e: distinct_args(c, e, 'b'))
def compareLists(c, e):
    """the same elements the same number of times (b without repetitions)"""
    a, b = e['a'].seq, e['b'].seq
    return c.same_set(a, b)


def weighted(c, a, i, w):
    """sum over axis i with weights; at most 25 axes"""
    if c.branch(simp(Z(a.shape.n) > 25)):
        raise_('AssertionError')
    ip = c.interp
    d = a.shape.at(i)
    shape = cat(ip.slice(a.shape, slice(0, i)), ip.slice(a.shape, slice(simp(add(i, 1)), None)))
    return NDArr(shape, lambda idx: npmodel.SSum(CSeq([d]), lambda s: npmodel.SOp('*', [a.elem(lambda j: npmodel.skip(j, i, idx, s(0))), w.elem(lambda j: s(0))])), npmodel.prom(a.dtype, w.dtype))


def axis_case(wt):
    def f(c):
        sh = ints(c, 'sh')
        i = z3.Int('i?')
        fact_(c, z3.ForAll([i], sh.at(i) >= 1, patterns=[sh.at(i)]))
        ax = Int('axis')
        c.assume(z3.And(0 <= ax, ax < Z(sh.n)))
        return dict(a=npmodel.fresh_array(c, 'a', sh, DType('a.dtype')), axis=ax, weights=npmodel.fresh_array(c, 'w', CSeq([sh.at(ax)]), DType('w.dtype')) if wt else None)
    return f


def fact_(c, f):
    c.pc.append(('f', f))


def axis_applies(c, e):
    a, w = e['a'], e['weights']
    if not isinstance(a, NDArr) or not is_int(e['axis']) or not isprov(c, simp(z3.And(0 <= Z(e['axis']), Z(e['axis']) < Z(a.shape.n)))):
        return False
    return w is None or isinstance(w, NDArr) and isinstance(w.shape.n, int) and w.shape.n == 1 and isprov(c, eqterm(w.shape.at(0), a.shape.at(e['axis'])))


@contract(F + 'sumOnAxis', ['C07', 'C18'], [('no weights', axis_case(False)), ('weights', axis_case(True))], applies=axis_applies)
def sumOnAxis(c, e):
    if e['weights'] is None:
        return npmodel.f_sum(c.interp, e['a'], axis=e['axis'])
    return weighted(c, e['a'], e['axis'], e['weights'])
