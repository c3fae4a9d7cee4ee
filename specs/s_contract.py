"""contracts of link merging and of the contraction of two tensors (C01, C06, C09, C10)"""
from s_diag import *
from s_link import bond_init
CT = 'CTL.tensor.contract.contract.'
OPT = 'CTL.tensor.contract.optimalContract.'


def owned(c, T):
    """a linked leg whose tensor is T is one of its legs"""
    s = T.fields['legs'].seq
    j = z3.Int('i?')
    bond, own = h0(c, 'Leg', 'bond'), h0(c, 'Leg', 'tensor')
    fact(c, z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < c.frontier('Leg'), Z(bond(j)) != 0, Z(own(j)) == Z(T.id)), Z(s.find(Ref('Leg', j))[0])), patterns=[Z(own(j))]))


def pair(c, ka, kb):
    """two different tensors with any links, symmetric and joining legs of equal dimension"""
    (la, ga, ra), (lb, gb, rb) = ka, kb
    ta = tensor(c, 'ta', like=la, diag=ga, rank=ra)
    tb = tensor(c, 'tb', like=lb, diag=gb, rank=rb)
    fact(c, Z(ta.id) != Z(tb.id))
    links(c)
    owned(c, ta)
    owned(c, tb)
    return ta, tb


def other_(c):
    """the leg linked to l (in the present state)"""
    bond, legs_ = now(c, 'Leg', 'bond'), now(c, 'Bond', 'legs')

    def f(l):
        x, y = [legs_(Z(bond(Z(l)))).seq.at(k) for k in (0, 1)]
        return ite(eqterm(x, l), y, x)
    return f


def linked_(c):
    bond = now(c, 'Leg', 'bond')
    return lambda l: neg(eqterm(bond(Z(l)), Ref('Bond', z3.IntVal(0))))


PLAIN = (False, False, None)


@contract(BOND + '.sideLeg', ['C01', 'C08'], [('any', lambda c: dict(tensor=tensor(c), self=abond_(c)))])
def sideLeg(c, e):
    """the leg of the link that belongs to the tensor"""
    x, y = [c.hget('Bond', 'legs', e['self'].id).seq.at(k) for k in (0, 1)]
    s = e['tensor'].fields['legs'].seq
    if c.branch(neg(disj([c.member(x, s), c.member(y, s)]))):
        raise_('ValueError')
    return ite(c.member(x, s), x, y)


def abond_(c):
    from s_link import abond
    return abond(c)


def shared(c, e):
    """positions of the legs of ta that are linked to tb"""
    A, B = e['ta'].fields['legs'].seq, e['tb'].fields['legs'].seq
    linked, other = linked_(c), other_(c)
    on = lambda q: conj([linked(A.at(q)), c.member(other(A.at(q)), B)])
    return c.filt(A, on)


def two(ka, kb):
    def f(c):
        ta, tb = pair(c, ka, kb)
        return dict(ta=ta, tb=tb)
    return f


TCLS = [('dense', (False, False, None)), ('diagonal', (False, True, None)), ('diagonal rank 0', (False, True, 0))]


@contract(CT + 'shareBonds', ['C01', 'C06', 'C08', 'C09'], [('%s x %s' % (a, b), two(x, y)) for a, x in TCLS for b, y in TCLS])
def shareBonds(c, e):
    """the links between the two tensors in the order of ta's legs, each turned to have ta's leg first"""
    ls = shared(c, e)
    A, B = e['ta'].fields['legs'].seq, e['tb'].fields['legs'].seq
    bondof = now(c, 'Leg', 'bond')
    bonds = smap(ls, lambda l: bondof(Z(l)))

    def turn(j, o):
        x, y = o.seq.at(0), o.seq.at(1)
        flip = conj([c.member(y, A), c.member(x, B), eqterm(bondof(Z(y)), Ref('Bond', Z(j)))])
        return ite(flip, Tup(CSeq([y, x])), o)
    hfun(c, 'Bond', 'legs', turn)
    return Lst(bonds)


LK = 'CTL.tensor.contract.link.'


def merge_case(like, name):
    def f(c):
        ta, tb = pair(c, (like, False, None), (like, False, None))
        n = None if name is None else (Str('nm') if name == 'str' else Tup(CSeq([Str('na'), Str('nb')])))
        if n is not None:
            for x in ([n] if name == 'str' else n.seq.items):
                c.assume(x != NONESTR)
        return dict(ta=ta, tb=tb, bondName=n, renameWarning=True)
    return f


def merge_applies(c, e):
    n = e['bondName']
    ok = n is None or is_str(n) or isinstance(n, Tup) and n.seq.n == 2
    return ok and all(istensor(e[k], False) and isinstance(e[k].fields['tensorLikeFlag'], bool) for k in ('ta', 'tb'))


@contract(LK + 'mergeLink', ['C06', 'C08', 'C10'], [('%s, %s' % (k, {None: 'no name', 'str': 'one name', 'tuple': 'two names'}[n]), merge_case(like, n)) for k, like in LIKES for n in (None, 'str', 'tuple')], applies=merge_applies, chunk=1, weight=9, timeout=300)
def mergeLink(c, e):
    """all links between the two become one link between the first legs, combined on both sides in the order of ta's legs"""
    ta, tb, nm = e['ta'], e['tb'], e['bondName']
    A = ta.fields['legs'].seq
    linked, other, owner = linked_(c), other_(c), now(c, 'Leg', 'tensor')
    on = lambda q: conj([linked(A.at(q)), eqterm(owner(Z(other(A.at(q)))), tb)])
    la = c.filt(A, on)
    out = Tup(CSeq([ta, tb]))
    if c.branch(simp(Z(la.n) == 0)):
        return out
    names = None if nm is None else ((nm, nm) if is_str(nm) else tuple(nm.seq.items))
    lb = smap(la, other)
    if c.branch(simp(Z(la.n) == 1)):
        if names:
            x, y = la.at(0), lb.at(0)
            c.hset('Leg', 'name', x.id, names[0])
            c.hset('Leg', 'name', y.id, names[1])
        return out
    if names is None:
        names = tuple(c.joined('|', names_of(c, l)) for l in (la, lb))
    x = outProduct(c, dict(self=ta, legList=Lst(la), newLabel=names[0]))
    y = outProduct(c, dict(self=tb, legList=Lst(lb), newLabel=names[1]))
    bond_init(c, dict(self=Ref('Bond', c.newid('Bond')), leg1=x, leg2=y, name=None))
    return out


# ------------------------------------------------------------------ contraction of two tensors
KIND2 = [(n, (like, g, r)) for n, like, g, r in ALLKINDS]


def kind_ok(t):
    return istensor(t) and isinstance(t.fields['tensorLikeFlag'], bool) and t.fields['diagonalFlag'] is (t.cls.name == 'DiagonalTensor')


def result(c, ls, a, dtype, like, diag=False, length=None):
    """a new tensor of these legs (which it owns then) and entries"""
    u = Obj(klass(c, DIAG if diag else TENSOR), c.newid('Tensor'), {})
    if isinstance(ls, CSeq):
        for l in ls.items:
            c.hset('Leg', 'tensor', l.id, u)
    else:
        hfun(c, 'Leg', 'tensor', lambda j, old: ite(c.member(Ref('Leg', j), ls), Ref('Tensor', Z(u.id)), old))
    u.fields.update(dtype=dtype, tensorLikeFlag=like, diagonalFlag=diag, degreeOfFreedom=None, name=None, legs=Lst(ls), a=None if like else a)
    if diag:
        u.fields['_length'] = length
    return u


F64 = DType('float64')


def all_index(n, idx, off=0):
    """the n indices from position off on are all equal"""
    if isinstance(n, int):
        return conj([eqterm(idx(simp(add(off, k))), idx(off)) for k in range(1, n)])
    return forall(n, lambda i: eqterm(idx(simp(add(off, i))), idx(off)))


def outer_product(c, ta, tb):
    """every entry is the product of the entries of both (dense forms); a scalar times a diagonal stays diagonal"""
    A, B = ta.fields['legs'].seq, tb.fields['legs'].seq
    a, b, like = ta.fields['a'], tb.fields['a'], ta.fields['tensorLikeFlag']
    da, db = ta.fields['diagonalFlag'], tb.fields['diagonalFlag']
    ls = cat(A, B)
    if da and db and (zero(ta.fields['legs']) or zero(tb.fields['legs'])):
        L = tb.fields['_length'] if zero(ta.fields['legs']) else ta.fields['_length']
        sh = CSeq([]) if zero(ta.fields['legs']) and zero(tb.fields['legs']) else CSeq([L])
        at = lambda x, f: x.elem(f) if x.shape.n else x.elem(lambda j: z3.IntVal(0))
        d = None if like else NDArr(sh, lambda f: npmodel.SOp('*', [at(a, f), at(b, f)]), npmodel.prom(a.dtype, b.dtype))
        return result(c, ls, d, F64, like, True, L)
    if like:
        return result(c, ls, None, F64, like)
    bd = dense(c, tb) if db else b
    if da:
        n, ad = A.n, a
        def elem(f):
            back = bd.elem(lambda j: f(simp(add(n, j))))
            p = npmodel.SOp('*', [ad.elem(lambda j: f(0)), back])
            return p if isinstance(n, int) and n == 0 else SIte(all_index(n, f), p, SNum(0))
    else:
        n = a.shape.n
        def elem(f):
            return npmodel.SOp('*', [a.elem(f), bd.elem(lambda j: f(simp(add(n, j))))])
    d = NDArr(cat(dims_of(c, A) if not (isinstance(A, CSeq) and not A.items) else CSeq([]), bd.shape), elem, npmodel.prom(a.dtype, bd.dtype))
    return result(c, ls, d, d.dtype, False)


def rest_of(c, s, x):
    return c.filt(s, lambda q: neg(c.member(s.at(q), x)))


def place(c, s, x, r, inner, outer):
    """index assignment of the axes s: legs in x take the inner index of their position in x, the others (r) the outer one"""
    def g(j):
        l = s.at(j)
        p, q = c.find(x, l, True), c.find(r, l, True)
        return ite(p[0], inner(simp(p[1])), outer(simp(q[1])))
    return g


def contracted(c, ta, tb, la, lb):
    """the sum over the indices of the linked legs of the product of the entries"""
    A, B = ta.fields['legs'].seq, tb.fields['legs'].seq
    a, b, like = ta.fields['a'], tb.fields['a'], ta.fields['tensorLikeFlag']
    da, db = ta.fields['diagonalFlag'], tb.fields['diagonalFlag']
    RA, RB = rest_of(c, A, la), rest_of(c, B, lb)
    ls = cat(RA, RB)
    SUM, MUL = npmodel.SSum, lambda *x: npmodel.SOp('*', list(x))
    if da and db:
        L = ta.fields['_length']
        k0 = lambda f: f(0)
        if c.branch(simp(Z(ls.n) == 0)):
            d = None if like else NDArr(CSeq([]), lambda f: SUM(CSeq([L]), lambda s: MUL(a.elem(s), b.elem(s))), npmodel.prom(a.dtype, b.dtype))
            return result(c, CSeq([]), d, F64, like, True, 1)
        d = None if like else NDArr(CSeq([L]), lambda f: MUL(a.elem(f), b.elem(f)), npmodel.prom(a.dtype, b.dtype))
        return result(c, ls, d, F64, like, True, L)
    if like:
        return result(c, ls, None, F64, like)
    dt = npmodel.prom(a.dtype, b.dtype)
    if da:
        # one index k for all legs of ta; those that remain come last
        L = ta.fields['_length']
        ls = cat(RB, RA)
        tb.fields['legs'], tb.fields['a'] = AnyValue(), AnyValue()
        if c.branch(simp(Z(RA.n) == 0)):
            d = NDArr(dims_of(c, RB), lambda f: SUM(CSeq([L]), lambda s: MUL(b.elem(place(c, B, lb, RB, lambda q: s(0), f)), a.elem(s))), dt)
            return result(c, RB, d, dt, False)
        nb = RB.n
        d = NDArr(dims_of(c, ls), lambda f: SIte(all_index(RA.n, f, nb), MUL(b.elem(place(c, B, lb, RB, lambda q: f(nb), f)), a.elem(lambda j: f(nb))), SNum(0)), dt)
        return result(c, ls, d, dt, False)
    na = RA.n
    d = NDArr(dims_of(c, ls), lambda f: SUM(dims_of(c, la), lambda s: MUL(a.elem(place(c, A, la, RA, s, f)), b.elem(place(c, B, lb, RB, s, lambda q: f(simp(add(na, q))))))), dt)
    return result(c, ls, d, dt, False)


def two_c(ka, kb):
    def f(c):
        ta, tb = pair(c, ka, kb)
        return dict(ta=ta, tb=tb, bonds=None, outProductWarning=True)
    return f


def joins(c, ta, tb, b):
    """the link b joins a leg of ta with one of tb"""
    A, B = ta.fields['legs'].seq, tb.fields['legs'].seq
    x, y = [now(c, 'Bond', 'legs')(Z(b)).seq.at(k) for k in (0, 1)]
    bond, dim = now(c, 'Leg', 'bond'), now(c, 'Leg', 'dim')
    return conj([disj([conj([c.member(x, A), c.member(y, B)]), conj([c.member(x, B), c.member(y, A)])]), eqterm(bond(Z(x)), b), eqterm(bond(Z(y)), b), eqterm(dim(Z(x)), dim(Z(y)))])


def two_b(ka, kb):
    """some of the links between the tensors, in any order"""
    def f(c):
        ta, tb = pair(c, ka, kb)
        n = length(c, 'bd')
        g = z3.Function('bd', z3.IntSort(), z3.IntSort())
        pos = z3.Function('bd.pos', z3.IntSort(), z3.IntSort())
        i = z3.Int('i?')
        fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(pos(g(i)) == i, 1 <= g(i), g(i) < c.frontier('Bond'), Z(joins(c, ta, tb, Ref('Bond', g(i)))))), patterns=[g(i)]))

        def find(x):
            p = pos(Z(x))
            return z3.And(0 <= p, p < n, g(p) == Z(x)), p
        return dict(ta=ta, tb=tb, bonds=Lst(FSeq(n, lambda k: Ref('Bond', simp_id(g(Z(k)))), find, 'bd')), outProductWarning=True)
    return f


def side(c, t):
    """the leg of a link that belongs to the tensor t"""
    s, legs_ = t.fields['legs'].seq, now(c, 'Bond', 'legs')

    def f(b):
        x, y = [legs_(Z(b)).seq.at(k) for k in (0, 1)]
        return ite(c.member(x, s), x, y)
    return f


def bonds_ok(c, e):
    b, ta, tb = e['bonds'], e['ta'], e['tb']
    if b is None:
        return True
    return isinstance(b, Lst) and (zero(b) or isinstance(b.seq.at(0 if isinstance(b.seq.n, int) else z3.Int('k?')), Ref)) and prove(c, conj([c.distinct(b.seq), forall(b.seq.n, lambda k: joins(c, ta, tb, b.seq.at(k))), neg(eqterm(ta.id, tb.id))]))


def sides(c, ta, tb, bonds):
    """legs of ta and of tb joined by the given links, in the order of the links"""
    if isinstance(bonds, CSeq):
        # decided path by path: which end of a link belongs to which tensor
        out = ([], [])
        for b in bonds.items:
            x, y = [now(c, 'Bond', 'legs')(Z(b)).seq.at(k) for k in (0, 1)]
            if not c.branch(c.member(x, ta.fields['legs'].seq)):
                x, y = y, x
            out[0].append(x)
            out[1].append(y)
        return CSeq(out[0]), CSeq(out[1])
    bond = now(c, 'Leg', 'bond')
    r = []
    for t, what in ((ta, 'first'), (tb, 'second')):
        s = t.fields['legs'].seq

        def pos(x, s=s):
            p, q = c.find(bonds, bond(Z(x)), True), c.find(s, x, True)
            return conj([q[0], p[0]]), p[1]
        r.append(located(c, smap(bonds, side(c, t)), pos, 'the legs of the %s tensor' % what))
    return r


GIVEN = [(a, b) for a in ('dense', 'diagonal') for b in ('dense', 'diagonal')] + [('data-free', 'data-free')]


@contract(CT + 'contractTwoTensors', ['C01', 'C08', 'C09', 'C10'], [('%s x %s' % (a, b), two_c(x, y)) for a, x in KIND2 for b, y in KIND2] + [('given links, %s x %s' % (a, b), two_b(dict(KIND2)[a], dict(KIND2)[b])) for a, b in GIVEN],
          applies=lambda c, e: kind_ok(e['ta']) and kind_ok(e['tb']) and bonds_ok(c, e), chunk=1, weight=8, timeout=300)
def contractTwoTensors(c, e):
    ta, tb, bonds = e['ta'], e['tb'], e['bonds']
    if not ta.fields['diagonalFlag'] and tb.fields['diagonalFlag']:
        ta, tb = tb, ta
    if bonds is None:
        la = shared(c, dict(ta=ta, tb=tb))
        other, linked = other_(c), linked_(c)
        shareBonds(c, dict(ta=ta, tb=tb))
    if ta.fields['tensorLikeFlag'] != tb.fields['tensorLikeFlag']:
        raise_('TypeError')
    if c.branch(simp(Z((la if bonds is None else bonds.seq).n) == 0)):
        return outer_product(c, ta, tb)
    A, B = ta.fields['legs'].seq, tb.fields['legs'].seq
    if bonds is not None:
        la, lb = sides(c, ta, tb, bonds.seq)
        return contracted(c, ta, tb, la, lb)

    def pos(x):
        y = other(x)
        p, q = c.find(la, y, True), c.find(B, x, True)
        return conj([q[0], linked(x), p[0]]), p[1]
    lb = located(c, smap(la, other), pos, 'the linked legs of the second tensor')
    return contracted(c, ta, tb, la, lb)


MM = [('%s @ %s' % (a, b), (lambda x, y: lambda c: (lambda p: dict(self=p[0], b=p[1]))(pair(c, x, y)))(x, y)) for a, x in KIND2 for b, y in KIND2 if x[0] == y[0]]


def mm_spec(c, e):
    return contractTwoTensors(c, dict(ta=e['self'], tb=e['b'], bonds=None))


contract(T + '__matmul__', ['C01'], [m for m in MM if 'diag' not in m[0].split(' @')[0]], applies=lambda c, e: kind_ok(e['self']) and kind_ok(e['b']))(mm_spec)
contract(D + '__matmul__', ['C01'], [m for m in MM if 'diag' in m[0].split(' @')[0]], applies=lambda c, e: kind_ok(e['self']) and kind_ok(e['b']))(mm_spec)


# ------------------------------------------------------------------ cost of a contraction
@contract(D + 'bondDimension', ['C11'], [(n, lambda c, k=k: dict(self=tensor(c, like=k[0], diag=True, rank=k[2]))) for n, k in KIND2 if k[1]], applies=isdiag)
def d_bondDimension(c, e):
    return e['self'].fields['_length']


def split_product(c, S, X, R):
    """product of the dimensions of S as the product over the distinct legs X out of S and over the other legs R"""
    if isinstance(X, CSeq) and not X.items:
        return 1, c.prod(dims_of(c, R))
    k = z3.Int(c.name('k'))
    c.oblige('lemma: the legs are different legs of the tensor', implies(z3.And(0 <= k, k < Z(X.n)), conj([c.member(X.at(k), S), simp(Z(c.find(X, X.at(k), True)[1]) == k)])), 'lemma')
    c.assumed.add('lemma: a finite product over distinct elements splits into the product over a sub-collection and over the rest')
    a, b, r = [c.prod(dims_of(c, x)) for x in (S, X, R)]
    c.know([simp(Z(a) == Z(b) * Z(r))], 'f')
    return b, r


def quotient(c, x, y):
    """(x * y) // x == y for x >= 1 (checked for all integers, then instantiated)"""
    u, v = z3.Ints('u? v?')
    c.oblige('lemma: quotient of a product', z3.Implies(u >= 1, (u * v) / u == v), 'lemma')
    c.know([z3.Implies(Z(x) >= 1, (Z(x) * Z(y)) / Z(x) == Z(y))], 'f')


def linked_parts(c, ta, tb):
    """(linked legs of ta, the legs of tb they are linked to, the others of both)"""
    A, B = ta.fields['legs'].seq, tb.fields['legs'].seq
    la = shared(c, dict(ta=ta, tb=tb))
    other, linked = other_(c), linked_(c)

    def pos(x):
        p, q = c.find(la, other(x), True), c.find(B, x, True)
        return conj([q[0], linked(x), p[0]]), p[1]
    lb = located(c, smap(la, other), pos, 'the linked legs of the second tensor')
    return la, lb, rest_of(c, A, la), rest_of(c, B, lb)


@contract(OPT + 'contractCost', ['C11'], [('%s x %s' % (a, b), (lambda x, y: lambda c: dict(zip(('ta', 'tb'), pair(c, x, y))))(x, y)) for a, x in KIND2 for b, y in KIND2], applies=lambda c, e: kind_ok(e['ta']) and kind_ok(e['tb']), chunk=6, weight=5)
def contractCost(c, e):
    """dense: combinations of the indices of all different legs; with one diagonal tensor: entries of the result; two diagonal tensors that stay diagonal: the length"""
    ta, tb = e['ta'], e['tb']
    da, db = ta.fields['diagonalFlag'], tb.fields['diagonalFlag']
    scalar = any(f and zero(t.fields['legs']) for f, t in ((da, ta), (db, tb)))
    la, lb, RA, RB = linked_parts(c, ta, tb)
    A, B = ta.fields['legs'].seq, tb.fields['legs'].seq
    n = la.n
    shareBonds(c, e)
    if da and db and (scalar or c.branch(simp(Z(n) > 0))):
        return Tup(CSeq([tb.fields['_length'] if zero(ta.fields['legs']) else ta.fields['_length'], 1]))
    xa, ra = split_product(c, A, la, RA)
    xb, rb = split_product(c, B, lb, RB)
    c.know([simp(Z(others(c, A, la).n) == Z(A.n) - Z(n)), simp(Z(others(c, B, lb).n) == Z(B.n) - Z(n))], 'f')
    if not da and not db:
        pa = c.prod(dims_of(c, A))
        quotient(c, xb, simp(Z(pa) * Z(rb)))
        return Tup(CSeq([simp(Z(pa) * Z(rb)), simp(Z(A.n) + Z(RB.n))]))
    quotient(c, simp(Z(xa) * Z(xb)), simp(Z(ra) * Z(rb)))
    return Tup(CSeq([simp(Z(ra) * Z(rb)), simp(Z(RA.n) + Z(RB.n))]))
