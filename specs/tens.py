"""symbolic tensors, legs and links for the preconditions"""
from lib import *
LEG = 'CTL.tensor.leg.Leg'
BOND = 'CTL.tensor.bond.Bond'
TENSOR = 'CTL.tensor.tensor.Tensor'
DIAG = 'CTL.tensor.diagonalTensor.DiagonalTensor'


def klass(c, qual):
    m, k = qual.rsplit('.', 1)
    return c.prog.lookup(c.prog.mod(m), k)


def classes(c):
    if 'Leg' not in c.cls_of:
        c.cls_of['Leg'] = klass(c, LEG)
        c.cls_of['Bond'] = klass(c, BOND)
        c.frontier('Leg')
        c.frontier('Bond')
        c.frontier('Tensor')


def fact(c, f):
    c.pc.append(('f', f))


def h0(c, cls, field):
    """field of the initial heap"""
    return c.hinit(cls, field)


class Legs(FSeq):
    pass


def legs(c, name, n=None, owner=None, mindim=1):
    """distinct legs; owner: id of the tensor they belong to"""
    classes(c)
    n = length(c, name) if n is None else n
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    pos = z3.Function(name + '.pos', z3.IntSort(), z3.IntSort())
    i = z3.Int('i?')
    body = [pos(f(i)) == i, f(i) >= 1, f(i) < c.frontier('Leg'), h0(c, 'Leg', 'dim')(f(i)) >= mindim, h0(c, 'Leg', 'name')(f(i)) != NONESTR]
    if owner is not None:
        body.append(Z(h0(c, 'Leg', 'tensor')(f(i))) == owner)
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(*body)), patterns=[f(i)]))

    def find(x):
        p = pos(Z(x))
        return z3.And(0 <= p, p < n, f(p) == Z(x)), p
    c.inverse[pos.name()] = (f, n, pos)
    s = Legs(n, lambda i: Ref('Leg', simp_id(f(Z(i)))), find, name)
    s.f, s.pos = f, pos
    return s


def leg(c, name):
    classes(c)
    i = z3.Int(name)
    fact(c, z3.And(1 <= i, i < c.frontier('Leg'), h0(c, 'Leg', 'name')(i) != NONESTR, h0(c, 'Leg', 'dim')(i) >= 1))
    return Ref('Leg', i)


def links(c, f=None):
    """every link of an existing leg is symmetric: both its legs exist and refer to it, the legs differ and have one dimension"""
    classes(c)
    i = z3.Int('i?')
    bond, bl = h0(c, 'Leg', 'bond'), h0(c, 'Bond', 'legs')
    dim = h0(c, 'Leg', 'dim')
    b = Z(bond(i))
    x, y = [Z(bl(b).seq.at(k)) for k in (0, 1)]
    F = c.frontier('Leg')
    fact(c, z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < F, b != 0), z3.And(1 <= b, b < c.frontier('Bond'), z3.Or(x == i, y == i), x != y, 1 <= x, x < F, 1 <= y, y < F,
         Z(bond(x)) == b, Z(bond(y)) == b, dim(x) == dim(y))), patterns=[b]))


def sub_legs(c, T, name, n=None):
    """distinct legs of the tensor T in any order"""
    S = T.fields['legs'].seq
    m = length(c, name) if n is None else n
    g = z3.Function(name + '.at', z3.IntSort(), z3.IntSort())
    q = z3.Function(name + '.pos', z3.IntSort(), z3.IntSort())
    i = z3.Int('i?')
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(q(g(i)) == i, 0 <= g(i), g(i) < Z(S.n))), patterns=[g(i)]))
    if n is None:
        c.assume(m <= Z(S.n))

    def find(x):
        p = S.pos(Z(x))
        r = q(p)
        return z3.And(0 <= p, p < Z(S.n), S.f(p) == Z(x), 0 <= r, r < m, g(r) == p), r
    s = Legs(m, lambda i: Ref('Leg', simp_id(S.f(g(Z(i))))), find, name)
    s.g, s.q = g, q
    return s


def tensor(c, name='t', like=False, diag=False, rank=None):
    """any tensor satisfying the invariants: distinct legs of its own, data of the shape of the legs"""
    classes(c)
    cls = klass(c, DIAG if diag else TENSOR)
    tid = z3.Int(name + '.id')
    fact(c, z3.And(1 <= tid, tid < c.frontier('Tensor')))
    ls = legs(c, name + '.leg', rank, tid)
    dim = h0(c, 'Leg', 'dim')
    F = dict(legs=Lst(ls), dtype=DType(name + '.dtype'), tensorLikeFlag=like, diagonalFlag=diag, degreeOfFreedom=z3.Real(name + '.dof'), name=z3.String(name + '.name'))
    n = ls.n
    if diag:
        L = z3.Int(name + '.L')
        fact(c, L >= 1)
        F['_length'] = L
        i = z3.Int('i?')
        fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), dim(ls.f(i)) == L), patterns=[ls.f(i)]))
        if like:
            F['a'] = None
        else:
            # rank 0: an array without axes
            sh = CSeq([] if rank == 0 else [L])
            F['a'] = npmodel.fresh_array(c, name + '.a', sh, DType(name + '.adtype'))
        c.assume(L == 1 if rank == 0 else simp(Z(n) >= 1))
    elif like:
        F['a'] = None
    else:
        F['a'] = npmodel.fresh_array(c, name + '.a', FSeq(n, lambda i: dim(ls.f(Z(i))), None, name + '.shape') if not isinstance(n, int) else CSeq([dim(ls.f(i)) for i in range(n)]), DType(name + '.adtype'))
    return Obj(cls, tid, F)


def now(c, cls, field):
    """field of the present heap (not of the heap at the time of the call)"""
    c.hget(cls, field, 0)
    f = c.heap[(cls, field)]
    return lambda i: hval(f(Z(i)))


def dims_of(c, seq):
    f = now(c, 'Leg', 'dim')
    return smap(seq, lambda l: f(Z(l)))


def names_of(c, seq):
    f = now(c, 'Leg', 'name')
    return smap(seq, lambda l: f(Z(l)))


def istensor(v, diag=None, like=None):
    return isinstance(v, Obj) and v.cls.name in ('Tensor', 'DiagonalTensor') and (diag is None or v.fields['diagonalFlag'] is diag) and (like is None or v.fields['tensorLikeFlag'] is like)


def prove(c, f):
    f = simp(f)
    return f is True or (f is not False and c.valid(f))


def located(c, seq, find, what):
    """the sequence with its positions given by find (obligation: find is right)"""
    if isinstance(seq, CSeq) and not seq.items:
        return seq
    k = z3.Int(c.name('k'))
    f = find(seq.at(k))
    c.oblige('positions of ' + what, implies(z3.And(0 <= k, k < Z(seq.n)), conj([f[0], simp(Z(f[1]) == k)])), 'lemma')
    x = Ref(seq.at(k).cls, z3.Int(c.name('x')))
    f = find(x)
    c.oblige('elements of ' + what, implies(f[0], conj([simp(z3.And(0 <= Z(f[1]), Z(f[1]) < Z(seq.n))), eqterm(seq.at(f[1]), x)])), 'lemma')
    r = smap(seq, lambda l: l, find)
    # membership in sequences with the same elements element by element (their positions are known by an inverse function only)
    j, y = z3.Int('j?'), z3.Int('y?')
    for u, sorts, fact, (n, ls) in list(c.invs.values()):
        if len(ls) == 1 and sorts[0] == z3.IntSort() and (Z(n).eq(Z(seq.n)) or c.valid(Z(n) == Z(seq.n), 1000)) and c.check([0 <= j, j < Z(n), ls[0] != Z(seq.at(j))], 2500) == z3.unsat:
            try:
                uy = u(y)
            except z3.Z3Exception:
                continue
            g = find(Ref(seq.at(k).cls, y))
            inside_ = z3.And(0 <= uy, uy < Z(n), z3.substitute(ls[0], (j, uy)) == y)
            fact_ = z3.ForAll([y], inside_ == Z(g[0]), patterns=[uy])
            c.know([fact, fact_], 'f')
    c.filtseqs.append((r, dict(deps=[], facts=[])))
    return r
