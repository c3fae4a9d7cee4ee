"""contracts of Tensor: views of the legs and reordering (C03)"""
from tens import *
from s_link import hfun
T = TENSOR + '.'


def setup(like=None, diag=False, rank=None, **kw):
    def f(c):
        d = dict(self=tensor(c, 't', like=bool(like), diag=diag, rank=rank))
        for k, v in kw.items():
            d[k] = v(c, d['self']) if callable(v) else v
        return d
    return f


def strseq(v):
    return isinstance(v, (Lst, Tup)) and (zero(v) or is_str(v.seq.at(0 if isinstance(v.seq.n, int) else z3.Int('k?'))))


def legseq(v):
    return isinstance(v, (Lst, Tup)) and (zero(v) or isinstance(v.seq.at(0 if isinstance(v.seq.n, int) else z3.Int('k?')), Ref))


def zero(v):
    return isinstance(v.seq.n, int) and v.seq.n == 0


def S(e):
    return e['self'].fields['legs'].seq


@contract(T + 'labels', ['C03', 'C04'], [('any', setup())])
def labels(c, e):
    return Lst(names_of(c, S(e)))


@contract(T + 'shape', ['C03', 'C04', 'C10'], [('dense', setup()), ('data-free', setup(True))], applies=lambda c, e: istensor(e['self'], False) and isinstance(e['self'].fields['tensorLikeFlag'], bool))
def shape(c, e):
    a = e['self'].fields['a']
    return Tup(dims_of(c, S(e)) if a is None else a.shape)


@contract(T + 'indexOfLeg', ['C03'], [('leg of the tensor', lambda c: (lambda t: dict(self=t, leg=t.fields['legs'].seq.at(rng(c, 'k', t.fields['legs'].seq.n))))(tensor(c))),
                                      ('any leg', setup(leg=lambda c, t: leg(c, 'l'))), ('any leg, diagonal', setup(leg=lambda c, t: leg(c, 'l'), diag=True)), ('any leg, diagonal rank 0', setup(leg=lambda c, t: leg(c, 'l'), diag=True, rank=0))])
def indexOfLeg(c, e):
    if c.branch(neg(c.member(e['leg'], S(e)))):
        raise_('ValueError')
    return simp(c.find(S(e), e['leg'], True)[1])


def rng(c, name, n):
    k = z3.Int(name)
    c.assume(z3.And(0 <= k, k < Z(n)))
    return k


CLASSES = [('', False, None), ('diagonal, ', True, None), ('diagonal rank 0, ', True, 0)]


@contract(T + 'getLegIndices', ['C03'], [(k + 'legs of the tensor', setup(legs=lambda c, t: Lst(sub_legs(c, t, 'ls')), diag=g, rank=r)) for k, g, r in CLASSES], applies=lambda c, e: legseq(e['legs']) and prove(c, forall(e['legs'].seq.n, lambda k: c.member(e['legs'].seq.at(k), S(e)))))
def getLegIndices(c, e):
    s, ls = S(e), e['legs'].seq

    def find(j):
        f = c.find(ls, s.at(j), True)
        return conj([simp(z3.And(0 <= Z(j), Z(j) < Z(s.n))), f[0]]), f[1]
    return Lst(smap(ls, lambda l: simp(c.find(s, l, True)[1]), find if c.find(s, s.at(0), True) and prove(c, c.distinct(s)) else None))


def inside(c, ls, s):
    """distinct legs out of s"""
    return prove(c, conj([c.distinct(ls), forall(ls.n, lambda k: c.member(ls.at(k), s))]))


def others(c, s, x):
    """the legs of s that are not in x (distinct legs of s)"""
    r = c.filt(s, lambda q: neg(c.member(s.at(q), x)))
    c.assumed.add('lemma: m distinct elements of a list of n distinct ones leave n - m others')
    c.know([simp(Z(r.n) == Z(s.n) - Z(x.n))], 'f')
    return r


def moved(c, s, front):
    return cat(front, others(c, s, front))


def reordered(c, a, s, t):
    """the array a with axes s[j] rearranged to the order t of the same legs: every entry keeps its assignment of indices to legs"""
    return NDArr(smap(t, lambda l: a.shape.at(c.find(s, l, True)[1])), lambda idx: a.elem(lambda j: idx(simp(c.find(t, s.at(j), True)[1]))), a.dtype)


@contract(T + 'moveLegsToFront', ['C03', 'C10'], [(k, setup(like, legs=lambda c, t: Lst(sub_legs(c, t, 'ls')))) for k, like in (('dense', False), ('data-free', True))],
          applies=lambda c, e: istensor(e['self'], False) and legseq(e['legs']) and inside(c, e['legs'].seq, S(e)))
def moveLegsToFront(c, e):
    t, s = e['self'], S(e)
    new = moved(c, s, e['legs'].seq)
    a = t.fields['a']
    t.fields['legs'] = Lst(new)
    if a is not None:
        t.fields['a'] = npmodel.view(reordered(c, a, s, new), a)


@contract(T + 'complementLegs', ['C03', 'C01'], [(k + 'legs of the tensor', setup(legs=lambda c, t: Lst(sub_legs(c, t, 'ls')), diag=g, rank=r)) for k, g, r in CLASSES], applies=lambda c, e: legseq(e['legs']) and inside(c, e['legs'].seq, S(e)))
def complementLegs(c, e):
    return Lst(others(c, S(e), e['legs'].seq))
