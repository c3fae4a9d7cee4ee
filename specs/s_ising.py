"""contracts of the Ising tensors (C17)"""
from s_build import *
import itertools
M = 'CTL.models.Ising.'
R = z3.RealSort()


def rf(c, name, x):
    return npmodel.rfun(c, name, x)


def lift(x):
    return z3.ToReal(x) if isz(x) and x.sort() == z3.IntSort() else (z3.RealVal(x) if isinstance(x, (int, float)) else x)


def cells(c, value):
    """array of shape (2, 2, 2, 2) with the given value at every corner configuration"""
    tab = [(ix, value(ix)) for ix in itertools.product((0, 1), repeat=4)]

    def elem(f):
        r = SNum(tab[-1][1])
        for ix, v in tab[-2::-1]:
            r = SIte(conj([eqterm(f(k), ix[k]) for k in range(4)]), SNum(v), r)
        return r
    return NDArr(CSeq([2, 2, 2, 2]), elem, DType('float64'))


def new_tensor(c, data, labels, **kw):
    u = Obj(klass(c, TENSOR), c.newid('Tensor'), {})
    d = dict(self=u, shape=None, labels=labels, data=data, degreeOfFreedom=None, name=None, legs=None, diagonalFlag=False, tensorLikeFlag=False, dtype=DType('float64'))
    d.update(kw)
    tensor_init(c, d)
    return u


def energy(ix):
    """neighbouring corners alike: -1, different: +1"""
    return sum(-1 if ix[i] == ix[(i + 1) % 4] else 1 for i in range(4))


def measure(ix, obs):
    if obs is None:
        return 1
    if obs == 'M':
        return z3.Q(sum(1 if x else -1 for x in ix), 2)
    return energy(ix)


OBS = [('no observable', None), ('magnetisation', 'M'), ('energy', 'E')]


def corner(c, given):
    if given is None or isinstance(given, str):
        return given
    return None


@contract(M + 'squareTensorMeasure', ['C17'], [('%s at %s' % (n, ix), lambda c, ix=ix, o=o: dict(idx=Tup(CSeq(list(ix))), obs=o)) for ix in itertools.product((0, 1), repeat=4) for n, o in OBS] +
          [('unknown observable', lambda c: (c.assume(z3.And(Str('obs') != 'M', Str('obs') != 'E', Str('obs') != NONESTR)), dict(idx=Tup(CSeq([0, 0, 0, 0])), obs=Str('obs')))[1])], applies=lambda c, e: False)
def squareTensorMeasure(c, e):
    if isz(e['obs']):
        raise_('AssertionError')
    r = measure(e['idx'].seq.items, e['obs'])
    return z3.RealVal(r) if isinstance(r, int) else r


@contract(M + 'squareIsingTensor', ['C17'], [(n, lambda c, o=o: (classes(c), dict(beta=Real('beta'), obs=o, symmetryBroken=Real('field')))[1]) for n, o in OBS], applies=lambda c, e: False)
def squareIsingTensor(c, e):
    """measurement times Boltzmann weight of the four edges times the weight of the field, at every configuration of the corners u, l, d, r"""
    b, h = e['beta'], e['symmetryBroken']
    val = lambda ix: lift(measure(ix, e['obs'])) * rf(c, 'exp', -b * energy(ix)) * rf(c, 'exp', h * measure(ix, 'M'))
    return new_tensor(c, cells(c, val), Lst(CSeq(['u', 'l', 'd', 'r'])), degreeOfFreedom=2)


def plaq(weights, diamond):
    def f(c):
        classes(c)
        w = Real('w') if weights == 1 else Tup(CSeq([Real('w%d' % i) for i in range(weights)])) if weights else Tup(CSeq([]))
        return dict(weight=w, diamondForm=diamond)
    return f


@contract(M + 'plaquetteIsingTensor', ['C17'], [('%s weights%s' % (k, ', diamond' if d else ''), plaq(k, d)) for k in (1, 2, 3) for d in (False, True)], applies=lambda c, e: False)
def plaquetteIsingTensor(c, e):
    """Boltzmann weight of the four edges; edges right and left carry the first (vertical) weight, top and bottom the second"""
    w = e['weight']
    if isinstance(w, Tup):
        if w.seq.n != 2:
            raise_('AssertionError')
        wv, wh = w.seq.items
    else:
        wv = wh = w
    # corners in the order right-up, right-down, left-down, left-up
    edge = [(0, 1, wv), (1, 2, wh), (2, 3, wv), (3, 0, wh)]
    val = lambda ix: rf(c, 'exp', sum([(x if ix[i] == ix[j] else -x) for i, j, x in edge], z3.RealVal(0)))
    return new_tensor(c, cells(c, val), Lst(CSeq(['r', 'd', 'l', 'u'] if e['diamondForm'] else ['ru', 'rd', 'ld', 'lu'])), degreeOfFreedom=2)


def edge_entries(c, b):
    """entries of the symmetric square root of the Boltzmann matrix of one edge"""
    ch, sh = rf(c, 'sqrt', rf(c, 'cosh', b) / 2), rf(c, 'sqrt', rf(c, 'sinh', b) / 2)
    return ch + sh, ch - sh


def edge_matrix(c, b):
    d, o = edge_entries(c, b)
    return NDArr(CSeq([2, 2]), lambda f: SIte(eqterm(f(0), f(1)), SNum(d), SNum(o)), DType('float64'))


@contract(M + 'IsingEdgeMatrix', ['C17'], [('coupling of sign 0 or +', lambda c: (c.assume(Real('betaJ') >= 0), dict(betaJ=Real('betaJ')))[1])], applies=lambda c, e: is_real(e['betaJ']) and prove(c, e['betaJ'] >= 0), fresh=True)
def IsingEdgeMatrix(c, e):
    """a symmetric matrix whose square holds exp(betaJ) on the diagonal and exp(-betaJ) beside it"""
    b = e['betaJ']
    if c.target == M + 'IsingEdgeMatrix':
        C, H, E, F = rf(c, 'cosh', b), rf(c, 'sinh', b), rf(c, 'exp', b), rf(c, 'exp', -b)
        x, y = rf(c, 'sqrt', C / 2), rf(c, 'sqrt', H / 2)
        d, o = edge_entries(c, b)
        c.assumed.add('numpy: cosh + sinh = exp, cosh - sinh = exp of the negative, sinh >= 0 for arguments >= 0, sqrt(x) ** 2 = x for x >= 0')
        hyp = z3.And(C + H == E, C - H == F, x * x == C / 2, y * y == H / 2)
        c.oblige('square of the matrix: diagonal entry', z3.Implies(hyp, d * d + o * o == E), 'lemma')
        c.oblige('square of the matrix: other entry', z3.Implies(hyp, 2 * d * o == F), 'lemma')
    return edge_matrix(c, b)


def site(dim, many, labels, off=0):
    def f(c):
        classes(c)
        b = [Real('b%d' % i) for i in range(dim + off if many else 1)]
        for x in b:
            c.assume(x >= 0)
        return dict(betaJ=Lst(CSeq(b)) if many else b[0], dim=dim, labels=None if labels is None else Lst(CSeq([Str('lab%d' % i) for i in range(dim + labels)])))
    return f


SITES = [('%d edges, %s%s' % (d, 'couplings' if m else 'one coupling', '' if l is None else ', labels'), site(d, m, l)) for d in (0, 1, 2, 3, 4) for m in (False, True) for l in (None, 0)] + \
        [('wrong number of couplings', site(3, True, None, -1)), ('wrong number of labels', site(3, False, 1))]


@contract(M + 'IsingSiteTensor', ['C17'], SITES, applies=lambda c, e: False)
def IsingSiteTensor(c, e):
    """sum over the two states of the site of the product of the edge matrices (sites of at most 4 edges; 2 for an isolated site)"""
    b, n, ls = e['betaJ'], e['dim'], e['labels']
    if isinstance(b, Lst) and b.seq.n != n or ls is not None and ls.seq.n != n:
        raise_('AssertionError')
    c.assumed.add('IsingSiteTensor is verified for sites of 0 to 4 edges (any couplings >= 0); larger degrees are covered by the bounded contracts only')
    b = b.seq.items if isinstance(b, Lst) else [b] * n
    if n == 0:
        data = NDArr(CSeq([]), lambda f: SNum(2), DType('float64'))
    else:
        ent = [edge_entries(c, x) for x in b]
        tab = {}
        for ix in itertools.product((0, 1), repeat=n):
            v = z3.RealVal(0)
            for s in (0, 1):
                p = z3.RealVal(1)
                for k in range(n):
                    p = p * ent[k][0 if ix[k] == s else 1]
                v = v + p
            tab[ix] = v

        def elem(f):
            ks = sorted(tab)
            r = SNum(tab[ks[-1]])
            for ix in ks[-2::-1]:
                r = SIte(conj([eqterm(f(k), ix[k]) for k in range(n)]), SNum(tab[ix]), r)
            return r
        data = NDArr(CSeq([2] * n), elem, DType('float64'))
    return new_tensor(c, data, ls)
