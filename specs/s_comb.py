"""contracts of the index and combinatorics helpers (C18)"""
from tens import *
from s_funcs import seqarg, isprov, distinct_args
import interp
F = 'CTL.funcs.funcs.'
I, S, R = z3.IntSort(), z3.StringSort(), z3.RealSort()


def bag(c, count, sort):
    b = interp.Bag(c, count)
    b.sort = sort
    return b


@contract(F + 'commonElements', ['C18'], [('integers', lambda c: dict(x=Lst(ints(c, 'x')), y=Lst(ints(c, 'y'))))], applies=lambda c, e: seqarg(e['x']) and seqarg(e['y']))
def commonElements(c, e):
    """every element as often as it is in both"""
    x, y = e['x'].seq, e['y'].seq
    return Lst(bag(c, lambda v: interp.zmin(c.count(x, v), c.count(y, v)), I))


@contract(F + 'listSymmetricDifference', ['C18'], [('integers', lambda c: dict(x=Lst(ints(c, 'x')), y=Lst(ints(c, 'y'))))], applies=lambda c, e: seqarg(e['x']) and seqarg(e['y']))
def listSymmetricDifference(c, e):
    """every element of exactly one of the lists, once"""
    x, y = e['x'].seq, e['y'].seq
    return Lst(bag(c, lambda v: simp(z3.If(z3.Xor(Z(c.member(v, x)), Z(c.member(v, y))), 1, 0)), I))


def idxdict(c):
    n = length(c, 'shape')
    sh = ints(c, 'shape', n)
    i = z3.Int('i?')
    fact(c, z3.ForAll([i], sh.at(i) >= 1, patterns=[sh.at(i)]))
    lab = dset(c, 'labels', sort=S)
    fact(c, Z(lab.n) >= n)
    return dict(idx=Int('idx'), labels=Lst(lab), shape=Tup(sh))


@contract(F + 'getIndexDict', ['C18'], [('any', idxdict)], applies=lambda c, e: False)
def getIndexDict(c, e):
    """digit of every label, the last label being the least significant one"""
    sh, lab = e['shape'].seq, e['labels'].seq
    n = Z(sh.n)
    q = c.recur(e['idx'], lambda p, j: p / Z(sh.at(simp(n - 1 - Z(j)))))

    def get(x):
        f = c.find(lab, x, True)
        i = Z(f[1])
        return conj([f[0], simp(i < n)]), simp(q(n - 1 - i) % Z(sh.at(i)))
    return DictV(FMap(get))


BINOM = z3.Function('binomial', I, I, I)


@contract(F + 'myComb', ['C18', 'C20'], [('integers', lambda c: dict(n=Int('n'), p=Int('p')))], applies=lambda c, e: is_int(e['n']) and is_int(e['p']))
def myComb(c, e):
    """n (n-1) ... (n-p+1) divided by 1, 2, ... p one after the other: the binomial coefficient"""
    n, p = Z(e['n']), Z(e['p'])
    if c.target == F + 'myComb':
        ln = simp(z3.If(p < 0, 0, p))
        x = c.prod(FSeq(ln, lambda i: simp(n - Z(i))))
        r = c.recur(x, lambda q, j: q / (Z(j) + 1))(ln)
        c.know([BINOM(n, p) == r], 'f')
    c.assumed.add('lemma (Lean, specs/lemmas.lean): the falling factorial n(n-1)...(n-p+1) divided by 1, 2, ..., p one after the other is the binomial coefficient')
    return BINOM(n, p)


@contract(F + 'calculateDivisionTimes', ['C18', 'C20'], [('integers', lambda c: dict(division=Lst(ints(c, 'd'))))], applies=lambda c, e: seqarg(e['division']))
def calculateDivisionTimes(c, e):
    """product of binom(what is left, part)"""
    d = e['division'].seq
    tot = Z(c.sumseq(d))
    return c.prod(FSeq(d.n, lambda i: BINOM(simp(tot + Z(c.sumseq(FSeq(i, lambda j: -Z(d.at(j)))))), Z(d.at(i)))))


@contract(F + 'getValidValues', ['C18'], [('reals', lambda c: dict(values=Lst(reals(c, 'v')), threshold=Real('t')))], applies=lambda c, e: False)
def getValidValues(c, e):
    """positions and values below the threshold, in order"""
    v, t = e['values'].seq, e['threshold']
    ok = lambda k: simp(z3.And(v.at(k) < t, -v.at(k) < t))
    return Tup(CSeq([Lst(c.filt(FSeq(v.n, lambda i: Z(i)), ok)), Lst(c.filt(v, ok))]))


class Bracket:
    """the threshold lies between l and r, mid is their middle"""
    real = ('l', 'r', 'mid')

    def formula(self, c, env):
        l, r, m = [z3.ToReal(Z(env[k])) if is_int(env[k]) else Z(env[k]) for k in ('l', 'r', 'mid')]
        t = z3.Real('T')
        return simp(z3.And(l <= t, t <= r, m + m == l + r))


def bis(incl):
    def f(c):
        t, lo, hi = Real('T'), Real('left'), Real('right')
        c.assume(z3.And(lo <= t, t <= hi))
        return dict(left=lo, right=hi, largeEnough=(lambda ip, x: simp(Z(x) >= t)) if incl else (lambda ip, x: simp(Z(x) > t)), eps=Real('eps'))
    return f


@contract(F + 'binarySearch', ['C18'], [('threshold included', bis(True)), ('threshold excluded', bis(False))], inv={0: Bracket()}, applies=lambda c, e: False)
def binarySearch(c, e):
    """a point at most eps / 2 from the threshold (if the call returns); refused for an empty interval"""
    if not c.branch(simp(e['left'] < e['right'])):
        raise_('AssertionError')
    t = z3.Real('T')
    return c.choose('within half the tolerance', R, lambda r: z3.And(2 * (r - t) <= e['eps'], 2 * (t - r) <= e['eps']))


@contract(F + 'getCutoff', ['C18'], [('reals', lambda c: dict(s=Lst(reals(c, 's')), threshold=Real('t')))], applies=lambda c, e: seqarg(e['s']))
def getCutoff(c, e):
    """position of the first entry below the threshold, the length if there is none"""
    s, t = e['s'].seq, e['threshold']
    low = lambda k: simp(s.at(k) < t)
    return c.choose('first below', I, lambda r: conj([simp(z3.And(0 <= r, r <= Z(s.n))), forall(r, lambda k: neg(low(k))), implies(simp(r < Z(s.n)), low(r))]))


@contract(F + 'oppositeSingleDirection', ['C18'], [('any', lambda c: dict(x=name_(c, 'x')))], applies=lambda c, e: is_str(e['x']))
def oppositeSingleDirection(c, e):
    x = e['x']
    for a, b in ('lr', 'rl', 'ud', 'du'):
        if c.branch(eqterm(x, a)):
            return b
    raise_('AssertionError')


def name_(c, nm):
    x = z3.String(nm)
    c.assume(x != NONESTR)
    return x


@contract(F + 'assertInSet', ['C18'], [('any', lambda c: dict(x=Int('x'), xSet=Lst(ints(c, 's')), name='name'))], applies=lambda c, e: isinstance(e['xSet'], (Lst, Tup)))
def assertInSet(c, e):
    if not c.branch(c.member(e['x'], e['xSet'].seq)):
        raise_('AssertionError')


def samedict(c, ks, v):
    def get(x):
        return c.member(x, ks), v
    d = DictV(FMap(get))
    return d


@contract(F + 'mapToDict', ['C18'], [('different keys', lambda c: dict(dictShape=Lst(dset(c, 'keys', sort=S)), x=Int('x')))], applies=lambda c, e: False)
def mapToDict(c, e):
    return samedict(c, e['dictShape'].seq, e['x'])


@contract(F + 'identicalTensorDict', ['C18'], [('different names', lambda c: dict(tensor=Int('x'), names=Lst(dset(c, 'keys', sort=S))))], applies=lambda c, e: False)
def identicalTensorDict(c, e):
    return samedict(c, e['names'].seq, e['tensor'])


@contract(F + 'floatEqual', ['C18'], [('reals', lambda c: dict(a=Real('a'), b=Real('b'), eps=Real('eps')))], applies=lambda c, e: all(is_real(e[k]) for k in ('a', 'b', 'eps')))
def floatEqual(c, e):
    d = e['a'] - e['b']
    return simp(z3.And(d < e['eps'], -d < e['eps']))


@contract(F + 'floatRelativeEqual', ['C18'], [('reals', lambda c: dict(a=Real('a'), b=Real('b'), eps=Real('eps')))], applies=lambda c, e: all(is_real(e[k]) for k in ('a', 'b', 'eps')))
def floatRelativeEqual(c, e):
    d = e['a'] - e['b']
    m = e['eps'] * (e['a'] + e['b']) / 2
    return simp(z3.And(d < m, -d < m))


@contract(F + 'combineName', ['C18', 'C06'], [('given', lambda c: dict(namesList=Lst(strs(c, 'ns')), givenName=name_(c, 'g'))), ('joined', lambda c: dict(namesList=Lst(strs(c, 'ns')), givenName=None)), ('any', lambda c: dict(namesList=Lst(strs(c, 'ns')), givenName=z3.String('g')))], applies=lambda c, e: seqarg(e['namesList']) and (e['givenName'] is None or is_str(e['givenName'])))
def combineName(c, e):
    g = e['givenName']
    if g is None or (isz(g) and c.branch(simp(g == NONESTR))):
        return interp.joinstr(c.interp, '|', e['namesList'].seq)
    return g


@contract(F + 'isRealNumber', ['C18'], [('int', lambda c: dict(a=Int('a'))), ('float', lambda c: dict(a=Real('a'))), ('string', lambda c: dict(a=name_(c, 'a'))), ('list', lambda c: dict(a=Lst(ints(c, 'a'))))], applies=lambda c, e: False)
def isRealNumber(c, e):
    return is_int(e['a']) or is_real(e['a'])


@contract(F + 'spinChainProductSum', ['C18', 'C17'], [('integers', lambda c: dict(spins=Lst(ints(c, 's'))))], applies=lambda c, e: False)
def spinChainProductSum(c, e):
    """sum of products of neighbours on a ring"""
    s = e['spins'].seq
    n = Z(s.n)
    return c.sumseq(FSeq(n, lambda i: z3.ToReal(simp(s.at(i) * s.at(z3.If(Z(i) == n - 1, 0, Z(i) + 1))))))


I0 = z3.Int('i?')


def ints_(c):
    return FSeq(z3.Int('n_x'), lambda i: z3.Function('x', I, I)(Z(i)), None, 'x')


@contract(F + 'indexTupleToStr', ['C18'], [('any', lambda c: (fact(c, z3.ForAll([I0], ints_(c).at(I0) >= 0, patterns=[ints_(c).at(I0)])), dict(idx=Tup(ints_(c))))[1]), ('list', lambda c: dict(idx=Lst(ints(c, 'x'))))], applies=lambda c, e: False)
def indexTupleToStr(c, e):
    """one letter per index; refused for indices of 26 and more and for other kinds"""
    if not isinstance(e['idx'], Tup):
        raise_('ValueError')
    s = e['idx'].seq
    if c.branch(neg(forall(s.n, lambda k: simp(Z(s.at(k)) < 26)))):
        raise_('ValueError')
    al = 'abcdefghijklmnopqrstuvwxyz'
    return interp.joinstr(c.interp, '', FSeq(s.n, lambda k: loops.LetterOf(al, s.at(k))))


# ------------------------------------------------------------------ generators: how often an arbitrary element is yielded
class Suffix(Seq):
    """the elements lo, lo + 1, ..., m - 1 of an arbitrary integer sequence, with their sum"""
    def __init__(self, name, lo, m):
        self.name, self.lo, self.m = name, lo, m
        self.n = simp(Z(m) - Z(lo))
        self.f = z3.Function(name, I, I)
        self.total = z3.Function(name + '.sum from', I, I)(Z(lo))

    def at(self, i):
        return self.f(simp(Z(self.lo) + Z(i)))

    def find(self, x):
        raise Unsupported('position in an arbitrary sequence')

    def drop(self, p):
        return Suffix(self.name, simp(Z(self.lo) + p), self.m)


def target(c, env):
    m = length(c, 'T')
    t = Suffix('T', 0, m)
    S_ = z3.Function('T.sum from', I, I)
    i, j = z3.Ints('i? j?')
    c.assumed.add('lemma: a finite sum of numbers >= 0 is >= 0 (induction over the defining recursion; the step is an obligation)')
    fact(c, z3.And(S_(m) == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), S_(i) == t.f(i) + S_(i + 1)), patterns=[S_(i)]),
                   z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= m, z3.ForAll([j], z3.Implies(z3.And(i <= j, j < m), t.f(j) >= 0))), S_(i) >= 0), patterns=[S_(i)])))
    a, b, s, s1 = z3.Ints('t_i all_rest sum_i sum_rest')
    c.oblige('a sum of numbers >= 0 is >= 0: step', z3.Implies(z3.And(s == a + s1, a >= 0, s1 >= 0), s >= 0), 'lemma')
    return Lst(t)


def parts_count(n, k):
    def count(t):
        j = z3.Int('j?')
        return simp(z3.If(z3.And(Z(t.n) == Z(k), z3.ForAll([j], z3.Implies(z3.And(Z(t.lo) <= j, j < Z(t.m)), t.f(j) >= 0), patterns=[t.f(j)]), t.total == Z(n)), 1, 0))
    return count


def parts_pre(c, e):
    return z3.And(Z(e['n']) >= 0, Z(e['k']) >= 1)


class Parts(interp.Bag):
    """collection of integer lists"""
    def element(self, c):
        nm = c.name('part')
        self.names = {nm, 'n_' + nm}
        return Lst(ints(c, nm))

    def split(self, v, x, T):
        """v == T  <=>  the condition and x == the part of T that is left"""
        ps = flat(v.seq) if isinstance(v, Lst) else []
        if not ps or ps[-1] is not x.seq or not all(isinstance(p, CSeq) for p in ps[:-1]) or not isinstance(T, Lst):
            raise Unsupported('generated element of another form')
        head = [y for p in ps[:-1] for y in p.items]
        t = T.seq
        return conj([simp(Z(t.n) >= len(head))] + [eqterm(y, t.at(q)) for q, y in enumerate(head)]), t.drop(len(head))


def div_env(c):
    c.assume(z3.And(Int('n') >= 0, Int('k') >= 1))
    return dict(n=Int('n'), k=Int('k'))


@contract(F + 'divideIntoKParts', ['C18', 'C20'], [('n >= 0, k >= 1', div_env)], applies=lambda c, e: is_int(e['n']) and is_int(e['k']), requires=parts_pre, counted=target)
def divideIntoKParts(c, e):
    """every list of k numbers >= 0 with sum n once, and nothing else (the recursive call by its own contract)"""
    if c.target == F + 'divideIntoKParts' and c.depth <= 1 and c.counting is not None and c.witness is not None:
        return parts_count(e['n'], e['k'])(c.counting.seq)
    b = Parts(c, parts_count(e['n'], e['k']))
    b.sort = None
    return Lst(b)


def pair(c, env):
    return Tup(CSeq([Int('first'), Int('second')]))


def in_list(c, s, x):
    f = c.find(s, x, True)
    return f[0], f[1]


@contract(F + 'pairIterator', ['C18'], [('distinct elements', lambda c: dict(a=Lst(dset(c, 'a'))))], applies=lambda c, e: False, counted=pair)
def pairIterator(c, e):
    """the pairs of elements at positions i < j, each once"""
    x, y = c.counting.seq.items
    (p, i), (q, j) = in_list(c, e['a'].seq, x), in_list(c, e['a'].seq, y)
    return simp(z3.If(z3.And(Z(p), Z(q), Z(i) < Z(j)), 1, 0))
