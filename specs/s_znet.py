"""contracts of networks of tensors (C02, C11, C13): sequences of operations on whole tensors

A tensor is a token (a reference) and what the operations do to legs, links and data is one value, the world: an operation maps
the world and its arguments to the next world.  What each operation does is the business of its own contract; here it is
an uninterpreted function, so that the contracts below say which operations are applied to which tensors, in which order."""
from tens import *
OC = 'CTL.tensor.contract.optimalContract.'
CC = 'CTL.tensor.contract.contract.'
LK = 'CTL.tensor.contract.link.'
FTN = 'CTL.tensornetwork.tensornetwork.FiniteTensorNetwork'
TD = 'CTL.tensornetwork.tensordict.TensorDict'
I, S, B, R = z3.IntSort(), z3.StringSort(), z3.BoolSort(), z3.RealSort()


def fun(name, *sorts):
    return z3.Function('net.' + name, *sorts)


def world(c):
    """the present world"""
    if not hasattr(c, 'world'):
        c.world = Obj(klass(c, TD), Int('world.id'), dict(H=Int('net.world')))
        c.cls_of['Tensor'] = klass(c, TENSOR)
        c.soft = 'all'
        c.frontier('Tensor')
    return c.world


def H(c):
    return Z(world(c).fields['H'])


def token(v):
    return isinstance(v, Ref) and v.cls == 'Tensor'


def abstract(c):
    return hasattr(c, 'world')


def tok(i):
    return Ref('Tensor', simp_id(i))


def arr(c, seq, sort=I):
    """a sequence as a value (elements outside do not matter)"""
    i = z3.Int('i!')
    v = [Z(x) for x in seq.items] if isinstance(seq, CSeq) else None
    if v is not None:
        b = z3.StringVal('') if sort == S else z3.IntVal(0)
        for k in reversed(range(len(v))):
            b = z3.If(i == k, v[k], b)
    else:
        b = z3.If(z3.And(0 <= i, i < Z(seq.n)), Z(seq.at(i)), z3.StringVal('') if sort == S else z3.IntVal(0))
    b = z3.simplify(b)
    tab = c.__dict__.setdefault('arrs', {})
    key = b.sexpr()
    if key not in tab:
        tab[key] = z3.Const(c.name('list'), z3.ArraySort(I, sort)), b
    a = tab[key][0]
    f = z3.ForAll([i], a[i] == b, patterns=[a[i]])
    if not any(t.eq(f) for k, t in c.pc if k == 'f'):
        fact(c, f)
    return a


AI, AS = z3.ArraySort(I, I), z3.ArraySort(I, S)
cost, level, res, nxt = fun('cost', I, I, I, R), fun('level', I, I, I, I), fun('contract', I, I, I, I), fun('contract.world', I, I, I, I)
cpT, cpW = fun('copyList', I, AI, I, I, I), fun('copyList.world', I, AI, I, I)
cp1, cp1W = fun('copy', I, I, I), fun('copy.world', I, I, I)
ren, tag, untag = fun('rename', I, I, S, S, I), fun('tag', I, I, S, I), fun('untag', I, I, I)
lnk, outp = fun('link', I, I, S, I, S, I), fun('outProduct', I, I, AS, I, S, I)
netT, netW = fun('network', I, AI, I, I), fun('network.world', I, AI, I, I)


def extend(qual, applies, spec):
    """further meaning of a contract where tensors are tokens"""
    for k in CONTRACTS:
        if k.qual == qual:
            a0, s0 = k._applies, k.spec
            k._applies = lambda c, e: abstract(c) and applies(c, e) or not abstract(c) and (a0(c, e) if a0 else True)
            k.spec = lambda c, e: spec(c, e) if abstract(c) and applies(c, e) else s0(c, e)
            k.requires, r0 = (lambda c, e: True if abstract(c) else r0(c, e)) if k.requires is not None else None, k.requires
            return
    raise KeyError(qual)


def step(c, t):
    c.world.fields['H'] = simp(t)


def a_contract(c, e):
    h, a, b = H(c), Z(e['ta']), Z(e['tb'])
    step(c, nxt(h, a, b))
    return tok(res(h, a, b))


def a_cost(c, e):
    h, a, b = H(c), Z(e['ta']), Z(e['tb'])
    return Tup(CSeq([cost(h, a, b), level(h, a, b)]))


two = lambda c, e: token(e['ta']) and token(e['tb'])
import s_contract, s_ops, s_link, s_names, s_misc
extend(CC + 'contractTwoTensors', lambda c, e: two(c, e) and e.get('bonds') is None, a_contract)
extend(OC + 'contractCost', two, a_cost)


def tlist(v):
    return isinstance(v, Lst) and (not isinstance(v.seq, CSeq) and token(v.seq.at(z3.Int('k?'))) or isinstance(v.seq, CSeq) and all(token(x) for x in v.seq.items))


@contract(OC + 'copyTensorList', ['C05'], [], applies=lambda c, e: abstract(c) and tlist(e['tensorList']) and e['tensorLikeFlag'] is False and e['linkOutgoingBonds'] is False, trusted=True, note='where networks are contracted: a list of new tensors; its own check is the bounded stand-in of C05')
def copyTensorList(c, e):
    s = e['tensorList'].seq
    h, a, n = H(c), arr(c, s), Z(s.n)
    step(c, cpW(h, a, n))
    return Lst(FSeq(s.n, lambda i: tok(cpT(h, a, n, Z(i)))))


class ValidSeq(Opaque):
    """a sequence of pairs of slots that contracts so many tensors into the first slot"""
    def __init__(self, n, how):
        Opaque.__init__(self, 'sequence')
        self.n, self.how = n, how


def gen(c, e, how):
    return ValidSeq(e['tensorList'].seq.n, how)


# ------------------------------------------------------------------ a list of tensors with a given sequence
class Steps:
    """slots, cost and world after k steps"""
    def __init__(self, tag):
        t = tag
        self.slot, self.sum, self.lev, self.h = fun(t + '.slot', I, I, I), fun(t + '.cost', I, R), fun(t + '.level', I, I), fun(t + '.world', I, I)

    def base(self, c, seq, h):
        i = Int('i?')
        fact(c, self.sum(0) == 0)
        fact(c, self.lev(0) == 0)
        fact(c, self.h(0) == h)
        fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(seq.n)), self.slot(0, i) == Z(seq.at(i))), patterns=[self.slot(0, i)]))

    def slots(self, n, k):
        return FSeq(n, lambda i: tok(self.slot(k, Z(i))))

    # the loop of contractAndCostWithSequence
    def cells(self, c, env):
        l, w = env['tensorList'], world(c)

        def cell(o, f):
            return (f, lambda: env[f], lambda v: env.__setitem__(f, v))
        return [cell(env, 'totalCost'), ('tensorList', lambda: l, lambda v: setattr(l, 'seq', v.seq)), ('world', lambda: w.fields['H'], lambda v: w.fields.__setitem__('H', v))]

    def at(self, c, env, k):
        return [self.sum(k), Lst(self.slots(env['tensorList'].seq.n, k)), self.h(k)]

    def step(self, c, env, k, item):
        a, b = [Z(item.seq.at(t)) for t in (0, 1)]
        n = Z(env['tensorList'].seq.n)
        x, y, h = self.slot(k, a), self.slot(k, b), self.h(k)
        i = Int('i?')
        fact(c, self.sum(k + 1) == self.sum(k) + cost(h, x, y))
        fact(c, self.h(k + 1) == nxt(h, x, y))
        m = z3.If(a <= b, a, b)
        fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), self.slot(k + 1, i) == z3.If(i == m, res(h, x, y), self.slot(k, i))), patterns=[self.slot(k + 1, i)]))


STEPS = Steps('steps')


def tokens(c, name, n=None):
    world(c)
    f = z3.Function(name, I, I)
    n = length(c, name) if n is None else n
    i = Int('i?')
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(f(i) >= 1, f(i) < c.frontier('Tensor'))), patterns=[f(i)]))
    return FSeq(n, lambda i: tok(f(Z(i))), None, name)


def pairs(c, n):
    """pairs of different slots"""
    f, g = z3.Function('seq.s', I, I), z3.Function('seq.t', I, I)
    m = length(c, 'seq')
    i = Int('i?')
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= f(i), f(i) < n, 0 <= g(i), g(i) < n, f(i) != g(i))), patterns=[f(i)]))
    return FSeq(m, lambda i: Tup(CSeq([f(Z(i)), g(Z(i))])))


def cws_setup(c, inplace):
    l = Lst(tokens(c, 'T'))
    n = Z(l.seq.n)
    c.assume(n >= 1)
    h = H(c)
    if inplace:
        STEPS.base(c, l.seq, h)
    else:
        a = arr(c, l.seq)
        STEPS.base(c, FSeq(n, lambda i: cpT(h, a, n, Z(i))), cpW(h, a, n))
    return dict(tensorList=l, seq=Lst(pairs(c, n)), inplace=inplace, _world=world(c))


def searched(c, l, greedy, bf, typical):
    """the sequence a search returns: pairs of different slots (C12)"""
    c.assumed.add('the searches return pairs of different slots of the list (C12, bounded)')
    h, a, n = H(c), arr(c, l), Z(l.n)
    none = typical is None
    args = (h, a, n, Z(greedy), Z(bf), z3.IntVal(-1) if none else Z(typical))
    so = (I, AI, I, B, B, I)
    f, g, m = fun('search.s', *so, I, I), fun('search.t', *so, I, I), fun('search.n', *so, I)(*args)
    i = Int('i?')
    fact(c, m >= 0)
    x, y = f(*args, i), g(*args, i)
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= x, x < n, 0 <= y, y < n, x != y)), patterns=[x]))
    return Lst(FSeq(m, lambda i: Tup(CSeq([f(*args, Z(i)), g(*args, Z(i))]))))


def made(c, e):
    return abstract(c) and tlist(e['tensorList'])


def graph_of(c, e):
    l = e['tensorList'].seq
    r = Opaque('graph')
    r.of = (H(c), arr(c, l), l)
    return r


@contract(OC + 'generateOptimalSequence', ['C11'], [], applies=made, trusted=True, note='in contracts of whole networks: some pairs of slots, determined by the network and the options; C12 is a bounded stand-in')
def generateOptimal(c, e):
    if getattr(c, 'free', False):
        return ValidSeq(e['tensorList'].seq.n, 'search')
    return searched(c, e['tensorList'].seq, False, e['bf'], e['typicalDim'])


@contract(OC + 'generateGreedySequence', ['C11'], [], applies=made, trusted=True, note='as generateOptimalSequence')
def generateGreedy(c, e):
    return searched(c, e['tensorList'].seq, True, False, None)


def search_setup(c, inplace, greedy, typical):
    e = cws_setup(c, inplace)
    e.update(seq=None, bf=z3.Bool('bf'), typicalDim=Int('typical') if typical else None)
    if typical:
        c.assume(Int('typical') >= 1)
    if greedy is not None:
        e['greedy'] = greedy
    return e


def scases(gs):
    return [('sequence %s, %s%s' % ({True: 'by greedy search', False: 'by search', None: 'searched'}[g], 'in place' if p else 'not in place', '' if t else ', real dimensions'), lambda c, p=p, g=g, t=t: search_setup(c, p, g, t)) for p in (True, False) for g in gs for t in (True, False)]


CWS = [('in place', lambda c: cws_setup(c, True)), ('not in place', lambda c: cws_setup(c, False))]


def given(c, e):
    return abstract(c) and tlist(e['tensorList']) and (isinstance(e['seq'], Lst) or e['seq'] is None)


def free(c, e):
    return abstract(c) and tlist(e['tensorList']) and isinstance(e['seq'], ValidSeq) and e['inplace'] is True


@contract(OC + 'contractAndCostWithSequence', ['C11', 'C02'], CWS + scases((True, False)), applies=given, inv={('for', 0): STEPS})
def contractAndCost(c, e):
    """the tensor in the first slot after contracting the pairs in order, each into its smaller slot; the sum of the costs of the
    steps, each taken before its contraction; the given list only changes when it is contracted in place"""
    if e['seq'] is None:
        e['seq'] = generateGreedy(c, e) if e.get('greedy') is True else generateOptimal(c, e)
    n, k = e['tensorList'].seq.n, Z(e['seq'].seq.n)
    if e['inplace']:
        e['tensorList'].seq = STEPS.slots(n, k)
    step(c, STEPS.h(k))
    return Tup(CSeq([tok(STEPS.slot(k, 0)), STEPS.sum(k)]))


@contract(OC + 'contractWithSequence', ['C11', 'C02'], CWS + scases((None,)), applies=lambda c, e: given(c, e) or free(c, e))
def contractWithSequence(c, e):
    """the tensor of contractAndCostWithSequence"""
    if isinstance(e['seq'], ValidSeq):
        # any valid sequence gives the same tensor (C02)
        c.assumed.add('the tensor a network contracts to does not depend on the valid sequence chosen (C02, bounded)')
        l = e['tensorList'].seq
        c.oblige('precondition: the sequence is made for so many tensors', simp(Z(l.n) == Z(e['seq'].n)), 'call')
        h, a, n = H(c), arr(c, l), Z(l.n)
        step(c, netW(h, a, n))
        e['tensorList'].seq = FSeq(l.n, lambda i: tok(fun('slots', I, AI, I, I, I)(h, a, n, Z(i))))
        return tok(netT(h, a, n))
    return contractAndCost(c, e).seq.at(0)


def whole(c):
    e = cws_setup(c, False)
    return dict(tensorList=e['tensorList'], _world=world(c))


@contract(OC + 'contractTensorList', ['C02'], [('any', whole)], applies=lambda c, e: made(c, e))
def contractTensorList(c, e):
    return contractWithSequence(c, dict(tensorList=e['tensorList'], seq=None, bf=False, typicalDim=10, inplace=False))
