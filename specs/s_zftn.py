"""contracts of finite tensor networks and tensor dictionaries (C13)"""
from s_znet import *
import s_znet
F = 'CTL.funcs.funcs.'


# ------------------------------------------------------------------ dictionaries of tensors
def names(c, nm, n=None):
    """different strings"""
    d = dset(c, nm, n, S)
    i = Int('i?')
    f = d.at
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(d.n)), f(i) != NONESTR), patterns=[f(i)]))
    return d


def tdict(c, nm):
    """any dictionary name -> tensor"""
    world(c)
    ks = names(c, nm + '.key')
    val = z3.Function(nm + '.tensor', S, I)
    i = Int('i?')
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(ks.n)), z3.And(val(ks.at(i)) >= 1, val(ks.at(i)) < c.frontier('Tensor'))), patterns=[ks.at(i)]))
    d = DictV(KMap(lambda x: (ks.find(x)[0], tok(val(Z(x)))), ks))
    d.key_sort = S
    d.val = val
    return d


def td(c, nm='d'):
    return Obj(klass(c, TD), Int(nm + '.id'), dict(tensors=tdict(c, nm)))


def sname(c, nm):
    x = z3.String(nm)
    c.assume(x != NONESTR)
    return x


def soft(f):
    def g(c, *a):
        r = f(c, *a)
        c.soft = 'state'
        return r
    return g


def istd(c, e):
    return isinstance(e['self'], Obj) and e['self'].cls.qual == TD


@contract(TD + '.__init__', ['C13'], [('nothing', soft(lambda c: dict(self=Obj(klass(c, TD), Int('d.id'), {}), tensorDict=None))), ('dictionary', soft(lambda c: dict(self=Obj(klass(c, TD), Int('d.id'), {}), tensorDict=tdict(c, 'D'))))],
          applies=lambda c, e: istd(c, e) and (e['tensorDict'] is None or isinstance(e['tensorDict'], DictV)))
def td_init(c, e):
    """its own empty dictionary, or the one given"""
    e['self'].fields['tensors'] = DictV([]) if e['tensorDict'] is None else e['tensorDict']


@contract(TD + '.setTensor', ['C13'], [('any', soft(lambda c: dict(self=td(c), name=sname(c, 's'), tensor=tok(Int('t')))))], applies=istd)
def td_set(c, e):
    d = e['self'].fields['tensors']
    d.items = FMap.set(d.items, e['name'], e['tensor'])


@contract(TD + '.getTensor', ['C13'], [('any', soft(lambda c: dict(self=td(c), name=sname(c, 's'))))], applies=istd)
def td_get(c, e):
    p, v = e['self'].fields['tensors'].items.get(e['name'])
    if c.branch(neg(p)):
        raise_('KeyError')
    return v


@contract(TD + '.tensorCount', ['C13'], [('any', soft(lambda c: dict(self=td(c))))], applies=istd)
def td_count(c, e):
    return e['self'].fields['tensors'].items.keys.n


@contract(TD + '.deleteTensor', ['C13'], [('any', soft(lambda c: dict(self=td(c), name=sname(c, 's'))))], applies=istd)
def td_del(c, e):
    """refused for a name that is not there"""
    d = e['self'].fields['tensors']
    old, k = d.items, e['name']
    if c.branch(neg(old.get(k)[0])):
        raise_('AssertionError')
    d.items = FMap(lambda x: (conj([neg(eqterm(x, k)), old.get(x)[0]]), old.get(x)[1]))


# ------------------------------------------------------------------ declarations
def tuples(c, nm, k):
    """any sequence of k-tuples of strings"""
    fs = [z3.Function('%s.%d' % (nm, j), I, S) for j in range(k)]
    n = length(c, nm)
    i = Int('i?')
    fact(c, z3.ForAll([i], z3.And(*[f(i) != NONESTR for f in fs]), patterns=[fs[0](i)]))
    return FSeq(n, lambda i: Tup(CSeq([f(Z(i)) for f in fs])), None, nm), fs


def links_seq(c, nm):
    s, fs = tuples(c, nm, 4)
    return FSeq(s.n, lambda i: Tup(CSeq([Tup(CSeq([fs[0](Z(i)), fs[1](Z(i))])), Tup(CSeq([fs[2](Z(i)), fs[3](Z(i))]))])), None, nm)


def outs_seq(c, nm, pairs_):
    """(list of labels or of pairs (tensor, leg), new label)"""
    n = length(c, nm)
    new, m = z3.Function(nm + '.new', I, S), z3.Function(nm + '.n', I, I)
    a, b = z3.Function(nm + '.a', I, I, S), z3.Function(nm + '.b', I, I, S)
    i, j = Int('i?'), Int('j?')
    fact(c, z3.ForAll([i], z3.And(m(i) >= 0, new(i) != NONESTR), patterns=[m(i)]))
    fact(c, z3.ForAll([i, j], z3.And(a(i, j) != NONESTR, b(i, j) != NONESTR), patterns=[a(i, j)]))
    el = lambda i, j: Tup(CSeq([a(i, Z(j)), b(i, Z(j))])) if pairs_ else a(i, Z(j))
    return FSeq(n, lambda i: Tup(CSeq([Lst(FSeq(m(Z(i)), lambda j: el(Z(i), j))), new(Z(i))])), None, nm)


def ftn(c, pairs_=False, real=None):
    world(c)
    F_ = dict(tensorNames=Lst(names(c, 'names')), optimalSeq=None, realCost=z3.Bool('real'), links=Lst(links_seq(c, 'links')), bondDims=DictV([]), locked=z3.Bool('locked'), changed=z3.Bool('changed'),
              changeNameBefore=Lst(tuples(c, 'before', 3)[0]), changeNameAfter=Lst(tuples(c, 'after', 3)[0]), outProductAfter=Lst(outs_seq(c, 'outs', pairs_)), typicalDim=Int('typical'))
    return Obj(klass(c, FTN), Int('ftn.id'), F_)


def cached(c, o):
    """a sequence found by an earlier contraction: it is made for the tensors declared at that time, which are the present ones"""
    o.fields['optimalSeq'] = ValidSeq(o.fields['tensorNames'].seq.n, 'cached')
    return o


def isftn(c, e):
    return isinstance(e['self'], Obj) and e['self'].cls.qual == FTN


BOTH = (('no sequence yet', lambda c: ftn(c)), ('sequence known', lambda c: cached(c, ftn(c))))


def decl(nm, args=()):
    return [(k, soft(lambda c, f=f: dict(self=f(c), **{a: sname(c, a) for a in args}))) for k, f in BOTH]


def unlocked(c, e):
    if c.branch(e['self'].fields['locked']):
        raise_('AssertionError')


def new_seq(o):
    """class invariant: a sequence that is kept is made for the tensors declared"""
    o.fields['optimalSeq'] = None


def declare(nm, args, doc, props=('C13',)):
    def deco(f):
        def spec(c, e):
            unlocked(c, e)
            f(c, e, e['self'].fields)
        spec.__doc__ = doc
        contract(FTN + '.' + nm, list(props), decl(nm, args), applies=isftn)(spec)
    return deco


def own_list(c, p, s, goals):
    """the list of names is not the one given (nor the default one)"""
    import loops
    from prover import Goal
    v = [v for (k, i, f), (o, v) in [(k, x) for k, x in loops.slots(p.state).items() if len(k) == 3] if k == 'fld' and f == 'tensorNames']
    bad = any(any(v_ is r for r in c.roots) or getattr(v_, 'default', False) for v_ in v)
    goals.append(Goal('state: the list of names is its own', not bad, 'shared list'))


def init_setup(c, given, real):
    world(c)
    e = dict(self=Obj(klass(c, FTN), Int('ftn.id'), {}), realCost=real, typicalDim=Int('typical'))
    if given:
        e['tensorNames'] = Lst(strs(c, 'names'))
    return e


@contract(FTN + '.__init__', ['C13'], [('%s, %s' % ('names given' if g else 'no names', 'real dimensions' if r else 'typical dimension'), soft(lambda c, g=g, r=r: init_setup(c, g, r))) for g in (True, False) for r in (True, False)], applies=lambda c, e: False, compare=own_list)
def ftn_init(c, e):
    """an unlocked network of these names (a list of its own) without declarations"""
    n = e['tensorNames'].seq
    e['self'].fields.update(tensorNames=Lst(n), optimalSeq=None, realCost=e['realCost'], links=Lst(CSeq([])), bondDims=DictV([]), locked=False, changed=False, changeNameBefore=Lst(CSeq([])), changeNameAfter=Lst(CSeq([])),
                            outProductAfter=Lst(CSeq([])), typicalDim=None if e['realCost'] else e['typicalDim'])


@contract(FTN + '.checkLock', ['C13'], [(k, soft(lambda c, f=f: dict(self=f(c), opt=Opaque('message')))) for k, f in BOTH], applies=isftn)
def checkLock(c, e):
    unlocked(c, e)


@contract(FTN + '.lock', ['C13'], decl('lock'), applies=isftn)
def lock(c, e):
    e['self'].fields['locked'] = True


@contract(FTN + '.unlock', ['C13'], decl('unlock'), applies=isftn)
def unlock(c, e):
    e['self'].fields['locked'] = False


@contract(FTN + '.tensorCount', ['C13'], decl('tensorCount'), applies=isftn)
def count(c, e):
    return e['self'].fields['tensorNames'].seq.n


def append(l, x):
    l.seq = cat(l.seq, CSeq([x]))


@declare('addTensor', ['name'], 'one more name; the kept sequence is dropped')
def addTensor(c, e, F_):
    append(F_['tensorNames'], e['name'])
    new_seq(e['self'])


@declare('removeTensor', ['name'], 'refused for a name that is not declared')
def removeTensor(c, e, F_):
    l = F_['tensorNames']
    if c.branch(neg(c.member(e['name'], l.seq))):
        raise_('AssertionError')
    import loops
    loops.list_remove(c.interp, l, e['name'])
    new_seq(e['self'])


def cc(*xs):
    return simp(z3.Concat(*[Z(x) if isz(x) else z3.StringVal(x) for x in xs]))


@declare('addLink', ['aName', 'aLeg', 'bName', 'bLeg'], 'one more link between tagged labels')
def addLink(c, e, F_):
    append(F_['links'], Tup(CSeq([Tup(CSeq([e[a], cc(e[a], '-', e[b])])) for a, b in (('aName', 'aLeg'), ('bName', 'bLeg'))])))
    new_seq(e['self'])


for nm_, f_ in (('Pre', 'changeNameBefore'), ('Post', 'changeNameAfter')):
    @declare('add%sNameChange' % nm_, ['name', 'legName', 'newName'], 'one more rename')
    def addChange(c, e, F_, f_=f_):
        append(F_[f_], Tup(CSeq([e['name'], e['legName'], e['newName']])))

    @declare('remove%sNameChange' % nm_, ['name', 'legName', 'newName'], 'the first such rename is removed; ValueError if there is none')
    def removeChange(c, e, F_, f_=f_):
        import loops
        loops.list_remove(c.interp, F_[f_], Tup(CSeq([e['name'], e['legName'], e['newName']])))


def any_lists(c, o):
    """the lists of labels are only passed on: any values"""
    f, g = z3.Function('outs.labels', I, I), z3.Function('outs.new', I, S)
    o.fields['outProductAfter'] = Lst(FSeq(length(c, 'outs'), lambda i: Tup(CSeq([Ref('Labels', f(Z(i))), g(Z(i))]))))
    return dict(self=o, labelList=Ref('Labels', Int('labels')), newLabel=sname(c, 'new'))


@contract(FTN + '.addPostOutProduct', ['C13'], [(k, soft(lambda c, f=f: any_lists(c, f(c)))) for k, f in BOTH], applies=isftn)
def addOut(c, e):
    unlocked(c, e)
    append(e['self'].fields['outProductAfter'], Tup(CSeq([e['labelList'], e['newLabel']])))


@contract(FTN + '._dealOutProductLabel', ['C13'], [('label', soft(lambda c: dict(self=ftn(c), label=sname(c, 's')))), ('pair', soft(lambda c: dict(self=ftn(c), label=Tup(CSeq([sname(c, 's'), sname(c, 't')])))))], applies=lambda c, e: is_str(e['label']) or isinstance(e['label'], Tup))
def deal(c, e):
    l = e['label']
    return l if is_str(l) else cc(l.seq.at(0), '-', l.seq.at(1))


# ------------------------------------------------------------------ contraction
def strlist(v):
    return isinstance(v, (Lst, Tup)) and (not isinstance(v.seq, CSeq) and is_str(v.seq.at(z3.Int('k?'))) or isinstance(v.seq, CSeq) and all(is_str(x) for x in v.seq.items))


def op(f):
    def spec(c, e):
        return f(c, e, H(c), Z(e['self']) if 'self' in e else None)
    return spec


def a_copy(c, e, h, t):
    step(c, cp1W(h, t))
    return tok(cp1(h, t))


self_ = lambda c, e: token(e['self'])
T_ = TENSOR + '.'
extend(T_ + 'copy', self_, op(a_copy))
extend(T_ + 'renameLabel', lambda c, e: token(e['self']) and is_str(e['changeFrom']) and is_str(e['changeTo']), op(lambda c, e, h, t: step(c, ren(h, t, Z(e['changeFrom']), Z(e['changeTo'])))))
extend(T_ + 'addTensorTag', self_, op(lambda c, e, h, t: step(c, tag(h, t, Z(e['name'])))))
extend(T_ + 'removeTensorTag', self_, op(lambda c, e, h, t: step(c, untag(h, t))))
extend(T_ + 'outProduct', lambda c, e: token(e['self']) and strlist(e['legList']) and is_str(e['newLabel']), op(lambda c, e, h, t: step(c, outp(h, t, arr(c, e['legList'].seq, S), Z(e['legList'].seq.n), Z(e['newLabel'])))))
extend(LK + 'makeLink', lambda c, e: token(e['tensorA']) and token(e['tensorB']) and is_str(e['legA']) and is_str(e['legB']),
       op(lambda c, e, h, t: step(c, lnk(h, Z(e['tensorA']), Z(e['legA']), Z(e['tensorB']), Z(e['legB'])))))


@contract(FTN + '.loadBondDims', ['C13'], [], applies=lambda c, e: abstract(c) and isftn(c, e), trusted=True, note='changes nothing but the remembered dimensions and whether they differ; either answer is covered')
def loadBondDims(c, e):
    e['self'].fields['changed'] = c.fresh('dimensions changed', B)


class Worlds:
    """loop that only changes the world: f(world, item) -> next world"""
    def __init__(self, nm, f):
        self.h, self.f = fun('ftn.' + nm, I, I), f

    def cells(self, c, env):
        w = world(c)
        return [('world', lambda: w.fields['H'], lambda v: w.fields.__setitem__('H', v))]

    def at(self, c, env, k):
        return [self.h(k)]

    def step(self, c, env, k, item):
        fact(c, self.h(k + 1) == self.f(c, self.h(k), item))


LOC = fun('ftn.local', I, I)


def where(c, x):
    return c.ftn_keys.find(x)[1]


def local(c, x):
    return LOC(where(c, x))


class Copies:
    """the copies made so far, by name"""
    h = fun('ftn.copied', I, I)

    def cells(self, c, env):
        d, w = env['localTensors'], world(c)
        return [('localTensors', lambda: DictV(d.items), lambda v: setattr(d, 'items', v.items)), ('world', lambda: w.fields['H'], lambda v: w.fields.__setitem__('H', v))]

    def at(self, c, env, k):
        ks = c.ftn_keys
        f = ks.find

        def get(x):
            a, p = f(x)
            return conj([a, simp(Z(p) < Z(k))]), tok(LOC(p))
        d = DictV(KMap(get, FSeq(simp(k), ks.at, lambda x: (conj([f(x)[0], simp(Z(f(x)[1]) < Z(k))]), f(x)[1]), 'keys so far')))
        d.key_sort = S
        return [d, self.h(k)]

    def step(self, c, env, k, item):
        t = Z(c.ftn_dict(item))
        fact(c, LOC(k) == cp1(self.h(k), t))
        fact(c, self.h(k + 1) == cp1W(self.h(k), t))


def at(x, *path):
    for p in path:
        x = x.seq.at(p)
    return Z(x)


RES = Int('net.result')
L0 = Copies()
L1 = Worlds('renamed', lambda c, h, x: ren(h, local(c, at(x, 0)), at(x, 1), at(x, 2)))
L2 = Worlds('tagged', lambda c, h, x: tag(h, local(c, Z(x)), Z(x)))
L3 = Worlds('linked', lambda c, h, x: lnk(h, local(c, at(x, 0, 0)), at(x, 0, 1), local(c, at(x, 1, 0)), at(x, 1, 1)))


def labels_of(c, l):
    return smap(l.seq, lambda x: deal(c, dict(label=x)))


L4 = Worlds('combined', lambda c, h, x: outp(h, RES, arr(c, labels_of(c, x.seq.at(0)), S), Z(x.seq.at(0).seq.n), cc('res-', x.seq.at(1))))
L5 = Worlds('renamed after', lambda c, h, x: ren(h, RES, cc(at(x, 0), '-', at(x, 1)), cc(at(x, 0), '-', at(x, 2))))


def known_names(c, ks, s, *paths):
    """the names used by the declarations are names of the network"""
    i = Int('i?')
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(s.n)), z3.And(*[Z(ks.find(at(s.at(i), *p))[0]) for p in paths])), patterns=[at(s.at(i), *paths[0])]))


def con_setup(c, obj, pairs_, known, rem):
    o = ftn(c, pairs_)
    if known:
        cached(c, o)
    d = tdict(c, 'D')
    ks = d.items.keys
    F_ = o.fields
    c.free = True
    c.ftn_keys, c.ftn_dict = ks, lambda x: d.items.get(x)[1]
    nm = F_['tensorNames'].seq
    known_names(c, nm, F_['changeNameBefore'].seq, (0,))
    known_names(c, nm, F_['links'].seq, (0, 0), (1, 0))
    fact(c, L0.h(0) == H(c))
    fact(c, L1.h(0) == L0.h(Z(ks.n)))
    fact(c, L2.h(0) == L1.h(Z(F_['changeNameBefore'].seq.n)))
    fact(c, L3.h(0) == L2.h(Z(ks.n)))
    h = L3.h(Z(F_['links'].seq.n))
    l = FSeq(nm.n, lambda i: tok(local(c, nm.at(Z(i)))))
    a = arr(c, l)
    fact(c, RES == netT(h, a, Z(nm.n)))
    fact(c, L4.h(0) == netW(h, a, Z(nm.n)))
    fact(c, L5.h(0) == L4.h(Z(F_['outProductAfter'].seq.n)))
    arg = d
    if obj:
        arg = Obj(klass(c, TD), Int('d.id'), dict(tensors=d))
    return dict(self=o, tensorDict=arg, removeTensorTag=rem, _world=world(c))


CON = [('%s, %s, combinations of %s%s' % ('tensor dictionary' if a else 'dictionary', 'sequence known' if k else 'no sequence yet', 'pairs' if p else 'labels', '' if r else ', tags kept'), lambda c, a=a, p=p, k=k, r=r: con_setup(c, a, p, k, r))
       for a in (False, True) for p in (False, True) for k in (False, True) for r in (True, False)]


@contract(FTN + '.contract', ['C13'], CON, applies=lambda c, e: False, inv={('for', 0): L0, ('for', 1): L1, ('for', 2): L2, ('for', 3): L3, ('for', 4): L4, ('for', 5): L5}, chunk=2, weight=2)
def contract_(c, e):
    """copies of the tensors, in the order of the dictionary; the declared renames, tags and links on the copies; the contraction of
    all of them in the order of the declaration; the declared combinations and renames on the result; the tags removed.  Refused
    for other names.  The network is locked; of the rest only what it remembers for the next search may change."""
    o = e['self'].fields
    o['locked'] = True
    d = e['tensorDict'] if isinstance(e['tensorDict'], DictV) else e['tensorDict'].fields['tensors']
    if c.branch(neg(c.same_set(o['tensorNames'].seq, d.items.keys))):
        raise_('AssertionError')
    o['changed'] = AnyValue()
    o['optimalSeq'] = ValidSeq(o['tensorNames'].seq.n, 'kept')
    h = L5.h(Z(o['changeNameAfter'].seq.n))
    if e['removeTensorTag']:
        h = untag(h, RES)
    step(c, h)
    return tok(RES)
