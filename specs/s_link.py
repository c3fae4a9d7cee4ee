"""contracts of legs, bonds and links (C08)"""
from tens import *
L = 'CTL.tensor.contract.link.'


def hfun(c, cls, field, f):
    """pointwise update of a heap field: f(j, old value)"""
    c.hget(cls, field, 0)
    old = c.heap[(cls, field)]
    c.heap[(cls, field)] = lambda j: f(j, old(j))


@contract(LEG + '.__init__', ['C08', 'C04'], [('any', lambda c: (classes(c), dict(self=Ref('Leg', c.newid('Leg')), tensor=Ref('Tensor', Int('t')), dim=Int('dim'), name=Str('name')))[1])])
def leg_init(c, e):
    """the new leg has this owner, dimension and name and no link"""
    i = e['self'].id
    for f, v in (('tensor', e['tensor']), ('name', e['name']), ('dim', e['dim']), ('bond', None)):
        c.hset('Leg', f, i, v)


@contract(BOND + '.__init__', ['C08'], [('legs', lambda c: (classes(c), dict(self=Ref('Bond', c.newid('Bond')), leg1=leg(c, 'l1'), leg2=leg(c, 'l2'), name=None))[1])],
          applies=lambda c, e: e['name'] is None and isinstance(e['leg1'], Ref) and isinstance(e['leg2'], Ref))
def bond_init(c, e):
    """both legs refer to the new link; refused for different dimensions"""
    a, b, i = e['leg1'], e['leg2'], e['self'].id
    c.interp.notnone(a)
    c.interp.notnone(b)
    if c.branch(neg(eqterm(c.hget('Leg', 'dim', a.id), c.hget('Leg', 'dim', b.id)))):
        raise_('AssertionError')
    c.hset('Bond', 'name', i, None)
    c.hset('Bond', 'legs', i, Tup(CSeq([a, b])))
    c.hset('Leg', 'bond', a.id, e['self'])
    c.hset('Leg', 'bond', b.id, e['self'])


def abond(c):
    classes(c)
    links(c)
    b = Int('b')
    fact(c, z3.And(1 <= b, b < c.frontier('Bond')))
    return Ref('Bond', b)


@contract(BOND + '.anotherSide', ['C08', 'C01'], [('any leg', lambda c: dict(self=abond(c), leg=leg(c, 'l')))])
def bond_other(c, e):
    x, y = [c.hget('Bond', 'legs', e['self'].id).seq.at(k) for k in (0, 1)]
    l = e['leg']
    if c.branch(neg(disj([eqterm(x, l), eqterm(y, l)]))):
        raise_('AssertionError')
    return ite(eqterm(x, l), y, x)


@contract(LEG + '.anotherSide', ['C08', 'C01'], [('any leg', lambda c: (links(c), dict(self=leg(c, 'l')))[1])])
def leg_other(c, e):
    """a free leg has no other side"""
    b = c.hget('Leg', 'bond', e['self'].id)
    if c.branch(simp(b.id == 0)):
        return None
    return bond_other(c, dict(self=b, leg=e['self']))


def two_lists(c, same):
    n = length(c, 'A')
    A = legs(c, 'A', n)
    B = legs(c, 'B', None if not same else n)
    i = z3.Int('i?')
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(Z(B.find(Ref('Leg', A.f(i)))[0]))), patterns=[A.f(i)]))
    return dict(legA=Lst(A), legB=Lst(B), tensorA=None, tensorB=None)


def two_single(c):
    a, b = leg(c, 'a'), leg(c, 'b')
    c.assume(neg(eqterm(a, b)))
    return dict(legA=a, legB=b, tensorA=None, tensorB=None)


def two_labels(c, many):
    """labels that two different tensors have"""
    import s_ops
    d = {}
    for k in 'AB':
        t = d['tensor' + k] = tensor(c, 't' + k)
        ns = names_of(c, t.fields['legs'].seq)
        if many:
            v = s_ops.labs(c, 'labs' + k)
            i = z3.Int('i?')
            fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(v.seq.n)), Z(c.member(v.seq.at(i), ns))), patterns=[v.seq.at(i)]))
        else:
            v = z3.String('lab' + k)
            c.assume(z3.And(v != NONESTR, Z(c.member(v, ns))))
        d['leg' + k] = v
    fact(c, Z(d['tensorA'].id) != Z(d['tensorB'].id))
    return d


@contract(L + 'getLeg', ['C08'], [('leg', lambda c: dict(tensor=None, leg=leg(c, 'l'))), ('label', lambda c: dict(tensor=tensor(c), leg=Str('lab'))), ('label, no tensor', lambda c: dict(tensor=None, leg=Str('lab')))])
def link_getLeg(c, e):
    if not is_str(e['leg']):
        return e['leg']
    if e['tensor'] is None:
        raise_('AssertionError')
    import s_ops
    return s_ops.getLeg(c, dict(self=e['tensor'], label=e['leg'], backward=False))


def link_parts(c, e):
    r = []
    for k, t in (('legA', 'tensorA'), ('legB', 'tensorB')):
        v = e[k]
        if is_str(v):
            import s_ops
            v = s_ops.getLeg(c, dict(self=e[t], label=v, backward=False))
            c.interp.notnone(v)
        elif labelled(v):
            import s_ops
            v = Lst(s_ops.legs_of(c, e[t].fields['legs'].seq, v.seq))
        if isinstance(v, Ref):
            v = Lst(CSeq([v]))
        r.append(v.seq)
    return r


def labelled(v):
    return isinstance(v, (Lst, Tup)) and not (isinstance(v.seq.n, int) and v.seq.n == 0) and is_str(v.seq.at(0 if isinstance(v.seq.n, int) else z3.Int('k?')))


def leglist(v, t):
    if is_str(v) or labelled(v):
        return istensor(t)
    if isinstance(v, Ref):
        return v.cls == 'Leg'
    return isinstance(v, (Lst, Tup)) and (v.seq.n == 0 if isinstance(v.seq.n, int) and v.seq.n == 0 else isinstance(v.seq.at(0 if isinstance(v.seq.n, int) else z3.Int('k?')), Ref))


def mk_applies(c, e):
    if not (leglist(e['legA'], e['tensorA']) and leglist(e['legB'], e['tensorB'])):
        return False
    for v, t in ((e['legA'], e['tensorA']), (e['legB'], e['tensorB'])):
        if is_str(v) or labelled(v):
            ns, ls = names_of(c, t.fields['legs'].seq), CSeq([v]) if is_str(v) else v.seq
            if not prove(c, conj([c.distinct(ls), forall(ls.n, lambda k: c.member(ls.at(k), ns))])):
                return False
    A, B = link_parts(c, e)
    return prove(c, conj([c.distinct(A), c.distinct(B), forall(A.n, lambda k: neg(c.member(A.at(k), B)))]))


@contract(L + 'makeLink', ['C08', 'C06'], [('lists', lambda c: two_lists(c, False)), ('lists of one length', lambda c: two_lists(c, True)), ('two legs', two_single), ('labels', lambda c: two_labels(c, False)), ('label lists', lambda c: two_labels(c, True))], applies=mk_applies)
def makeLink(c, e):
    """one new link per pair in order; assertion before the first pair of different dimensions is linked"""
    A, B = link_parts(c, e)
    if c.branch(neg(simp(Z(A.n) == Z(B.n)))):
        raise_('AssertionError')
    n = A.n
    dim = lambda x: Z(c.hget('Leg', 'dim', Z(x)))
    bad = lambda k: neg(eqterm(dim(A.at(k)), dim(B.at(k))))
    b0 = c.frontier('Bond')
    m, fail = n, False
    if isinstance(n, int):
        for k in range(n):
            if c.branch(bad(k)):
                m, fail = k, True
                break
    elif c.branch(neg(forall(n, lambda k: neg(bad(k))))):
        m, fail = c.fresh('firstbad'), True
        c.assume(z3.And(0 <= m, m < Z(n)))
        c.assume(bad(m))
        c.assume(forall(m, lambda k: neg(bad(k))))
    if isinstance(m, int):
        for k in range(m):
            bond_init(c, dict(self=Ref('Bond', c.newid('Bond')), leg1=A.at(k), leg2=B.at(k), name=None))
        out = Lst(CSeq([Ref('Bond', simp_id(b0 + k)) for k in range(m)]))
    else:
        def newbond(j, old):
            r = old
            for S in (B, A):
                f = c.find(S, Ref('Leg', j))
                r = ite(conj([f[0], simp(Z(f[1]) < m)]), Ref('Bond', simp_id(b0 + Z(f[1]))), r)
            return r
        hfun(c, 'Leg', 'bond', newbond)
        mine = lambda j: z3.And(b0 <= Z(j), Z(j) < b0 + m)
        hfun(c, 'Bond', 'legs', lambda j, old: ite(mine(j), Tup(CSeq([A.at(Z(j) - b0), B.at(Z(j) - b0)])), old))
        hfun(c, 'Bond', 'name', lambda j, old: ite(mine(j), NONESTR, old))
        c.alloc['Bond'] = simp_id(b0 + m)
        out = Lst(FSeq(m, lambda k: Ref('Bond', simp_id(b0 + Z(k)))))
    if fail:
        raise_('AssertionError')
    return out
