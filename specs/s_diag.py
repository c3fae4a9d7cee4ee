"""contracts of diagonal tensors: the same operations as on dense tensors, on the diagonal only (C09, and the diagonal parts of C03-C07, C10)"""
from s_ops import *
D = DIAG + '.'
KINDS = [('dense data, rank 0', False, 0), ('dense data', False, None), ('data-free, rank 0', True, 0), ('data-free', True, None)]


def dsetup(like, rank, **kw):
    def f(c):
        d = dict(self=tensor(c, 't', like=like, diag=True, rank=rank))
        for k, v in kw.items():
            d[k] = v(c, d['self']) if callable(v) else v
        return d
    return f


def dcases(ranks=(0, None), **kw):
    return [(n, dsetup(like, r, **kw)) for n, like, r in KINDS if r in ranks]


def isdiag(c, e):
    t = e['self']
    return istensor(t, True) and isinstance(t.fields['tensorLikeFlag'], bool) and t.cls.name == 'DiagonalTensor'


def dshape(t):
    L = t.fields['_length']
    n = t.fields['legs'].seq.n
    return CSeq([L] * n) if isinstance(n, int) else FSeq(n, lambda k: L, None, 'dshape')


@contract(D + 'labels', ['C09', 'C03', 'C04'], dcases())
def d_labels(c, e):
    return Lst(names_of(c, S(e)))


@contract(D + 'dim', ['C09', 'C04'], dcases())
def d_dim(c, e):
    return S(e).n


@contract(D + 'shape', ['C09', 'C04', 'C10'], dcases(), applies=isdiag)
def d_shape(c, e):
    """the diagonal length, once per leg"""
    return Tup(dshape(e['self']))


@contract(D + 'moveLegsToFront', ['C09', 'C03', 'C10'], dcases(legs=lambda c, t: Lst(sub_legs(c, t, 'ls'))), applies=lambda c, e: isdiag(c, e) and legseq(e['legs']) and inside(c, e['legs'].seq, S(e)))
def d_moveLegsToFront(c, e):
    """the legs are reordered like those of the dense tensor; the entries of a diagonal do not depend on the order"""
    e['self'].fields['legs'] = Lst(moved(c, S(e), e['legs'].seq))


@contract(D + 'moveLabelsToFront', ['C09', 'C03', 'C10'], dcases(labelList=lambda c, t: labs(c)), applies=lambda c, e: isdiag(c, e) and distinct_labels(c, e['labelList']))
def d_moveLabelsToFront(c, e):
    ls = getLegsByLabel(c, e)
    d_moveLegsToFront(c, dict(self=e['self'], legs=ls))


def dense(c, t):
    """entries of the dense tensor it stands for"""
    a, n, L = t.fields['a'], t.fields['legs'].seq.n, t.fields['_length']
    if isinstance(n, int) and n == 0:
        return npmodel.f_copy(c.interp, a)
    return full(c, a, n)


def full(c, a, n):
    L = a.shape.at(0)
    sh = CSeq([L] * n) if isinstance(n, int) else FSeq(n, lambda k: L)
    return NDArr(sh, lambda f: SIte(forall(n, lambda i: eqterm(f(i), f(0))), a.elem(lambda j: f(0)), SNum(0)), a.dtype)


def dvec(c, rank):
    classes(c)
    L = Int('L')
    c.assume(L >= 1)
    return npmodel.fresh_array(c, 'a', CSeq([] if rank == 0 else [L]), DType('a.dtype'))


def posn(c):
    c.assume(Int('dim') >= 1)
    return Int('dim')


def dnd_applies(c, e):
    a, n = e['a'], e['dim']
    return isinstance(a, NDArr) and isinstance(a.shape.n, int) and is_int(n) and (isinstance(n, int) and n == 0 or a.shape.n == 1 and prove(c, simp(Z(n) >= 1)))


@contract('CTL.funcs.funcs.diagonalNDTensor', ['C09', 'C18'], [('rank 0', lambda c: dict(a=dvec(c, 0), dim=0)), ('vector', lambda c: dict(a=dvec(c, 1), dim=posn(c)))], applies=dnd_applies, fresh=True)
def diagonalNDTensor(c, e):
    """the given values on the diagonal, zero elsewhere, dtype of the values"""
    n = e['dim']
    if isinstance(n, int) and n == 0:
        return npmodel.f_copy(c.interp, e['a'])
    return full(c, e['a'], n)


@contract(D + 'toVector', ['C09', 'C10'], dcases(), applies=isdiag, fresh=True)
def d_toVector(c, e):
    """the diagonal"""
    a = refuse(c, e)
    return NDArr(CSeq([e['self'].fields['_length']]), (lambda el: lambda f: el(f))(a.elem), a.dtype)


@contract(D + 'norm', ['C09', 'C10'], dcases(), applies=isdiag)
def d_norm(c, e):
    return npmodel.f_norm(c.interp, refuse(c, e))


@contract(D + 'trace', ['C09', 'C10'], dcases(rows=None, cols=None), applies=isdiag)
def d_trace(c, e):
    """the sum of the diagonal"""
    a = refuse(c, e)
    el, sh = a.elem, a.shape
    return NDArr(CSeq([]), lambda f: npmodel.SSum(sh, lambda s: el(s)), a.dtype)


@contract(D + 'single', ['C10', 'C09'], dcases(), applies=isdiag)
def d_single(c, e):
    a = refuse(c, e)
    if not (isinstance(S(e).n, int) and S(e).n == 0):
        raise_('AssertionError')
    return a


@contract(D + 'outProduct', ['C09', 'C06'], dcases(labelList=None, newLabel=None))
def d_outProduct(c, e):
    raise_('TypeError')


@contract(D + 'toTensor', ['C09', 'C03', 'C10'], dcases(labels=None) + [(n + ', labels', s) for n, s in dcases(labels=lambda c, t: labs(c))], applies=lambda c, e: isdiag(c, e) and (e['labels'] is None or distinct_labels(c, e['labels'])), fresh=True)
def d_toTensor(c, e):
    """the dense array, legs in the order of the labels"""
    refuse(c, e)
    if e['labels'] is not None:
        d_reArrange(c, e)
    return dense(c, e['self'])


def d_reArrange(c, e):
    if c.branch(neg(s_funcs.compareLists(c, dict(a=Lst(names_of(c, S(e))), b=e['labels'])))):
        raise_('AssertionError')
    d_moveLabelsToFront(c, dict(self=e['self'], labelList=e['labels']))


def dmatrix(c, t, rows, cols):
    """the matrix of the dense tensor: its entries do not change when legs are reordered (all off-diagonal ones are zero), then legs are combined"""
    c.assumed.add('lemma: the dense form of a diagonal tensor is the same for every order of its legs')
    d = dense(c, t)
    return npmodel.reshape(c.interp, d, CSeq([c.prod(dims_of(c, rows)), c.prod(dims_of(c, cols))]))


def dtwo_parts(c, like, rank):
    t = tensor(c, 't', like=like, diag=True, rank=rank)
    rows, cols = sub_legs(c, t, 'rs'), sub_legs(c, t, 'cs')
    i = z3.Int('i?')
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(rows.n)), z3.Not(Z(cols.find(rows.at(i))[0]))), patterns=[rows.g(i)]))
    return dict(self=t, rows=Lst(rows), cols=Lst(cols))


def dmcases():
    r = dcases(rows=lambda c, t: Lst(sub_legs(c, t, 'rs')), cols=None)
    r = [(n + ', rows', f) for n, f in r]
    r += [(n + ', cols', f) for n, f in dcases(cols=lambda c, t: Lst(sub_legs(c, t, 'cs')), rows=None)]
    r += [(n + ', nothing', f) for n, f in dcases(cols=None, rows=None)]
    r += [(n + ', both', (lambda like, rk: lambda c: dtwo_parts(c, like, rk))(like, rk)) for n, like, rk in KINDS]
    return r


def dmat_applies(c, e):
    return isdiag(c, e) and mat_applies(c, dict(e), True)


@contract(D + 'toMatrix', ['C09', 'C03', 'C10', 'C14'], dmcases(), applies=dmat_applies, fresh=True)
def d_toMatrix(c, e):
    refuse(c, e)
    rows, cols = parts(c, e)
    return dmatrix(c, e['self'], rows, cols)


def copied_diag(c, e, like=None):
    t = e['self']
    like = t.fields['tensorLikeFlag'] if like is None else like
    a, L = t.fields['a'], t.fields['_length']
    u = Obj(klass(c, DIAG), c.newid('Tensor'), {})
    names = names_of(c, S(e))
    ls = new_legs(c, u, lambda k: names.at(k), lambda k: L, S(e).n)
    u.fields.update(dtype=t.fields['dtype'], tensorLikeFlag=like, diagonalFlag=True, degreeOfFreedom=t.fields['degreeOfFreedom'], name=t.fields['name'], _length=L,
                    legs=Lst(ls), a=None if like else npmodel.f_copy(c.interp, a))
    return u


@contract(D + 'copy', ['C05', 'C09', 'C10'], dcases(), applies=isdiag, fresh=True)
def d_copy(c, e):
    return copied_diag(c, e)


@contract(D + 'toTensorLike', ['C05', 'C10'], dcases(), applies=isdiag, fresh=True)
def d_toTensorLike(c, e):
    return copied_diag(c, e, True)


def dwts(c, t):
    return npmodel.fresh_array(c, 'w', CSeq([t.fields['_length']]), DType('w.dtype'))


def dsum_applies(c, e):
    w = e['weights']
    if not isdiag(c, e) or not isinstance(e['leg'], Ref):
        return False
    return w is None or isinstance(w, NDArr) and isinstance(w.shape.n, int) and w.shape.n == 1 and prove(c, eqterm(w.shape.at(0), e['self'].fields['_length']))


@contract(D + 'sumOutLeg', ['C07', 'C09', 'C10'], [('%s, %s' % (n, w), dsetup(like, r, leg=lambda c, t: leg(c, 'l'), weights=None if w == 'no weights' else dwts)) for n, like, r in KINDS for w in ('no weights', 'weights')], applies=dsum_applies)
def d_sumOutLeg(c, e):
    """the diagonal stays (times the weights); with the last leg it is summed up; without the leg nothing changes"""
    s, t, w = S(e), e['self'], e['weights']
    if c.branch(neg(c.member(e['leg'], s))):
        return None
    i = simp(c.find(s, e['leg'], True)[1])
    t.fields['legs'] = Lst(drop(c, s, i))
    a = t.fields['a']
    if a is not None and w is not None:
        el = a.elem
        a = NDArr(a.shape, lambda f: npmodel.SOp('*', [el(f), w.elem(f)]), npmodel.prom(a.dtype, w.dtype))
    if c.branch(simp(Z(s.n) == 1)):
        if a is not None:
            el2, sh = a.elem, a.shape
            a = NDArr(CSeq([]), lambda f: npmodel.SSum(sh, lambda q: el2(q)), a.dtype)
        t.fields['_length'] = 1
    if a is not None:
        t.fields['a'] = a


# ------------------------------------------------------------------ construction
def alleq(s):
    return zero_len(s) or forall(s.n, lambda k: eqterm(s.at(k), s.at(0)))


def fits(c, data, L, n):
    """data for a diagonal of length L and rank n: the diagonal itself, or a full array"""
    d = data.shape
    vec = False if zero_len(d) else conj([simp(Z(d.n) == 1), simp(Z(n) > 0), eqterm(d.at(0), L)])
    fulls = conj([simp(Z(d.n) == Z(n)), forall(d.n, lambda k: eqterm(d.at(k), L))])
    return disj([vec, fulls])


def zero_len(s):
    return isinstance(s.n, int) and s.n == 0


def dsettle(c, e):
    """(length, rank, labels) that agree with everything given, or ValueError"""
    legs_, shape_, labels_, data = e['legs'], e['shape'], e['labels'], e['data']
    bad = lambda f: c.branch(neg(f)) and raise_('ValueError')
    if isinstance(shape_, Tup):
        bad(alleq(shape_.seq))
    if legs_ is not None:
        s = legs_.seq
        bad(alleq(dims_of(c, s)))
        n, L = s.n, dims_of(c, s).at(0) if not zero_len(s) else 1
        ls = names_of(c, s)
        if labels_ is not None:
            bad(c.seqeq(labels_.seq, ls))
        if isinstance(shape_, Tup):
            bad(c.seqeq(shape_.seq, dims_of(c, s)))
        elif shape_ is not None:
            bad(implies(simp(Z(n) > 0), eqterm(L, shape_)))
    elif shape_ is not None:
        if isinstance(shape_, Tup):
            n, L = shape_.seq.n, shape_.seq.at(0) if not zero_len(shape_.seq) else 1
        elif labels_ is not None:
            n, L = labels_.seq.n, shape_
            if data is not None:
                bad(disj([simp(Z(data.shape.n) == 1), simp(Z(data.shape.n) == Z(n))]))
        elif data is not None:
            bad(simp(Z(data.shape.n) > 0))
            n, L = data.shape.n, shape_
        else:
            raise_('ValueError')
        ls = None if labels_ is None else labels_.seq
    elif data is not None:
        bad(alleq(data.shape))
        n, L = data.shape.n, data.shape.at(0) if not zero_len(data.shape) else 1
        ls = None if labels_ is None else labels_.seq
        if ls is not None:
            bad(disj([conj([simp(Z(n) == 1), simp(Z(ls.n) > 1)]), simp(Z(ls.n) == Z(n))]))
            n = ls.n
    else:
        raise_('ValueError')
    if isinstance(n, int) and n == 0:
        L = 1
    if labels_ is not None:
        bad(simp(Z(labels_.seq.n) == Z(n)))
    if ls is None:
        if data is not None:
            bad(implies(simp(Z(data.shape.n) == 0), simp(Z(n) == 0)))
        if c.branch(simp(Z(n) > 26)):
            raise_('AssertionError')
        ls = FSeq(n, letter)
    if data is not None:
        bad(fits(c, data, L, n))
    return L, n, ls


def one_shape(c, d):
    s = ints(c, 'sh')
    i = z3.Int('i?')
    fact(c, z3.ForAll([i], s.at(i) >= 1, patterns=[s.at(i)]))
    return Tup(s)


def dpieces(has, like):
    def f(c):
        d = pieces(c, [x for x in has if x != 'length'])
        if 'length' in has:
            d['shape'] = Int('sh')
            c.assume(Int('sh') >= 1)
        d.update(self=Obj(klass(c, DIAG), c.newid('Tensor'), {}), degreeOfFreedom=Real('dof'), name=Str('nm'), tensorLikeFlag=like, dtype=DType('given.dtype'))
        return d
    return f


def dcombos():
    r = []
    for sh in ([], ['shape'], ['length']):
        for k in range(8):
            r.append(sh + [x for i, x in enumerate(('legs', 'labels', 'data')) if k >> i & 1])
    return r


def d_applies(c, e):
    e2 = dict(e)
    if is_int(e['shape']):
        e2['shape'] = None
    return isinstance(e['tensorLikeFlag'], bool) and e['self'].cls.name == 'DiagonalTensor' and piece_types(c, e2)


@contract(D + '__init__', ['C04', 'C09', 'C10'], [(('data-free ' if like else '') + ('+'.join(h) or 'nothing'), dpieces(h, like)) for like in (False, True) for h in dcombos()], applies=d_applies, partial=('self',), timeout=300)
def diag_init(c, e):
    """the diagonal agrees with every piece given and owns its legs; the data are a copy of the diagonal given (ones without); ValueError for contradicting or insufficient pieces"""
    self, data, like = e['self'], e['data'], e['tensorLikeFlag']
    L, n, ls = dsettle(c, e)
    scalar = c.branch(simp(Z(n) == 0))
    if like:
        a = None
    elif data is None:
        a = NDArr(CSeq([] if scalar else [L]), lambda f: SNum(1), DType('float64'))
    elif c.branch(simp(Z(data.shape.n) <= 1)):
        a = NDArr(CSeq([] if scalar else [L]), (lambda el: lambda f: el(f))(data.elem), data.dtype)
    else:
        a = NDArr(CSeq([L]), (lambda el: lambda f: el(lambda j: f(0)))(data.elem), data.dtype)
    if e['legs'] is None:
        legs_ = new_legs(c, self, lambda k: ls.at(k), lambda k: L, n)
    else:
        legs_ = e['legs'].seq
        if isinstance(legs_, CSeq):
            for l in legs_.items:
                c.hset('Leg', 'tensor', l.id, self)
        else:
            hfun(c, 'Leg', 'tensor', lambda j, old: ite(c.find(legs_, Ref('Leg', j))[0], Ref('Tensor', Z(self.id)), old))
    self.fields.update(dtype=e['dtype'], tensorLikeFlag=like, diagonalFlag=True, degreeOfFreedom=e['degreeOfFreedom'], name=e['name'], legs=Lst(legs_), a=a, _length=1 if scalar else L)
