"""contracts of the operations of dense and data-free tensors"""
from s_build import *
from s_tensor import *
import s_funcs, seqs

LIKES = [('dense', False), ('data-free', True)]
T = TENSOR + '.'
CLASSES = [('', False, None), ('diagonal, ', True, None), ('diagonal rank 0, ', True, 0)]


def plain(c, e):
    """dense class, known kind"""
    t = e['self']
    return istensor(t, False) and isinstance(t.fields['tensorLikeFlag'], bool)


def cases(**kw):
    return [(k, setup(like, **kw)) for k, like in LIKES]


def lab(c, t):
    x = z3.String('lab')
    c.assume(x != NONESTR)
    return x


def refuse(c, e):
    if e['self'].fields['tensorLikeFlag']:
        raise_('AssertionError')
    return e['self'].fields['a']


@contract(T + 'indexOfLabel', ['C03', 'C07'], [(k + w, setup(lab=lab, backward=b, diag=g, rank=r)) for w, b in (('first', False), ('last', True)) for k, g, r in CLASSES], applies=lambda c, e: isinstance(e['backward'], bool) and is_str(e['lab']))
def indexOfLabel(c, e):
    """position of the first (last) leg of this name, -1 without one"""
    ns = names_of(c, S(e))
    if c.branch(neg(c.member(e['lab'], ns))):
        return -1
    if e['backward']:
        rev = c.interp.slice(ns, slice(None, None, -1))
        return simp(Z(ns.n) - 1 - Z(c.find(rev, e['lab'], True)[1]))
    return simp(c.find(ns, e['lab'], True)[1])


@contract(T + 'getLeg', ['C03', 'C07'], [(k + w, setup(label=lab, backward=b, diag=g, rank=r)) for w, b in (('first', False), ('last', True)) for k, g, r in CLASSES], applies=lambda c, e: isinstance(e['backward'], bool) and is_str(e['label']))
def getLeg(c, e):
    k = indexOfLabel(c, dict(self=e['self'], lab=e['label'], backward=e['backward']))
    return None if isinstance(k, int) and k == -1 else S(e).at(k)


@contract(T + 'toVector', ['C03', 'C10'], cases(), applies=plain)
def toVector(c, e):
    """a new array of all entries in row-major order of the legs"""
    a = refuse(c, e)
    return npmodel.f_copy(c.interp, npmodel.reshape(c.interp, a, CSeq([c.prod(a.shape)])))


@contract(T + 'norm', ['C09', 'C10'], cases(), applies=plain)
def norm(c, e):
    return npmodel.f_norm(c.interp, refuse(c, e))


@contract(T + 'single', ['C10', 'C03'], cases(), applies=plain)
def single(c, e):
    a = refuse(c, e)
    if c.branch(simp(Z(a.shape.n) != 0)):
        raise_('AssertionError')
    return a


def copied(c, e, like=None):
    """a new tensor of the same kind, labels, shape, entries, with new unlinked legs"""
    t = e['self']
    like = t.fields['tensorLikeFlag'] if like is None else like
    a = t.fields['a']
    u = Obj(klass(c, TENSOR), c.newid('Tensor'), {})
    dims = dims_of(c, S(e)) if a is None else a.shape
    names = names_of(c, S(e))
    ls = new_legs(c, u, lambda k: names.at(k), lambda k: dims.at(k), S(e).n)
    u.fields.update(dtype=t.fields['dtype'] if a is None or like else a.dtype, tensorLikeFlag=like, diagonalFlag=False, degreeOfFreedom=t.fields['degreeOfFreedom'], name=t.fields['name'],
                    legs=Lst(ls), a=None if like else npmodel.f_copy(c.interp, a))
    return u


@contract(T + 'copy', ['C05', 'C10'], cases(), applies=plain, fresh=True)
def copy(c, e):
    return copied(c, e)


@contract(T + 'toTensorLike', ['C05', 'C10'], cases(), applies=plain, fresh=True)
def toTensorLike(c, e):
    return copied(c, e, True)


@contract(T + 'renameLabel', ['C03', 'C13'], [(k + 'any', setup(changeFrom=lab, changeTo='new', diag=g, rank=r)) for k, g, r in CLASSES], applies=lambda c, e: is_str(e['changeFrom']) and is_str(e['changeTo']))
def renameLabel(c, e):
    """the first leg of the old name gets the new name"""
    l = getLeg(c, dict(self=e['self'], label=e['changeFrom'], backward=False))
    if l is not None:
        c.hset('Leg', 'name', l.id, e['changeTo'])


@contract(T + 'shapeOfLabel', ['C03'], [(k + w, setup(label=lab, backward=b, diag=g, rank=r)) for w, b in (('first', False), ('last', True)) for k, g, r in CLASSES], applies=lambda c, e: isinstance(e['backward'], bool) and is_str(e['label']))
def shapeOfLabel(c, e):
    l = getLeg(c, e)
    return -1 if l is None else c.hget('Leg', 'dim', l.id)


@contract(T + 'labelInTensor', ['C03'], [(k + 'any', setup(label=lab, diag=g, rank=r)) for k, g, r in CLASSES])
def labelInTensor(c, e):
    return c.member(e['label'], names_of(c, S(e)))


@contract(T + 'labelsInTensor', ['C03'], [(k + 'any', setup(labels=lambda c, t: Lst(strs(c, 'labs')), diag=g, rank=r)) for k, g, r in CLASSES])
def labelsInTensor(c, e):
    ns = names_of(c, S(e))
    return forall(e['labels'].seq.n, lambda k: c.member(e['labels'].seq.at(k), ns))


def drop(c, s, i):
    return cat(c.interp.slice(s, slice(None, i, None)), c.interp.slice(s, slice(simp(add(i, 1)), None, None)))


def wts(c, t):
    """weights for the leg named l in the case"""
    w = npmodel.fresh_array(c, 'w', CSeq([h0(c, 'Leg', 'dim')(z3.Int('l'))]), DType('w.dtype'))
    return w


def axis_sum(c, a, i, w):
    """(weighted) sum over the index of axis i"""
    if w is None:
        return npmodel.f_sum(c.interp, a, axis=i)
    return s_funcs.weighted(c, a, i, w)


def sum_applies(c, e):
    w = e['weights']
    if not plain(c, e) or not isinstance(e['leg'], Ref):
        return False
    return w is None or isinstance(w, NDArr) and isinstance(w.shape.n, int) and w.shape.n == 1 and prove(c, eqterm(w.shape.at(0), c.hget('Leg', 'dim', e['leg'].id)))


@contract(T + 'sumOutLeg', ['C07', 'C10'], [('%s, %s' % (k, w), setup(like, leg=lambda c, t: leg(c, 'l'), weights=None if w == 'no weights' else wts)) for k, like in LIKES for w in ('no weights', 'weights')], applies=sum_applies)
def sumOutLeg(c, e):
    """the leg disappears and the entries are summed over its index; without the leg nothing changes"""
    s, t = S(e), e['self']
    if c.branch(neg(c.member(e['leg'], s))):
        return None
    i = simp(c.find(s, e['leg'], True)[1])
    if t.fields['a'] is not None:
        t.fields['a'] = axis_sum(c, t.fields['a'], i, e['weights'])
    t.fields['legs'] = Lst(drop(c, s, i))


ALLKINDS = [('dense', False, False, None), ('data-free', True, False, None), ('diagonal', False, True, None), ('diagonal rank 0', False, True, 0), ('data-free diagonal', True, True, None), ('data-free diagonal rank 0', True, True, 0)]


def known_kind(c, e):
    t = e['self']
    return istensor(t) and isinstance(t.fields['tensorLikeFlag'], bool) and t.fields['diagonalFlag'] is (t.cls.name == 'DiagonalTensor')


def all_cases(**kw):
    return [(k, setup(like, diag=g, rank=r, **kw)) for k, like, g, r in ALLKINDS]


def on_diag(e):
    return e['self'].fields['diagonalFlag']


@contract(T + 'sumOutLegByLabel', ['C07', 'C10', 'C09'], [(k + (', last' if b else ', first'), f) for b in (False, True) for k, f in all_cases(label=lab, backward=b, weights=None)],
          applies=lambda c, e: known_kind(c, e) and is_str(e['label']) and isinstance(e['backward'], bool) and e['weights'] is None)
def sumOutLegByLabel(c, e):
    l = getLeg(c, e)
    if l is not None:
        import s_diag
        (s_diag.d_sumOutLeg if on_diag(e) else sumOutLeg)(c, dict(self=e['self'], leg=l, weights=e['weights']))


@contract(T + 'outProduct', ['C06', 'C10'], cases(legList=lambda c, t: Lst(sub_legs(c, t, 'ls')), newLabel=lab) + [(k + ', by label', f) for k, f in cases(legList=lambda c, t: present(c, t), newLabel=lab)],
          applies=lambda c, e: plain(c, e) and isinstance(e['legList'], Lst) and is_str(e['newLabel']) and (by_label(e['legList']) and distinct_labels(c, e['legList']) and prove(c, forall(e['legList'].seq.n, lambda k: c.member(e['legList'].seq.at(k), names_of(c, S(e))))) or legseq(e['legList']) and inside(c, e['legList'].seq, S(e))))
def outProduct(c, e):
    """one new first leg whose index is the row-major combination of the given legs; the others keep their order"""
    if by_label(e['legList']):
        e = dict(e, legList=getLegsByLabel(c, dict(self=e['self'], labelList=e['legList'])))
    t, ls = e['self'], e['legList'].seq
    if c.branch(simp(Z(ls.n) == 0)):
        raise_('AssertionError')
    moveLegsToFront(c, dict(self=t, legs=e['legList']))
    d = c.prod(dims_of(c, ls))
    new = S(e)
    rest = c.interp.slice(new, slice(ls.n, None, None))
    i = c.newid('Leg')
    a = t.fields['a']
    if a is not None:
        t.fields['a'] = npmodel.reshape(c.interp, a, cat(CSeq([d]), c.interp.slice(a.shape, slice(ls.n, None, None))))
    for f, v in (('tensor', t), ('name', e['newLabel']), ('dim', d), ('bond', None)):
        c.hset('Leg', f, i, v)
    t.fields['legs'] = Lst(cat(CSeq([Ref('Leg', i)]), rest))
    return Ref('Leg', i)


def labs(c, name='labs'):
    """different labels"""
    s = dset(c, name, sort=z3.StringSort())
    i = z3.Int('i?')
    fact(c, z3.ForAll([i], s.at(i) != NONESTR, patterns=[s.at(i)]))
    return Lst(s)


def present(c, t):
    """different labels of the tensor, at least one"""
    ls = labs(c)
    ns = names_of(c, t.fields['legs'].seq)
    c.assume(Z(ls.seq.n) >= 1)
    c.assume(forall(ls.seq.n, lambda k: c.member(ls.seq.at(k), ns)))
    return ls


def by_label(v):
    return isinstance(v, Lst) and not zero(v) and strseq(v)


def distinct_labels(c, v):
    return strseq(v) and not isinstance(v.seq, CSeq) and prove(c, c.distinct(v.seq))


def legs_of(c, s, ls):
    """first legs of these (different) names, all present"""
    ns = names_of(c, s)

    def find(x):
        p = c.find(s, x, True)
        q = c.find(ls, c.hget('Leg', 'name', Z(x)), True)
        f = c.find(ns, c.hget('Leg', 'name', Z(x)), True)
        return conj([p[0], q[0], eqterm(f[1], p[1])]), q[1]
    return FSeq(ls.n, lambda k: s.at(simp(c.find(ns, ls.at(k), True)[1])), find, 'bylabel')


@contract(T + 'getLegsByLabel', ['C03', 'C13'], [(k + 'different labels', setup(labelList=lambda c, t: labs(c), diag=g, rank=r)) for k, g, r in CLASSES], applies=lambda c, e: distinct_labels(c, e['labelList']))
def getLegsByLabel(c, e):
    s, ls = S(e), e['labelList'].seq
    ns = names_of(c, s)
    if c.branch(neg(forall(ls.n, lambda k: c.member(ls.at(k), ns)))):
        raise_('ValueError')
    if isinstance(s.n, int) and s.n == 0:
        return Lst(CSeq([]))
    return Lst(legs_of(c, s, ls))


@contract(T + 'moveLabelsToFront', ['C03', 'C10'], cases(labelList=lambda c, t: labs(c)), applies=lambda c, e: plain(c, e) and distinct_labels(c, e['labelList']))
def moveLabelsToFront(c, e):
    ls = getLegsByLabel(c, e)
    moveLegsToFront(c, dict(self=e['self'], legs=ls))


@contract(T + 'reArrange', ['C03', 'C10', 'C09'], all_cases(labels=lambda c, t: labs(c)), applies=lambda c, e: known_kind(c, e) and distinct_labels(c, e['labels']))
def reArrange(c, e):
    if on_diag(e):
        import s_diag
        return s_diag.d_reArrange(c, e)
    if c.branch(neg(s_funcs.compareLists(c, dict(a=Lst(names_of(c, S(e))), b=e['labels'])))):
        raise_('AssertionError')
    moveLabelsToFront(c, dict(self=e['self'], labelList=e['labels']))


def col(c, t, with_labels):
    return labs(c) if with_labels else None


@contract(T + 'toTensor', ['C03', 'C10'], cases(labels=None) + [(k + ', labels', setup(like, labels=lambda c, t: labs(c))) for k, like in LIKES], applies=lambda c, e: plain(c, e) and (e['labels'] is None or distinct_labels(c, e['labels'])))
def toTensor(c, e):
    """the entries, after moving the legs to the order of the labels"""
    refuse(c, e)
    if e['labels'] is not None:
        reArrange(c, e)
    return e['self'].fields['a']


def matrix(c, t, rows, cols):
    """entries with the rows (cols) as row-major combined index of these legs, storage of its own"""
    s, a = t.fields['legs'].seq, t.fields['a']
    new = cat(rows, cols)
    r = reordered(c, a, s, new)
    return npmodel.f_copy(c.interp, npmodel.reshape(c.interp, r, CSeq([c.prod(dims_of(c, rows)), c.prod(dims_of(c, cols))])))


def parts(c, e):
    """(rows, cols): each given or the other legs in order"""
    s = S(e)
    g = {}
    for k in ('rows', 'cols'):
        g[k] = None if e[k] is None else e[k].seq
    if g['rows'] is None and g['cols'] is None:
        raise_('AssertionError')
    rest = lambda x: c.filt(s, lambda q: neg(c.member(s.at(q), x)))
    if g['cols'] is None:
        g['cols'] = rest(g['rows'])
    elif g['rows'] is None:
        g['rows'] = rest(g['cols'])
    else:
        both = cat(g['rows'], g['cols'])
        if c.branch(neg(s_funcs.compareLists(c, dict(a=Lst(both), b=Lst(s))))):
            raise_('AssertionError')
    return g['rows'], g['cols']


def two_parts(c, like):
    """two disjoint lists of legs that make up the tensor (or miss some)"""
    t = tensor(c, 't', like=like)
    rows, cols = sub_legs(c, t, 'rs'), sub_legs(c, t, 'cs')
    i = z3.Int('i?')
    fact(c, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(rows.n)), z3.Not(Z(cols.find(rows.at(i))[0]))), patterns=[rows.g(i)]))
    return dict(self=t, rows=Lst(rows), cols=Lst(cols))


def mcases():
    r = []
    for k, like in LIKES:
        r.append((k + ', rows', setup(like, rows=lambda c, t: Lst(sub_legs(c, t, 'rs')), cols=None)))
        r.append((k + ', cols', setup(like, cols=lambda c, t: Lst(sub_legs(c, t, 'cs')), rows=None)))
        r.append((k + ', nothing', setup(like, cols=None, rows=None)))
        r.append((k + ', both', (lambda like: lambda c: two_parts(c, like))(like)))
    return r


def mat_applies(c, e, diag=False):
    if not diag and not plain(c, e):
        return False
    for k in ('rows', 'cols'):
        if e[k] is not None and not (isinstance(e[k], Lst) and legseq(e[k]) and inside(c, e[k].seq, S(e))):
            return False
    if e['rows'] is not None and e['cols'] is not None:
        return prove(c, forall(e['rows'].seq.n, lambda k: neg(c.member(e['rows'].seq.at(k), e['cols'].seq))))
    return True


@contract(T + 'toMatrix', ['C03', 'C10', 'C14'], mcases(), applies=mat_applies, fresh=True)
def toMatrix(c, e):
    refuse(c, e)
    rows, cols = parts(c, e)
    return matrix(c, e['self'], rows, cols)


@contract(T + 'trace', ['C09', 'C10'], mcases(), applies=mat_applies)
def trace(c, e):
    refuse(c, e)
    rows, cols = parts(c, e)
    m = matrix(c, e['self'], rows, cols)
    if c.branch(neg(simp(Z(m.shape.at(0)) == Z(m.shape.at(1))))):
        raise_('AssertionError')
    return npmodel.f_trace(c.interp, m)


@contract(T + 'addTensorTag', ['C13'], [(k + 'any', setup(name=lambda c, t: Str('tag'), diag=g, rank=r)) for k, g, r in CLASSES], applies=lambda c, e: is_str(e['name']))
def addTensorTag(c, e):
    """every name gets the tag in front, up to the first name that has one already (assertion)"""
    tagged = lambda x: simp(z3.IndexOf(Z(x), z3.StringVal('-'), 0) != -1)
    new = lambda x: simp(z3.Concat(Z(e['name']), z3.StringVal('-'), Z(x)))
    rename(c, S(e), tagged, new)


@contract(T + 'removeTensorTag', ['C13'], [(k + 'any', setup(diag=g, rank=r)) for k, g, r in CLASSES])
def removeTensorTag(c, e):
    """everything up to the first '-' of a name is removed"""
    at = lambda x: z3.IndexOf(Z(x), z3.StringVal('-'), 0)
    rename(c, S(e), lambda x: False, lambda x: ite(simp(at(x) == -1), x, simp(z3.SubString(Z(x), at(x) + 1, z3.Length(Z(x)) - at(x) - 1))))


def rename(c, s, refused, new):
    old = lambda k: c.hget('Leg', 'name', Z(s.at(k)))
    n = s.n
    bad = simp(refused(old(seqs.K0)))
    m, fail = n, False
    if bad is not False and c.branch(neg(forall(n, lambda k: neg(refused(old(k)))))):
        m, fail = c.fresh('firstbad'), True
        c.assume(z3.And(0 <= m, m < Z(n)))
        c.assume(refused(old(m)))
        c.assume(forall(m, lambda k: neg(refused(old(k)))))
    hfun(c, 'Leg', 'name', lambda j, o: (lambda f: ite(conj([f[0], simp(Z(f[1]) < Z(m))]), new(o), o))(c.find(s, Ref('Leg', j), True)))
    if fail:
        raise_('AssertionError')


@contract(T + 'shapeOfIndex', ['C03'], [(k, setup(like, diag=g, rank=r, index=lambda c, t: rng(c, 'k', t.fields['legs'].seq.n))) for k, like, g, r in ALLKINDS if r is None], applies=lambda c, e: known_kind(c, e) and is_int(e['index']) and prove(c, simp(z3.And(0 <= Z(e['index']), Z(e['index']) < Z(S(e).n)))))
def shapeOfIndex(c, e):
    return dims_of(c, S(e)).at(e['index'])
