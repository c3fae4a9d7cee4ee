"""contracts of construction (C04) and copies (C05) of dense and data-free tensors"""
from tens import *
from s_link import hfun
from prover import AnyArr
T = TENSOR + '.'
LETTERS = 'abcdefghijklmnopqrstuvwxyz'


def new_legs(c, owner, labels, dims, n):
    """n new legs of the owner with these names and dimensions, in order"""
    f0 = c.frontier('Leg')
    if isinstance(n, int):
        out = []
        for k in range(n):
            i = c.newid('Leg')
            for f, v in (('tensor', owner), ('name', labels(k)), ('dim', dims(k)), ('bond', None)):
                c.hset('Leg', f, i, v)
            out.append(Ref('Leg', i))
        return CSeq(out)
    mine = lambda j: z3.And(f0 <= Z(j), Z(j) < f0 + Z(n))
    hfun(c, 'Leg', 'tensor', lambda j, old: ite(mine(j), Ref('Tensor', Z(owner)), old))
    hfun(c, 'Leg', 'name', lambda j, old: ite(mine(j), Z(labels(Z(j) - f0)), old))
    hfun(c, 'Leg', 'dim', lambda j, old: ite(mine(j), Z(dims(Z(j) - f0)), old))
    hfun(c, 'Leg', 'bond', lambda j, old: ite(mine(j), Ref('Bond', z3.IntVal(0)), old))
    c.alloc['Leg'] = simp_id(f0 + Z(n))
    return FSeq(n, lambda k: Ref('Leg', simp_id(f0 + Z(k))), lambda x: (z3.And(f0 <= Z(x), Z(x) < f0 + Z(n)), simp(Z(x) - f0)), 'newlegs')


def letter(k):
    return loops.LetterOf(LETTERS, Z(k)) if not isinstance(k, int) else LETTERS[k]


def size_ok(c, a, shape):
    return npmodel.same_dims(c, a, shape) or npmodel.known_equal(c, c.prod(a), c.prod(shape)) or simp(Z(c.prod(a)) == Z(c.prod(shape)))


def seq_agree(c, s, t):
    return c.seqeq(s, t)


def settle(c, e, fixed=None):
    """legs, shape and labels that agree with everything given, or ValueError"""
    legs_, shape_, labels_, data = e['legs'], e['shape'], e['labels'], e['data']
    like = e.get('isTensorLike', e.get('tensorLikeFlag'))
    if legs_ is not None:
        L = legs_.seq
        if labels_ is not None and c.branch(neg(seq_agree(c, labels_.seq, names_of(c, L)))):
            raise_('ValueError')
        if shape_ is not None and c.branch(neg(seq_agree(c, shape_.seq, dims_of(c, L)))):
            raise_('ValueError')
        labels_ = names_of(c, L) if labels_ is None else labels_.seq
        shape_ = dims_of(c, L) if shape_ is None else shape_.seq
        if data is not None and c.branch(neg(size_ok(c, data.shape, shape_))):
            raise_('ValueError')
    elif shape_ is not None or data is not None:
        given = shape_
        shape_ = shape_.seq if shape_ is not None else data.shape
        if labels_ is not None and c.branch(neg(simp(Z(labels_.seq.n) == Z(shape_.n)))):
            raise_('ValueError')
        if labels_ is None:
            if c.branch(simp(Z(shape_.n) > 26)):
                raise_('AssertionError')
            labels_ = FSeq(shape_.n, letter) if not isinstance(shape_.n, int) else CSeq([LETTERS[i] for i in range(shape_.n)])
        else:
            labels_ = labels_.seq
        if given is not None and data is not None and c.branch(neg(size_ok(c, data.shape, shape_))):
            raise_('ValueError')
    elif like and labels_ is not None:
        raise Unsupported('data-free tensor of unknown dimensions')
    else:
        raise_('ValueError')
    return shape_, labels_


def build(c, e, owner, dtype):
    """(legs, shape, data) of a tensor built from the given pieces"""
    data, like = e['data'], e.get('isTensorLike', e.get('tensorLikeFlag'))
    shape_, labels_ = settle(c, e)
    if like:
        a = None
    elif data is None:
        fl = npmodel.f_issubdtype(c.interp, dtype, NPRef(('floating',)))
        a = AnyArr(shape_, DType('float64') if c.branch(fl) else None)
    else:
        a = npmodel.f_copy(c.interp, npmodel.reshape(c.interp, data, shape_))
    if e['legs'] is None:
        at = lambda s: lambda k: s.at(k)
        ls = new_legs(c, owner, at(labels_), at(shape_), shape_.n)
    else:
        ls = e['legs'].seq
        if isinstance(ls, CSeq):
            for l in ls.items:
                c.hset('Leg', 'tensor', l.id, owner)
        else:
            hfun(c, 'Leg', 'tensor', lambda j, old: ite(c.find(ls, Ref('Leg', j))[0], Ref('Tensor', Z(owner)), old))
    return ls, shape_, a


def pieces(c, has, n=None):
    """given pieces: legs, shape, labels, data as in has"""
    classes(c)
    i = z3.Int('i?')
    d = {}
    d['legs'] = Lst(legs(c, 'L')) if 'legs' in has else None
    if 'shape' in has:
        s = ints(c, 'sh')
        fact(c, z3.ForAll([i], s.at(i) >= 1, patterns=[s.at(i)]))
        d['shape'] = Tup(s)
    else:
        d['shape'] = None
    d['labels'] = Lst(strs(c, 'lab')) if 'labels' in has else None
    if d['labels'] is not None:
        x = d['labels'].seq
        fact(c, z3.ForAll([i], x.at(i) != NONESTR, patterns=[x.at(i)]))
    if 'data' in has:
        s = ints(c, 'da')
        fact(c, z3.ForAll([i], s.at(i) >= 1, patterns=[s.at(i)]))
        d['data'] = npmodel.fresh_array(c, 'data', s, DType('data.dtype'))
    else:
        d['data'] = None
    return d


def combos(like):
    r = []
    for k in range(16):
        has = [x for i, x in enumerate(('legs', 'shape', 'labels', 'data')) if k >> i & 1]
        if like and has == ['labels']:
            continue
        r.append(has)
    return r


def init_case(has, like):
    def f(c):
        d = pieces(c, has)
        self = Obj(klass(c, TENSOR), c.newid('Tensor'), {})
        d.update(self=self, degreeOfFreedom=Real('dof'), name=Str('nm'), diagonalFlag=False, tensorLikeFlag=like, dtype=DType('given.dtype'))
        return d
    return f


def okseq(v, what):
    return v is None or isinstance(v, (Lst, Tup)) and (what is None or v.seq.n == 0 if isinstance(v.seq.n, int) and v.seq.n == 0 else what(v.seq.at(0 if isinstance(v.seq.n, int) else z3.Int('k?'))))


def piece_types(c, e):
    return okseq(e['legs'], lambda x: isinstance(x, Ref)) and okseq(e['shape'], is_int) and okseq(e['labels'], is_str) and (e['data'] is None or isinstance(e['data'], NDArr)) \
        and (e['legs'] is None or prove(c, c.distinct(e['legs'].seq)))


def init_applies(c, e):
    return e['diagonalFlag'] is False and isinstance(e['tensorLikeFlag'], bool) and e['self'].cls.name == 'Tensor' and piece_types(c, e)


@contract(T + '__init__', ['C04', 'C10'], [(('data-free ' if like else '') + ('+'.join(h) or 'nothing'), init_case(h, like)) for like in (False, True) for h in combos(like)], applies=init_applies, partial=('self',), timeout=300)
def tensor_init(c, e):
    """the tensor agrees with every piece given and owns its legs, its data are a copy (row-major reshaped); ValueError for contradicting or insufficient pieces"""
    self = e['self']
    dt = e['dtype'] if e['data'] is None else e['data'].dtype
    ls, shape_, a = build(c, e, self, dt)
    self.fields.update(dtype=dt, tensorLikeFlag=e['tensorLikeFlag'], diagonalFlag=False, degreeOfFreedom=e['degreeOfFreedom'], name=e['name'], legs=Lst(ls), a=a)


@contract(T + 'generateLabels', ['C04'], [('any', lambda c: (c.assume(Int('n') >= 0), dict(self=tensor(c), n=Int('n')))[1])], applies=lambda c, e: is_int(e['n']) and prove(c, Z(e['n']) >= 0))
def generateLabels(c, e):
    n = e['n']
    if c.branch(simp(Z(n) > 26)):
        raise_('AssertionError')
    return Lst(CSeq([LETTERS[i] for i in range(n)]) if isinstance(n, int) else FSeq(n, letter))
