"""Contracts assumed for numpy: arrays of symbolic rank as element functions.

Array entries are expressions (Scal); an array that was reshaped by grouping contiguous axes keeps
the ungrouped array and its groups, so that reshape is the identity on multi-indices.
"""
import ast
import z3
from values import *
from engine import *
from seqs import subst, subst_seq, K0

ASSUMED = 'numpy: copy/reshape/ravel/moveaxis/matmul/outer/einsum/sum/zeros/diag_indices behave as documented (C-order multi-index semantics); floating-point arithmetic is treated as exact'


class DType:
    def __init__(self, tok):
        self.tok = tok

    def __repr__(self):
        return 'DType(%s)' % (self.tok,)


class NPScal:
    """scalar entry taken out of an array"""
    def __init__(self, s, dtype=None):
        self.s, self.dtype = s, dtype


class Grouped(NDArr):
    """base array with contiguous axes merged; groups: list of ('g', Seq) one merged axis / ('s', Seq) axes kept"""
    def __init__(self, c, base, groups):
        self.base, self.groups, self.c = base, groups, c
        sh = CSeq([])
        for kind, s in groups:
            sh = cat(sh, CSeq([c.prod(s)]) if kind == 'g' else s)
        NDArr.__init__(self, sh, self.get, base.dtype)

    def get(self, idx):
        c = self.c

        def full(j):
            # axis j of the base array
            off, goff, res = 0, 0, None
            out = []
            for kind, s in self.groups:
                if kind == 's':
                    out.append((off, s.n, (lambda off, goff: lambda j: idx(simp(add(goff, sub(j, off)))))(off, goff)))
                    goff = simp(add(goff, s.n))
                else:
                    out.append((off, s.n, (lambda off, goff, s: lambda j: c.unravel(s, idx(goff), simp(sub(j, off))))(off, goff, s)))
                    goff = simp(add(goff, 1))
                off = simp(add(off, s.n))
            out = [o for o in out if not (isinstance(o[1], int) and o[1] == 0)]
            r = out[-1][2](j)
            for o, n, f in reversed(out[:-1]):
                r = ite(simp(Z(j) < Z(add(o, n))), f(j), r)
            return r
        return self.base.elem(full)


def unravel(self, seg, flat_index, axis):
    """digit `axis` of a flat C-order index into a block of dimensions seg"""
    if isinstance(seg.n, int) and seg.n == 1:
        return flat_index
    t = self.prod(seg)
    f = z3.Function('unravel', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    self.inexact.add('unravel')
    tt = Z(t)
    return f(Z(seg.n), tt, Z(flat_index), Z(axis))


Ctx.unravel = unravel


def dims(a):
    return a.shape


def ungroup(a):
    return a.base if isinstance(a, Grouped) else a


def fresh_array(c, name, shape, dtype):
    c.bases[name] = b = Base(name, shape.n)
    return NDArr(shape, lambda f: SElem(b, f), dtype)


def prom(a, b):
    if dtype_tok(a) == dtype_tok(b):
        return a
    x, y = sorted([str(dtype_tok(a)), str(dtype_tok(b))])
    return DType(('promote', x, y))


def dtype_tok(d):
    return d.tok if isinstance(d, DType) else d


def dtype_eq(a, b):
    ta, tb = dtype_tok(a), dtype_tok(b)
    if isinstance(a, NPRef):
        ta = a.path[-1]
    if isinstance(b, NPRef):
        tb = b.path[-1]
    return ta == tb


# ------------------------------------------------------------------ attributes
def attr(ip, path):
    if path[-1] in ('float64', 'complex128', 'float32', 'complex64', 'float16', 'float128', 'complex256'):
        return DType(path[-1])
    return NPRef(path)


def getattr(ip, o, name):
    c = ip.c
    if isinstance(o, NDArr):
        if name == 'shape':
            return Tup(o.shape)
        if name == 'dtype':
            return o.dtype
        if name == 'ndim':
            return o.shape.n
        if name == 'T':
            return transpose(ip, o)
        if name in ('reshape', 'copy', 'sum', 'ravel', 'flatten', 'conj'):
            def m(self, *args, **kw):
                args = list(args)
                if name == 'reshape' and len(args) > 1:
                    args = [Tup(CSeq(args))]
                return call(ip, ({'conj': 'conjugate', 'flatten': 'ravel'}.get(name, name),), [o] + args, kw)
            return m
    if isinstance(o, DType):
        if name == 'itemsize':
            f = z3.Int('itemsize.%s' % (o.tok,))
            return f
        if name == 'type':
            return o
    raise Unsupported('attribute %s of an array' % name)


# ------------------------------------------------------------------ calls
def call(ip, path, args, kw):
    c = ip.c
    c.assumed.add(ASSUMED)
    name = '.'.join(path)
    f = FUNCS.get(name)
    if f is None:
        raise Unsupported('numpy.%s' % name)
    return f(ip, *args, **kw)


def num(x):
    if isinstance(x, NPScal):
        return x.s
    if isinstance(x, Scal):
        return x
    return SNum(x)


def asarr(ip, x):
    if isinstance(x, NDArr):
        return x
    if isinstance(x, NPScal):
        return NDArr(CSeq([]), lambda f: x.s, x.dtype or DType('float64'))
    if is_int(x) or is_real(x):
        return NDArr(CSeq([]), lambda f: SNum(x), DType('float64' if is_real(x) else 'int64'))
    raise Unsupported('array from %r' % (x,))


def f_copy(ip, a):
    a = asarr(ip, a)
    if isinstance(a, Reshaped):
        return Reshaped(a.src, a.shape)
    r = Grouped(ip.c, a.base, a.groups) if isinstance(a, Grouped) else NDArr(a.shape, a.elem, a.dtype)
    return r


def view(r, a):
    """r may share memory with a"""
    if r is not a and isinstance(r, NDArr):
        r.viewof = root(a)
        root(a).viewed = True
    return r


def root(a):
    return a.viewof if hasattr(a, 'viewof') else a


def f_array(ip, x, dtype=None):
    if isinstance(x, (Lst, Tup)):
        s = x.seq
        if not isinstance(s, CSeq):
            e = s.at(K0)
            if is_int(e) or is_real(e):
                return NDArr(CSeq([s.n]), lambda f: SNum(s.at(f(0))), DType('float64'))
            raise Unsupported('array of a symbolic list')
        rows = [f_array(ip, y) for y in s.items]
        if not rows:
            raise Unsupported('empty array')
        n = len(rows)

        def elem(f):
            i = simp(f(0))
            g = lambda k: f(simp(add(k, 1)))
            if isinstance(i, int):
                return rows[i].elem(g)
            r = rows[-1].elem(g)
            for q in range(n - 2, -1, -1):
                r = SIte(simp(Z(i) == q), rows[q].elem(g), r)
            return r
        return NDArr(cat(CSeq([n]), rows[0].shape), elem, rows[0].dtype)
    return asarr(ip, x)


def shape_seq(ip, shape):
    if isinstance(shape, (Tup, Lst)):
        return shape.seq
    if is_int(shape):
        return CSeq([shape])
    raise Unsupported('array shape %r' % (shape,))


def tok(dtype, default='float64'):
    if dtype is None:
        return DType(default)
    return dtype if isinstance(dtype, DType) else DType(str(dtype))


def f_zeros(ip, shape, dtype=None):
    return NDArr(shape_seq(ip, shape), lambda f: SNum(0), tok(dtype))


def f_ones(ip, shape, dtype=None):
    return NDArr(shape_seq(ip, shape), lambda f: SNum(1), tok(dtype))


def f_random_sample(ip, shape):
    c = ip.c
    return fresh_array(c, c.name('random'), shape_seq(ip, shape), DType('float64'))


def f_issubdtype(ip, d, kind):
    t = dtype_tok(d)
    k = kind.path[-1]
    if isinstance(t, str) and not t.startswith('?'):
        if k == 'floating':
            return t.startswith('float')
        if k == 'complexfloating':
            return t.startswith('complex')
    return z3.Bool('dtype %s is %s' % (t, k))


def f_reshape(ip, a, shape):
    return view(reshape(ip, a, shape_seq(ip, shape)), a)


def known_equal(c, a, b):
    """a == b, using pointwise equality of products"""
    f = simp(Z(a) == Z(b))
    if f is True:
        return True
    if f is False:
        return False
    if c.valid(f, 1500):
        return True
    g = c.fold_lemmas([f])
    if not g:
        return False
    return c.check(g + [z3.Not(Z(f))], 2000) == z3.unsat


def same_dims(c, s, t):
    if s is t:
        return True
    if isinstance(s.n, int) and isinstance(t.n, int) and s.n != t.n:
        return False
    if not c.valid(simp(Z(s.n) == Z(t.n)), 1500):
        return False
    return c.valid(forall(t.n if isinstance(t.n, int) else s.n, lambda i: eqterm(s.at(i), t.at(i))), 2500)


def reshape(ip, a, T):
    c = ip.c
    a = asarr(ip, a)
    if same_dims(c, a.shape, T):
        return a
    base = ungroup(a)
    S = flat(base.shape)
    Tp = []
    for p in flat(T):
        if isinstance(p, CSeq):
            Tp += [('g', x) for x in p.items]
        else:
            Tp.append(('s', p))
    # an automatic axis takes what the others leave
    auto = [i for i, (k, x) in enumerate(Tp) if k == 'g' and not isz(x) and x == -1]
    if len(auto) > 1:
        raise PyRaise('ValueError')
    Sp = []
    for p in S:
        if isinstance(p, CSeq):
            Sp += [CSeq([x]) for x in p.items]
        else:
            Sp.append(p)

    def match(tp, sp):
        """groups for the target parts tp from the source parts sp (left to right), or None"""
        if not tp:
            left = [p for p in sp if not (isinstance(p.n, int) and p.n == 0)]
            return ([], left)
        kind, x = tp[0]
        if kind == 's':
            if isinstance(x.n, int) and x.n == 0 or c.valid(Z(x.n) == 0, 300):
                r = match(tp[1:], sp)
                return r and ([('s', CSeq([]))] + r[0], r[1])
            for j in range(len(sp) + 1):
                seg = join(sp[:j])
                if same_dims(c, seg, x):
                    r = match(tp[1:], sp[j:])
                    if r is not None:
                        return ([('s', seg)] + r[0], r[1])
            return None
        for j in range(len(sp) + 1):
            seg = join(sp[:j])
            if known_equal(c, x, c.prod(seg)):
                r = match(tp[1:], sp[j:])
                if r is not None and not r[1]:
                    return ([('g', seg)] + r[0], r[1])
        return None
    if auto:
        i = auto[0]
        left = match(Tp[:i], Sp)
        if left is None:
            raise Unsupported('reshape')
        rest = left[1]
        # match the right part from the end
        for j in range(len(rest), -1, -1):
            r = match(Tp[i + 1:], rest[j:])
            if r is not None and not r[1]:
                return Grouped(c, base, left[0] + [('g', join(rest[:j]))] + r[0])
        raise Unsupported('reshape with an automatic axis')
    r = match(Tp, Sp)
    if r is None or r[1]:
        segs = prod_parts(c, Tp)
        if segs is not None and same_dims(c, base.shape, join([x for k, x in segs])):
            r = (segs, [])
    if r is None or r[1]:
        # product of dimensions equal: row-major regrouping, kept symbolic
        if known_equal(c, c.prod(a.shape), c.prod(T)):
            return Reshaped(a, T)
        raise Unsupported('reshape that is no grouping of contiguous axes')
    groups = r[0]
    if all(k == 's' or (isinstance(s.n, int) and s.n == 1) for k, s in groups):
        return NDArr(base.shape, base.elem, base.dtype)
    return Grouped(c, base, groups)


def prod_parts(c, Tp):
    """target axes that are products of known sequences, as groups"""
    out = []
    for k, x in Tp:
        if k == 's':
            out.append((k, x))
        elif isz(x) and z3.is_app(x) and x.decl().name() in c.foldnames and c.foldnames[x.decl().name()][3] == 'prod':
            out.append(('g', c.foldseq(x)))
        else:
            out.append(('g', CSeq([x])))
    return out


class Reshaped(NDArr):
    """row-major reshape to unrelated dimensions of the same total size (entries only compared structurally)"""
    def __init__(self, src, T):
        def elem(f):
            raise Unsupported('entry of a reshaped array')
        NDArr.__init__(self, T, elem, src.dtype)
        self.src = src


def join(ps):
    r = CSeq([])
    for p in ps:
        r = cat(r, p)
    return r


def f_ravel(ip, a):
    return view(Grouped(ip.c, ungroup(a), [('g', ungroup(a).shape)]), a)


def all_distinct(c, s):
    """the elements of s differ, shown part by part"""
    if c.valid_focused(c.distinct(s)):
        return True
    if not isinstance(s, Cat):
        return False
    ps = s.parts
    for i, p in enumerate(ps):
        if not c.valid_focused(c.distinct(p)):
            return False
        for q in ps[i + 1:]:
            if not c.valid_focused(forall(p.n, lambda x: forall(q.n, lambda y: simp(Z(p.at(x)) != Z(q.at(y)))))):
                return False
    return True


def f_moveaxis(ip, a, src, dst):
    c = ip.c
    if is_int(src):
        src, dst = Lst(CSeq([src])), Lst(CSeq([dst]))
    src, dst = src.seq, dst.seq
    m, rank = src.n, a.shape.n
    if not c.branch(simp(Z(m) == Z(dst.n))):
        raise PyRaise('ValueError')
    ok = conj([forall(m, lambda i: simp(z3.And(0 <= Z(src.at(i)), Z(src.at(i)) < Z(rank)))), c.distinct(src)])
    if not (ok is True or c.valid(ok, 4000)):
        rng = [c.valid_focused(forall(p.n, lambda i, p=p: simp(z3.And(0 <= Z(p.at(i)), Z(p.at(i)) < Z(rank))))) for p in (src.parts if isinstance(src, Cat) else [src])]
        if not (all(rng) and all_distinct(c, src)):
            raise Unsupported('moveaxis: source axes')
    if not c.valid(forall(m, lambda i: simp(Z(dst.at(i)) == Z(i))), 3000):
        raise Unsupported('moveaxis: target axes are not the first ones')
    return view(perm_front(ip, a, src), a)


def perm_front(ip, a, src):
    """axes src (distinct) first, the others behind in their order"""
    c = ip.c
    rank = a.shape.n
    rest = c.filt(srange(0, rank), lambda k: neg(c.member(k, src)))
    m = src.n
    shape = cat(smap(src, lambda x: a.shape.at(x)), smap(rest, lambda x: a.shape.at(x)))

    def elem(idx):
        def g(j):
            f = c.find(src, j, True)
            if isinstance(rest.n, int) and rest.n == 0:
                return idx(f[1])
            h = c.find(rest, j, True)
            return ite(f[0], idx(f[1]), idx(simp(add(m, h[1]))))
        return a.elem(g)
    return NDArr(shape, elem, a.dtype)


def transpose(ip, a):
    n = a.shape.n
    return view(NDArr(ip.slice(a.shape, slice(None, None, -1)), lambda f: a.elem(lambda j: f(simp(sub(sub(n, 1), j)))), a.dtype), a)


def f_matmul(ip, a, b):
    c = ip.c
    if isinstance(a.shape.n, int) and isinstance(b.shape.n, int) and a.shape.n == 2 and b.shape.n == 2:
        if not c.branch(known_equal(c, a.shape.at(1), b.shape.at(0)) or simp(Z(a.shape.at(1)) == Z(b.shape.at(0)))):
            raise PyRaise('ValueError')
        for x, y, k in ((a, b, 0), (b, a, 1)):
            d = x.__dict__.get('diag')
            if d is not None and x.elem is x.diag_elem and not isinstance(y, Grouped):
                # only one summand is not zero
                c.assumed.add('lemma: a sum over a Kronecker delta is its one summand')
                return NDArr(y.shape, lambda f: SOp('*', [d.elem(lambda j: f(k)), y.elem(f)]) if k == 0 else SOp('*', [y.elem(f), d.elem(lambda j: f(k))]), prom(a.dtype, b.dtype))
        ga = a.groups if isinstance(a, Grouped) else None
        gb = b.groups if isinstance(b, Grouped) else None
        A = split2(a)
        B = split2(b)
        ra, ca = A[1]
        rb, cb = B[1]
        if not same_dims(c, ca, rb):
            if isinstance(a, Grouped) or isinstance(b, Grouped):
                # contracted axes grouped differently
                raise Unsupported('matmul of differently grouped axes')
        c.assumed.add('lemma: the sum over a flat index equals the sum over the multi-indices of the grouped axes')
        n1, n2 = ra.n, ca.n

        def elem(idx):
            def body(s):
                fa = lambda j: ite(simp(Z(j) < Z(n1)), idx(j), s(simp(sub(j, n1)))) if not zero(n1) else s(j)
                if zero(n2):
                    fa = idx
                fb = lambda j: ite(simp(Z(j) < Z(n2)), s(j), idx(simp(add(n1, sub(j, n2))))) if not zero(n2) else idx(simp(add(n1, j)))
                return SOp('*', [A[0].elem(fa), B[0].elem(fb)])
            return SSum(ca, body)
        base = NDArr(cat(ra, cb), elem, prom(a.dtype, b.dtype))
        if ga is None and gb is None:
            return base
        return Grouped(c, base, [('g', ra), ('g', cb)])
    raise Unsupported('matmul of non-matrices')


def zero(n):
    return isinstance(n, int) and n == 0


def split2(a):
    """2-d array -> (ungrouped array, (row dims, column dims))"""
    if isinstance(a, Grouped):
        gs = [s for k, s in a.groups if k == 'g' or not zero(s.n)]
        if len(gs) == 2:
            return a.base, (gs[0], gs[1])
        if len(a.groups) == 2:
            return a.base, (a.groups[0][1], a.groups[1][1])
        raise Unsupported('matrix with unclear groups')
    return a, (CSeq([a.shape.at(0)]), CSeq([a.shape.at(1)]))


def f_outer(ip, a, b):
    a, b = asarr(ip, a), asarr(ip, b)
    n = a.shape.n
    return NDArr(cat(a.shape, b.shape), lambda f: SOp('*', [a.elem(f), b.elem(lambda j: f(simp(add(n, j))))]), prom(a.dtype, b.dtype))


def f_sum(ip, a, axis=None):
    c = ip.c
    if axis is None:
        base = ungroup(a)
        return NDArr(CSeq([]), lambda f: SSum(base.shape, lambda s: base.elem(s)), a.dtype)
    if not isinstance(a, NDArr):
        raise Unsupported('sum of %r' % (a,))
    axis = ip.normindex(axis, a.shape.n)
    rest = cat(ip.slice(a.shape, slice(0, axis)), ip.slice(a.shape, slice(simp(add(axis, 1)), None)))
    d = a.shape.at(axis)

    def elem(idx):
        return SSum(CSeq([d]), lambda s: a.elem(lambda j: skip(j, axis, idx, s(0))))
    return NDArr(rest, elem, a.dtype)


def skip(j, axis, idx, v):
    """multi-index with v inserted at position axis"""
    if isinstance(j, int) and isinstance(axis, int):
        return idx(j) if j < axis else (v if j == axis else idx(j - 1))
    r = idx(simp(sub(j, 1)))
    r = ite(simp(Z(j) == Z(axis)), v, r)
    return ite(simp(Z(j) < Z(axis)), idx(j), r)


class DiagIdx:
    def __init__(self, n, ndim):
        self.n, self.ndim = n, ndim


def f_diag_indices(ip, n, ndim=2):
    return DiagIdx(n, ndim)


def diag_get(ip, a, d):
    c = ip.c
    if not c.valid(simp(Z(d.ndim) == Z(a.shape.n))):
        raise Unsupported('diag_indices of another rank')
    if not c.valid(forall(a.shape.n, lambda i: simp(Z(a.shape.at(i)) >= Z(d.n)))):
        raise Unsupported('diag_indices beyond the array')
    return NDArr(CSeq([d.n]), lambda f: a.elem(lambda j: f(0)), a.dtype)


class EinView(NDArr):
    """writable view: einsum of a diagonal"""


def f_einsum(ip, sub_, *ops):
    c = ip.c
    parts = sub_.parts if isinstance(sub_, SPat) else [sub_]
    pat = parse_einsum(parts)
    if pat is None:
        raise Unsupported('einsum pattern')
    kind, n = pat
    if kind == 'letters':
        return einsum_letters(ip, n, ops)
    a = ops[0]
    if len(ops) != 1:
        raise Unsupported('einsum operands')
    rank = a.shape.n
    if not c.branch(simp(Z(rank) >= Z(n))):
        raise PyRaise('ValueError')
    r = simp(sub(rank, n))
    if kind == 'last':           # '...' + 'j'*n + '->...j'
        if not isinstance(n, int) and not c.valid(Z(n) >= 1):
            raise Unsupported('einsum diagonal of no axes')
        front = ip.slice(a.shape, slice(0, r))
        back = ip.slice(a.shape, slice(r, None))
        d = back.at(0)
        eq = forall(n, lambda i: eqterm(back.at(i), d))
        if not c.branch(eq if isinstance(eq, bool) else (True if c.valid(eq) else eq)):
            raise PyRaise('ValueError')
        v = EinView(cat(front, CSeq([d])), lambda f: a.elem(lambda j: ite(simp(Z(j) < Z(r)), f(j), f(r))), a.dtype)
    else:                         # 'j'*n + '...->j...'
        front = ip.slice(a.shape, slice(0, n))
        back = ip.slice(a.shape, slice(n, None))
        d = front.at(0)
        eq = forall(n, lambda i: eqterm(front.at(i), d))
        if not c.branch(eq if isinstance(eq, bool) else (True if c.valid(eq) else eq)):
            raise PyRaise('ValueError')
        v = EinView(cat(CSeq([d]), back), lambda f: a.elem(lambda j: ite(simp(Z(j) < Z(n)), f(0), f(simp(add(1, sub(j, n)))))), a.dtype)
    v.view = (a, kind, n, r)
    return v


def parse_einsum(parts):
    """(kind, number of repeated axes)"""
    if len(parts) == 1 and isinstance(parts[0], str):
        s = parts[0]
        for n in range(1, 12):
            if s == '...' + 'j' * n + '->...j':
                return 'last', n
            if s == 'j' * n + '...->j...':
                return 'first', n
        return None
    if len(parts) == 3 and parts[0] == '...' and isinstance(parts[1], tuple) and parts[1][0] == 'rep' and len(parts[1][1]) == 1 and parts[2] == '->...' + parts[1][1]:
        return 'last', parts[1][2]
    if len(parts) == 2 and isinstance(parts[0], tuple) and parts[0][0] == 'rep' and len(parts[0][1]) == 1 and parts[1] == '...->' + parts[0][1] + '...':
        return 'first', parts[0][2]
    if len(parts) == 3 and isinstance(parts[0], tuple) and parts[0][0] == 'letters' and isinstance(parts[1], str) and len(parts[1]) == 4 and parts[1][0] == ',' and parts[1][2:] == '->' and isinstance(parts[2], tuple) and parts[2][0] == 'letters':
        return 'letters', (parts[0][1], parts[1][1], parts[2][1])
    return None


def einsum_letters(ip, n, ops):
    """<letters>,w-><letters without w>: weighted sum over the axis that carries w"""
    c = ip.c
    ins, w, outs = n
    wi = 'abcdefghijklmnopqrstuvwxyz'.index(w)
    a, wt = ops
    if not c.valid(simp(Z(ins.n) == Z(a.shape.n))):
        raise Unsupported('einsum: number of letters')
    wt = asarr(ip, wt)
    if not (isinstance(wt.shape.n, int) and wt.shape.n == 1):
        raise Unsupported('einsum weights')
    f = c.find(ins, wi, True)
    if not c.valid(f[0]):
        raise Unsupported('einsum: weight letter')
    if not (lambda d: d is True or c.valid(d))(c.distinct(ins)):
        raise Unsupported('einsum: repeated letters')
    axis = None
    for i, p in enumerate([f[1]]):
        axis = p
    rest = c.filt(ins, lambda k: neg(eqterm(ins.at(k), wi)))
    if not same_dims(c, rest, outs):
        raise Unsupported('einsum: output letters')
    d = a.shape.at(axis)
    wd = wt.shape.at(0)
    one = simp(Z(wd) == 1)
    if not c.branch(simp(Z(wd) == Z(d))):
        raise PyRaise('ValueError')
    shape = cat(ip.slice(a.shape, slice(0, axis)), ip.slice(a.shape, slice(simp(add(axis, 1)), None)))
    # outs[j] is the letter at position j (before axis) or j + 1
    ok = forall(outs.n, lambda j: eqterm(outs.at(j), ins.at(simp(z3.If(Z(j) < Z(axis), Z(j), Z(j) + 1)))))
    if not (ok is True or c.valid(ok, 4000)):
        raise Unsupported('einsum: order of the output letters')
    return NDArr(shape, lambda idx: SSum(CSeq([d]), lambda s: SOp('*', [a.elem(lambda j: skip(j, axis, idx, s(0))), wt.elem(lambda j: s(0))])), prom(a.dtype, wt.dtype))


def f_norm(ip, a):
    return NPScal(SOp('norm', [ArrVal(a)]))


class ArrVal(Scal):
    def __init__(self, a):
        self.a = a


def f_trace(ip, a):
    c = ip.c
    if not (isinstance(a.shape.n, int) and a.shape.n == 2):
        raise Unsupported('trace')
    return NPScal(SSum(CSeq([a.shape.at(0)]), lambda s: a.elem(lambda j: s(0))), a.dtype)


REALUF = {}


def ufun(ip, name, args):
    c = ip.c
    x = args[0]
    if isinstance(x, NDArr):
        return NDArr(x.shape, lambda f: sfun(name, x.elem(f)), x.dtype)
    if isinstance(x, NPScal):
        return NPScal(sfun(name, x.s), x.dtype)
    return rfun(c, name, x)


def rfun(c, name, x):
    z = Z(x)
    z = z3.ToReal(z) if z.sort() == z3.IntSort() else z
    f = z3.Function(name, z3.RealSort(), z3.RealSort())
    c.inexact.add(name)
    return f(z3.simplify(z, som=True))


def sfun(name, s):
    if isinstance(s, SIte):
        return SIte(s.c, sfun(name, s.a), sfun(name, s.b))
    return SOp(name, [s])


def mk_u(name):
    return lambda ip, x: ufun(ip, name, [x])


def f_svd(ip, a):
    c = ip.c
    m, n = a.shape.at(0), a.shape.at(1)
    k = simp(z3.If(Z(m) <= Z(n), Z(m), Z(n)))
    memo = c.__dict__.setdefault('svds', [])
    for a0, u, s, v in memo:
        # the same factors for the same matrix
        if a0 is a:
            return Tup(CSeq([u, s, v]))
    nm = 'svd%d' % len(memo)
    u = fresh_array(c, nm + '.u', CSeq([m, m]), a.dtype)
    s = fresh_array(c, nm + '.s', CSeq([k]), DType('float64'))
    v = fresh_array(c, nm + '.v', CSeq([n, n]), a.dtype)
    memo.append((a, u, s, v))
    return Tup(CSeq([u, s, v]))


def f_diag(ip, a):
    d = a.shape.at(0)
    r = NDArr(CSeq([d, d]), lambda f: SIte(eqterm(f(0), f(1)), a.elem(f), SNum(0)), a.dtype)
    r.diag = NDArr(a.shape, a.elem, a.dtype)
    r.diag_elem = r.elem
    return r


def f_tensordot(ip, a, b, axes):
    c = ip.c
    if isinstance(axes, Tup) and isinstance(axes.seq, CSeq) and all(isinstance(x, int) for x in axes.seq.items):
        i, j = axes.seq.items
        sa = cat(ip.slice(a.shape, slice(0, i)), ip.slice(a.shape, slice(i + 1, None)))
        sb = cat(ip.slice(b.shape, slice(0, j)), ip.slice(b.shape, slice(j + 1, None)))
        if not c.branch(simp(Z(a.shape.at(i)) == Z(b.shape.at(j)))):
            raise PyRaise('ValueError')
        d = a.shape.at(i)
        na = sa.n
        return NDArr(cat(sa, sb), lambda idx: SSum(CSeq([d]), lambda s: SOp('*', [a.elem(lambda q: skip(q, i, idx, s(0))), b.elem(lambda q: skip(q, j, lambda r: idx(simp(add(na, r))), s(0)))])), prom(a.dtype, b.dtype))
    raise Unsupported('tensordot axes')


def f_transpose(ip, a):
    return transpose(ip, a)


FUNCS = {'copy': f_copy, 'array': f_array, 'zeros': f_zeros, 'ones': f_ones, 'random.random_sample': f_random_sample, 'issubdtype': f_issubdtype,
         'reshape': f_reshape, 'ravel': f_ravel, 'moveaxis': f_moveaxis, 'matmul': f_matmul, 'multiply.outer': f_outer, 'sum': f_sum,
         'diag_indices': f_diag_indices, 'einsum': f_einsum, 'linalg.norm': f_norm, 'trace': f_trace, 'linalg.svd': f_svd, 'diag': f_diag,
         'tensordot': f_tensordot, 'transpose': f_transpose}
for n in ('exp', 'sqrt', 'cosh', 'sinh', 'log', 'conjugate', 'abs', 'tanh'):
    FUNCS[n] = mk_u(n)


# ------------------------------------------------------------------ items
def getitem(ip, a, k):
    c = ip.c
    if isinstance(k, DiagIdx):
        return diag_get(ip, a, k)
    if k is Ellipsis:
        return a
    if isinstance(k, slice):
        k = Tup(CSeq([k]))
    if is_int(k):
        k = Tup(CSeq([k]))
    if isinstance(k, Tup) and isinstance(k.seq, CSeq):
        ks = k.seq.items
        n = len(ks)
        if n == 0:
            return NPScal(a.elem(None), a.dtype)
        if not c.valid(simp(Z(a.shape.n) >= n)):
            raise Unsupported('index of an array of unknown rank')
        shape, maps = [], []
        for q, x in enumerate(ks):
            d = a.shape.at(q)
            if isinstance(x, slice):
                s = ip.slice(srange(0, d), x)
                shape.append(s.n)
                maps.append(('s', s))
            elif is_int(x):
                maps.append(('i', ip.normindex(x, d)))
            else:
                raise Unsupported('array index %r' % (x,))
        kept = [q for q, (t, _) in enumerate(maps) if t == 's']
        rest = ip.slice(a.shape, slice(n, None))
        if zero(rest.n) and not kept:
            v = simplify_scal(c, a.elem(lambda j: pick([m[1] for m in maps], j)))
            return v.v if isinstance(v, SNum) else NPScal(v, a.dtype)

        def elem(f):
            vals = []
            for q, (t, m) in enumerate(maps):
                vals.append(m.at(f(kept.index(q))) if t == 's' else m)

            def g(j):
                if isinstance(j, int) and j < n:
                    return vals[j]
                r = f(simp(add(sub(j, n), len(kept)))) if not zero(rest.n) else None
                for q in range(n - 1, -1, -1):
                    r = vals[q] if r is None else ite(simp(Z(j) == q), vals[q], r)
                return r
            return a.elem(g)
        return view(NDArr(cat(CSeq(shape), rest), elem, a.dtype), a)
    raise Unsupported('array index %r' % (k,))


def pick(vals, j):
    j = simp(j)
    if not vals:
        return 0
    if isinstance(j, int):
        return vals[j]
    r = vals[-1]
    for q in range(len(vals) - 2, -1, -1):
        r = ite(simp(Z(j) == q), vals[q], r)
    return r


def simplify_scal(c, s):
    while isinstance(s, SIte):
        t = simp(s.c)
        if t is True:
            s = s.a
        elif t is False:
            s = s.b
        elif c.valid(t, 500):
            s = s.a
        elif c.valid(neg(t), 500):
            s = s.b
        else:
            return s
    return s


def writable(a):
    if isinstance(a, Grouped):
        raise Unsupported('write into a reshaped array')
    if hasattr(a, 'viewof') or hasattr(a, 'viewed'):
        raise Unsupported('write into an array that may share memory')


def setitem(ip, a, k, v):
    c = ip.c
    if not isinstance(a, EinView):
        writable(a)
    old = a.elem
    if isinstance(a, EinView):
        src, kind, n, r = a.view
        if k is not Ellipsis:
            raise Unsupported('write into a view')
        v = asarr(ip, v)
        if not same_dims(c, v.shape, a.shape):
            raise Unsupported('broadcast into a view')
        so = src.elem
        if kind == 'last':
            on = lambda f: forall(n, lambda i: eqterm(f(simp(add(r, i))), f(r)))
            src.elem = lambda f: SIte(on(f), v.elem(lambda j: ite(simp(Z(j) < Z(r)), f(j), f(r))), so(f))
        else:
            on = lambda f: forall(n, lambda i: eqterm(f(i), f(0)))
            src.elem = lambda f: SIte(on(f), v.elem(lambda j: ite(simp(Z(j) < 1), f(0), f(simp(add(n, sub(j, 1)))))), so(f))
        return
    if isinstance(k, DiagIdx):
        if not c.valid(simp(Z(k.ndim) == Z(a.shape.n))):
            raise Unsupported('diag_indices of another rank')
        if not c.valid(forall(a.shape.n, lambda i: simp(Z(a.shape.at(i)) == Z(k.n)))):
            raise Unsupported('diag_indices of another dimension')
        on = lambda f: forall(a.shape.n, lambda i: eqterm(f(i), f(0)))
        if isinstance(v, NDArr):
            if not (isinstance(v.shape.n, int) and v.shape.n == 1 and c.valid(simp(Z(v.shape.at(0)) == Z(k.n)))):
                raise Unsupported('diagonal assigned from another shape')
            a.elem = lambda f: SIte(on(f), v.elem(lambda j: f(0)), old(f))
        else:
            a.elem = lambda f: SIte(on(f), num(v), old(f))
        return
    if isinstance(k, slice) and k.start is None and k.stop is None or k is Ellipsis:
        if isinstance(v, NDArr):
            if not same_dims(c, v.shape, a.shape):
                raise Unsupported('broadcast assignment')
            a.elem = v.elem
        else:
            a.elem = lambda f: num(v)
        return
    if is_int(k):
        k = Tup(CSeq([k]))
    if isinstance(k, Tup) and isinstance(k.seq, CSeq) and all(is_int(x) for x in k.seq.items) and isinstance(a.shape.n, int) and a.shape.n == k.seq.n:
        ks = [ip.normindex(x, a.shape.at(q)) for q, x in enumerate(k.seq.items)]
        nv = num(v)

        def elem(f):
            t = conj([eqterm(f(q), x) for q, x in enumerate(ks)])
            if t is True:
                return nv
            if t is False:
                return old(f)
            return SIte(t, nv, old(f))
        a.elem = elem
        return
    raise Unsupported('array assignment')


def rows(ip, a):
    raise Unsupported('iteration over an array')


# ------------------------------------------------------------------ arithmetic
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}


def binop(ip, op, a, b):
    c = ip.c
    if op is ast.MatMult:
        return f_matmul(ip, a, b)
    o = OPS.get(op)
    if o is None:
        raise Unsupported('array operator')
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        a2 = a if isinstance(a, NDArr) else b
        if isinstance(a2, NDArr):
            return fresh_array(c, c.name('opaque'), a2.shape, DType('complex128'))
        return Opaque('op')
    if not isinstance(a, NDArr) and not isinstance(b, NDArr):
        return NPScal(SOp(o, [num(a), num(b)]), getattr_dtype(a, b))
    if not isinstance(a, NDArr):
        return NDArr(b.shape, lambda f: SOp(o, [num(a), b.elem(f)]), b.dtype)
    if not isinstance(b, NDArr):
        return NDArr(a.shape, lambda f: SOp(o, [a.elem(f), num(b)]), a.dtype)
    return broadcast(ip, o, a, b)


def getattr_dtype(a, b):
    for x in (a, b):
        if isinstance(x, (NPScal, NDArr)):
            return x.dtype
    return DType('float64')


def broadcast(ip, o, a, b):
    c = ip.c
    d = prom(a.dtype, b.dtype)
    na, nb = a.shape.n, b.shape.n
    if zero(na):
        return NDArr(b.shape, lambda f: SOp(o, [a.elem(None), b.elem(f)]), d)
    if zero(nb):
        return NDArr(a.shape, lambda f: SOp(o, [a.elem(f), b.elem(None)]), d)
    if same_dims(c, a.shape, b.shape):
        if isinstance(a, Grouped) or isinstance(b, Grouped):
            pass
        return NDArr(a.shape, lambda f: SOp(o, [a.elem(f), b.elem(f)]), d)
    # the shorter shape is aligned at the end; equal dimensions required
    if isinstance(nb, int) and nb == 1 and c.valid(simp(Z(na) >= 1)):
        last = simp(sub(na, 1))
        if c.valid(simp(Z(a.shape.at(last)) == Z(b.shape.at(0)))):
            return NDArr(a.shape, lambda f: SOp(o, [a.elem(f), b.elem(lambda j: f(last))]), d)
        if not c.feasible(simp(Z(a.shape.at(last)) == Z(b.shape.at(0)))) and not c.feasible(z3.Or(Z(a.shape.at(last)) == 1, Z(b.shape.at(0)) == 1)):
            raise PyRaise('ValueError')
    raise Unsupported('broadcast')


def inplace(ip, cur, op, v):
    r = binop(ip, op, cur, v)
    writable(cur)
    if not same_dims(ip.c, r.shape, cur.shape):
        raise Unsupported('in-place broadcast')
    cur.elem = r.elem
    return cur


def unary(ip, o, a):
    return NDArr(a.shape, lambda f: SOp('neg', [a.elem(f)]), a.dtype)


def compare(ip, op, a, b):
    raise Unsupported('comparison of arrays')


# ------------------------------------------------------------------ equality of entries (as goals)
def scal_bases(s):
    if isinstance(s, SElem):
        return [s.base.name]
    if isinstance(s, SOp):
        return [x for a in s.args for x in scal_bases(a)]
    if isinstance(s, SIte):
        return scal_bases(s.a) + scal_bases(s.b)
    if isinstance(s, SNum):
        return ['0num']
    if isinstance(s, SSum):
        return scal_bases(s.body(lambda j: z3.IntVal(0)))
    return ['?']


def factors(s):
    if isinstance(s, SOp) and s.op == '*':
        return [f for a in s.args for f in factors(a)]
    return [s]


def to_num(c, s, elems=False):
    """numeric expression over SNum and + - * / and unary functions (and entries of arrays of fixed rank) as a z3 real, or None"""
    if elems and isinstance(s, SElem) and isinstance(s.base.rank, int):
        k = s.base.rank
        return z3.Function('entry.' + s.base.name, *([z3.IntSort()] * k + [z3.RealSort()]))(*[Z(s.idx(j)) for j in range(k)])
    if elems and isinstance(s, SOp) and len(s.args) == 1 and s.op == 'conjugate':
        x = to_num(c, s.args[0], elems)
        return None if x is None else rfun(c, 'conjugate', x)
    if elems and isinstance(s, SOp) and s.op == '**':
        x, y = [to_num(c, q, elems) for q in s.args]
        if x is None or y is None:
            return None
        c.inexact.add('power')
        return z3.Function('power', z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y)
    if isinstance(s, SNum):
        z = Z(s.v)
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z
    if isinstance(s, SOp):
        a = [to_num(c, x, elems) for x in s.args]
        if any(x is None for x in a):
            return None
        if s.op == '+':
            return a[0] + a[1]
        if s.op == '-':
            return a[0] - a[1]
        if s.op == '*':
            return a[0] * a[1]
        if s.op == '/':
            return a[0] / a[1]
        if s.op == 'neg':
            return -a[0]
        if len(a) == 1 and s.op in ('exp', 'sqrt', 'cosh', 'sinh', 'log', 'abs', 'tanh'):
            return rfun(c, s.op, a[0])
    if isinstance(s, SIte):
        a, b = to_num(c, s.a, elems), to_num(c, s.b, elems)
        if a is None or b is None:
            return None
        return z3.If(Z(s.c), a, b)
    if isinstance(s, SSum) and isinstance(s.dims, CSeq) and all(isinstance(d, int) and d <= 4 for d in s.dims.items) and s.dims.n <= 3:
        import itertools
        r = z3.RealVal(0)
        for t in itertools.product(*[range(d) for d in s.dims.items]):
            x = to_num(c, s.body(lambda j: pick(list(t), j)), elems)
            if x is None:
                return None
            r = r + x
        return r
    return None


def iszero(s):
    return isinstance(s, SNum) and not isz(s.v) and s.v == 0


def isone(s):
    return isinstance(s, SNum) and not isz(s.v) and s.v == 1


def scal_goal(c, a, b, depth=0):
    """formula (to be proved) that two entries are equal"""
    if depth > 30:
        raise Unsupported('entry too deep')
    if a is b:
        return True
    if isinstance(a, SIte):
        return conj([implies(a.c, scal_goal(c, a.a, b, depth + 1)), implies(neg(a.c), scal_goal(c, a.b, b, depth + 1))])
    if isinstance(b, SIte):
        return conj([implies(b.c, scal_goal(c, a, b.a, depth + 1)), implies(neg(b.c), scal_goal(c, a, b.b, depth + 1))])
    na, nb = to_num(c, a), to_num(c, b)
    if na is not None and nb is not None:
        return simp(na == nb)
    if isinstance(a, SElem) and isinstance(b, SElem):
        if a.base is not b.base and a.base.name != b.base.name:
            return False
        return forall(a.base.rank, lambda j: simp(Z(a.idx(j)) == Z(b.idx(j))))
    if isinstance(a, SSum) and not isinstance(b, SSum) or isinstance(b, SSum) and not isinstance(a, SSum):
        s, o = (a, b) if isinstance(a, SSum) else (b, a)
        # a sum over no axes or over one axis of dimension 1
        if zero(s.dims.n):
            return scal_goal(c, s.body(lambda j: z3.IntVal(0)), o, depth + 1)
        z = lambda j: z3.IntVal(0)
        return conj([forall(s.dims.n, lambda i: simp(Z(s.dims.at(i)) == 1)), scal_goal(c, s.body(z), o, depth + 1)])
    if isinstance(a, SSum) and isinstance(b, SSum):
        sf = z3.Function(c.name('s'), z3.IntSort(), z3.IntSort())
        s = lambda j: sf(Z(j))
        rng = forall(a.dims.n, lambda i: z3.And(0 <= sf(Z(i)), sf(Z(i)) < Z(a.dims.at(i))))
        return conj([simp(Z(a.dims.n) == Z(b.dims.n)), forall(a.dims.n, lambda i: simp(Z(a.dims.at(i)) == Z(b.dims.at(i)))),
                     implies(rng, scal_goal(c, a.body(s), b.body(s), depth + 1))])
    fa = [f for f in factors(a) if not isone(f)]
    fb = [f for f in factors(b) if not isone(f)]
    if len(fa) > 1 or len(fb) > 1:
        if len(fa) != len(fb):
            return numeric_goal(c, a, b)
        fa, fb = sorted(fa, key=scal_bases), sorted(fb, key=scal_bases)
        return conj([scal_goal(c, x, y, depth + 1) for x, y in zip(fa, fb)])
    if isinstance(a, SOp) and isinstance(b, SOp) and a.op == b.op and len(a.args) == len(b.args):
        g = conj([scal_goal(c, x, y, depth + 1) for x, y in zip(a.args, b.args)])
        return g
    if isinstance(a, ArrVal) and isinstance(b, ArrVal):
        return array_goal(c, a.a, b.a)
    if (a is not None and len(fa) == 1 and fa[0] is not a) or (len(fb) == 1 and fb[0] is not b):
        return scal_goal(c, fa[0] if fa else SNum(1), fb[0] if fb else SNum(1), depth + 1)
    if isinstance(a, SElem) and isinstance(b, SNum) or isinstance(b, SElem) and isinstance(a, SNum):
        return False
    return numeric_goal(c, a, b)


def numeric_goal(c, a, b):
    """expressions of different form: compared as numbers where possible, otherwise neither proved nor refuted"""
    x, y = to_num(c, a, True), to_num(c, b, True)
    if x is not None and y is not None:
        return simp(x == y)
    c.inexact.add('other form')
    return z3.Bool('other form')


def shape_goal(s, t):
    if zero(s.n) or zero(t.n):
        return simp(Z(s.n) == Z(t.n))
    return conj([simp(Z(s.n) == Z(t.n)), forall(s.n, lambda i: eqterm(s.at(i), t.at(i)))])


def array_goal(c, a, b, dtype=True):
    """formula (to be proved) that two arrays have the same shape, entries and dtype"""
    if a is b:
        return True
    g = []
    if isinstance(a, Reshaped) and isinstance(b, Reshaped):
        return conj([array_goal(c, a.src, b.src, dtype), simp(Z(a.shape.n) == Z(b.shape.n)), forall(a.shape.n, lambda i: eqterm(a.shape.at(i), b.shape.at(i)))])
    if isinstance(a, Grouped) and isinstance(b, Grouped) and len(a.groups) == len(b.groups) and all(x[0] == y[0] for x, y in zip(a.groups, b.groups)):
        for (k, s), (_, t) in zip(a.groups, b.groups):
            g.append(shape_goal(s, t))
        a, b = a.base, b.base
    g.append(shape_goal(a.shape, b.shape))
    If = z3.Function(c.name('I'), z3.IntSort(), z3.IntSort())
    idx = lambda j: If(Z(j))
    rng = forall(a.shape.n, lambda i: z3.And(0 <= If(Z(i)), If(Z(i)) < Z(a.shape.at(i))))
    if isinstance(a.shape, CSeq) and all(isinstance(d, int) and d <= 3 for d in a.shape.items) and a.shape.n <= 4:
        import itertools
        for t in itertools.product(*[range(d) for d in a.shape.items]):
            g.append(scal_goal(c, simplify_scal(c, a.elem(lambda j: pick(list(t), j))), simplify_scal(c, b.elem(lambda j: pick(list(t), j)))))
    else:
        g.append(implies(rng, scal_goal(c, a.elem(idx), b.elem(idx))))
    if dtype and not dtype_eq(a.dtype, b.dtype):
        return False
    return conj(g)
