"""Value domain of the symbolic interpreter.

Scalars are native Python values or z3 terms (Int, Bool, Real, String); sequences have symbolic
length and a pointwise element function; heap objects (legs, bonds, ...) are integer ids whose
fields live in z3 arrays; numpy arrays have symbolic rank and an element function over index maps.
"""
import z3


class Unsupported(Exception):
    """the code (or a value) is outside the verifier's reach"""


def isz(x):
    return isinstance(x, z3.ExprRef)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and x.sort() == z3.IntSort())


def is_bool(x):
    return isinstance(x, bool) or (isz(x) and x.sort() == z3.BoolSort())


def is_real(x):
    return isinstance(x, float) or (isz(x) and x.sort() == z3.RealSort())


def is_str(x):
    return isinstance(x, (str, SPat)) or hasattr(x, 'alphabet') or (isz(x) and x.sort() == z3.StringSort())


def Z(x):
    """value -> z3 term"""
    if isz(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return z3.RealVal(repr(x)) if x == x and abs(x) < 1e300 else _bad(x)
    if isinstance(x, str):
        return z3.StringVal(x)
    if isinstance(x, Ref):
        return x.id
    if isinstance(x, Obj):
        return x.id
    if x is None:
        return z3.IntVal(0)
    if hasattr(x, 'leaf'):
        return x.leaf()
    raise Unsupported('no z3 term for %r' % (x,))


def _bad(x):
    raise Unsupported('float %r' % x)


def simp(x):
    """z3 literal -> native"""
    if not isz(x):
        return x
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_string_value(x):
        return x.as_string()
    return x


class Opaque:
    """a value nobody looks into (error messages, warnings)"""
    def __init__(self, kind='?'):
        self.kind = kind

    def __repr__(self):
        return 'Opaque(%s)' % self.kind


class Poison:
    def __init__(self, why):
        self.why = why


class SPat:
    """string made of literal pieces, repeated letters and index tuples (einsum subscripts)"""
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, str) and self.parts and isinstance(self.parts[-1], str):
                self.parts[-1] += p
            elif p != '':
                self.parts.append(p)


class Ref:
    """reference to a heap object of class cls; id 0 is None"""
    __slots__ = ('cls', 'id')

    def __init__(self, cls, id):
        self.cls = cls
        self.id = id

    def __repr__(self):
        return 'Ref(%s,%s)' % (self.cls, self.id)


class Obj:
    """object with known identity and individually tracked fields"""
    def __init__(self, cls, id, fields=None):
        self.cls = cls
        self.id = id
        self.fields = fields or {}

    def __repr__(self):
        return 'Obj(%s,%s)' % (getattr(self.cls, 'name', self.cls), self.id)


class Lst:
    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return 'Lst(%r)' % (self.seq,)


class Tup:
    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return 'Tup(%r)' % (self.seq,)


class SetV:
    """set as a membership predicate (value -> Bool); items: concrete element list when known"""
    def __init__(self, pred=None, items=None):
        self.items = items
        self._pred = pred

    def pred(self, x):
        if self.items is not None:
            return disj([eqterm(y, x) for y in self.items])
        return self._pred(x)


class DictV:
    def __init__(self, items=None):
        self.items = items if items is not None else []     # list of (key, value), keys concretely comparable


class FMap:
    """contents of a dictionary as a function key -> (present, value); upd: last write (key, value, old contents)"""
    def __init__(self, get, upd=None):
        self.get, self.upd = get, upd

    def set(self, k, v):
        old = self

        def get(x):
            p, y = old.get(x)
            e = eqterm(k, x)
            return disj([e, p]), ite(e, v, y) if simp(p) is not False else v
        return FMap(get, (k, v, self))


class KMap(FMap):
    """dictionary with the sequence of its keys (in the order of insertion)"""
    def __init__(self, get, keys):
        FMap.__init__(self, get)
        self.keys = keys

    def insert(self, c, k, v):
        new = FMap.set(self, k, v)
        return KMap(new.get, self.keys if c.branch(self.get(k)[0]) else cat(self.keys, CSeq([k])))


def fmap_of(items):
    """list of items as an FMap"""
    def get(x):
        p, y = False, None
        for k, v in items:
            e = eqterm(k, x)
            y = v if y is None else ite(e, v, y)
            p = disj([p, e])
        return p, y
    return FMap(get)


class OptV:
    """None (when none holds) or v"""
    def __init__(self, none, v):
        self.none, self.v = none, v

    def substitute(self, pairs):
        from seqs import subst
        return OptV(subst(self.none, pairs), subst(self.v, pairs))


def optv(none, v):
    none = simp(none)
    return None if none is True else (v if none is False else OptV(none, v))


# ------------------------------------------------------------------ sequences
class Seq:
    """n: int or z3 Int;  at(i): element;  find(x): None or (cond, index) - quantifier free inverse"""
    def find(self, x):
        return None


class CSeq(Seq):
    def __init__(self, items):
        self.items = list(items)
        self.n = len(self.items)

    def at(self, i):
        i = simp(i)
        if isinstance(i, int):
            return self.items[i]
        if not self.items:
            raise Unsupported('element of an empty sequence')
        r = self.items[-1]
        for k in range(len(self.items) - 2, -1, -1):
            r = ite(Z(i) == k, self.items[k], r)
        return r

    def __repr__(self):
        return 'CSeq(%r)' % (self.items,)


class FSeq(Seq):
    def __init__(self, n, at, find=None, tag=None):
        self.n = n
        self._at = at
        self._find = find
        self.tag = tag

    def at(self, i):
        return self._at(Z(i))

    def find(self, x):
        return self._find(x) if self._find else None

    def __repr__(self):
        return 'FSeq(%s,%s)' % (self.n, self.tag)


class Cat(Seq):
    def __init__(self, parts):
        self.parts = parts
        n = 0
        for p in parts:
            n = add(n, p.n)
        self.n = simp(n)

    def at(self, i):
        off = 0
        res = None
        pieces = []
        for p in self.parts:
            pieces.append((off, p))
            off = add(off, p.n)
        pieces = [(o, p) for o, p in pieces if not (isinstance(p.n, int) and p.n == 0)]
        if not pieces:
            raise Unsupported('element of an empty sequence')
        i = simp(i)
        if isinstance(i, int):
            o = 0
            for k, (off, p) in enumerate(pieces):
                if isinstance(off, int) and isinstance(p.n, int) and off <= i < off + p.n:
                    return p.at(i - off)
                if not isinstance(off, int):
                    break
        o, p = pieces[-1]
        res = p.at(simp(sub(i, o)))
        for o, p in reversed(pieces[:-1]):
            res = ite(Z(i) < Z(add(o, p.n)), p.at(simp(sub(i, o))), res)
        return res

    def find(self, x):
        off = 0
        acc = []
        for p in self.parts:
            f = p.find(x)
            if f is None:
                if isinstance(p.n, int) and p.n == 0:
                    continue
                if isinstance(p, CSeq):
                    f = cfind(p, x)
                else:
                    return None
            acc.append((f[0], add(off, f[1])))
            off = add(off, p.n)
        if not acc:
            return z3.BoolVal(False), 0
        c, i = acc[-1]
        for c2, i2 in reversed(acc[:-1]):
            i = ite(c2, i2, i)
            c = z3.Or(Z(c2), Z(c))
        return c, i

    def __repr__(self):
        return 'Cat(%r)' % (self.parts,)


def cfind(p, x):
    c = z3.BoolVal(False)
    i = 0
    for k in range(len(p.items) - 1, -1, -1):
        e = eqterm(p.items[k], x)
        i = ite(e, k, i)
        c = z3.Or(Z(e), c)
    return c, i


def flat(seq):
    """list of non-Cat parts"""
    if isinstance(seq, Cat):
        r = []
        for p in seq.parts:
            r += flat(p)
        return r
    return [seq]


def cat(a, b):
    ps = []
    for p in flat(a) + flat(b):
        if isinstance(p.n, int) and p.n == 0:
            continue
        if ps and isinstance(ps[-1], CSeq) and isinstance(p, CSeq):
            ps[-1] = CSeq(ps[-1].items + p.items)
        else:
            ps.append(p)
    if not ps:
        return CSeq([])
    return ps[0] if len(ps) == 1 else Cat(ps)


def smap(seq, f, find=None):
    if isinstance(seq, CSeq):
        return CSeq([f(x) for x in seq.items])
    if isinstance(seq, Cat):
        return Cat([smap(p, f) for p in seq.parts])
    return FSeq(seq.n, lambda i: f(seq.at(i)), find, tag='map')


def srange(lo, hi):
    if isinstance(lo, int) and isinstance(hi, int):
        return CSeq(list(range(lo, hi)))
    n = simp(sub(hi, lo))
    if not isinstance(n, int):
        n = simp(z3.If(n < 0, z3.IntVal(0), n))
    return FSeq(n, lambda i: simp(add(lo, i)), lambda x: (z3.And(Z(x) >= Z(lo), Z(x) < Z(hi)), simp(sub(x, lo))), tag='range')


# ------------------------------------------------------------------ term helpers
def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return Z(a) + Z(b)


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return Z(a) - Z(b)


class Scal:
    """entry of a numpy array, as an expression"""


class SElem(Scal):
    def __init__(self, base, idx):
        self.base = base    # Base
        self.idx = idx      # function axis -> Int


class SNum(Scal):
    def __init__(self, v):
        self.v = v          # native number or z3 term (Int/Real)


class SOp(Scal):
    """op in '*', '+', '-', '/', or a named uninterpreted function"""
    def __init__(self, op, args):
        self.op = op
        self.args = args


class SSum(Scal):
    """sum over all multi-indices s with 0 <= s(k) < dims(k), k < dims.n"""
    def __init__(self, dims, body):
        self.dims = dims    # Seq
        self.body = body    # function (axis -> Int) -> Scal


class SIte(Scal):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Base:
    """symbolic input array"""
    cnt = 0

    def __init__(self, name, rank):
        Base.cnt += 1
        self.name = name
        self.rank = rank


class NDArr:
    def __init__(self, shape, elem, dtype):
        self.shape = shape      # Seq of dims
        self.elem = elem        # (axis -> Int) -> Scal
        self.dtype = dtype      # z3 Int token or string


def ite(c, a, b):
    c = simp(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, Tup) and isinstance(b, Tup):
        if isinstance(a.seq, CSeq) and isinstance(b.seq, CSeq) and a.seq.n == b.seq.n:
            return Tup(CSeq([ite(c, x, y) for x, y in zip(a.seq.items, b.seq.items)]))
        return Tup(site(c, a.seq, b.seq))
    if isinstance(a, Ref) or isinstance(b, Ref):
        cls = a.cls if isinstance(a, Ref) else b.cls
        if isinstance(a, Ref) and isinstance(b, Ref) and a.cls != b.cls:
            raise Unsupported('merge of references of different classes')
        return Ref(cls, simp_id(z3.If(Z(c), Z(a), Z(b))))
    if isinstance(a, Scal) or isinstance(b, Scal):
        return SIte(c, a if isinstance(a, Scal) else SNum(a), b if isinstance(b, Scal) else SNum(b))
    if a is None and b is None:
        return None
    if isinstance(a, OptV) or isinstance(b, OptV) or ((a is None or b is None) and is_int(b if a is None else a) and not is_bool(b if a is None else a)):
        na, nb = [(x.none if isinstance(x, OptV) else x is None) for x in (a, b)]
        va, vb = [(x.v if isinstance(x, OptV) else x) for x in (a, b)]
        v = vb if va is None else (va if vb is None else ite(c, va, vb))
        return optv(z3.If(Z(c), Z(na), Z(nb)), v)
    if a is None or b is None:
        raise Unsupported('merge of None and a value')
    if is_bool(a) != is_bool(b):
        raise Unsupported('merge of bool and %r' % (b,))
    if isinstance(a, (Lst, Obj, NDArr, Opaque, Poison, SetV, DictV)) or isinstance(b, (Lst, Obj, NDArr, Opaque, Poison, SetV, DictV)):
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        raise Unsupported('merge of %r and %r' % (a, b))
    if hasattr(a, 'alphabet') and hasattr(b, 'alphabet') and a.alphabet == b.alphabet:
        return type(a)(a.alphabet, ite(c, a.k, b.k))
    za, zb = Z(a), Z(b)
    if za.sort() != zb.sort():
        if {str(za.sort()), str(zb.sort())} == {'Int', 'Real'}:
            za = z3.ToReal(za) if za.sort() == z3.IntSort() else za
            zb = z3.ToReal(zb) if zb.sort() == z3.IntSort() else zb
        else:
            raise Unsupported('merge of different sorts')
    if za.eq(zb):
        return a
    return z3.If(Z(c), za, zb)


def simp_id(x):
    return z3.simplify(x)


def site(c, a, b):
    n = ite(c, a.n, b.n)
    return FSeq(simp(n), lambda i: ite(c, a.at(i), b.at(i)), None, tag='ite')


def eqterm(a, b):
    """z3 Bool (or native bool) for a == b on scalars, references, names and tuples"""
    if isinstance(a, (Ref, Obj)) or isinstance(b, (Ref, Obj)):
        if (a is None or isinstance(a, (Ref, Obj))) and (b is None or isinstance(b, (Ref, Obj))):
            return simp(Z(a) == Z(b))
        return False
    if isinstance(a, OptV) or isinstance(b, OptV):
        na, nb = [(x.none if isinstance(x, OptV) else x is None) for x in (a, b)]
        va, vb = [(x.v if isinstance(x, OptV) else x) for x in (a, b)]
        return simp(z3.And(Z(na) == Z(nb), z3.Or(Z(na), Z(eqterm(va, vb)) if va is not None and vb is not None else z3.BoolVal(False))))
    if a is None or b is None:
        return a is b
    if isinstance(a, (Tup, Lst)) or isinstance(b, (Tup, Lst)):
        if type(a) is not type(b):
            return False
        return seqeq(a.seq, b.seq)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported('comparison of an unmodelled value')
    if isinstance(a, SPat) or isinstance(b, SPat):
        raise Unsupported('comparison of string patterns')
    if hasattr(a, 'alphabet') or hasattr(b, 'alphabet'):
        if hasattr(a, 'alphabet') and hasattr(b, 'alphabet') and a.alphabet == b.alphabet and len(set(a.alphabet)) == len(a.alphabet):
            return simp(Z(a.k) == Z(b.k))       # both positions lie inside the alphabet
        if is_str(a) and is_str(b) and not isinstance(a, SPat) and not isinstance(b, SPat):
            return simp(Z(a) == Z(b))
        return False
    if not isz(a) and not isz(b):
        if isinstance(a, (int, float, str, bool)) and isinstance(b, (int, float, str, bool)):
            return a == b
        if isinstance(a, str) != isinstance(b, str):
            return False
        raise Unsupported('comparison of %r and %r' % (a, b))
    if is_str(a) != is_str(b):
        return False
    if is_bool(a) != is_bool(b):
        a = z3.If(Z(a), 1, 0) if is_bool(a) else a
        b = z3.If(Z(b), 1, 0) if is_bool(b) else b
    za, zb = Z(a), Z(b)
    if za.sort() == z3.IntSort() and zb.sort() == z3.RealSort():
        za = z3.ToReal(za)
    elif zb.sort() == z3.IntSort() and za.sort() == z3.RealSort():
        zb = z3.ToReal(zb)
    return simp(za == zb)


_q = [0]
QNAMES = set()


def qvar(name='q'):
    _q[0] += 1
    QNAMES.add('%s!%d' % (name, _q[0]))
    return z3.Int('%s!%d' % (name, _q[0]))


def forall(n, f, name='q', lo=0):
    """for all k in [lo, n): f(k)"""
    if isinstance(n, int) and isinstance(lo, int) and n - lo <= 8:
        return conj([f(k) for k in range(lo, n)])
    k = qvar(name)
    b = f(k)
    b = simp(b)
    if b is True:
        return True
    return z3.ForAll([k], z3.Implies(z3.And(Z(lo) <= k, k < Z(n)), Z(b)))


def exists(n, f, name='q'):
    if isinstance(n, int) and n <= 8:
        return disj([f(k) for k in range(n)])
    k = qvar(name)
    return z3.Exists([k], z3.And(0 <= k, k < Z(n), Z(f(k))))


def conj(xs):
    xs = [simp(x) for x in xs]
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    return True if not xs else (xs[0] if len(xs) == 1 else z3.And(*xs))


def disj(xs):
    xs = [simp(x) for x in xs]
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    return False if not xs else (xs[0] if len(xs) == 1 else z3.Or(*xs))


def neg(x):
    x = simp(x)
    return (not x) if isinstance(x, bool) else z3.Not(x)


def implies(a, b):
    a, b = simp(a), simp(b)
    if a is False or b is True:
        return True
    if a is True:
        return b
    return z3.Implies(Z(a), Z(b))


def seqeq(s, t):
    """equality of sequences as a formula"""
    if isinstance(s.n, int) and isinstance(t.n, int):
        if s.n != t.n:
            return False
        return conj([eqterm(s.at(i), t.at(i)) for i in range(s.n)])
    le = simp(Z(s.n) == Z(t.n))
    if le is False:
        return False
    n = s.n if isinstance(s.n, int) else t.n
    return conj([le, forall(n, lambda k: eqterm(s.at(k), t.at(k)))])


def member(x, seq):
    f = seq.find(x) if not isinstance(seq, CSeq) else None
    if f is not None:
        return simp(f[0])
    if isinstance(seq, CSeq):
        return disj([eqterm(y, x) for y in seq.items])
    if isinstance(seq, Cat):
        return disj([member(x, p) for p in seq.parts])
    return exists(seq.n, lambda k: eqterm(seq.at(k), x))
