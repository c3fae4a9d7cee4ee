"""sequence theory: membership, filters, products, sums, multisets (definitional axioms, instantiated per path)"""
import z3
from values import *
from engine import Ctx, neg_goal

K0 = z3.Int('K?')


def leaves(x):
    """z3 leaves of a value (for keys of uninterpreted functions)"""
    if isinstance(x, (Tup, Lst)):
        if not isinstance(x.seq, CSeq):
            raise Unsupported('nested symbolic sequence as an element')
        r = []
        for y in x.seq.items:
            r += leaves(y)
        return r
    if isinstance(x, (Ref, Obj)):
        return [Z(x)]
    if x is None:
        return [z3.IntVal(0)]
    if isinstance(x, OptV):
        return [Z(x.none)] + [z3.If(Z(x.none), z3.IntVal(0), l) for l in leaves(x.v)]
    if hasattr(x, 'leaf'):
        return [x.leaf()]
    return [Z(x)]


def consts_in(terms):
    seen, out = set(), set()
    st = list(terms)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            st.extend(t.children())
        elif z3.is_quantifier(t):
            st.append(t.body())
    return out


def int_consts(terms):
    out = []
    seen = set()
    st = list(terms)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == z3.IntSort():
            out.append(t)
        st.extend(t.children())
    return out


def apps_in(terms, names):
    """applications of the given declaration names"""
    seen, out = set(), []
    st = list(terms)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().name() in names:
                out.append(t)
            st.extend(t.children())
        elif z3.is_quantifier(t):
            st.append(t.body())
    return out


def subst(v, pairs):
    """replace constants in a value (lazily inside sequences and functions)"""
    if not pairs:
        return v
    if isz(v):
        return simp(z3.substitute(v, *pairs))
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    if isinstance(v, Ref):
        return Ref(v.cls, simp_id(z3.substitute(Z(v.id), *pairs)))
    if isinstance(v, Tup):
        return Tup(subst_seq(v.seq, pairs))
    if isinstance(v, Lst):
        return Lst(subst_seq(v.seq, pairs))
    if hasattr(v, 'substitute'):
        return v.substitute(pairs)
    if isinstance(v, NDArr):
        return NDArr(subst_seq(v.shape, pairs), lambda f: subst(v.elem(f), pairs), v.dtype)
    if isinstance(v, SElem):
        return SElem(v.base, lambda k: subst(v.idx(k), pairs))
    if isinstance(v, SNum):
        return SNum(subst(v.v, pairs))
    if isinstance(v, SOp):
        return SOp(v.op, [subst(a, pairs) for a in v.args])
    if isinstance(v, SIte):
        return SIte(subst(v.c, pairs), subst(v.a, pairs), subst(v.b, pairs))
    if isinstance(v, SSum):
        return SSum(subst_seq(v.dims, pairs), lambda f: subst(v.body(f), pairs))
    if isinstance(v, (Opaque, Poison)) or v is Ellipsis:
        return v
    if isinstance(v, Obj):
        i = z3.substitute(Z(v.id), *pairs)
        if i.eq(Z(v.id)):
            return v
        return Obj(v.cls, simp_id(i), {k: subst(x, pairs) for k, x in v.fields.items()})
    raise Unsupported('substitution in %r' % (v,))


def subst_seq(s, pairs):
    if isinstance(s, CSeq):
        return CSeq([subst(x, pairs) for x in s.items])
    if isinstance(s, Cat):
        return Cat([subst_seq(p, pairs) for p in s.parts])
    if isinstance(s, FSeq):
        # protect the argument from the substitution
        def at(i):
            a = z3.FreshInt('arg')
            return subst(subst(s.at(a), pairs), [(a, Z(i))])

        def find(x):
            ph = []

            def prot(y):
                if isinstance(y, Ref):
                    a = z3.FreshInt('px')
                    ph.append((a, Z(y.id)))
                    return Ref(y.cls, a)
                if isinstance(y, Tup) and isinstance(y.seq, CSeq):
                    return Tup(CSeq([prot(u) for u in y.seq.items]))
                if isz(y):
                    a = z3.FreshConst(y.sort(), 'px')
                    ph.append((a, y))
                    return a
                return y
            c, i = s.find(prot(x))
            return subst(subst(Z(c), pairs), ph), subst(subst(i, pairs), ph)
        return FSeq(subst(s.n, pairs), at, find if s._find else None, s.tag)
    if hasattr(s, 'substitute'):
        return s.substitute(pairs)
    raise Unsupported('substitution in a sequence')


_elem = [0]


def elemvar():
    """a variable for an arbitrary position; never used twice (sequences that are built while one is looked at may keep it)"""
    _elem[0] += 1
    return z3.Int('E!%d' % _elem[0])


def ordered_consts(terms):
    seen, out = set(), []
    st = list(terms)[::-1]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(t)
            st.extend(t.children()[::-1])
        elif z3.is_quantifier(t):
            st.append(t.body())
    return out


def generic(name):
    """variables that stand for an arbitrary position: bound later"""
    return name.startswith('E!') or name in QNAMES


def r_at(f, d, v0, a):
    """f at a, its start d replaced by v0 (a may mention d itself)"""
    t = z3.FreshInt('ra')
    return z3.substitute(z3.substitute(f(t), (d, v0)), (t, Z(a[0])))


class SeqTheory:
    # ------------------------------------------------------------ helpers
    def deps(self, vals, but=None):
        """variables standing for arbitrary positions or iterations that the values depend on"""
        ts = []
        for v in vals:
            try:
                ts += leaves(v)
            except Unsupported:
                return list(self.iters)
        cs = ordered_consts([Z(t) for t in ts])
        its = set(k.decl().name() for k in self.iters) | self.kvars
        return [x for x in cs if z3.is_int(x) and (x.decl().name() in its or generic(x.decl().name())) and (but is None or not x.eq(but))]

    def active(self, deps):
        return all(generic(d.decl().name()) or any(d.eq(i) for i in self.iters) for d in deps)

    def closed(self, facts, deps):
        """definitional facts hold for every value of a variable standing for an arbitrary position"""
        qs = [d for d in deps if generic(d.decl().name())]
        return [z3.ForAll(qs, Z(f)) if qs and isz(f) else f for f in facts]

    def fun(self, name, deps, args, res):
        if not deps and not args:
            c = z3.Const(self.name(name), res)
            return lambda *a: c
        f = z3.Function(self.name(name), *([z3.IntSort()] * len(deps) + list(args) + [res]))
        return lambda *a: f(*(list(deps) + [Z(x) for x in a]))

    def know(self, facts, kind='d'):
        """definitional facts, added to the path when not there yet"""
        have = set(t.get_id() for k, t in self.pc)
        for f in facts:
            f = simp(f)
            if f is True or f is False:
                continue
            if f.get_id() not in have:
                self.pc.append((kind, f))

    # ------------------------------------------------------------ membership
    def find(self, seq, x, first=False):
        """(condition that x occurs, index of its first occurrence)"""
        if isinstance(seq, CSeq):
            return cfind(seq, x)
        if isinstance(seq, Cat):
            off, acc = 0, []
            for p in seq.parts:
                f = self.find(p, x, first)
                acc.append((f[0], simp(add(off, f[1]))))
                off = simp(add(off, p.n))
            c, i = acc[-1]
            for c2, i2 in reversed(acc[:-1]):
                i = ite(c2, i2, i)
                c = disj([c2, c])
            return c, i
        f = seq.find(x)
        if f is not None:
            return f
        if isinstance(seq.n, int) and seq.n <= 12:
            return cfind(CSeq([seq.at(i) for i in range(seq.n)]), x)
        if hasattr(seq, 'rev'):
            c, i = self.occurrence(seq.rev, x, last=True)
            return c, simp(Z(seq.n) - 1 - Z(i))
        return self.occurrence(seq, x)

    def occurrence(self, seq, x, last=False):
        """first (last) position of x in a sequence that may repeat elements"""
        if last:
            f = self.find(seq, x) if isinstance(seq, FSeq) and seq._find is not None else None
            if f is not None:
                return f
        j = z3.Int('j?')
        v = elemvar()
        e = seq.at(v)
        ls = [Z(l) for l in leaves(e)]
        lj = [z3.substitute(l, (v, j)) for l in ls]
        key = (last, Z(seq.n).get_id()) + tuple(l.get_id() for l in lj)
        inv = self.invs.get(key)
        if inv is None and isinstance(e, (Ref, Obj)):
            # element by element a subsequence taken before: its positions are known
            for r, F in self.filtseqs:
                if self.active(F['deps']) and Z(r.n).eq(Z(seq.n)) and \
                        self.check([0 <= v, v < Z(seq.n), Z(e) != Z(r.at(v))], 2500) == z3.unsat:
                    self.know(F['facts'])
                    seq._find = r._find
                    return r.find(x)
        if inv is None:
            deps = self.deps(ls + [seq.n], v)
            u = self.fun('last' if last else 'inv', deps, [l.sort() for l in ls], z3.IntSort())
            ii = u(*lj)
            fact = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(seq.n)),
                             z3.And(*([0 <= ii, ii < Z(seq.n), j <= ii] if last else [0 <= ii, ii <= j]), *[z3.substitute(l, (v, ii)) == b for l, b in zip(ls, lj)])))
            fact = self.closed([fact], deps)[0]
            self.invs[key] = inv = (u, [l.sort() for l in ls], fact, (Z(seq.n), lj))
        u, sorts, fact = inv[:3]
        self.know([fact])
        ls = [Z(l) for l in leaves(x)]
        if len(ls) != len(sorts) or any(l.sort() != s for l, s in zip(ls, sorts)):
            return False, 0
        i = u(*ls)
        c = z3.And(0 <= i, i < Z(seq.n), *[Z(a) == b for a, b in zip(leaves(seq.at(i)), ls)])
        return c, i

    def member(self, x, seq):
        if isinstance(seq, CSeq):
            return disj([eqterm(y, x) for y in seq.items])
        if isinstance(seq, Cat):
            return disj([self.member(x, p) for p in seq.parts])
        e = seq.at(z3.Int('j?'))
        if type(e) is not type(x) and (isinstance(e, (Ref, Tup)) != isinstance(x, (Ref, Tup, Obj))) and x is not None:
            return False
        return simp(self.find(seq, x)[0])

    def seqeq(self, s, t):
        return seqeq(s, t)

    def distinct(self, seq):
        """formula: no element occurs twice"""
        if isinstance(seq, CSeq):
            return conj([neg(eqterm(a, b)) for i, a in enumerate(seq.items) for b in seq.items[:i]])
        if isinstance(seq, FSeq) and seq._find is not None and not isinstance(seq.n, int):
            return True
        return forall(seq.n, lambda k: simp(Z(self.find(seq, seq.at(k), True)[1]) == Z(k)))

    def multiset_eq(self, s, t):
        if isinstance(s.n, int) and isinstance(t.n, int) and s.n <= 6 and t.n <= 6:
            if s.n != t.n:
                return False
            xs = [s.at(i) for i in range(s.n)]
            ys = [t.at(i) for i in range(t.n)]
            cnt = lambda x, l: z3.Sum([z3.IntVal(0)] + [z3.If(Z(eqterm(x, y)), 1, 0) for y in l])
            return conj([simp(cnt(x, xs) == cnt(x, ys)) for x in xs])
        for a, b in ((s, t), (t, s)):
            d = self.distinct(b)
            if d is True or self.valid(d):
                return self.same_set(a, b)
        key = [('ms', s, t)]
        raise Unsupported('multiset comparison of sequences with possible repetitions')

    def same_set(self, a, b):
        """a has no repetition and the elements of b (b has none either): the same multiset"""
        f = conj([self.distinct(a), forall(a.n, lambda k: self.member(a.at(k), b)), forall(b.n, lambda k: self.member(b.at(k), a))])
        self.know([implies(f, simp(Z(a.n) == Z(b.n)))], 'f')
        self.assumed.add('lemma: two lists without repetition that contain the same elements have the same length')
        return f

    def count(self, seq, x):
        if hasattr(seq, 'count'):
            return seq.count(x)
        if isinstance(seq, CSeq):
            return simp(z3.Sum([z3.IntVal(0)] + [z3.If(Z(eqterm(x, y)), 1, 0) for y in seq.items]))
        d = self.distinct(seq)
        if d is True or self.valid(d):
            return simp(z3.If(Z(self.member(x, seq)), z3.IntVal(1), z3.IntVal(0)))
        return simp(self.sumseq(FSeq(seq.n, lambda i: simp(z3.If(Z(eqterm(seq.at(i), x)), 1, 0)), None, 'count')))

    # ------------------------------------------------------------ filters
    def filt(self, seq, pred):
        """subsequence of the positions k with pred(k)"""
        if isinstance(seq, CSeq):
            return CSeq([x for k, x in enumerate(seq.items) if self.branch(pred(k))])
        if isinstance(seq, Cat):
            off, r = 0, CSeq([])
            for p in seq.parts:
                o = off
                r = cat(r, self.filt(p, lambda k: pred(simp(add(o, k)))))
                off = simp(add(off, p.n))
            return r
        n = Z(seq.n)
        pv = elemvar()
        pk = self.in_range(subst(simp(pred(pv)), [(pv, K0)]), n)
        rng = z3.And(0 <= K0, K0 < n)
        # the same filter was taken before on this path and no branch was decided since
        mark = [t.get_id() for k, t in self.pc if k == 'b'] if isz(pk) else None
        for F in self.filters if isz(pk) else []:
            if F['p'].eq(pk) and F['n'].eq(n) and F.get('mark') == mark and self.active(F['deps']):
                return self.filtered(seq, pred, F)
        if pk is True or self.check([rng, z3.Not(Z(pk))], 1500) == z3.unsat:
            j = z3.Int('j?')
            for F in self.filters if isz(pk) else []:
                # taken before when this was not known yet: it is the whole sequence
                if F['p'].eq(pk) and F['n'].eq(n) and self.active(F['deps']):
                    self.know(F['facts'])
                    self.know([F['m'] == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(F['sg'](j) == j, F['rh'](j) == j)), patterns=[F['sg'](j)])], 'f')
            return seq
        if pk is False or self.check([rng, Z(pk)], 1500) == z3.unsat:
            return CSeq([])
        # everything but one position
        cand = [x for x in int_consts([pk]) if not x.eq(K0)]
        if len(cand) <= 3:
            for x in cand:
                if self.check([rng, z3.Xor(Z(pk), K0 != x)], 400) == z3.unsat and self.valid(z3.And(0 <= x, x < n), 400):
                    return cat(self.interp.slice(seq, slice(0, x)), self.interp.slice(seq, slice(simp(x + 1), None)))
        for F in self.filters:
            if not self.active(F['deps']):
                continue
            if not simp(n == F['n']) is True and not self.valid(n == F['n'], 600):
                continue
            if F['p'].eq(pk) or self.check([rng, z3.Xor(Z(F['p']), Z(pk))], 2500) == z3.unsat:
                break
        else:
            deps = self.deps([pk, seq.n])
            sg = self.fun('sig', deps, [z3.IntSort()], z3.IntSort())
            rh = self.fun('rho', deps, [z3.IntSort()], z3.IntSort())
            m = self.fun('cnt', deps, [], z3.IntSort())()
            P = lambda k: z3.substitute(Z(pk), (K0, Z(k)))
            i, j = z3.Ints('fi? fj?')
            facts = [z3.And(0 <= m, m <= n),
                     z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= sg(j), sg(j) < n, P(sg(j)), rh(sg(j)) == j)), patterns=[sg(j)]),
                     z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, P(i)), z3.And(0 <= rh(i), rh(i) < m, sg(rh(i)) == i)), patterns=[rh(i)]),
                     z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), sg(i) < sg(j)), patterns=[z3.MultiPattern(sg(i), sg(j))]),
                     z3.Implies(m > 0, z3.And(0 <= sg(0), sg(0) < n, P(sg(0)))),
                     z3.Implies(m == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(P(i))))),
                     z3.Implies(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), P(i))), m == n)]
            F = dict(n=n, p=Z(pk), sg=sg, rh=rh, m=m, facts=self.closed(facts, deps), deps=deps, P=P)
            self.filters.append(F)
        if isz(pk) and F['p'].eq(pk) and F['n'].eq(n):
            F['mark'] = mark
        return self.filtered(seq, pred, F)

    def in_range(self, pk, n):
        """the same condition on K0 for 0 <= K0 < n, with position functions undone"""
        if not isz(pk) or not self.inverse:
            return pk
        sub, seen, st = [], set(), [pk]
        while st:
            t = st.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            if t.num_args() == 1 and t.decl().name() in self.inverse:
                f, m, _ = self.inverse[t.decl().name()]
                x = t.arg(0)
                if z3.is_app(x) and x.num_args() == 1 and x.decl().eq(f) and x.arg(0).eq(K0) and Z(m).eq(n):
                    sub.append((t, K0))
            st.extend(t.children())
        if not sub:
            return pk
        return simp(z3.substitute(z3.simplify(z3.substitute(pk, *sub)), (K0 >= 0, z3.BoolVal(True)), (n <= K0, z3.BoolVal(False))))

    def filtered(self, seq, pred, F):
        self.know(F['facts'])
        sg, rh, m = F['sg'], F['rh'], F['m']

        def find(x):
            c, i = self.find(seq, x, True)
            return conj([c, pred(i)]), simp(rh(i))
        d = self.distinct(seq)
        r = FSeq(m, lambda j: seq.at(sg(j)), find if d is True or self.valid(d, 600) else None, 'filter')
        r.filt = (seq, F)
        if r._find is not None and isinstance(r.at(K0), Ref) and not any(f is F and Z(q.at(K0)).eq(Z(r.at(K0))) for q, f in self.filtseqs):
            self.filtseqs.append((r, F))
        return r

    # ------------------------------------------------------------ products and sums
    def fold(self, seq, kind):
        """product / sum of an integer (or real) sequence"""
        reg = self.folds
        one = 1 if kind == 'prod' else 0
        acc, out = one, None
        for p in flat(seq):
            if isinstance(p, CSeq):
                for x in p.items:
                    if not (is_int(x) or is_real(x)):
                        raise Unsupported('product of %r' % (x,))
                    acc = simp(Z(acc) * Z(x)) if kind == 'prod' else simp(Z(acc) + Z(x))
                continue
            if isinstance(p.n, int) and p.n <= 12:
                for i in range(p.n):
                    acc = simp(Z(acc) * Z(p.at(i))) if kind == 'prod' else simp(Z(acc) + Z(p.at(i)))
                continue
            v = elemvar()
            e = p.at(v)
            if not (is_int(e) or is_real(e)):
                raise Unsupported('product of %r' % (e,))
            e = Z(e)
            t, facts = self.foldsym(kind, p, e, v)
            facts = [z3.Implies(Z(p.n) <= 0, t == one), z3.Implies(Z(p.n) == 1, t == z3.substitute(e, (v, z3.IntVal(0))))] + facts
            self.know(self.closed(facts, self.deps([e, p.n], v)))
            if kind == 'prod' and e.sort() == z3.IntSort():
                if self.check([z3.And(0 <= v, v < Z(p.n)), e < 1], 500) == z3.unsat:
                    self.know([t >= 1], 'f')
            out = t if out is None else (out * t if kind == 'prod' else out + t)
        if out is None:
            return acc
        if isinstance(acc, int) and acc == one:
            return out
        return simp(Z(acc) * out) if kind == 'prod' else simp(Z(acc) + out)

    def foldsym(self, kind, p, e, v):
        """the term for a product (sum, join) over p, whose element at v is e: one function for all sequences of this form"""
        e = z3.simplify(e)
        deps = self.deps([e, p.n], v)
        ren = [(d, z3.Int('D?%d' % i)) for i, d in enumerate(deps)] + [(v, K0)]
        key = (kind, z3.substitute(Z(p.n), *ren).sexpr(), z3.substitute(e, *ren).sexpr())
        if key not in self.folds:
            nm = self.name(kind.split(':')[0])
            f = z3.Function(nm, *([z3.IntSort()] * len(deps) + [e.sort()])) if deps else (lambda c_: lambda *a: c_)(z3.Const(nm, e.sort()))
            self.folds[key] = (f, p, deps, kind, nm)
            self.foldnames[nm] = self.folds[key]
        return self.folds[key][0](*deps), []

    def prod(self, seq):
        return self.fold(seq, 'prod')

    def sumseq(self, seq):
        return self.fold(seq, 'sum')

    def foldseq(self, app):
        t, p, deps, kind, nm = self.foldnames[app.decl().name()]
        if not deps:
            return p
        return subst_seq(p, [(d, app.arg(i)) for i, d in enumerate(deps)])

    def fold_lemmas(self, terms, timeout=1500):
        """equalities between products (sums) of pointwise equal sequences that occur in terms"""
        apps = apps_in([Z(t) for t in terms], set(self.foldnames))
        facts = []
        for a in range(len(apps)):
            for b in range(a):
                ka, kb = self.foldnames[apps[a].decl().name()][3], self.foldnames[apps[b].decl().name()][3]
                if ka != kb:
                    continue
                sa, sb = self.foldseq(apps[a]), self.foldseq(apps[b])
                if self.check([z3.Not(z3.And(Z(sa.n) == Z(sb.n)))], timeout) != z3.unsat:
                    continue
                q = z3.FreshInt('fk')
                if self.check([0 <= q, q < Z(sa.n), Z(sa.at(q)) != Z(sb.at(q))], timeout) == z3.unsat:
                    facts.append(apps[a] == apps[b])
                elif ka == 'sum' and self.check([0 <= q, q < Z(sa.n), Z(sa.at(q)) != -Z(sb.at(q))], timeout) == z3.unsat:
                    facts.append(apps[a] == -apps[b])
        return facts

    def split_product(self, S, X, R, f):
        """lemma: S distinct, X distinct and inside S, R the rest of S: product over S = product over X * product over R"""
        self.oblige('lemma split_product: sub-list', conj([self.distinct(X), forall(X.n, lambda k: self.member(X.at(k), S))]), 'lemma')
        self.assumed.add('lemma: a finite product over distinct elements splits into the product over a sub-collection and over the rest')
        a, b, c = self.prod(smap(S, f)), self.prod(smap(X, f)), self.prod(smap(R, f))
        self.know([simp(Z(a) == Z(b) * Z(c))], 'f')

    # ------------------------------------------------------------ joined strings
    def joined(self, sep, seq):
        v = elemvar()
        e = seq.at(v)
        if not isz(e) or e.sort() != z3.StringSort():
            return Opaque('join')
        t, _ = self.foldsym('join:' + str(sep), seq, e, v)
        facts = [z3.Implies(Z(seq.n) == 1, t == z3.substitute(e, (v, z3.IntVal(0)))), z3.Implies(Z(seq.n) <= 0, t == z3.StringVal(''))]
        self.know(self.closed(facts, self.deps([e, seq.n], v)))
        return t

    def recur(self, v0, step, n=None):
        """function j -> v_j with v_0 = v0, v_{j+1} = step(v_j, j)"""
        v0 = Z(v0)
        p = z3.Const('R?', v0.sort())
        ev = elemvar()
        at = lambda: z3.substitute(Z(simp(step(p, ev))), (ev, K0))
        e = at()
        if e.sort() != v0.sort():
            if e.sort() == z3.RealSort():
                v0 = z3.ToReal(v0)
                p = z3.Const('R?', v0.sort())
                e = at()
            else:
                e = z3.ToReal(e)
        for r in self.recs:
            if self.active(r['deps']) and r['e'].sort() == e.sort() and (r['v0'].eq(v0) or self.valid(r['v0'] == v0, 600)) and \
                    (r['e'].eq(e) or self.check([z3.Not(r['e'] == e), K0 >= 0], 1500) == z3.unsat):
                break
            # the same recursion from another start
            ds = [d for d in r['deps'] if d.eq(r['v0'])]
            if ds and not v0.eq(r['v0']) and r['e'].sort() == e.sort() and self.active([d for d in r['deps'] if not d.eq(ds[0])]) and z3.substitute(r['e'], (ds[0], v0)).eq(e):
                self.know([z3.substitute(Z(x), (ds[0], v0)) for x in r['raw']])
                return lambda *a, f=r['f'], d=ds[0]: r_at(f, d, v0, a)
        else:
            deps = self.deps([v0, e])
            f = self.fun('rec', deps, [z3.IntSort()], v0.sort())
            j = z3.Int('rj?')
            r = dict(v0=v0, e=e, f=f, deps=deps, facts=[f(0) == v0, z3.ForAll([j], z3.Implies(0 <= j, f(j + 1) == z3.substitute(e, (p, f(j)), (K0, j))), patterns=[f(j + 1)]),
                     z3.ForAll([j], z3.Implies(0 <= j, f(j + 1) == z3.substitute(e, (p, f(j)), (K0, j))), patterns=[f(j)])][:2])
            r['raw'] = r['facts']
            r['facts'] = self.closed(r['facts'], deps)
            self.recs.append(r)
        self.know(r['facts'])
        return r['f']


for k, v in list(SeqTheory.__dict__.items()):
    if not k.startswith('__'):
        setattr(Ctx, k, v)
_init = Ctx.__init__


def init(self, *a, **k):
    _init(self, *a, **k)
    self.folds, self.foldnames, self.filtseqs = {}, {}, []
    self.kvars = set()
    self.cls_of = {}
    self.inlined = set()


Ctx.__init__ = init
