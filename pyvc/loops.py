"""Loops.

A loop of concrete length is executed.  A loop of symbolic length is summarised: the state at the
start of iteration k is inferred as a closed form (linear counters, prefix sums and products,
recurrences, appended and filtered lists, pointwise heap writes, block allocation) and the inference
is checked inductively: the body is executed from the closed form at a generic k and must end in the
closed form at k + 1.  Early exits become a first-exit position.
"""
import ast
import z3
from values import *
import values
from engine import *
import seqs
from seqs import subst, subst_seq, consts_in

UNROLL = 40
WHILE_UNROLL = 200


class LetterOf:
    """the k-th letter of a fixed alphabet"""
    def __init__(self, alphabet, k):
        self.alphabet, self.k = alphabet, k

    def leaf(self):
        return z3.SubString(z3.StringVal(self.alphabet), Z(self.k), 1)

    def substitute(self, pairs):
        return LetterOf(self.alphabet, subst(self.k, pairs))


class Hole(Seq):
    """list built by the loop, as it is at the start of an iteration"""
    def __init__(self, c, seq0):
        self.seq0 = seq0
        self.n = c.fresh('len')

    def at(self, i):
        raise Unsupported('loop reads the list it builds')

    def find(self, x):
        raise Unsupported('loop reads the list it builds')


class DictHole(FMap):
    """dictionary at the start of an iteration: nothing known"""
    def __init__(self, c):
        nm = c.name('dict')

        def get(x):
            x = Z(x)
            return z3.Function(nm + '.has', x.sort(), z3.BoolSort())(x), z3.Function(nm + '.val', x.sort(), z3.IntSort())(x)
        FMap.__init__(self, get)


def for_loop(ip, seq, body, fr, orelse, tag):
    try:
        run_parts(ip, seq, body, fr, tag)
    except BreakX:
        return
    if orelse is not None:
        orelse()


def run_parts(ip, seq, body, fr, tag):
    for p in flat(seq):
        if isinstance(p.n, int) and (p.n <= UNROLL or isinstance(p, CSeq)):
            for i in range(p.n):
                try:
                    body(p.at(i))
                except ContinueX:
                    pass
        else:
            n = simp(p.n)
            c = ip.c
            if not isinstance(n, int):
                # a length that is in fact fixed by what is known
                pass
            symbolic(ip, p, body, fr, tag)


# ------------------------------------------------------------------ slots
ABSENT = object()


def slots(snap):
    r = {}
    for o, v in snap[0]:
        if isinstance(o, Frame):
            for name, x in v[0].items():
                r[('env', id(o), name)] = (o, x)
        elif isinstance(o, Lst):
            r[('lst', id(o))] = (o, v)
        elif isinstance(o, Obj):
            for name, x in v.items():
                r[('fld', id(o), name)] = (o, x)
        elif isinstance(o, SetV):
            r[('set', id(o))] = (o, v)
        elif isinstance(o, DictV):
            r[('dict', id(o))] = (o, v)
        elif isinstance(o, NDArr):
            r[('arr', id(o))] = (o, v)
    for k, v in snap[1].items():
        r[('heap',) + k] = (None, v)
    for k, v in snap[2].items():
        r[('alloc', k)] = (None, v)
    return r


def put(c, key, obj, v):
    if key[0] == 'env':
        if v is ABSENT:
            obj.env.pop(key[2], None)
        else:
            obj.env[key[2]] = v
    elif key[0] == 'lst':
        obj.seq = v
    elif key[0] == 'fld':
        obj.fields[key[2]] = v
    elif key[0] == 'heap':
        c.heap[key[1:]] = v
    elif key[0] == 'alloc':
        c.alloc[key[1]] = v
    elif key[0] == 'set':
        obj._pred, obj.items = v
    elif key[0] == 'dict':
        obj.items = v
    else:
        raise Unsupported('slot %s' % (key[0],))


def same_value(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isinstance(a, (int, float, str, bool)) and type(a) is type(b):
        return a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cls == b.cls and Z(a.id).eq(Z(b.id))
    if isinstance(a, Tup) and isinstance(b, Tup):
        return same_seq(a.seq, b.seq)
    if isinstance(a, tuple) and isinstance(b, tuple):        # SetV contents
        return a[0] is b[0] and (a[1] is b[1] or (a[1] is not None and b[1] is not None and len(a[1]) == len(b[1]) and all(same_value(x, y) for x, y in zip(a[1], b[1]))))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_value(x[0], y[0]) and same_value(x[1], y[1]) for x, y in zip(a, b))
    return False


def same_seq(a, b):
    if a is b:
        return True
    if isinstance(a, CSeq) and isinstance(b, CSeq):
        return a.n == b.n and all(same_value(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Cat) and isinstance(b, Cat):
        return len(a.parts) == len(b.parts) and all(same_seq(x, y) for x, y in zip(a.parts, b.parts))
    return False


def scalar(v):
    return is_int(v) or is_real(v) or is_bool(v) or (is_str(v) and not isinstance(v, SPat))


def sort_of(v):
    return Z(v).sort()


class Lazy(Poison):
    def __init__(self, why, thunk):
        self.why, self.thunk = why, thunk


# ------------------------------------------------------------------ summarisation
class Loop:
    def __init__(self, ip, seq, body, fr, tag):
        self.ip, self.c, self.seq, self.body, self.fr, self.tag = ip, ip.c, seq, body, fr, tag
        c = self.c
        self.n = Z(seq.n)
        self.k = z3.Int(c.name('k'))
        c.kvars.add(self.k.decl().name())
        self.S0 = c.snapshot()
        self.v0 = slots(self.S0)

    def explore(self, prep, keep):
        c = self.c
        nobl = len(c.obls)

        def thunk():
            c.iters.append(self.k)
            self.rng = ('f', z3.And(0 <= self.k, self.k < self.n))
            c.pc.append(self.rng)
            prep()
            self.entry = slots(c.snapshot())
            self.body(self.seq.at(self.k))
        r = c.explore(thunk)
        if not keep:
            del c.obls[nobl:]
        return r

    def modified(self, paths, entry):
        out = {}
        for p in paths:
            if p.out[0] not in ('normal',):
                continue
            for key, (o, v) in slots(p.state).items():
                if key in entry:
                    e = entry[key][1]
                    ev = e
                    if isinstance(v, Seq) and isinstance(e, Seq):
                        if not same_seq(v, e):
                            out[key] = o
                    elif not same_value(v, e):
                        out[key] = o
                elif key[0] == 'env' and any(id(f) == key[1] for f in self.c.frames_all()):
                    out[key] = o
                elif key[0] in ('heap', 'alloc'):
                    out[key] = o
                elif key[0] == 'fld' and ('fldobj', key[1]) in self.objs:
                    out[key] = o
        return out

    def placeholder(self, key):
        v = self.v0[key][1] if key in self.v0 else ABSENT
        if v is ABSENT and key[0] == 'alloc':
            v = self.c.frontier(key[1])
            self.v0[key] = (None, v)
            return ('num', z3.Int(self.c.name('ph.' + key[1])), v)
        if v is ABSENT and key[0] == 'heap':
            self.v0[key] = (None, self.c.hinit(*key[1:]))
            return ('heap', None, None)
        if key[0] == 'heap':
            return ('heap', None, None)
        if v is not ABSENT and scalar(v):
            s = sort_of(v)
            return ('num', z3.Const(self.c.name('ph'), s), v)
        if key[0] == 'lst':
            return ('list', Hole(self.c, v), v)
        if isinstance(v, (Lst, Tup)) and key[0] in ('env', 'fld'):
            return ('seqval', Hole(self.c, v.seq), v)
        if key[0] in ('set', 'dict'):
            return (key[0], DictHole(self.c) if key[0] == 'dict' else None, v)
        return ('temp', None, v)

    def prep_placeholders(self):
        c = self.c
        for key, (kind, ph, v) in self.ph.items():
            o = self.mod[key]
            if kind == 'num':
                put(c, key, o, ph)
                if key[0] == 'alloc':
                    c.pc.append(('f', ph >= Z(v)))
            elif kind == 'list':
                put(c, key, o, ph)
            elif kind == 'seqval':
                put(c, key, o, type(v)(ph))
            elif kind == 'heap':
                put(c, key, o, self.v0[key][1])
            elif kind == 'dict':
                put(c, key, o, ph)
            elif kind == 'temp':
                put(c, key, o, Poison('carried by the loop'))

    def run(self):
        c = self.c
        self.objs = set(('fldobj', id(o)) for o, v in self.S0[0] if isinstance(o, Obj))
        self.mod, self.ph = {}, {}
        while True:
            paths = self.explore(self.prep_placeholders, False)
            new = {k: o for k, o in self.modified(paths, self.entry_like()).items() if k not in self.mod}
            if not new:
                break
            for k, o in new.items():
                self.mod[k] = o
                self.ph[k] = self.placeholder(k)
            if len(self.mod) > 60:
                raise Unsupported('loop modifies too much')
        if not paths:
            c.assume(self.n <= 0)
            return
        self.forms = {}
        if any(p.out[0] == 'normal' for p in paths):
            c.iters.append(self.k)
            self.derive(paths)
            c.iters.pop()
        else:
            for key in self.mod:
                self.forms[key] = lambda t: Poison('unused')
        # inductive round(s)
        for rnd in range(3):
            nobl = len(c.obls)
            self.cache = None
            paths = self.explore(self.prep_forms, True)
            new = {k: o for k, o in self.modified(paths, self.entry_like(self.k)).items() if k not in self.mod}
            if new:
                raise Unsupported('loop summary misses a modified value: %s' % ([str(k) for k in new]))
            c.iters.append(self.k)
            good = self.inductive(paths)
            c.iters.pop()
            if good:
                break
            del c.obls[nobl:]
        else:
            raise Unsupported('no closed form for loop %s (%s)' % (self.tag, self.why))
        self.finish(paths)

    def entry_like(self, t=None):
        return self.entry

    # -------------------------------------------------- deriving closed forms
    def guards(self, paths):
        return [p.guard() for p in paths]

    def merge(self, paths, vals):
        """value of the iteration as a case distinction over its paths"""
        r = vals[-1]
        for p, v in reversed(list(zip(paths[:-1], vals[:-1]))):
            r = ite(p.guard(), v, r)
        return r

    def placeholders(self):
        return {ph[1].decl().name() for ph in self.ph.values() if ph[0] == 'num'} | {ph[1].n.decl().name() for ph in self.ph.values() if ph[0] in ('list', 'seqval')}

    def derive(self, paths):
        c = self.c
        N = [p for p in paths if p.out[0] == 'normal']
        vals = {}
        for key in self.mod:
            vals[key] = []
            for p in N:
                s = slots(p.state)
                vals[key].append(s[key][1] if key in s else ABSENT)
        todo = [k for k in self.mod]
        pairs = []
        names = self.placeholders()
        guard_names = consts_in([Z(p.guard()) for p in N]) & names
        progress = True
        while todo and progress:
            progress = False
            for key in list(todo):
                kind, ph, v0 = self.ph[key]
                if kind != 'num':
                    continue
                f = self.scalar_form(key, ph, v0, N, vals[key], pairs, names)
                if f is not None:
                    self.forms[key] = f
                    pairs.append((ph, Z(f(self.k))))
                    todo.remove(key)
                    progress = True
        if any(self.ph[k][0] == 'num' for k in todo):
            left = [k for k in todo if self.ph[k][0] == 'num']
            for key in left:
                self.forms[key] = self.poison('no closed form for a loop-carried value')
                todo.remove(key)
        for key in todo:
            if self.ph[key][0] in ('list', 'seqval'):
                kind, ph, v0 = self.ph[key]
                vs = [(v.seq if kind == 'seqval' and isinstance(v, (Lst, Tup)) else v) for v in vals[key]]
                sform = self.list_form(key, ph, N, vs, pairs)
                if sform is None:
                    self.forms[key] = self.temp_form(key, N, vals[key], pairs)
                elif kind == 'seqval':
                    T = type(v0)
                    self.forms[key] = (lambda sf, T: lambda t: T(sf(t)))(sform, T)
                else:
                    self.forms[key] = sform
                    # length of the list as a value usable by other forms
                pairs.append((ph.n, Z(sform(self.k).n) if sform is not None else z3.Int('lost')))
        for key in todo:
            kind, ph, v0 = self.ph[key]
            if kind == 'heap':
                self.forms[key] = self.heap_form(key, N, vals[key], pairs)
            elif kind == 'set':
                self.forms[key] = self.set_form(key, N, vals[key], pairs)
            elif kind == 'dict':
                self.forms[key] = self.dict_form(key, N, vals[key], pairs, ph)
            elif kind == 'temp':
                self.forms[key] = self.temp_form(key, N, vals[key], pairs)

    def poison(self, why):
        return lambda t: Poison(why)

    def scalar_form(self, key, ph, v0, N, vals, pairs, names):
        c, k = self.c, self.k
        if any(isinstance(v, Poison) or v is ABSENT or not scalar(v) for v in vals):
            return self.temp_form(key, N, vals, pairs)
        me = ph.decl().name()
        vals = [subst(v, pairs) if isz(v) else v for v in vals]
        gs = [subst(p.guard(), pairs) for p in N]
        others = (consts_in([Z(v) for v in vals] + [Z(g) for g in gs]) & names) - {me} - {p[0].decl().name() for p in pairs}

        def mrg(xs):
            r = xs[-1]
            for g, x in reversed(list(zip(gs[:-1], xs[:-1]))):
                r = ite(g, x, r)
            return r
        gme = me in consts_in([Z(g) for g in gs])
        vme = any(isz(v) and me in consts_in([v]) for v in vals)
        if others:
            return None
        if not vme and not gme:
            w = mrg(vals)
            return self.overwrite(w, v0)
        if not gme and (ph.sort() == z3.IntSort() or ph.sort() == z3.RealSort()):
            ds = [z3.simplify(Z(v) - ph, som=True) for v in vals]
            if not any(me in consts_in([d]) for d in ds):
                d = simp(mrg([simp(x) for x in ds]))
                return self.sum_form(d, v0, str(key[-1]).startswith('#'))
            qs = []
            for v in vals:
                q = z3.simplify(z3.substitute(Z(v), (ph, z3.IntVal(1) if ph.sort() == z3.IntSort() else z3.RealVal(1))))
                if me in consts_in([q]) or not z3.is_true(z3.simplify(Z(v) == q * ph, som=True)) and c.check([Z(v) != q * ph], 800) != z3.unsat:
                    qs = None
                    break
                qs.append(simp(q))
            if qs is not None:
                return self.prod_form(simp(mrg(qs)), v0)
        if ph.sort() == z3.BoolSort() and not gme:
            w = mrg(vals)
            wt = simp(z3.substitute(Z(w), (ph, z3.BoolVal(True))))
            wf = simp(z3.substitute(Z(w), (ph, z3.BoolVal(False))))
            if wt is True:        # set once some iteration satisfies wf
                return lambda t: disj([v0, exists(t, lambda j: subst(wf, [(k, Z(j))]) if isz(wf) else wf)])
            if wf is False:
                return lambda t: conj([v0, forall(t, lambda j: subst(wt, [(k, Z(j))]) if isz(wt) else wt)])
        # recurrence
        step = mrg(vals)
        f = c.recur(v0, lambda p, j: z3.substitute(Z(step), (ph, p), (k, Z(j))))
        return lambda t: simp(f(Z(t)))

    def overwrite(self, w, v0):
        k = self.k

        def form(t):
            if isinstance(t, int) and t == 0:
                return v0
            return ite(simp(Z(t) > 0), subst(w, [(k, Z(t) - 1)]), v0)
        return form

    def sum_form(self, d, v0, delta=False):
        k, c = self.k, self.c
        if delta and isz(d) and k.decl().name() in consts_in([d]):
            # at most one iteration counts
            for t1 in solutions(c, d, k) + c.hints:
                if c.check([0 <= k, k < Z(self.n), Z(d) != 0, k != t1], 2000) == z3.unsat:
                    return lambda t: simp(Z(v0) + z3.If(z3.And(0 <= t1, t1 < Z(t)), subst(d, [(k, t1)]), 0))
        if not isz(d) or k.decl().name() not in consts_in([d]):
            def form(t):
                d2, t2 = Z(d), Z(t)
                if d2.sort() == z3.RealSort():
                    t2 = z3.ToReal(t2)
                return simp(Z(v0) + t2 * d2)
            return form
        return lambda t: simp(Z(v0) + Z(c.sumseq(FSeq(t, lambda i: subst(d, [(k, Z(i))]), None, 'sum'))))

    def prod_form(self, q, v0):
        k, c = self.k, self.c

        def form(t):
            p = c.prod(FSeq(t, lambda i: subst(q, [(k, Z(i))]), None, 'prod'))
            if isinstance(v0, int) and v0 == 1 and Z(p).sort() == z3.IntSort():
                return p
            a, b = Z(v0), Z(p)
            if a.sort() != b.sort():
                a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
                b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
            return simp(a * b)
        return form

    def temp_form(self, key, N, vals, pairs):
        c, k = self.c, self.k
        v0 = self.v0[key][1] if key in self.v0 else ABSENT

        def form(t):
            def thunk():
                if any(v is ABSENT or isinstance(v, Poison) for v in vals):
                    raise Unsupported('value of %s after a loop' % (key[-1],))
                if not c.valid(Z(t) > 0):
                    raise Unsupported('value of %s after a loop that may not run' % (key[-1],))
                gs = [subst(p.guard(), pairs + [(k, Z(t) - 1)]) for p in N]
                vs = [subst(subst(v, pairs), [(k, Z(t) - 1)]) for v in vals]
                r = vs[-1]
                for g, x in reversed(list(zip(gs[:-1], vs[:-1]))):
                    r = ite(g, x, r)
                return r
            return Lazy('value assigned in a loop', thunk)
        return form

    def appended(self, v, base):
        """parts appended to base, or None"""
        ps, bs = flat(v), flat(base)
        if len(ps) < len(bs) or any(a is not b for a, b in zip(ps, bs)):
            return None
        return ps[len(bs):]

    def list_form(self, key, hole, N, vals, pairs, base=None):
        c, k = self.c, self.k
        base = hole if base is None else base
        seq0 = hole.seq0
        if all(getattr(v, 'removed', None) is not None for v in vals) and len(vals) == 1:
            old, x = vals[0].removed
            if old is not base:
                return None
            x = subst(x, pairs)
            d = c.distinct(seq0)
            if not (d is True or c.valid(d)):
                raise Unsupported('removal from a list with repetitions')
            xs = lambda t: FSeq(t, lambda i: subst(x, [(k, Z(i))]), None, 'removed')
            # the sequence of removed elements is the iterated sequence when the element itself is removed
            full = FSeq(self.n, lambda i: subst(x, [(k, Z(i))]), self.seq.find if same_value(x, self.seq.at(k)) and self.seq.find(x) is not None else None, 'removed')

            def form(t):
                if isinstance(t, int) and t == 0:
                    return seq0

                def gone(y):
                    f = c.find(full, y, True)
                    return conj([f[0], simp(Z(f[1]) < Z(t))])
                return c.filt(seq0, lambda q: neg(gone(seq0.at(q))))
            return form
        rest = []
        for v in vals:
            if not isinstance(v, Seq):
                return None
            a = self.appended(v, base)
            if a is None:
                return None
            rest.append(a)
        cnt = []
        for a in rest:
            n = 0
            for p in a:
                n = add(n, p.n)
            cnt.append(simp(n) if isz(n) else n)
        flatk = lambda a, i: a.at(i)
        if any(not isinstance(n, int) for n in cnt):
            # one segment of the same symbolic length in every iteration
            m = subst(cnt[0], pairs)
            if len(cnt) != 1 or k.decl().name() in consts_in([Z(m)]):
                raise Unsupported('loop appends segments of varying length')
            seg = subst_seq(Cat(rest[0]) if len(rest[0]) > 1 else rest[0][0], pairs)
            at2 = lambda q, r: subst(seg.at(r), [(k, Z(q))])

            def form(t):
                return cat(seq0, FSeq(simp(Z(t) * Z(m)), lambda i: at2(Z(i) / Z(m), Z(i) % Z(m)), None, 'blocks'))
            return form
        items = [[p.at(i) for p in a for i in range(p.n)] for a in rest]
        gs = [subst(p.guard(), pairs) for p in N]
        if len(set(cnt)) == 1:
            m = cnt[0]
            es = []
            for i in range(m):
                col = [subst(it[i], pairs) for it in items]
                r = col[-1]
                for g, x in reversed(list(zip(gs[:-1], col[:-1]))):
                    r = ite(g, x, r)
                es.append(r)
            if m == 0:
                return lambda t: seq0
            if m == 1:
                e = narrow(c, es[0], k, self.n)
                fnd = None
                if same_value(e, self.seq.at(k)):
                    src = self.seq

                    def form(t):
                        def find(x):
                            f = src.find(x)
                            return conj([f[0], simp(Z(f[1]) < Z(t))]), f[1]
                        if simp(Z(t)) is not None and Z(t).eq(self.n) and not isinstance(seq0, Hole) and isinstance(seq0.n, int) and seq0.n == 0:
                            return src
                        return cat(seq0, FSeq(t, lambda i: src.at(i), find if src.find(e) is not None else None, 'copy'))
                    return form
                return lambda t: cat(seq0, FSeq(t, lambda i: subst(e, [(k, Z(i))]), None, 'map'))

            def form(t):
                def at(i):
                    r = subst(es[-1], [(k, Z(i) / m)])
                    for q in range(m - 2, -1, -1):
                        r = ite(simp(Z(i) % m == q), subst(es[q], [(k, Z(i) / m)]), r)
                    return r
                return cat(seq0, FSeq(simp(Z(t) * m), at, None, 'blocks'))
            return form
        if set(cnt) <= {0, 1}:
            app = [i for i in range(len(cnt)) if cnt[i] == 1]
            g = disj([gs[i] for i in app])
            col = [subst(items[i][0], pairs) for i in app]
            e = col[-1]
            for i, x in reversed(list(zip(app[:-1], col[:-1]))):
                e = ite(gs[i], x, e)
            same = same_value(e, self.seq.at(k))
            src = self.seq

            def form(t):
                base = src if same and Z(t).eq(self.n) else FSeq(t, lambda i: subst(e, [(k, Z(i))]), None, 'cand')
                return cat(seq0, c.filt(base, lambda q: subst(g, [(k, Z(q))]) if isz(g) else g))
            return form
        raise Unsupported('loop appends a varying number of elements')

    def heap_form(self, key, N, vals, pairs, base=None):
        c, k = self.c, self.k
        old = base if base is not None else self.v0[key][1]
        final = self.v0[key][1]
        per = []
        for v in vals:
            w = []
            if v is ABSENT:
                v = old
            while v is not old:
                if not hasattr(v, 'upd'):
                    raise Unsupported('heap update in a loop')
                i, x, v = v.upd
                w.append((subst(i, pairs), subst(x, pairs)))
            per.append(w[::-1])
        gs = [subst(p.guard(), pairs) for p in N]
        streams = []
        if len(set(len(w) for w in per)) == 1 and all(same_value(w[i][0], per[0][i][0]) for w in per for i in range(len(w))):
            for i in range(len(per[0])):
                col = [w[i][1] for w in per]
                r = col[-1]
                for g, x in reversed(list(zip(gs[:-1], col[:-1]))):
                    r = ite(g, x, r)
                streams.append((per[0][i][0], r, True))
        else:
            for g, w in zip(gs, per):
                for i, x in w:
                    streams.append((i, x, g))
        # later writes of one iteration to the same object win
        info = []
        for (w, v, g) in streams:
            info.append(self.stream(key, Z(w), v, g))

        def form(t):
            if isinstance(t, int) and t == 0:
                return final

            def get(j):
                j = Z(j)
                res, best = final(j), None
                for (locate, v, g) in info:
                    cond, idx = locate(j)
                    cond = conj([cond, simp(Z(idx) < Z(t)), subst(g, [(k, Z(idx))]) if isz(g) else g])
                    val = subst(v, [(k, Z(idx))])
                    if best is None:
                        res = ite(cond, val, res)
                        best = ite(cond, idx, -1)
                    else:
                        win = conj([cond, simp(Z(idx) >= Z(best))])
                        res = ite(win, val, res)
                        best = ite(win, idx, best)
                return res
            return get
        return form

    def dict_form(self, key, N, vals, pairs, base):
        """contents of a dictionary written at keys that do not repeat"""
        c, k = self.c, self.k
        v0 = self.v0[key][1]
        final = v0 if isinstance(v0, FMap) else fmap_of(v0)
        streams = []
        for p, v in zip(N, vals):
            w = []
            v = base if v is ABSENT else v
            while v is not base:
                if not isinstance(v, FMap) or v.upd is None:
                    raise Unsupported('dictionary changed in a loop')
                i, x, v = v.upd
                w.append((subst(i, pairs), subst(x, pairs), subst(p.guard(), pairs)))
            streams += w[::-1]
        info = []
        for (w, v, g) in streams:
            item = self.seq.at(k)
            src = FSeq(self.n, (lambda w: lambda i: subst(w, [(k, Z(i))]))(w), None, 'keys')
            if same_value(w, item):
                src = self.seq
            d = c.distinct(src)
            if not (d is True or c.valid(d)):
                raise Unsupported('dictionary keys of a loop may repeat')
            info.append((src, v, g))

        def form(t):
            if isinstance(t, int) and t == 0:
                return final

            def get(x):
                p, y = final.get(x)
                best = None
                for (src, v, g) in info:
                    cond, idx = c.find(src, x, True)
                    cond = conj([cond, simp(Z(idx) < Z(t)), subst(g, [(k, Z(idx))]) if isz(g) else g])
                    val = subst(v, [(k, Z(idx))])
                    if best is not None:
                        cond = conj([cond, simp(Z(idx) >= Z(best))])
                    y = val if y is None else ite(cond, val, y)
                    best = ite(cond, idx, -1 if best is None else best)
                    p = disj([p, cond])
                return p, y
            return FMap(get)
        form.streams = streams
        return form

    def stream(self, key, w, v, g):
        """inverse of the sequence of written ids"""
        c, k = self.c, self.k
        kn = k.decl().name()
        # allocation: base + c0 * k + r
        d = z3.simplify(z3.substitute(w, (k, k + 1)) - w, som=True)
        if z3.is_int_value(d) and d.as_long() != 0:
            c0 = d.as_long()
            b = z3.simplify(z3.substitute(w, (k, z3.IntVal(0))))
            lin = lambda t: b + c0 * t
            if c0 == 1:
                return (lambda j: (simp(z3.And(j - b >= 0)), simp(j - b)), v, g)
            return (lambda j: (simp(z3.And(j - b >= 0, (j - b) % c0 == 0)), simp((j - b) / c0)), v, g)
        if kn not in consts_in([w]):
            raise Unsupported('loop updates one object repeatedly')
        s = FSeq(self.n, lambda i: subst(w, [(k, Z(i))]), None, 'ids')
        item = self.seq.at(k)
        if isinstance(item, Ref) and Z(item.id).eq(w) and self.seq.find(item) is not None:
            src = self.seq
            s = FSeq(self.n, lambda i: subst(w, [(k, Z(i))]), lambda x: src.find(Ref(item.cls, Z(x))), 'ids')
        elif isinstance(item, Ref) and Z(item.id).eq(w):
            src = self.seq
            s = FSeq(self.n, lambda i: subst(w, [(k, Z(i))]), lambda x: c.find(src, Ref(item.cls, Z(x)), True), 'ids')
        vdep = kn in consts_in([Z(l) for l in safe_leaves(v)]) or (isz(g) and kn in consts_in([g]))
        if vdep:
            dd = z3.And(*[z3.BoolVal(True)])
            q1, q2 = z3.Ints('dq1 dq2')
            ok = c.check([0 <= q1, q1 < q2, q2 < self.n, z3.substitute(w, (k, q1)) == z3.substitute(w, (k, q2))], 3000) == z3.unsat
            if not ok:
                ds = c.distinct(s)
                if not (ds is True or c.valid(ds)):
                    return self.guarded_stream(key, w, v, g)
        return (lambda j: c.find(s, j, True), v, g)

    def guarded_stream(self, key, w, v, g):
        """ids that do not repeat among the iterations that write"""
        c, k = self.c, self.k
        why = 'loop writes %s.%s of objects that may repeat' % key[1:]
        if not isz(g):
            raise Unsupported(why)
        q1, q2 = z3.Ints('dq1 dq2')
        at = lambda t, q: z3.substitute(t, (k, q))
        if c.check([0 <= q1, q1 < q2, q2 < self.n, at(w, q1) == at(w, q2), at(g, q1), at(g, q2)], 4000) != z3.unsat:
            raise Unsupported(why)
        sig = (w.sexpr(), g.sexpr(), self.n.sexpr())
        sig = tuple(x.replace(k.decl().name(), 'k?') for x in sig)
        cache = c.__dict__.setdefault('gpos', {})
        if sig not in cache:
            cache[sig] = z3.Function(c.name('wpos'), z3.IntSort(), z3.IntSort())
        p = cache[sig]
        q = z3.Int('q?')
        c.pc.append(('f', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.n, at(g, q)), p(at(w, q)) == q), patterns=[at(w, q)])))

        def locate(j):
            i = p(Z(j))
            return simp(z3.And(0 <= i, i < self.n, at(w, i) == j, at(g, i))), i
        return (locate, v, g)

    def set_form(self, key, N, vals, pairs):
        raise Unsupported('set changed in a loop of symbolic length')

    # -------------------------------------------------- state from closed forms
    def set_state(self, t):
        c = self.c
        for key, o in self.mod.items():
            v = self.forms[key](t)
            put(c, key, o, v)

    def prep_forms(self):
        c = self.c
        if self.cache is None:
            mark = len(c.pc)
            vals = {key: self.forms[key](self.k) for key in self.mod}
            self.cache = (vals, c.pc[mark:])
        else:
            have = set(id(x) for x in c.pc)
            c.pc.extend(x for x in self.cache[1])
        for key, o in self.mod.items():
            put(c, key, o, self.cache[0][key])

    def inductive(self, paths):
        """the body leads from the closed form at k to the closed form at k + 1"""
        c, k = self.c, self.k
        N = [p for p in paths if p.out[0] == 'normal']
        self.why = ''
        ok = True
        redo = {}
        for key, o in self.mod.items():
            kind, ph, v0 = self.ph[key]
            vs = []
            for p in N:
                s = slots(p.state)
                vs.append(s[key][1] if key in s else ABSENT)
            ent = self.entry[key][1] if key in self.entry else ABSENT
            if kind == 'num' and not isinstance(self.forms[key](k), Poison):
                want = self.forms[key](simp(k + 1))
                for p, v in zip(N, vs):
                    if not self.holds(p, eqterm(v, want) if scalar(v) else False, key):
                        ok = False
                        self.why = 'value of %s' % (key[-1],)
            elif kind in ('list', 'seqval') and isinstance(ent, (Seq, Lst, Tup)) and not isinstance(ent, Poison):
                e = ent.seq if kind == 'seqval' else ent
                vv = [(v.seq if isinstance(v, (Lst, Tup)) else v) for v in vs]
                sf = self.list_form(key, ph, N, vv, [], base=e)
                if sf is None:
                    ok = False
                    self.why = 'list %s' % (key[-1],)
                    continue
                T = type(v0)
                redo[key] = (lambda sf, T: lambda t: T(sf(t)))(sf, T) if kind == 'seqval' else sf
            elif kind == 'heap':
                redo[key] = self.heap_form(key, N, vs, [], base=ent)
            elif kind == 'dict':
                redo[key] = self.dict_form(key, N, vs, [], ent)
            elif kind == 'temp':
                redo[key] = self.temp_form(key, N, vs, [])
        if not ok:
            return False
        changed = False
        for key, f in redo.items():
            kind = self.ph[key][0]
            if kind in ('list', 'seqval', 'heap', 'dict') and not self.same_form(kind, self.forms[key], f, key):
                changed = True
        self.forms.update(redo)
        if changed:
            self.why = 'feedback through a list or object fields'
        return not changed

    def same_form(self, kind, f, g, key):
        c, k = self.c, self.k
        t = self.n
        try:
            if kind == 'heap':
                j = z3.Int('hj?')
                a, b = f(t)(j), g(t)(j)
                la, lb = safe_leaves(a), safe_leaves(b)
                fm = conj([simp(x == y) for x, y in zip(la, lb)])
                return fm is True or c.check([z3.Not(Z(fm))], 1500) == z3.unsat
            if kind == 'dict':
                if f.streams is None or len(f.streams) != len(g.streams):
                    return False
                for (w1, v1, g1), (w2, v2, g2) in zip(f.streams, g.streams):
                    fm = conj([eqterm(w1, w2), simp(Z(g1) == Z(g2)), implies(g1, same_elem(c, v1, v2))])
                    if not (fm is True or c.check([z3.And(0 <= k, k < self.n), z3.Not(Z(fm))], 1500) == z3.unsat):
                        return False
                return True
            a, b = f(t), g(t)
            if kind == 'seqval':
                a, b = a.seq, b.seq
            if same_seq(a, b):
                return True
            i = z3.Int('li?')
            fm = conj([simp(Z(a.n) == Z(b.n)), implies(z3.And(0 <= i, i < Z(a.n)), same_elem(c, a.at(i), b.at(i)))])
            return fm is True or c.check([z3.Not(Z(fm))], 1500) == z3.unsat
        except Incomparable:
            return True

    def holds(self, p, f, key):
        c = self.c
        f = simp(f)
        if f is True:
            return True
        pc0 = c.pc
        c.pc = list(pc0) + list(p.pc)
        try:
            if c.check([z3.Not(Z(f))], 2500) == z3.unsat:
                return True
            g = c.fold_step_lemmas([f], self.k)
            if g and c.check(g + [z3.Not(Z(f))], 2500) == z3.unsat:
                return True
            return False
        finally:
            c.pc = pc0

    # -------------------------------------------------- after the loop
    def finish(self, paths):
        c, k, n = self.c, self.k, self.n
        N = [p for p in paths if p.out[0] == 'normal']
        X = [p for p in paths if p.out[0] != 'normal']
        seen = set()

        def facts(paths, upper, lo=0):
            out = []
            for p in paths:
                gs = []
                for kind, t in p.pc:
                    if (kind, t) == self.rng or t is self.rng[1] or t.eq(z3.And(0 <= k, k < n)):
                        continue
                    if kind == 'b':
                        gs.append(t)
                        continue
                    f = t if kind == 'd' else implies(conj(gs), t)
                    f = Z(f)
                    if f.get_id() in seen:
                        continue
                    seen.add(f.get_id())
                    if k.decl().name() in consts_in([f]):
                        out.append(('d' if kind == 'd' else 'f', z3.ForAll([k], f if kind == 'd' else z3.Implies(z3.And(0 <= k, k < Z(upper)), f))))
                    else:
                        out.append((kind, f if kind == 'd' else z3.Implies(n > 0, f)))
            return out
        if X:
            E = disj([p.guard() for p in X])
            Ek = lambda j: subst(E, [(k, Z(j))]) if isz(E) else E
            anyexit = exists(n, lambda j: Ek(j)) if isz(E) else (simp(n > 0) if E else False)
            only = only_at(c, E, k, n) if isz(E) else None
            if only is not None:
                anyexit = simp(z3.And(0 <= only, only < Z(n), Z(Ek(only))))
            if c.branch(anyexit):
                if E is True:
                    k0 = z3.IntVal(0)
                elif only is not None:
                    k0 = only
                    for kind, f in facts(N, k0):
                        c.pc.append((kind, f))
                else:
                    key = ('first', Z(n).sexpr(), Z(Ek(seqs.K0)).sexpr(), tuple(str(i) for i in c.iters))
                    if key not in c.firsts:
                        c.firsts[key] = c.fresh('first')
                    k0 = c.firsts[key]
                    c.assume(z3.And(0 <= k0, k0 < n, Z(Ek(k0))))
                    c.assume(forall(k0, lambda j: neg(Ek(j))))
                    for kind, f in facts(N, k0):
                        c.pc.append((kind, f))
                    # facts about the exiting iteration are regenerated by running it
                    if any(z3.is_quantifier(x) for x in [0]):
                        pass
                self.set_state(k0)
                self.body_at(k0)
                raise PathDead()
            if isz(E):
                pass
        for kind, f in facts(N + X, n):
            c.pc.append((kind, f))
        self.set_state(n)

    def body_at(self, k0):
        try:
            self.body(self.seq.at(k0))
        except ContinueX:
            raise PathDead()


class Incomparable(Exception):
    pass


def solutions(c, d, k):
    """candidates for the only k that makes one of the equations in d true"""
    out, seen, st = [], set(), [d]
    nm = k.decl().name()
    while st:
        t = st.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        st.extend(t.children())
        if not z3.is_eq(t):
            continue
        for l, x in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
            if nm in consts_in([x]) or nm not in consts_in([l]):
                continue
            if z3.is_app(l) and l.num_args() == 1 and l.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for pos, (f, m, g) in c.inverse.items():
                    if f.eq(l.decl()):
                        l, x = l.arg(0), g(x)
                        break
            if l.sort() != z3.IntSort():
                continue
            l0 = z3.substitute(l, (k, z3.IntVal(0)))
            for sgn in (1, -1):
                if z3.is_true(z3.simplify(l - l0 == sgn * k, som=True)) or c.check([l - l0 != sgn * k], 300) == z3.unsat:
                    r = z3.simplify(sgn * (x - l0), som=True)
                    if not any(r.eq(y) for y in out):
                        out.append(r)
    return out


def only_at(c, e, k, n):
    """the only k in 0..n-1 that can satisfy e, when e has a conjunct f(k) == x for an f with a position function"""
    for q in (e.children() if z3.is_and(e) else [e]):
        if not z3.is_eq(q):
            continue
        for l, x in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
            if z3.is_app(l) and l.num_args() == 1 and l.arg(0).eq(k) and k.decl().name() not in consts_in([x]):
                for pos, (f, m, g) in c.inverse.items():
                    if f.eq(l.decl()) and Z(m).eq(Z(n)):
                        return g(x)
    return None


def tree_size(t, memo=None):
    memo = {} if memo is None else memo
    i = t.get_id()
    if i not in memo:
        memo[i] = 1 + sum(tree_size(x, memo) for x in t.children())
    return memo[i]


def narrow(c, e, k, n):
    """e for 0 <= k < n, with the decided conditions inside it resolved"""
    if isinstance(e, Ref):
        t = narrow(c, e.id, k, n)
        return e if t is e.id else Ref(e.cls, t)
    if not isz(e) or e.sort() != z3.IntSort():
        return e
    if not conditions(e):
        return e
    r = narrowed(c, e, [z3.And(0 <= k, k < Z(n))], 2, [40])
    return r if tree_size(r) < tree_size(e) else e


def conditions(e):
    """conditions inside e, the smallest (innermost) first"""
    out, seen, st = [], set(), [e]
    while st:
        t = st.pop(0)
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not has_quant(t.arg(0)):
            out.append(t.arg(0))
        st.extend(t.children())
    return sorted(out, key=tree_size)


def narrowed(c, e, hyp, depth, fuel):
    open_ = []
    for _ in range(8):
        qs = [q for q in conditions(e) if not any(q.eq(o) for o in open_)]
        if not qs or fuel[0] <= 0:
            break
        q = qs[0]
        fuel[0] -= 1
        if c.check(hyp + [z3.Not(q)], 500) == z3.unsat:
            e = z3.simplify(z3.substitute(e, (q, z3.BoolVal(True))))
        elif c.check(hyp + [q], 500) == z3.unsat:
            e = z3.simplify(z3.substitute(e, (q, z3.BoolVal(False))))
        elif depth and tree_size(e) > 60:
            a = narrowed(c, z3.simplify(z3.substitute(e, (q, z3.BoolVal(True)))), hyp + [q], depth - 1, fuel)
            b = narrowed(c, z3.simplify(z3.substitute(e, (q, z3.BoolVal(False)))), hyp + [z3.Not(q)], depth - 1, fuel)
            return a if a.eq(b) else z3.If(q, a, b)
        else:
            open_.append(q)
    return e


def same_elem(c, a, b):
    if isinstance(a, (Lst, Tup)) and isinstance(b, (Lst, Tup)):
        return c.seqeq(a.seq, b.seq)
    if isinstance(a, (Opaque, NDArr, Obj, Scal)) or isinstance(b, (Opaque, NDArr, Obj, Scal)):
        raise Incomparable()
    return eqterm(a, b)


def safe_leaves(v):
    try:
        return seqs.leaves(v)
    except Unsupported:
        return []


def symbolic(ip, seq, body, fr, tag):
    L = Loop(ip, seq, body, fr, tag)
    L.run()


def frames_all(self):
    out, seen = [], set()
    for f in self.frames:
        while f is not None:
            if id(f) not in seen:
                seen.add(id(f))
                out.append(f)
            f = f.parent
    return out


Ctx.frames_all = frames_all


def fold_step_lemmas(self, terms, k):
    """prefix products and sums: fold over k + 1 elements = fold over k elements, then one more"""
    facts = []
    apps = seqs.apps_in([Z(t) for t in terms], set(self.foldnames))
    for a in apps:
        kind = self.foldnames[a.decl().name()][3]
        if kind not in ('prod', 'sum'):
            continue
        s = self.foldseq(a)
        for b in apps:
            if b.get_id() == a.get_id() or self.foldnames[b.decl().name()][3] != kind:
                continue
            r = self.foldseq(b)
            if not z3.is_true(z3.simplify(Z(s.n) == Z(r.n) + 1)):
                continue
            q = z3.FreshInt('fk')
            if self.check([0 <= q, q < Z(r.n), Z(s.at(q)) != Z(r.at(q))], 1500) == z3.unsat:
                last = Z(s.at(Z(r.n)))
                facts.append(z3.Implies(Z(r.n) >= 0, a == (b * last if kind == 'prod' else b + last)))
    return facts


Ctx.fold_step_lemmas = fold_step_lemmas


# ------------------------------------------------------------------ while
def while_loop(ip, s, fr):
    c = ip.c
    whiles = [x for x in ast.walk(fr.func.node) if isinstance(x, ast.While)]
    no = next(i for i, x in enumerate(whiles) if x is s)
    inv = c.loopinv.get((fr.func.qual, no))
    if inv is not None:
        return while_inv(ip, s, fr, inv)
    for _ in range(WHILE_UNROLL):
        t = ip.cond(s.test, fr)
        if isz(t):
            if c.check([t]) == z3.unsat:
                t = False
            elif c.check([z3.Not(t)]) == z3.unsat:
                t = True
            else:
                raise Unsupported('while loop without an invariant')
        if not t:
            ip.block(s.orelse, fr)
            return
        try:
            ip.block(s.body, fr)
        except ContinueX:
            pass
        except BreakX:
            return
    raise Unsupported('while loop too long')


def while_inv(ip, s, fr, inv):
    """inv: object with .vars (names of the variables the loop changes), .formula(c, env) and .decreases(c, env) or None"""
    c = ip.c
    name = '%s while' % fr.func.qual.replace('CTL.', '')
    assigned = {x.id for st in s.body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    sorts = {}
    c.oblige(name + ': invariant on entry', inv.formula(c, fr.env), 'invariant')
    for v in sorted(assigned):
        if v in fr.env and scalar(fr.env[v]):
            so = sort_of(fr.env[v])
            if v in getattr(inv, 'real', ()):
                so = z3.RealSort()
            fr.env[v] = c.fresh(v, so)
            sorts[v] = so
        else:
            fr.env[v] = Poison('assigned in a while loop')
    c.assume(inv.formula(c, fr.env))
    pre = dict(fr.env)
    again = c.branch(ip.cond(s.test, fr))
    if not again:
        ip.block(s.orelse, fr)
        return
    m0 = inv.decreases(c, fr.env) if getattr(inv, 'decreases', None) else None
    before = slots(c.snapshot())
    try:
        ip.block(s.body, fr)
    except ContinueX:
        pass
    except BreakX:
        return
    for key, (o, v) in slots(c.snapshot()).items():
        if key in before and key[0] != 'env' and not (same_value(v, before[key][1]) or (isinstance(v, Seq) and same_seq(v, before[key][1]))):
            raise Unsupported('while loop changes objects')
    for v, so in sorts.items():
        w = fr.env.get(v)
        if not scalar(w) or sort_of(w) != so and not (so == z3.RealSort() and is_int(w)):
            raise Unsupported('while loop changes the kind of %s' % v)
    c.oblige(name + ': invariant preserved', inv.formula(c, fr.env), 'invariant')
    if m0 is not None:
        m1 = inv.decreases(c, fr.env)
        c.oblige(name + ': measure decreases', conj([simp(Z(m1) < Z(m0)), simp(Z(m0) >= 0)]), 'termination')
    raise PathDead()


def for_inv(ip, s, seq, fr, inv):
    """inv.cells(c, env): (name, read, write) for what the loop changes;  inv.at(c, env, k): the value of each cell after k iterations,
    by ghost functions of k;  inv.step(c, env, k, item): facts defining them at k + 1"""
    from prover import cmp_value
    c = ip.c
    name = '%s: loop %d' % (fr.func.qual.replace('CTL.', ''), s.lineno - fr.func.node.lineno)
    name = '%s: loop over %s' % (fr.func.qual.replace('CTL.', ''), ast.unparse(s.iter))

    def compare(cells, want, when):
        for (nm, get, put_), w in zip(cells, want):
            goals = []
            cmp_value(c, get(), w, nm, goals, set())
            for g in goals:
                c.oblige('%s: invariant %s: %s' % (name, when, g.name), g.f, 'invariant')
    cells = inv.cells(c, fr.env)
    compare(cells, inv.at(c, fr.env, z3.IntVal(0)), 'on entry')
    targets = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for v in sorted(targets):
        if v not in [x[0] for x in cells]:
            # any value of its kind (checked below)
            fr.env[v] = c.fresh(v, sort_of(fr.env[v])) if v in fr.env and scalar(fr.env[v]) else Poison('assigned in a loop')
    kinds = {v: sort_of(fr.env[v]) for v in targets if v in fr.env and scalar(fr.env[v])}
    generic = c.branch(z3.Bool(c.name('iteration')))
    if not generic:
        for (nm, get, put_), w in zip(cells, inv.at(c, fr.env, Z(seq.n))):
            put_(w)
        if s.orelse:
            ip.block(s.orelse, fr)
        return
    k = c.fresh('k')
    c.assume(z3.And(0 <= k, k < Z(seq.n)))
    now = inv.at(c, fr.env, k)
    for (nm, get, put_), w in zip(cells, now):
        put_(w)
    before = slots(c.snapshot())
    heap0, alloc0 = dict(c.heap), dict(c.alloc)
    item = seq.at(k)
    inv.step(c, fr.env, k, item)
    ip.assign(s.target, item, fr)
    try:
        ip.block(s.body, fr)
    except ContinueX:
        pass
    except BreakX:
        raise Unsupported('break in a loop with an invariant')
    except PyRaise as e:
        c.oblige('%s: no %s in an iteration' % (name, e.cls), False, 'invariant')
        raise PathDead()
    compare(cells, inv.at(c, fr.env, simp(k + 1)), 'preserved')
    for v, so in kinds.items():
        if v not in [x[0] for x in cells] and not (scalar(fr.env.get(v)) and sort_of(fr.env[v]) == so):
            raise Unsupported('the loop changes the kind of %s' % v)
    for (nm, get, put_), w in zip(cells, now):
        put_(w)
    for key, (o, v) in slots(c.snapshot()).items():
        if key in before and key[0] != 'env' and not (same_value(v, before[key][1]) or (isinstance(v, Seq) and same_seq(v, before[key][1]))):
            raise Unsupported('the loop changes %s' % (key,))
    if c.heap != heap0 or any(c.alloc.get(x) is not alloc0[x] for x in alloc0):
        raise Unsupported('the loop changes the heap')
    raise PathDead()


# ------------------------------------------------------------------ list.remove
def list_remove(ip, lst, x):
    c = ip.c
    seq = lst.seq
    if isinstance(seq, CSeq):
        for i, y in enumerate(seq.items):
            if c.branch(eqterm(y, x)):
                lst.seq = CSeq(seq.items[:i] + seq.items[i + 1:])
                return
        raise PyRaise('ValueError')
    if isinstance(seq, Hole):
        # inference round: assume the element is there (checked in the inductive round)
        r = Hole(c, seq.seq0)
        r.removed = (seq, x)
        lst.seq = r
        return
    cond, i = c.find(seq, x, True)
    if not c.branch(cond):
        raise PyRaise('ValueError')
    r = c.filt(seq, lambda q: simp(Z(q) != Z(i)))
    if isinstance(r, CSeq):
        lst.seq = r
        return
    r2 = FSeq(r.n, r.at, r._find if isinstance(r, FSeq) else None, 'rem') if isinstance(r, FSeq) else Cat([r])
    r2.removed = (seq, x)
    lst.seq = r2
