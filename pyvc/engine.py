"""Symbolic interpreter for the Python subset used by /repo/src/CTL.

The abstract syntax interpreted is obtained by ast.parse of the files of the working tree on every
run; nothing of the code is rewritten.  What the interpretation drops: text of messages (format,
warnings, print), and the assumptions listed in ASSUMPTIONS.
"""
import ast, os, time
import z3
from values import *


class PyRaise(Exception):
    def __init__(self, cls, msg=None):
        self.cls = cls
        self.msg = msg

    def __str__(self):
        return 'raise %s' % self.cls


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class PathDead(Exception):
    pass


EXC = {'ValueError': ['ValueError'], 'TypeError': ['TypeError'], 'AssertionError': ['AssertionError'], 'KeyError': ['KeyError', 'LookupError'],
       'IndexError': ['IndexError', 'LookupError'], 'ZeroDivisionError': ['ZeroDivisionError', 'ArithmeticError'], 'Exception': ['Exception'],
       'NotImplementedError': ['NotImplementedError'], 'RuntimeError': ['RuntimeError'], 'AttributeError': ['AttributeError'],
       'StopIteration': ['StopIteration'], 'ImportError': ['ImportError']}


class FuncInfo:
    def __init__(self, node, mod, cls=None, closure=None, qual=None):
        self.node, self.mod, self.cls, self.closure = node, mod, cls, closure
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = qual or (mod.name + '.' + (cls.name + '.' if cls else '') + self.name)
        self.isgen = not isinstance(node, ast.Lambda) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        self.is_prop = any(isinstance(d, ast.Name) and d.id == 'property' for d in getattr(node, 'decorator_list', []))

    def __repr__(self):
        return 'Func(%s)' % self.qual


def walk_own(node):
    """nodes of a function body without nested functions"""
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.qual = mod.name + '.' + node.name
        self.methods, self.attrs = {}, {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = FuncInfo(s, mod, self)
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                self.attrs[s.targets[0].id] = s.value

    def bases(self, prog):
        r = []
        for b in self.node.bases:
            if isinstance(b, ast.Name) and b.id != 'object':
                v = prog.lookup(self.mod, b.id)
                if isinstance(v, ClassInfo):
                    r.append(v)
        return r

    def mro(self, prog):
        r = [self]
        for b in self.bases(prog):
            for c in b.mro(prog):
                if c not in r:
                    r.append(c)
        return r

    def find(self, prog, name):
        for c in self.mro(prog):
            if name in c.methods:
                return c.methods[name]
        return None

    def __repr__(self):
        return 'Class(%s)' % self.name


class ModInfo:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(open(path).read())
        self.defs = {}
        self.cache = {}
        for s in self.tree.body:
            if isinstance(s, ast.FunctionDef):
                self.defs[s.name] = ('f', s)
            elif isinstance(s, ast.ClassDef):
                self.defs[s.name] = ('c', s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.defs[a.asname or a.name.split('.')[0]] = ('m', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.defs[a.asname or a.name] = ('i', s.module, a.name)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.defs[s.targets[0].id] = ('a', s.value)


class ModRef:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Mod(%s)' % self.name


class NPRef:
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'np.' + '.'.join(self.path)


class Builtin:
    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class PyType:
    def __init__(self, name):
        self.name = name


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class BMeth:
    """builtin method of a value"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Program:
    def __init__(self, root):
        self.root = root
        self.mods = {}

    def mod(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.root, *name.split('.'))
        f = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if not os.path.exists(f):
            return None
        m = self.mods[name] = ModInfo(name, f)
        return m

    def lookup(self, mod, name):
        if name in mod.cache:
            return mod.cache[name]
        if name not in mod.defs:
            raise KeyError(name)
        d = mod.defs[name]
        if d[0] == 'f':
            v = FuncInfo(d[1], mod)
        elif d[0] == 'c':
            v = ClassInfo(d[1], mod)
        elif d[0] == 'm':
            v = NPRef(()) if d[1] == 'numpy' else ModRef(d[1])
        elif d[0] == 'i':
            m = self.mod(d[1]) if d[1].startswith('CTL') else None
            if m is None:
                v = Builtin(d[1] + '.' + d[2])
            else:
                sub = self.mod(d[1] + '.' + d[2]) if d[2] not in m.defs else None
                v = ModRef(sub.name) if sub else self.lookup(m, d[2])
        else:
            v = ('expr', d[1])
        if not isinstance(v, tuple):
            mod.cache[name] = v
        return v

    def func(self, qual):
        """'CTL.a.b.f' or 'CTL.a.b.C.m'"""
        parts = qual.split('.')
        for k in range(len(parts) - 1, 0, -1):
            m = self.mod('.'.join(parts[:k]))
            if m is not None:
                rest = parts[k:]
                if rest[0] not in m.defs:
                    raise Unsupported('%s is not defined any more' % qual)
                v = self.lookup(m, rest[0])
                if len(rest) == 1:
                    return v
                f = v.methods.get(rest[1])
                if f is None:
                    f = v.find(self, rest[1])
                if f is None:
                    raise Unsupported('%s is not defined any more' % qual)
                return f
        raise Unsupported('%s is not defined any more' % qual)


class Frame:
    def __init__(self, func, parent=None):
        self.func, self.parent = func, parent
        self.env = {}
        self.yields = None
        self.loop_no = 0


class Trace:
    def __init__(self, dec):
        self.dec = list(dec)
        self.pos = 0
        self.alts = []


class Path:
    def __init__(self, out, pc, state):
        self.out, self.pc, self.state = out, pc, state

    def guard(self):
        return conj([t for k, t in self.pc if k == 'b'])

    def facts(self):
        return [t for k, t in self.pc if k == 'f']


# fields of heap objects: class name -> field -> sort
HEAP = {
    'Leg': {'tensor': ('ref', 'Tensor'), 'name': 'str', 'dim': 'int', 'bond': ('ref', 'Bond')},
    'Bond': {'name': ('opt', 'str'), 'legs': ('tup', ('ref', 'Leg'), ('ref', 'Leg'))},
    'GraphVertex': {'index': 'int'},        # only in contracts that hold no vertex as an object of its own (vheap)
    'GraphEdge': {'vertices': ('tup', ('ref', 'GraphVertex'), ('ref', 'GraphVertex')), 'weight': 'real', 'index': 'int'},
}
SORTS = {'int': z3.IntSort(), 'str': z3.StringSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}
NONESTR = z3.StringVal('<None>')


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0


class Ctx:
    def __init__(self, prog, specs, deadline=None):
        self.prog, self.specs = prog, specs
        self.pc, self.heap, self.alloc = [], {}, {}
        self.frames, self.iters, self.roots = [], [], []
        self.trace = Trace([])
        self.cnt = 0
        self.obls = []
        self.stats = Stats()
        self.target = None
        self.vheap = False
        self.npaths = 0
        self.deadline = deadline
        self.inverse = {}       # name of a position function -> (element function, length): pos(f(i)) == i for 0 <= i < length
        self.inv = {}            # decl name of an injective UF -> (pos UF, n)
        self.prods = {}          # name -> (Seq)
        self.sums = {}
        self.ravs = {}           # flat index constants
        self.used_specs = set()
        self.depth = 0
        self.loopinv = {}
        self.inexact = set()     # names of symbols that over-approximate
        self.recs = []
        self.assumed = set()
        self.bases = {}
        self.filters = []
        self.sets_of = {}
        self.qcache = {}
        self.firsts = {}
        self.invs = {}

    # -------------------------------------------------- symbols
    def name(self, n):
        self.cnt += 1
        return '%s!%d' % (n, self.cnt)

    def fresh(self, n, sort=None):
        sort = sort if sort is not None else z3.IntSort()
        if self.iters:
            f = z3.Function(self.name(n), *([z3.IntSort()] * len(self.iters) + [sort]))
            return f(*self.iters)
        return z3.Const(self.name(n), sort)

    def freshfun(self, n, args, res):
        f = z3.Function(self.name(n), *([z3.IntSort()] * len(self.iters) + list(args) + [res]))
        its = list(self.iters)
        return lambda *a: f(*(its + [Z(x) for x in a]))

    # -------------------------------------------------- facts
    def assume(self, f):
        f = simp(f)
        if f is True:
            return
        if f is False:
            raise PathDead()
        self.pc.append(('f', f))

    def solver(self, timeout, extra=(), mbqi=False):
        # a context of its own: the answer depends on the query only, not on what was asked before
        ctx = z3.Context()
        s = z3.Solver(ctx=ctx)
        # the resource limit (about 1000 units per ms) decides, so that a loaded machine changes nothing; the wall clock only guards it
        s.set('rlimit', timeout * RL_PER_MS)
        s.set('timeout', timeout * 6)
        if not mbqi:
            s.set('auto_config', False)
            s.set('mbqi', False)
        s.set('random_seed', 1)
        gs = {}
        for t in [t for k, t in self.pc] + [Z(t) for t in extra]:
            s.add(t.translate(ctx))
            for g in ground_terms(t):
                gs[g.get_id()] = g
        for g in gs.values():
            s.add(z3.Function('term', g.sort(), z3.BoolSort())(g).translate(ctx))
        return s

    def check(self, extra, timeout=400, mbqi=False):
        if self.deadline and time.process_time() > self.deadline:
            raise Unsupported('time limit of the function reached')
        t0 = time.time()
        key = None
        if not mbqi:
            key = (frozenset(Z(t).get_id() for k, t in self.pc), frozenset(Z(t).get_id() for t in extra), timeout)
            if key in self.qcache:
                return self.qcache[key][0]
        r = z3.unknown
        if self.products:
            r = self.linear(extra, timeout)
        if r != z3.unsat:
            s = self.solver(timeout, extra, mbqi)
            r = s.check()
        if key is not None:
            self.qcache[key] = (r, list(self.pc), [Z(t) for t in extra])
        self.stats.queries += 1
        self.stats.time += time.time() - t0
        return r

    def linear(self, extra, timeout):
        """products of two numbers as numbers of their own, with a + k <= b => a m + k m <= b m  (m >= 0) for those occurring"""
        terms = [Z(t) for k, t in self.pc] + [Z(t) for t in extra]
        terms = [z3.simplify(t, som=True) for t in terms]
        prods, seen, st = {}, set(), list(terms)
        while st:
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                st.extend(t.children())
                if z3.is_mul(t) and z3.is_int(t):
                    fs = [x for x in t.children() if not z3.is_int_value(x)]
                    if len(fs) == 2 and all(z3.is_const(x) for x in fs):
                        key = tuple(sorted(fs, key=lambda x: x.decl().name()))
                        prods.setdefault(tuple(x.get_id() for x in key), (key, []))[1].append(t)
        if not prods:
            return z3.unknown
        subs, vs = [], {}
        for i, (fs, ts) in enumerate(prods.values()):
            v = z3.Int('product!%d' % i)
            vs[tuple(x.get_id() for x in fs)] = (fs, v)
            for t in ts:
                k = 1
                for x in t.children():
                    if z3.is_int_value(x):
                        k *= x.as_long()
                subs.append((t, k * v))
        facts = []
        ps = list(vs.values())
        for i, (f, v) in enumerate(ps):
            for g, w in ps[i:]:
                for m in f:
                    if any(m.eq(x) for x in g):
                        a = f[1] if m.eq(f[0]) else f[0]
                        b = g[1] if m.eq(g[0]) else g[0]
                        facts.append(z3.Implies(m >= 0, z3.And(*[z3.And(z3.Implies(a + k <= b, v + k * m <= w), z3.Implies(b + k <= a, w + k * m <= v)) for k in (-2, -1, 0, 1, 2)])))
            for a, m in ((f[0], f[1]), (f[1], f[0])):
                facts.append(z3.Implies(m >= 0, z3.And(*[z3.And(z3.Implies(a >= k, v >= k * m), z3.Implies(a <= k, v <= k * m)) for k in (-1, 0, 1, 2, 3)])))
        s = z3.Solver(ctx=(cx := z3.Context()))
        s.set('rlimit', timeout * RL_PER_MS)
        s.set('timeout', max(10 * timeout, 2000))
        for t in terms:
            s.add(z3.substitute(t, *subs).translate(cx))
        for t in facts:
            s.add(t.translate(cx))
        r = s.check()
        return z3.unsat if r == z3.unsat else z3.unknown

    def feasible(self, c):
        return self.check([c]) != z3.unsat

    def valid(self, f, timeout=2500):
        """f follows from what is known (internal side condition)"""
        f = simp(f)
        if isinstance(f, bool):
            if f:
                return True
            return self.check([], timeout) == z3.unsat
        return self.check([neg_goal(self, f)], timeout) == z3.unsat

    def valid_focused(self, f, timeout=2500):
        """as valid; a goal that is not found with all facts is tried with fewer of them (sound: every subset of the facts is true)"""
        if self.valid(f, timeout):
            return True
        f = simp(f)
        if isinstance(f, bool):
            return False
        pc = self.pc
        try:
            for keep in (lambda k, t: k != 'b' or not has_quant(t), lambda k, t: not has_quant(t) or len(t.sexpr()) < 600):
                self.pc = [(k, t) for k, t in pc if keep(k, Z(t))]
                if len(self.pc) < len(pc) and self.check([neg_goal(self, f)], timeout) == z3.unsat:
                    return True
        finally:
            self.pc = pc
        return False

    def branch(self, c):
        c = self.truth(c)
        if isinstance(c, bool):
            return c
        t = self.trace
        if t.pos < len(t.dec):
            d = t.dec[t.pos]
        else:
            nc = simp(z3.Not(c))
            ft, ff = self.feasible(c), self.feasible(nc)
            if not ft and not ff:
                raise PathDead()
            d = ft
            if ft and ff:
                t.alts.append(t.dec + [False])
            t.dec.append(d)
        t.pos += 1
        self.pc.append(('b', c if d else simp(z3.Not(c))))
        return d

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if is_bool(v):
            return simp(v)
        if isinstance(v, int) or isinstance(v, float):
            return v != 0
        if is_int(v) or is_real(v):
            return simp(v != 0)
        if isinstance(v, str):
            return v != ''
        if isz(v) and v.sort() == z3.StringSort():
            return simp(z3.Length(v) > 0)
        if isinstance(v, (Lst, Tup)):
            return simp(Z(v.seq.n) > 0) if not isinstance(v.seq.n, int) else v.seq.n > 0
        if isinstance(v, Ref):
            return simp(v.id != 0)
        if isinstance(v, OptV):
            return conj([neg(v.none), self.truth(v.v)])
        if isinstance(v, DictV) and isinstance(v.items, list):
            return len(v.items) > 0
        if isinstance(v, (Obj, FuncInfo, Bound, Builtin)):
            return True
        raise Unsupported('truth value of %r' % (v,))

    # -------------------------------------------------- heap
    def wrap(self, sort, term):
        if isinstance(sort, tuple) and sort[0] == 'ref':
            return Ref(sort[1], term)
        return term

    def hinit(self, cls, field):
        k = (cls, field)
        sort = HEAP[cls][field]

        def mk(sort, suffix):
            if isinstance(sort, tuple) and sort[0] == 'tup':
                fs = [mk(s, suffix + str(i)) for i, s in enumerate(sort[1:])]
                return lambda i: Tup(CSeq([f(i) for f in fs]))
            zs = z3.IntSort() if isinstance(sort, tuple) and sort[0] == 'ref' else SORTS[sort[1] if isinstance(sort, tuple) else sort]
            u = z3.Function('%s.%s%s' % (cls, field, suffix), z3.IntSort(), zs)
            return lambda i: self.wrap(sort, u(Z(i)))
        return mk(sort, '')

    def hget(self, cls, field, i):
        if cls not in HEAP or field not in HEAP[cls] or cls == 'GraphVertex' and not self.vheap:
            raise Unsupported('field %s.%s' % (cls, field))
        k = (cls, field)
        if k not in self.heap:
            self.heap[k] = self.hinit(cls, field)
        return hval(self.heap[k](Z(i)))

    def hset(self, cls, field, i, v):
        if cls not in HEAP or field not in HEAP[cls] or cls == 'GraphVertex' and not self.vheap:
            raise Unsupported('field %s.%s' % (cls, field))
        k = (cls, field)
        if k not in self.heap:
            self.heap[k] = self.hinit(cls, field)
        old, i = self.heap[k], Z(i)
        v = self.coerce(HEAP[cls][field], v)

        def new(j):
            return ite(simp(Z(j) == i), v, old(j))
        new.upd = (i, v, old)
        self.heap[k] = new

    def coerce(self, sort, v):
        if isinstance(sort, tuple) and sort[0] == 'ref':
            if v is None:
                return Ref(sort[1], z3.IntVal(0))
            if isinstance(v, (Ref, Obj)):
                return Ref(sort[1], Z(v))
            raise Unsupported('reference field set to %r' % (v,))
        if isinstance(v, Poison):
            raise Unsupported('value after a loop')
        if isinstance(sort, tuple) and sort[0] == 'tup':
            if not isinstance(v, Tup) or v.seq.n != len(sort) - 1:
                raise Unsupported('tuple field set to %r' % (v,))
            return Tup(CSeq([self.coerce(s, v.seq.at(i)) for i, s in enumerate(sort[1:])]))
        if sort == 'str' or sort == ('opt', 'str'):
            if v is None:
                return NONESTR
            if isinstance(v, Opaque):
                return self.fresh('opaque', z3.StringSort())
            return Z(v)
        if sort == 'int':
            return Z(v)
        if sort == 'real':
            v = Z(v)
            return z3.ToReal(v) if v.sort() == z3.IntSort() else v
        raise Unsupported('field sort %r' % (sort,))

    def newid(self, cls):
        if cls not in self.alloc:
            self.alloc[cls] = z3.Int('frontier.' + cls)
            self.pc.insert(0, ('f', self.alloc[cls] >= 1))
        i = self.alloc[cls]
        self.alloc[cls] = simp_id(i + 1)
        return i

    def frontier(self, cls):
        if cls not in self.alloc:
            self.alloc[cls] = z3.Int('frontier.' + cls)
            self.pc.insert(0, ('f', self.alloc[cls] >= 1))
        return self.alloc[cls]

    # -------------------------------------------------- snapshot / restore
    def reach(self):
        seen, out = set(), []
        st = []
        for f in self.frames:
            g = f
            while g is not None:
                if id(g) not in seen:
                    seen.add(id(g)); out.append(g)
                    st.extend(g.env.values())
                    if g.yields is not None:
                        st.append(g.yields)
                g = g.parent
        st.extend(self.roots)
        while st:
            v = st.pop()
            if isinstance(v, (Lst, Tup)):
                if isinstance(v, Lst):
                    if id(v) in seen:
                        continue
                    seen.add(id(v)); out.append(v)
                for p in flat(v.seq):
                    if isinstance(p, CSeq):
                        st.extend(p.items)
            elif isinstance(v, (Obj, SetV, DictV)):
                if id(v) in seen:
                    continue
                seen.add(id(v)); out.append(v)
                if isinstance(v, Obj):
                    st.extend(v.fields.values())
                elif isinstance(v, DictV):
                    if isinstance(v.items, list):
                        st.extend(x for kv in v.items for x in kv)
                elif v.items:
                    st.extend(v.items)
            elif isinstance(v, NDArr):
                if id(v) not in seen:
                    seen.add(id(v)); out.append(v)
            elif isinstance(v, Bound):
                st.append(v.obj)
            elif isinstance(v, FuncInfo) and v.closure is not None:
                g = v.closure
                while g is not None:
                    if id(g) not in seen:
                        seen.add(id(g)); out.append(g)
                        st.extend(g.env.values())
                    g = g.parent
        return out

    def snapshot(self):
        s = []
        for o in self.reach():
            if isinstance(o, Frame):
                s.append((o, (dict(o.env), o.yields)))
            elif isinstance(o, Lst):
                s.append((o, o.seq))
            elif isinstance(o, Obj):
                s.append((o, dict(o.fields)))
            elif isinstance(o, SetV):
                s.append((o, (o._pred, None if o.items is None else list(o.items))))
            elif isinstance(o, DictV):
                s.append((o, list(o.items) if isinstance(o.items, list) else o.items))
            elif isinstance(o, NDArr):
                s.append((o, o.elem))
        return (s, dict(self.heap), dict(self.alloc))

    def restore(self, snap):
        for o, v in snap[0]:
            if isinstance(o, Frame):
                o.env, o.yields = dict(v[0]), v[1]
            elif isinstance(o, Lst):
                o.seq = v
            elif isinstance(o, Obj):
                o.fields = dict(v)
            elif isinstance(o, SetV):
                o._pred, o.items = v[0], (None if v[1] is None else list(v[1]))
            elif isinstance(o, DictV):
                o.items = list(v) if isinstance(v, list) else v
            elif isinstance(o, NDArr):
                o.elem = v
        self.heap, self.alloc = dict(snap[1]), dict(snap[2])

    def explore(self, thunk, limit=300):
        snap, outer, pc0 = self.snapshot(), self.trace, list(self.pc)
        frames0, iters0, depth0 = list(self.frames), list(self.iters), self.depth
        work, res = [[]], []
        while work:
            dec = work.pop()
            self.restore(snap)
            self.trace = Trace(dec)
            self.pc = list(pc0)
            self.frames, self.iters, self.depth = list(frames0), list(iters0), depth0
            try:
                try:
                    out = ('normal', thunk())
                except ReturnX as e:
                    out = ('return', e.v)
                except BreakX:
                    out = ('break', None)
                except ContinueX:
                    out = ('normal', None)
                except PyRaise as e:
                    out = ('raise', e)
                self.frames = list(frames0)
                n0 = sum(1 for x in self.pc if x in ()) if False else None
                adds = [x for x in self.pc if not any(x is y for y in pc0)]
                res.append(Path(out, adds, self.snapshot()))
            except PathDead:
                pass
            work.extend(self.trace.alts)
            if len(res) + len(work) > limit:
                raise Unsupported('too many paths')
        self.restore(snap)
        self.trace, self.pc = outer, pc0
        self.frames, self.iters, self.depth = frames0, iters0, depth0
        return res

    # -------------------------------------------------- obligations
    witness = None
    products = False    # integer products occur: try the linear abstraction first
    soft = False        # private representation ('state') or everything ('all') may differ without being wrong: undecided, not refuted
    sizes = ()          # numbers occurring as factors: a counterexample is looked for with small ones
    hints = []          # numbers at which a loop may meet what is counted
    counting = None      # element whose occurrences in the generated sequence are counted

    def choose(self, name, sort, pred, pick=lambda r: r):
        """some value with pred: at a call site any such value, when the body is verified the one it returned"""
        if self.witness is not None:
            v = pick(self.witness[0])
            if isz(v) and v.sort() != sort or not isz(v) and not isinstance(v, (int, str, float, bool)):
                raise Unsupported('%s is no value of the expected kind' % name)
            self.oblige(name, pred(v), 'choice')
            return v
        v = self.fresh(name, sort)
        self.assume(pred(v))
        return v

    def oblige(self, name, f, kind='call'):
        """record an obligation under the current path, then assume it"""
        f = simp(f)
        self.obls.append((name, list(self.pc), f, kind))
        if f is not True and f is not False:
            self.pc.append(('f', f))


GROUND = {}


def ground_terms(t):
    """maximal terms without bound variables below quantifiers (put into the solver's term graph for its triggers)"""
    t = Z(t)
    if t.get_id() in GROUND:
        return GROUND[t.get_id()][1]
    out, seen = {}, {}

    def closed(x):
        i = x.get_id()
        if i in seen:
            return seen[i]
        if z3.is_var(x):
            r = False
        elif z3.is_quantifier(x):
            r = False
        else:
            r = all([closed(y) for y in x.children()])
        seen[i] = r
        return r

    def inner(x):
        if z3.is_quantifier(x):
            return inner(x.body())
        if z3.is_app(x):
            if x.num_args() and x.sort() != z3.BoolSort() and closed(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[x.get_id()] = x
                    return
            for y in x.children():
                inner(y)

    def outer(x, done):
        if x.get_id() in done:
            return
        done.add(x.get_id())
        if z3.is_quantifier(x):
            inner(x.body())
        elif z3.is_app(x):
            for y in x.children():
                outer(y, done)
    outer(t, set())
    r = list(out.values())
    GROUND[t.get_id()] = (t, r)
    return r


def hval(v):
    if isinstance(v, Ref):
        return Ref(v.cls, simp_id(v.id))
    return simp(v) if isz(v) else v


RL_PER_MS = 1100


def has_quant(t, seen=None):
    """does the term contain a quantifier"""
    seen = set() if seen is None else seen
    if z3.is_quantifier(t):
        return True
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    return any(has_quant(x, seen) for x in t.children())


def neg_goal(ctx, f):
    """negation of a goal with universal quantifiers replaced by fresh constants"""
    f = Z(f)
    if z3.is_quantifier(f) and f.is_forall():
        vs = [z3.Const(ctx.name('sk'), f.var_sort(i)) for i in range(f.num_vars())]
        return neg_goal(ctx, z3.substitute_vars(f.body(), *reversed(vs)))
    if z3.is_implies(f):
        return z3.And(f.arg(0), neg_goal(ctx, f.arg(1)))
    if z3.is_and(f):
        return z3.Or(*[neg_goal(ctx, c) for c in f.children()])
    return z3.Not(f)
