"""evaluation of statements and expressions"""
import ast
import z3
from values import *
from engine import *
import loops, npmodel

IGNORED_CALLS = {'warnings.warn', 'print', 'warnings.filterwarnings', 'warnings.simplefilter'}
MSG_FUNCS = {'CTL.funcs.funcs.errorMessage', 'CTL.funcs.funcs.warningMessage', 'CTL.funcs.funcs.deprecatedFuncWarning'}
UNROLL = 40


class Interp:
    def __init__(self, ctx):
        self.c = ctx
        ctx.interp = self

    # ------------------------------------------------------------ names
    def lookup(self, fr, name):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if isinstance(v, loops.Lazy):
                    v = f.env[name] = v.thunk()
                if isinstance(v, Poison):
                    raise Unsupported('value of %s after a loop (%s)' % (name, v.why))
                return v
            f = f.parent
        mod = fr.func.mod
        try:
            v = self.c.prog.lookup(mod, name)
        except KeyError:
            v = BUILTINS.get(name)
            if v is None:
                raise Unsupported('name %s' % name)
            return v
        if isinstance(v, tuple) and v[0] == 'expr':
            raise Unsupported('module level value %s' % name)
        return v

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        c = self.c
        if isinstance(f, FuncInfo):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.obj] + list(args), kw)
        if isinstance(f, BMeth):
            return self.method(f.obj, f.name, args, kw)
        if isinstance(f, ClassInfo):
            return self.instantiate(f, args, kw)
        if isinstance(f, NPRef):
            return npmodel.call(self, f.path, args, kw)
        if isinstance(f, Builtin):
            if f.fn is None:
                r = self.external(f.name, args, kw)
                return r
            return f.fn(self, *args, **kw)
        if isinstance(f, PyType):
            return self.external(f.name, args, kw)
        if callable(f):
            return f(self, *args, **kw)
        raise Unsupported('call of %r' % (f,))

    def external(self, name, args, kw):
        b = BUILTINS.get(name)
        if b is not None and b.fn is not None:
            return b.fn(self, *args, **kw)
        if name == 'copy.deepcopy' and isinstance(args[0], (int, str)):
            return args[0]
        if name.startswith('math.'):
            return npmodel.ufun(self, name[5:], args)
        raise Unsupported('call of %s' % name)

    def instantiate(self, cls, args, kw):
        c = self.c
        if cls.name in ('ValueError', 'TypeError'):
            return Opaque('exc')
        i = c.newid('Tensor' if any(b.name == 'Tensor' for b in cls.mro(c.prog)) else cls.name)
        if cls.name in HEAP and (cls.name != 'GraphVertex' or c.vheap):
            obj = Ref(cls.name, i)
            c.cls_of[cls.name] = cls
        else:
            obj = Obj(cls, i, {})
        init = cls.find(c.prog, '__init__')
        if init is not None:
            self.call_func(init, [obj] + list(args), kw)
        return obj

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.args]
        env = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise('TypeError', 'too many arguments for %s' % f.name)
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(CSeq(args[len(names):]))
        for n, v in kw.items():
            if n in env or (n not in names and n not in [x.arg for x in a.kwonlyargs]):
                raise PyRaise('TypeError', 'argument %s of %s' % (n, f.name))
            env[n] = v
        ds = a.defaults
        for n, d in zip(names[len(names) - len(ds):], ds):
            if n not in env:
                env[n] = self.eval(d, Frame(f, f.closure))
                if isinstance(env[n], (Lst, DictV, SetV)):
                    env[n].default = True       # one object for all calls
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval(d, Frame(f, f.closure))
        for n in names:
            if n not in env:
                raise PyRaise('TypeError', 'missing argument %s of %s' % (n, f.name))
        return env

    def call_func(self, f, args, kw):
        c = self.c
        if f.qual in MSG_FUNCS:
            return Opaque('message')
        env = self.bind(f, args, kw)
        sp = c.specs.get(f.qual)
        if sp is not None and not (c.target == f.qual and c.depth == 0):
            if sp.applies(c, env):
                c.used_specs.add(f.qual)
                c.depth += 1
                try:
                    return sp.use(c, env)
                finally:
                    c.depth -= 1
        return self.run_body(f, env)

    def run_body(self, f, env):
        c = self.c
        if c.depth > 25:
            raise Unsupported('call depth')
        fr = Frame(f, f.closure)
        fr.env = env
        if f.isgen:
            fr.yields = Lst(CSeq([]))
            if c.counting is not None and c.depth == 0 and c.target == f.qual:
                # the generator is judged by how often it yields an arbitrary given element
                fr.counting, fr.bag = c.counting, None
                fr.env['#count'] = 0
        c.frames.append(fr)
        c.depth += 1
        c.inlined.add(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.eval(f.node.body, fr)
            else:
                r = None
                try:
                    self.block(f.node.body, fr)
                except ReturnX as e:
                    r = e.v
        finally:
            c.depth -= 1
        c.frames.pop()
        if hasattr(fr, 'counting'):
            return fr.env['#count']
        return fr.yields if f.isgen else r

    def count_yield(self, v, fr):
        c, T = self.c, fr.counting
        if fr.bag is None:
            t = eqterm_deep(c, v, T)
            d = simp(z3.If(Z(t), 1, 0))
        else:
            x, bag = fr.bag
            t, sub = bag.split(v, x, T)
            d = simp(z3.If(Z(t), Z(bag.count(sub)), 0))
        fr.env['#count'] = simp(add(fr.env['#count'], d))

    def bag_loop(self, s, seq, fr):
        """loop over a collection of which the number of occurrences of every element is known, inside a counted generator"""
        c = self.c
        if fr.bag is not None or s.orelse:
            raise Unsupported('nested loops over collections')
        x = seq.element(c)
        S0, n0, t0 = loops.slots(c.snapshot()), len(c.pc), len(c.trace.dec) if hasattr(c.trace, 'dec') else None
        fr.bag = (x, seq)
        try:
            self.assign(s.target, x, fr)
            self.block(s.body, fr)
        finally:
            fr.bag = None
        if any(consts_of(t) & seq.names for k, t in c.pc[n0:]):
            raise Unsupported('decision on an element of a collection')
        for key, (o, v) in loops.slots(c.snapshot()).items():
            same = key in S0 and loops.same_value(S0[key][1], v)
            if key[0] == 'env' and key[1] == id(fr) and key[2] != '#count' and not same:
                fr.env[key[2]] = Poison('element of a collection')
            elif key[0] != 'env' and not same and (key in S0 or key[0] in ('heap', 'alloc')):
                raise Unsupported('loop over a collection with effects: %s' % (key,))

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        c = self.c
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            if isinstance(s.value, ast.Yield):
                v = self.eval(s.value.value, fr)
                if hasattr(fr, 'counting'):
                    return self.count_yield(v, fr)
                fr.yields.seq = cat(fr.yields.seq, CSeq([v]))
                return
            if isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in IGNORED_CALLS:
                return
            self.eval(s.value, fr)
        elif t is ast.Assign:
            v = self.eval(s.value, fr)
            for tg in s.targets:
                self.assign(tg, v, fr)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, fr), fr)
        elif t is ast.AugAssign:
            self.augassign(s, fr)
        elif t is ast.Return:
            raise ReturnX(self.eval(s.value, fr) if s.value is not None else None)
        elif t is ast.If:
            if c.branch(self.cond(s.test, fr)):
                self.block(s.body, fr)
            else:
                self.block(s.orelse, fr)
        elif t is ast.For:
            self.for_stmt(s, fr)
        elif t is ast.While:
            loops.while_loop(self, s, fr)
        elif t is ast.Assert:
            if not c.branch(self.cond(s.test, fr)):
                raise PyRaise('AssertionError')
        elif t is ast.Raise:
            if s.exc is None:
                raise Unsupported('re-raise')
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            raise PyRaise(e.id if isinstance(e, ast.Name) else 'Exception')
        elif t is ast.Break:
            raise BreakX()
        elif t is ast.Continue:
            raise ContinueX()
        elif t is ast.Pass:
            pass
        elif t is ast.FunctionDef:
            fr.env[s.name] = FuncInfo(s, fr.func.mod, None, fr, fr.func.qual + '.' + s.name)
        elif t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Subscript):
                    o = self.eval(tg.value, fr)
                    self.delitem(o, self.eval(tg.slice, fr))
                elif isinstance(tg, ast.Name):
                    del fr.env[tg.id]
                else:
                    raise Unsupported('del')
        elif t in (ast.Import, ast.ImportFrom):
            for a in s.names:
                if t is ast.Import:
                    fr.env[a.asname or a.name.split('.')[0]] = NPRef(()) if a.name == 'numpy' else ModRef(a.name)
                else:
                    m = c.prog.mod(s.module)
                    if m is None:
                        raise Unsupported('local import of %s' % s.module)
                    fr.env[a.asname or a.name] = c.prog.lookup(m, a.name)
        elif t is ast.Try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    names = [h.type.id] if isinstance(h.type, ast.Name) else ([x.id for x in h.type.elts] if h.type is not None else None)
                    if names is None or any(n in EXC.get(e.cls, [e.cls]) + ['Exception'] for n in names):
                        self.block(h.body, fr)
                        break
                else:
                    self.block(s.finalbody, fr)
                    raise
            else:
                self.block(s.orelse, fr)
            self.block(s.finalbody, fr)
        elif t is ast.Global or t is ast.Nonlocal:
            raise Unsupported('global/nonlocal')
        else:
            raise Unsupported('statement %s' % t.__name__)

    def for_stmt(self, s, fr):
        c = self.c
        seq = self.iterable(self.eval(s.iter, fr))
        if isinstance(seq, Bag) and hasattr(fr, 'counting') and hasattr(seq, 'element'):
            return self.bag_loop(s, seq, fr)

        if c.loopinv and not isinstance(seq, CSeq):
            fors = [x for x in ast.walk(fr.func.node) if isinstance(x, ast.For)]
            inv = c.loopinv.get((fr.func.qual, ('for', next((i for i, x in enumerate(sorted(fors, key=lambda x: (x.lineno, x.col_offset))) if x is s), -1))))
            if inv is not None:
                return loops.for_inv(self, s, seq, fr, inv)

        def body(item):
            self.assign(s.target, item, fr)
            self.block(s.body, fr)
        loops.for_loop(self, seq, body, fr, lambda: self.block(s.orelse, fr), tag='%s:%d' % (fr.func.name, s.lineno))

    def iterable(self, v):
        if isinstance(v, (Lst, Tup)):
            return v.seq
        if isinstance(v, Seq):
            return v
        if isinstance(v, DictV):
            if isinstance(v.items, KMap):
                return v.items.keys
            if isinstance(v.items, FMap):
                raise Unsupported('iteration over a dictionary of symbolic size')
            return CSeq([k for k, _ in v.items])
        if isinstance(v, SetV):
            if v.items is not None and len(v.items) <= 1:
                return CSeq(v.items)
            raise Unsupported('iteration over a set')
        if isinstance(v, str):
            return CSeq(list(v))
        if isinstance(v, NDArr):
            return npmodel.rows(self, v)
        if v is None or isinstance(v, (int, float)):
            raise PyRaise('TypeError')
        raise Unsupported('iteration over %r' % (v,))

    # ------------------------------------------------------------ assignment
    def assign(self, tg, v, fr):
        c = self.c
        if isinstance(tg, ast.Name):
            fr.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            seq = self.iterable(v)
            n = len(tg.elts)
            if not isinstance(seq.n, int):
                if not c.branch(seq.n == n):
                    raise PyRaise('ValueError')
            elif seq.n != n:
                raise PyRaise('ValueError')
            for k, e in enumerate(tg.elts):
                self.assign(e, seq.at(k), fr)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.eval(tg.value, fr), tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, fr)
            self.setitem(o, self.index(tg.slice, fr), v)
        else:
            raise Unsupported('assignment to %s' % type(tg).__name__)

    def setattr(self, o, name, v):
        c = self.c
        if isinstance(o, Ref):
            self.notnone(o)
            c.hset(o.cls, name, o.id, v)
        elif isinstance(o, Obj):
            o.fields[name] = v
        else:
            if o is None:
                raise PyRaise('AttributeError')
            raise Unsupported('attribute assignment on %r' % (o,))

    def notnone(self, o):
        if not self.c.branch(o.id != 0):
            raise PyRaise('AttributeError')

    def augassign(self, s, fr):
        cur = self.eval_target(s.target, fr)
        v = self.eval(s.value, fr)
        if isinstance(cur, Lst) and isinstance(s.op, ast.Add):
            cur.seq = cat(cur.seq, self.iterable(v))
            self.assign(s.target, cur, fr) if not isinstance(s.target, ast.Name) else None
            return
        if isinstance(cur, NDArr):
            r = npmodel.inplace(self, cur, type(s.op), v)
        else:
            r = self.binop(type(s.op), cur, v)
        self.assign(s.target, r, fr)

    def eval_target(self, t, fr):
        t2 = ast.copy_location(type(t)(**{k: getattr(t, k) for k in t._fields if k != 'ctx'}, ctx=ast.Load()), t)
        return self.eval(t2, fr)

    def setitem(self, o, k, v):
        c = self.c
        if isinstance(o, Lst):
            if isinstance(k, slice):
                raise Unsupported('slice assignment')
            n = o.seq.n
            k = self.normindex(k, n)
            old = o.seq
            if isinstance(old, CSeq) and isinstance(k, int):
                its = list(old.items)
                its[k] = v
                o.seq = CSeq(its)
            else:
                o.seq = FSeq(n, lambda i: ite(simp(Z(i) == Z(k)), v, old.at(i)), None, tag='upd')
        elif isinstance(o, DictV):
            if isinstance(o.items, KMap):
                o.items = o.items.insert(c, k, v)
                return
            if isinstance(o.items, FMap):
                o.items = o.items.set(k, v)
                return
            for i, (kk, _) in enumerate(o.items):
                e = simp(eqterm(kk, k))
                if c.branch(e):
                    o.items = o.items[:i] + [(kk, v)] + o.items[i + 1:]
                    return
            o.items = o.items + [(k, v)]
        elif isinstance(o, NDArr):
            npmodel.setitem(self, o, k, v)
        else:
            raise Unsupported('item assignment on %r' % (o,))

    def delitem(self, o, k):
        c = self.c
        if isinstance(o, DictV) and isinstance(o.items, list):
            for i, (kk, _) in enumerate(o.items):
                if c.branch(eqterm(kk, k)):
                    o.items = o.items[:i] + o.items[i + 1:]
                    return
            raise PyRaise('KeyError')
        if isinstance(o, DictV):
            old = o.items
            if not c.branch(old.get(k)[0]):
                raise PyRaise('KeyError')
            o.items = FMap(lambda x: (conj([neg(eqterm(x, k)), old.get(x)[0]]), old.get(x)[1]))
            return
        raise Unsupported('del item')

    def normindex(self, k, n):
        """index normalised to 0 <= k < n, IndexError otherwise"""
        c = self.c
        if isinstance(k, OptV):
            if c.branch(k.none):
                raise PyRaise('TypeError')
            k = k.v
        if is_bool(k):
            k = z3.If(Z(k), 1, 0)
        if not is_int(k):
            raise Unsupported('index %r' % (k,))
        if isinstance(k, int) and isinstance(n, int):
            if -n <= k < n:
                return k % n if n else k
            raise PyRaise('IndexError')
        if c.branch(simp(z3.And(0 <= Z(k), Z(k) < Z(n)))):
            return k
        if c.branch(simp(z3.And(Z(k) < 0, Z(k) >= -Z(n)))):
            return simp(Z(k) + Z(n))
        raise PyRaise('IndexError')

    # ------------------------------------------------------------ expressions
    def cond(self, e, fr):
        return self.c.truth(self.eval(e, fr))

    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, complex):
            return Opaque('complex %r' % v)
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_Tuple(self, e, fr):
        return Tup(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return Lst(self.elts(e.elts, fr))

    def elts(self, es, fr):
        r = CSeq([])
        for x in es:
            if isinstance(x, ast.Starred):
                r = cat(r, self.iterable(self.eval(x.value, fr)))
            else:
                r = cat(r, CSeq([self.eval(x, fr)]))
        return r

    def e_Set(self, e, fr):
        return mkset(self, self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = DictV([])
        for k, v in zip(e.keys, e.values):
            self.setitem(d, self.eval(k, fr), self.eval(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        return Opaque('fstring')

    def e_Lambda(self, e, fr):
        return FuncInfo(e, fr.func.mod, None, fr, fr.func.qual + '.<lambda>')

    def e_IfExp(self, e, fr):
        return self.eval(e.body, fr) if self.c.branch(self.cond(e.test, fr)) else self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        # pure comparisons of values are kept as one formula where possible
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, fr)
            if k == len(e.values) - 1:
                return v
            t = self.c.truth(v)
            if isinstance(t, bool):
                if t != isand:
                    return v
                continue
            if self.c.branch(t) != isand:
                return v if not is_bool(v) else (not isand)
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return neg(self.c.truth(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, NDArr):
                return npmodel.unary(self, '-', v)
            return -v if not isz(v) else simp(-v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary %s' % type(e.op).__name__)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op), a, b)

    def binop(self, op, a, b):
        c = self.c
        if isinstance(a, NDArr) or isinstance(b, NDArr) or isinstance(a, npmodel.NPScal) or isinstance(b, npmodel.NPScal):
            return npmodel.binop(self, op, a, b)
        if isinstance(a, Obj) and op is ast.MatMult:
            return self.call(self.getattr(a, '__matmul__'), [b], {})
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('op')
        if isinstance(a, (Lst, Tup)) and isinstance(b, (Lst, Tup)) and op is ast.Add:
            if type(a) is not type(b):
                raise PyRaise('TypeError')
            return type(a)(cat(a.seq, b.seq))
        if op is ast.Mult and isinstance(b, (Lst, Tup)):
            a, b = b, a
        if op is ast.Mult and isinstance(a, (Lst, Tup)):
            if isinstance(b, int) and isinstance(a.seq, CSeq):
                return type(a)(CSeq(a.seq.items * max(b, 0)))
            if isinstance(a.seq.n, int) and a.seq.n == 1:
                x = a.seq.at(0)
                n = simp(Z(b)) if self.c.valid(Z(b) >= 0, 500) else simp(z3.If(Z(b) < 0, 0, Z(b)))
                return type(a)(FSeq(n, lambda i: x, None, tag='rep'))
            raise Unsupported('repetition of a sequence')
        if op is ast.Mult and is_str(b) and is_int(a):
            a, b = b, a
        if op is ast.Mult and is_str(a):
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(a, str):
                return SPat([('rep', a, Z(b))])
            raise Unsupported('string repetition')
        if is_str(a) and is_str(b) and op is ast.Add:
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, SPat) or isinstance(b, SPat):
                return SPat((a.parts if isinstance(a, SPat) else [a]) + (b.parts if isinstance(b, SPat) else [b]))
            return simp(z3.Concat(Z(a), Z(b)))
        if is_str(a) != is_str(b) and op is ast.Add:
            raise PyRaise('TypeError')
        if isinstance(a, OptV):
            if c.branch(a.none):
                raise PyRaise('TypeError')
            a = a.v
        if isinstance(b, OptV):
            if c.branch(b.none):
                raise PyRaise('TypeError')
            b = b.v
        if a is None or b is None:
            raise PyRaise('TypeError')
        if isinstance(a, SetV) and isinstance(b, SetV):
            f = {ast.BitOr: lambda x: disj([a.pred(x), b.pred(x)]), ast.BitAnd: lambda x: conj([a.pred(x), b.pred(x)]),
                 ast.BitXor: lambda x: simp(z3.Xor(Z(a.pred(x)), Z(b.pred(x)))), ast.Sub: lambda x: conj([a.pred(x), neg(b.pred(x))])}.get(op)
            if f is None:
                raise Unsupported('set operation')
            return SetV(pred=f)
        if isinstance(a, CounterV) and isinstance(b, CounterV):
            f = {ast.BitAnd: zmin, ast.BitOr: lambda x, y: simp(z3.If(Z(x) <= Z(y), Z(y), Z(x))), ast.Add: lambda x, y: simp(Z(x) + Z(y)),
                 ast.Sub: lambda x, y: simp(z3.If(Z(x) <= Z(y), 0, Z(x) - Z(y)))}.get(op)
            if f is None:
                raise Unsupported('counter operation')
            return CounterV(None, lambda x: f(a.count(c, x), b.count(c, x)))
        if is_bool(a):
            a = int(a) if isinstance(a, bool) else z3.If(a, 1, 0)
        if is_bool(b):
            b = int(b) if isinstance(b, bool) else z3.If(b, 1, 0)
        if not isz(a) and not isz(b) and isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if isinstance(a, int) and isinstance(b, int) or op not in (ast.Add, ast.Sub, ast.Mult, ast.Div):
                try:
                    return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b,
                            ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b,
                            ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b,
                            ast.Div: lambda: simp_real(z3.Q(a, b)) if b else 1 // b}[op]()
                except ZeroDivisionError:
                    raise PyRaise('ZeroDivisionError')
        if not (is_int(a) or is_real(a)) or not (is_int(b) or is_real(b)):
            raise Unsupported('operation on %r and %r' % (a, b))
        za, zb = Z(a), Z(b)
        real = is_real(a) or is_real(b)
        if real or op is ast.Div:
            c.assumed.add('floating-point numbers are treated as real numbers')
            za = z3.ToReal(za) if za.sort() == z3.IntSort() else za
            zb = z3.ToReal(zb) if zb.sort() == z3.IntSort() else zb
        if op is ast.Add:
            return simp(za + zb)
        if op is ast.Sub:
            return simp(za - zb)
        if op is ast.Mult:
            if c.products:
                for x, y in ((za, zb), (zb, za)):
                    if z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_int_value(y):
                        return simp(z3.If(x.arg(0), x.arg(1) * y, x.arg(2) * y))
            return simp(za * zb)
        if op is ast.Div:
            if c.branch(simp(zb == 0)):
                raise PyRaise('ZeroDivisionError')
            return simp(za / zb)
        if op in (ast.FloorDiv, ast.Mod) and not real:
            if c.branch(simp(zb == 0)):
                raise PyRaise('ZeroDivisionError')
            if c.valid(zb > 0, 800):
                q = za / zb
            else:
                q = z3.If(zb > 0, za / zb, z3.If(za % zb == 0, za / zb, za / zb - 1) if False else floordiv(za, zb))
            return simp(q) if op is ast.FloorDiv else simp(za - zb * q if not c.valid(zb > 0, 800) else za % zb)
        if op is ast.Pow:
            if isinstance(b, int) and 0 <= b <= 4:
                r = Z(1) if za.sort() == z3.IntSort() else z3.RealVal(1)
                for _ in range(b):
                    r = r * za
                return simp(r)
            f = z3.Function('pow', za.sort(), zb.sort(), za.sort())
            c.inexact.add('pow')
            return f(za, zb)
        if op is ast.LShift and isinstance(a, int) and a == 1:
            f = z3.Function('pow2', z3.IntSort(), z3.IntSort())
            c.inexact.add('pow2')
            if not c.valid(zb >= 0):
                raise Unsupported('shift by a negative number')
            c.know([f(zb) >= 1], 'f')
            return f(zb)
        raise Unsupported('operator %s' % op.__name__)

    def e_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        res = []
        for op, x in zip(e.ops, e.comparators):
            b = self.eval(x, fr)
            r = self.compare(type(op), a, b)
            if len(e.ops) == 1:
                return r
            res.append(r)
            a = b
        return conj(res)

    def compare(self, op, a, b):
        c = self.c
        if op is ast.Is or op is ast.IsNot:
            if a is None or b is None:
                o = b if a is None else a
                if o is None:
                    r = True
                elif isinstance(o, Ref):
                    r = simp(o.id == 0)
                elif isinstance(o, OptV):
                    r = o.none
                elif isz(o) and o.sort() == z3.StringSort():
                    r = simp(o == NONESTR)
                else:
                    r = False
            elif isinstance(a, (Ref, Obj)) and isinstance(b, (Ref, Obj)):
                r = eqterm(a, b)
            elif isinstance(a, bool) or isinstance(b, bool):
                if is_bool(a) and is_bool(b):
                    r = eqterm(a, b)
                else:
                    r = False
            else:
                r = a is b if isinstance(a, (Lst, Obj, NDArr)) else None
                if r is None:
                    raise Unsupported('identity of %r and %r' % (a, b))
            return r if op is ast.Is else neg(r)
        if op is ast.Eq or op is ast.NotEq:
            r = self.equal(a, b)
            return r if op is ast.Eq else neg(r)
        if op is ast.In or op is ast.NotIn:
            r = self.contains(b, a)
            return r if op is ast.In else neg(r)
        if isinstance(a, (NDArr, npmodel.NPScal)) or isinstance(b, (NDArr, npmodel.NPScal)):
            return npmodel.compare(self, op, a, b)
        if a is None or b is None:
            raise PyRaise('TypeError')
        if not isz(a) and not isz(b) and isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        if not (is_int(a) or is_real(a) or is_bool(a)) or not (is_int(b) or is_real(b) or is_bool(b)):
            raise Unsupported('comparison of %r and %r' % (a, b))
        za, zb = Z(a), Z(b)
        if za.sort() != zb.sort():
            za = z3.ToReal(za) if za.sort() == z3.IntSort() else za
            zb = z3.ToReal(zb) if zb.sort() == z3.IntSort() else zb
        return simp({ast.Lt: za < zb, ast.LtE: za <= zb, ast.Gt: za > zb, ast.GtE: za >= zb}[op])

    def equal(self, a, b):
        if isinstance(a, PyType) or isinstance(b, PyType):
            return isinstance(a, (PyType, Builtin)) and isinstance(b, (PyType, Builtin)) and a.name == b.name
        if isinstance(a, CounterV) and isinstance(b, CounterV):
            return a.eq(self, b)
        if isinstance(a, SetV) and isinstance(b, SetV):
            return set_eq(self, a, b)
        if isinstance(a, (NDArr, npmodel.NPScal)) or isinstance(b, (NDArr, npmodel.NPScal)):
            return npmodel.compare(self, ast.Eq, a, b)
        if isinstance(a, npmodel.DType) or isinstance(b, npmodel.DType):
            return npmodel.dtype_eq(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) or isinstance(a, Lst) and isinstance(b, Lst):
            return self.c.seqeq(a.seq, b.seq)
        if isinstance(a, (FuncInfo, ClassInfo)) or isinstance(b, (FuncInfo, ClassInfo)):
            return a is b
        if isinstance(a, (Tup, Lst)) != isinstance(b, (Tup, Lst)):
            return False
        return eqterm(a, b)

    def contains(self, s, x):
        if isinstance(s, (Lst, Tup)):
            return self.c.member(x, s.seq)
        if isinstance(s, SetV):
            return s.pred(x)
        if isinstance(s, DictV):
            if isinstance(s.items, FMap):
                return simp(s.items.get(x)[0])
            return disj([eqterm(k, x) for k, _ in s.items])
        if is_str(s) and is_str(x):
            if isinstance(s, str) and isinstance(x, str):
                return x in s
            return simp(z3.Contains(Z(s), Z(x)))
        if isinstance(s, Seq):
            return self.c.member(x, s)
        raise Unsupported('membership in %r' % (s,))

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def getattr(self, o, name):
        c = self.c
        if isinstance(o, ModRef):
            m = c.prog.mod(o.name)
            if m is None:
                if o.name + '.' + name in BUILTINS:
                    return BUILTINS[o.name + '.' + name]
                return Builtin(o.name + '.' + name)
            sub = c.prog.mod(o.name + '.' + name)
            if sub is not None:
                return ModRef(sub.name)
            if name == 'xp':
                return NPRef(())
            try:
                return c.prog.lookup(m, name)
            except KeyError:
                raise PyRaise('AttributeError')
        if isinstance(o, NPRef):
            return npmodel.attr(self, o.path + (name,))
        if isinstance(o, Obj):
            if name in o.fields:
                v = o.fields[name]
                if isinstance(v, loops.Lazy):
                    v = o.fields[name] = v.thunk()
                if isinstance(v, Poison):
                    raise Unsupported('value of .%s after a loop (%s)' % (name, v.why))
                return v
            m = o.cls.find(c.prog, name)
            if m is not None:
                if m.is_prop:
                    return self.call_func(m, [o], {})
                return Bound(o, m)
            if name == '__class__':
                return o.cls
            raise PyRaise('AttributeError')
        if isinstance(o, Ref):
            if name in HEAP.get(o.cls, {}):
                self.notnone(o)
                return c.hget(o.cls, name, o.id)
            cls = c.cls_of.get(o.cls)
            if cls is None:
                raise Unsupported('class of a %s reference' % o.cls)
            if isinstance(o.id, z3.ExprRef) and not (o.cls == 'Tensor' and hasattr(c, 'world')):     # tokens are tensors
                self.notnone(o)
            m = cls.find(c.prog, name)
            if m is None:
                # an object referred to by id whose fields are tracked elsewhere
                raise Unsupported('attribute %s of a %s reference' % (name, o.cls))
            return self.call_func(m, [o], {}) if m.is_prop else Bound(o, m)
        if isinstance(o, ClassInfo):
            m = o.find(c.prog, name)
            if m is not None:
                return m
            raise Unsupported('class attribute %s' % name)
        if isinstance(o, Super):
            mro = o.obj.cls.mro(c.prog) if isinstance(o.obj, Obj) else []
            k = mro.index(o.cls)
            for k2 in mro[k + 1:]:
                if name in k2.methods:
                    return Bound(o.obj, k2.methods[name])
            if name == '__init__':
                return Builtin('object.__init__', lambda self, *a, **k: None)
            raise PyRaise('AttributeError')
        if isinstance(o, (NDArr, npmodel.NPScal, npmodel.DType)):
            return npmodel.getattr(self, o, name)
        if o is None:
            raise PyRaise('AttributeError')
        if isinstance(o, (Lst, Tup, SetV, DictV, CounterV)) or is_str(o) or is_int(o) or isinstance(o, Opaque):
            return BMeth(o, name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.index(e.slice, fr))

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, fr)
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return Tup(CSeq([self.index(x, fr) for x in s.elts]))
        return self.eval(s, fr)

    def getitem(self, o, k):
        c = self.c
        if isinstance(o, (Lst, Tup)):
            if isinstance(k, slice):
                return type(o)(self.slice(o.seq, k))
            if not is_int(k) and not is_bool(k) and not isinstance(k, OptV):
                raise PyRaise('TypeError') if isinstance(k, (str, Tup, Lst)) or k is None else Unsupported('index %r' % (k,))
            return o.seq.at(self.normindex(k, o.seq.n))
        if isinstance(o, DictV):
            if isinstance(o.items, FMap):
                p, v = o.items.get(k)
                if c.branch(p):
                    return v
                raise PyRaise('KeyError')
            for kk, v in o.items:
                if c.branch(eqterm(kk, k)):
                    return v
            raise PyRaise('KeyError')
        if isinstance(o, NDArr):
            return npmodel.getitem(self, o, k)
        if is_str(o):
            if isinstance(o, str) and not isinstance(k, slice):
                if isinstance(k, int):
                    return o[k]
                k = self.normindex(k, len(o))
                return loops.LetterOf(o, k)
            if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return o[k]
            if isinstance(k, slice) and k.step is None and not isinstance(o, SPat):
                z = Z(o)
                n = z3.Length(z)
                lo = Z(0) if k.start is None else clamp(Z(k.start), n)
                hi = n if k.stop is None else clamp(Z(k.stop), n)
                return simp(z3.SubString(z, lo, z3.If(hi - lo < 0, 0, hi - lo)))
            if not isinstance(k, slice) and not isinstance(o, SPat):
                k = self.normindex(k, simp(z3.Length(Z(o))))
                return simp(z3.SubString(Z(o), Z(k), 1))
        raise Unsupported('item of %r' % (o,))

    def slice(self, seq, k):
        c = self.c
        if k.step is not None and k.step != 1:
            if k.step == -1 and k.start is None and k.stop is None:
                n = seq.n
                if isinstance(seq, CSeq):
                    return CSeq(seq.items[::-1])
                if hasattr(seq, 'rev'):
                    return seq.rev
                r = FSeq(n, lambda i: seq.at(simp(Z(n) - 1 - Z(i))), None, 'rev')
                r.rev = seq
                return r
            raise Unsupported('slice step')
        n = seq.n
        if isinstance(seq, CSeq) and all(x is None or isinstance(x, int) for x in (k.start, k.stop)):
            return CSeq(seq.items[k.start:k.stop])
        lo = 0 if k.start is None else self.clampidx(k.start, n)
        hi = n if k.stop is None else self.clampidx(k.stop, n)
        if isinstance(lo, int) and isinstance(hi, int) and hi <= lo:
            return CSeq([])
        if not c.valid(Z(lo) <= Z(hi), 800):
            if not c.branch(simp(Z(lo) <= Z(hi))):
                return CSeq([])
        # cut along the parts of a concatenation where possible
        ps = flat(seq)
        if len(ps) > 1:
            off, out, ok = 0, [], True
            state = 0
            for p in ps:
                end = simp(add(off, p.n))
                if state == 0:
                    if c.valid(Z(lo) == Z(off), 500):
                        state = 1
                    elif not c.valid(Z(lo) >= Z(end), 500):
                        if isinstance(p, CSeq) and c.valid(Z(lo) <= Z(end), 300):
                            d = simp(Z(lo) - Z(off))
                            if isinstance(d, int):
                                state = 1
                                p = CSeq(p.items[d:]); off = lo
                        if state == 0:
                            ok = False
                            break
                if state == 1:
                    if c.valid(Z(hi) >= Z(end), 500):
                        out.append(p)
                        if c.valid(Z(hi) == Z(end), 300):
                            state = 2
                    elif c.valid(Z(hi) == Z(off), 500):
                        state = 2
                    else:
                        d = simp(Z(hi) - Z(off))
                        if isinstance(p, CSeq) and isinstance(d, int):
                            out.append(CSeq(p.items[:d]))
                            state = 2
                        else:
                            ok = False
                            break
                off = end
                if state == 2:
                    break
            if ok and (state == 2 or state == 1 or c.valid(Z(lo) == Z(hi), 300)):
                r = CSeq([])
                for p in out:
                    r = cat(r, p)
                return r
        ln = simp(Z(hi) - Z(lo))
        base_find = seq.find

        def find(x):
            f = c.find(seq, x)
            return (conj([f[0], Z(f[1]) >= Z(lo), Z(f[1]) < Z(hi)]), simp(sub(f[1], lo)))
        if isinstance(ln, int):
            return CSeq([seq.at(simp(add(lo, i))) for i in range(ln)]) if ln <= 16 else FSeq(ln, lambda i: seq.at(simp(add(i, lo))), find, 'slice')
        return FSeq(ln, lambda i: seq.at(simp(add(i, lo))), find, 'slice')

    def clampidx(self, x, n):
        if isinstance(x, int) and isinstance(n, int):
            return max(0, min(n, x if x >= 0 else x + n))
        if x is None:
            return 0
        c = self.c
        x, n = Z(x), Z(n)
        if c.valid(z3.And(x >= 0, x <= n), 800):
            return simp(x)
        if c.valid(z3.And(x < 0, x + n >= 0), 500):
            return simp(x + n)
        return simp(clamp(x, n))

    def comp(self, e, fr, elt):
        c = self.c
        out = Lst(CSeq([]))
        inner = Frame(fr.func, fr)
        c.frames.append(inner)
        c.roots.append(out)

        def gen(k):
            if k == len(e.generators):
                out.seq = cat(out.seq, CSeq([elt(inner)]))
                return
            g = e.generators[k]
            seq = self.iterable(self.eval(g.iter, inner if k else fr))

            def body(item):
                self.assign(g.target, item, inner)
                for t in g.ifs:
                    if not c.branch(self.cond(t, inner)):
                        return
                gen(k + 1)
            loops.for_loop(self, seq, body, inner, None, tag='comp:%s' % getattr(e, 'lineno', 0))
        gen(0)
        c.frames.pop()
        c.roots = [r for r in c.roots if r is not out]
        return out

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, lambda f: self.eval(e.elt, f))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        return mkset(self, self.comp(e, fr, lambda f: self.eval(e.elt, f)).seq)

    def e_DictComp(self, e, fr):
        l = self.comp(e, fr, lambda f: Tup(CSeq([self.eval(e.key, f), self.eval(e.value, f)])))
        d = DictV([])
        if not isinstance(l.seq, CSeq):
            raise Unsupported('dict comprehension of symbolic length')
        for t in l.seq.items:
            self.setitem(d, t.seq.at(0), t.seq.at(1))
        return d

    def e_Call(self, e, fr):
        fn = ast.unparse(e.func)
        if fn in IGNORED_CALLS:
            return None
        if fn.endswith('.format') and isinstance(e.func, ast.Attribute):
            return Opaque('format')
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f.func.cls is None and f.parent is not None:
                f = f.parent
            return Super(f.env[f.func.node.args.args[0].arg], f.func.cls)
        f = self.eval(e.func, fr)
        if isinstance(f, FuncInfo) and f.qual in MSG_FUNCS:
            return Opaque('message')
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.iterable(self.eval(a.value, fr))
                if not isinstance(s.n, int):
                    raise Unsupported('star argument of symbolic length')
                args += [s.at(i) for i in range(s.n)]
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if not isinstance(d, DictV):
                    raise Unsupported('** argument')
                for kk, v in d.items:
                    kw[kk] = v
            else:
                kw[k.arg] = self.eval(k.value, fr)
        self.site = '%d.%d' % (getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0))
        return self.call(f, args, kw, e)

    # ------------------------------------------------------------ builtin methods
    def method(self, o, name, args, kw):
        c = self.c
        if isinstance(o, Opaque):
            return Opaque(name)
        if isinstance(o, Lst):
            if name == 'append':
                o.seq = cat(o.seq, CSeq([args[0]]))
                return None
            if name == 'extend':
                o.seq = cat(o.seq, self.iterable(args[0]))
                return None
            if name == 'remove':
                loops.list_remove(self, o, args[0])
                return None
            if name == 'reverse':
                o.seq = self.slice(o.seq, slice(None, None, -1))
                return None
            if name == 'copy':
                return Lst(o.seq)
            if name == 'pop' and not args:
                n = o.seq.n
                if not c.branch(simp(Z(n) > 0) if not isinstance(n, int) else n > 0):
                    raise PyRaise('IndexError')
                v = o.seq.at(simp(sub(n, 1)))
                o.seq = self.slice(o.seq, slice(0, simp(sub(n, 1)), None))
                return v
        if isinstance(o, (Lst, Tup)):
            if name == 'index':
                return self.seq_index(o.seq, args[0])
            if name == 'count':
                return c.count(o.seq, args[0])
        if isinstance(o, SetV):
            if name == 'add':
                x = args[0]
                if o.items is not None:
                    if not c.branch(o.pred(x)):
                        o.items = o.items + [x]
                else:
                    old = o._pred
                    o._pred = lambda y: disj([eqterm(y, x), old(y)])
                return None
            if name in ('remove', 'discard'):
                x = args[0]
                if name == 'remove' and not c.branch(o.pred(x)):
                    raise PyRaise('KeyError')
                if o.items is not None:
                    for i, y in enumerate(o.items):
                        if c.branch(eqterm(y, x)):
                            o.items = o.items[:i] + o.items[i + 1:]
                            break
                else:
                    old = o._pred
                    o._pred = lambda y: conj([neg(eqterm(y, x)), old(y)])
                return None
        if isinstance(o, DictV) and isinstance(o.items, FMap):
            if name == 'get':
                p, v = o.items.get(args[0])
                return v if c.branch(p) else (args[1] if len(args) > 1 else None)
            if isinstance(o.items, KMap) and name in ('keys', 'values', 'items'):
                ks, get = o.items.keys, o.items.get
                return Lst(ks if name == 'keys' else smap(ks, (lambda k: get(k)[1]) if name == 'values' else (lambda k: Tup(CSeq([k, get(k)[1]])))))
            raise Unsupported('dictionary of symbolic size: %s' % name)
        if isinstance(o, DictV):
            if name == 'get':
                for kk, v in o.items:
                    if c.branch(eqterm(kk, args[0])):
                        return v
                return args[1] if len(args) > 1 else None
            if name == 'keys':
                return Lst(CSeq([k for k, _ in o.items]))
            if name == 'values':
                return Lst(CSeq([v for _, v in o.items]))
            if name == 'items':
                return Lst(CSeq([Tup(CSeq([k, v])) for k, v in o.items]))
            if name == 'setdefault':
                for kk, v in o.items:
                    if c.branch(eqterm(kk, args[0])):
                        return v
                o.items = o.items + [(args[0], args[1])]
                return args[1]
        if isinstance(o, CounterV) and name == 'elements':
            return o
        if is_str(o):
            if name == 'join':
                return joinstr(self, o, self.iterable(args[0]))
            if name == 'find':
                return simp(z3.IndexOf(Z(o), Z(args[0]), 0)) if not isinstance(o, str) or not isinstance(args[0], str) else o.find(args[0])
            if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args) and name in ('split', 'strip', 'isupper', 'islower', 'isdigit', 'startswith', 'endswith', 'upper', 'lower', 'replace'):
                r = getattr(o, name)(*args)
                return Lst(CSeq(r)) if isinstance(r, list) else r
            if name == 'startswith':
                return simp(z3.PrefixOf(Z(args[0]), Z(o)))
            if name == 'endswith':
                return simp(z3.SuffixOf(Z(args[0]), Z(o)))
        if is_int(o) and name == 'bit_length':
            raise Unsupported('bit_length')
        raise Unsupported('method %s of %r' % (name, o))

    def seq_index(self, seq, x):
        c = self.c
        cond, i = c.find(seq, x, first=True)
        if not c.branch(cond):
            raise PyRaise('ValueError')
        return simp(i) if isz(i) else i


def clamp(x, n):
    y = z3.If(x < 0, x + n, x)
    return z3.If(y < 0, 0, z3.If(y > n, n, y))


def floordiv(a, b):
    # z3 integer division rounds so that the remainder is non-negative
    q = a / b
    r = a - b * q
    return z3.If(z3.And(b < 0, r != 0), q - 1, q)


def simp_real(x):
    return z3.simplify(x)


def zmin(a, b):
    return simp(z3.If(Z(a) <= Z(b), Z(a), Z(b)))


def mkset(ip, seq):
    if isinstance(seq, CSeq):
        s = SetV(items=[])
        for x in seq.items:
            if not ip.c.branch(s.pred(x)):
                s.items = s.items + [x]
        return s
    s = SetV(pred=lambda x: ip.c.member(x, seq))
    s.of = seq
    return s


def set_eq(ip, a, b):
    if a.items is not None and b.items is not None:
        return conj([b.pred(x) for x in a.items] + [a.pred(x) for x in b.items])
    sa = getattr(a, 'of', None) or (CSeq(a.items) if a.items is not None else None)
    sb = getattr(b, 'of', None) or (CSeq(b.items) if b.items is not None else None)
    if sa is None or sb is None:
        raise Unsupported('equality of sets')
    return conj([forall(sa.n, lambda k: b.pred(sa.at(k))), forall(sb.n, lambda k: a.pred(sb.at(k)))])


class CounterV:
    """collections.Counter of a sequence"""
    def __init__(self, seq, cnt=None):
        self.seq = seq
        self._cnt = cnt

    def count(self, c, x):
        return self._cnt(x) if self._cnt else c.count(self.seq, x)

    def eq(self, ip, o):
        if self.seq is None or o.seq is None:
            raise Unsupported('equality of counters')
        return ip.c.multiset_eq(self.seq, o.seq)


def eqterm_deep(c, a, b):
    if isinstance(a, (Tup, Lst)) and type(a) is type(b):
        return c.seqeq(a.seq, b.seq)
    return eqterm(a, b)


def consts_of(t):
    seen, out, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    return out


class Bag(Seq):
    """sequence of which only the number of occurrences of every element is known"""
    def __init__(self, c, count):
        self.count = count
        self.n = c.fresh('len')
        c.assume(self.n >= 0)

    def at(self, i):
        raise Unsupported('element of a collection in no particular order')

    def find(self, x):
        raise Unsupported('position in a collection in no particular order')


def joinstr(ip, sep, seq):
    c = ip.c
    if isinstance(seq, CSeq):
        if any(isinstance(x, Opaque) for x in seq.items):
            return Opaque('join')
        if all(isinstance(x, str) for x in seq.items) and isinstance(sep, str):
            return sep.join(seq.items)
        r = None
        for x in seq.items:
            if not is_str(x):
                raise PyRaise('TypeError')
            r = Z(x) if r is None else z3.Concat(r, Z(sep), Z(x))
        return '' if r is None else simp(r)
    x0 = seq.at(z3.Int('join?'))
    if isinstance(sep, str) and sep == '' and isinstance(x0, loops.LetterOf):
        return SPat([('letters', FSeq(seq.n, lambda i: seq.at(i).k, None, 'letters'))])
    return c.joined(sep, seq)


# ------------------------------------------------------------ builtin functions
def b_len(ip, v):
    if isinstance(v, (Lst, Tup)):
        return v.seq.n
    if isinstance(v, str):
        return len(v)
    if isinstance(v, DictV):
        if isinstance(v.items, KMap):
            return v.items.keys.n
        if isinstance(v.items, FMap):
            raise Unsupported('size of a dictionary of symbolic size')
        return len(v.items)
    if isinstance(v, SetV):
        if v.items is not None:
            return len(v.items)
        raise Unsupported('size of a set')
    if isinstance(v, NDArr):
        if not ip.c.branch(simp(Z(v.shape.n) > 0)):
            raise PyRaise('TypeError')
        return v.shape.at(0)
    if isz(v) and v.sort() == z3.StringSort():
        return simp(z3.Length(v))
    if v is None or is_int(v) or is_real(v) or isinstance(v, OptV):
        raise PyRaise('TypeError')
    raise Unsupported('len of %r' % (v,))


def b_range(ip, *a):
    if any(not is_int(x) for x in a):
        raise PyRaise('TypeError')
    if len(a) == 1:
        return srange(0, a[0])
    if len(a) == 2:
        return srange(a[0], a[1])
    lo, hi, st = a
    if all(isinstance(x, int) for x in a):
        return CSeq(list(range(lo, hi, st)))
    if st == -1:
        n = simp(z3.If(Z(lo) - Z(hi) < 0, 0, Z(lo) - Z(hi)))
        return FSeq(n, lambda i: simp(sub(lo, i)), lambda x: (z3.And(Z(x) <= Z(lo), Z(x) > Z(hi)), simp(sub(lo, x))), 'range-')
    raise Unsupported('range with step')


def b_list(ip, v=None):
    return Lst(CSeq([]) if v is None else b_iter(ip, v))


def b_iter(ip, v):
    if isinstance(v, CounterV):
        return Bag(ip.c, lambda x: v.count(ip.c, x))
    if isinstance(v, SetV):
        if v.items is not None and len(v.items) <= 1:
            return CSeq(v.items)
        return Bag(ip.c, lambda x: simp(z3.If(Z(v.pred(x)), 1, 0)))
    return ip.iterable(v)


def b_tuple(ip, v=None):
    return Tup(CSeq([]) if v is None else b_iter(ip, v))


def b_isinstance(ip, v, t):
    if isinstance(t, Tup):
        return disj([b_isinstance(ip, v, x) for x in t.seq.items])
    if isinstance(t, ClassInfo):
        if isinstance(v, Obj):
            return t in v.cls.mro(ip.c.prog) or any(x.qual == t.qual for x in v.cls.mro(ip.c.prog))
        if isinstance(v, Ref):
            if v.cls == t.name:
                return simp(v.id != 0)
            return False
        return False
    n = t.name if isinstance(t, (PyType, Builtin)) else None
    if n == 'str':
        return is_str(v)
    if n == 'int':
        return is_int(v) or is_bool(v)
    if n == 'float':
        return is_real(v)
    if n == 'list':
        return isinstance(v, Lst)
    if n == 'tuple':
        return isinstance(v, Tup)
    if n == 'dict':
        return isinstance(v, DictV)
    if n == 'set':
        return isinstance(v, SetV)
    raise Unsupported('isinstance %r' % (t,))


def b_type(ip, v):
    if is_bool(v):
        return PyType('bool')
    if is_int(v):
        return PyType('int')
    if is_real(v):
        return PyType('float')
    if is_str(v):
        return PyType('str')
    if isinstance(v, Lst):
        return PyType('list')
    if isinstance(v, Tup):
        return PyType('tuple')
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, (NDArr, npmodel.NPScal)):
        return PyType('numpy')
    if v is None:
        return PyType('NoneType')
    raise Unsupported('type of %r' % (v,))


def b_zip(ip, *ss):
    ss = [ip.iterable(s) for s in ss]
    if all(isinstance(s, CSeq) for s in ss):
        return CSeq([Tup(CSeq(list(t))) for t in zip(*[s.items for s in ss])])
    n = ss[0].n
    for s in ss[1:]:
        if isinstance(n, int) and isinstance(s.n, int):
            n = min(n, s.n)
        elif ip.c.valid(Z(n) <= Z(s.n), 800):
            pass
        elif ip.c.valid(Z(n) >= Z(s.n), 800):
            n = s.n
        else:
            n = simp(z3.If(Z(n) <= Z(s.n), Z(n), Z(s.n)))
    if isinstance(n, int) and n <= UNROLL:
        return CSeq([Tup(CSeq([s.at(i) for s in ss])) for i in range(n)])
    r = FSeq(n, lambda i: Tup(CSeq([s.at(i) for s in ss])), None, 'zip')
    r.zipped = ss
    return r


def b_enumerate(ip, s, start=0):
    s = ip.iterable(s)
    if isinstance(s, CSeq):
        return CSeq([Tup(CSeq([i + start, x])) for i, x in enumerate(s.items)])
    return FSeq(s.n, lambda i: Tup(CSeq([simp(add(i, start)), s.at(i)])), None, 'enum')


def b_set(ip, v=None):
    return SetV(items=[]) if v is None else mkset(ip, b_iter(ip, v))


def b_dict(ip, v=None, **kw):
    d = DictV([])
    if isinstance(v, DictV):
        d.items = list(v.items)
    elif v is not None:
        s = ip.iterable(v)
        if not isinstance(s.n, int) or s.n:
            raise Unsupported('dict of a sequence')
    return d


def b_max(ip, *a, **kw):
    return minmax(ip, a, kw, True)


def b_min(ip, *a, **kw):
    return minmax(ip, a, kw, False)


def minmax(ip, a, kw, mx):
    if kw:
        raise Unsupported('max/min with keywords')
    items = list(a)
    if len(a) == 1:
        s = ip.iterable(a[0])
        if not isinstance(s, CSeq):
            raise Unsupported('max/min of a symbolic sequence')
        items = s.items
    if not items:
        raise PyRaise('ValueError')
    r = items[0]
    for x in items[1:]:
        if not isz(r) and not isz(x):
            r = max(r, x) if mx else min(r, x)
        else:
            zr, zx = Z(r), Z(x)
            if zr.sort() != zx.sort():
                zr = z3.ToReal(zr) if zr.sort() == z3.IntSort() else zr
                zx = z3.ToReal(zx) if zx.sort() == z3.IntSort() else zx
            r = simp(z3.If((zx > zr) if mx else (zx < zr), zx, zr))
    return r


def b_sum(ip, v, start=0):
    if isinstance(v, NDArr):
        return npmodel.call(ip, ('sum',), [v], {})
    s = ip.iterable(v)
    if isinstance(s, CSeq):
        r = start
        for x in s.items:
            r = ip.binop(ast.Add, r, x)
        return r
    return ip.binop(ast.Add, start, ip.c.sumseq(s))


def b_abs(ip, v):
    if isz(v):
        return simp(z3.If(v < 0, -v, v))
    if isinstance(v, (int, float)):
        return abs(v)
    raise Unsupported('abs')


def b_int(ip, v=0):
    if is_int(v):
        return v
    if is_bool(v):
        return int(v) if isinstance(v, bool) else simp(z3.If(v, 1, 0))
    if isz(v) and v.sort() == z3.RealSort():
        return simp(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
    raise Unsupported('int()')


def b_float(ip, v=0):
    if is_int(v) or is_real(v):
        v = Z(v)
        return simp(z3.ToReal(v)) if v.sort() == z3.IntSort() else v
    raise Unsupported('float()')


def b_str(ip, v=''):
    if is_str(v):
        return v
    if isinstance(v, int):
        return str(v)
    if is_int(v):
        f = z3.Function('str.of.int', z3.IntSort(), z3.StringSort())
        return f(v)
    return Opaque('str')


def b_all(ip, v):
    s = ip.iterable(v)
    if isinstance(s, CSeq):
        return conj([ip.c.truth(x) for x in s.items])
    return forall(s.n, lambda k: ip.c.truth(s.at(k)))


def b_any(ip, v):
    s = ip.iterable(v)
    if isinstance(s, CSeq):
        return disj([ip.c.truth(x) for x in s.items])
    return exists(s.n, lambda k: ip.c.truth(s.at(k)))


def b_sorted(ip, v):
    s = ip.iterable(v)
    if isinstance(s, CSeq) and all(isinstance(x, (int, str)) for x in s.items):
        return Lst(CSeq(sorted(s.items)))
    raise Unsupported('sorted')


def b_reversed(ip, v):
    return ip.slice(ip.iterable(v), slice(None, None, -1))


def b_counter(ip, v=None):
    return CounterV(ip.iterable(v))


def b_callable(ip, v):
    return isinstance(v, (FuncInfo, Bound, Builtin))


def b_hasattr(ip, o, n):
    if isinstance(o, Obj):
        return n in o.fields or o.cls.find(ip.c.prog, n) is not None
    raise Unsupported('hasattr')


BUILTINS = {n[2:]: Builtin(n[2:], f) for n, f in list(globals().items()) if n.startswith('b_') and callable(f)}
for n in ('list', 'tuple', 'int', 'float', 'str', 'dict', 'set'):
    BUILTINS[n] = Builtin(n, globals()['b_' + n])
BUILTINS['collections.Counter'] = BUILTINS['Counter'] = Builtin('Counter', b_counter)
BUILTINS['object'] = Builtin('object')
_type_eq = {}
