"""verification of one function against its contract: every path of the body, from every state that
satisfies the precondition, has to agree with the contract (result or exception, heap, objects, arrays)"""
import time, traceback, itertools
import z3
from values import *
from engine import *
import seqs, interp, npmodel, loops
from seqs import consts_in, apps_in

QUICK_MS = 4000


class Case:
    def __init__(self, name, setup):
        self.name, self.setup = name, setup


class Contract:
    """spec(c, env): executable specification; cases: named preconditions; applies(c, env): call sites it covers"""
    def __init__(self, qual, spec, props, cases, applies=None, inv=None, compare=None, trusted=False, note='', fresh=False, timeout=120, requires=None, partial=(), chunk=0, weight=1, counted=None):
        self.counted = counted      # counted(c, env): the element whose occurrences in a generated sequence are compared
        self.chunk, self.weight = chunk, weight     # cases per process; expensive contracts first
        self.partial = partial      # arguments whose fields do not matter after an exception
        self.qual, self.spec, self.props, self.cases = qual, spec, props, cases
        self._applies, self.inv, self.compare, self.trusted, self.note, self.fresh = applies, inv or {}, compare, trusted, note, fresh
        self.timeout = timeout
        self.requires = requires

    def applies(self, c, env):
        return self._applies(c, env) if self._applies else True

    def use(self, c, env):
        if self.requires is not None:
            c.oblige('precondition of %s' % self.qual, self.requires(c, env), 'call')
        return self.spec(c, env)


class Goal:
    def __init__(self, name, f, reason=''):
        self.name, self.f, self.reason = name, f, reason


# ------------------------------------------------------------------ comparison of outcomes
def cmp_value(c, a, b, what, goals, seen):
    """goals saying that the value a of the body is the value b of the contract"""
    if a is b:
        return
    if isinstance(b, AnyValue):
        return
    if isinstance(b, AnyArr):
        if not isinstance(a, NDArr):
            goals.append(Goal(what, False, 'no array'))
            return
        cmp_seq(c, a.shape, b.shape, what + ': shape', goals, seen)
        if b.dtype is not None:
            goals.append(Goal(what + ': dtype', bool(npmodel.dtype_eq(a.dtype, b.dtype)), 'dtype %r instead of %r' % (a.dtype, b.dtype)))
        return
    if isinstance(a, Lst) and isinstance(b, Lst) or isinstance(a, Tup) and isinstance(b, Tup):
        return cmp_seq(c, a.seq, b.seq, what, goals, seen)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if (id(a), id(b)) in seen:
            return
        seen.add((id(a), id(b)))
        if a.cls is not b.cls and a.cls.qual != b.cls.qual:
            goals.append(Goal(what + ': class', False, 'class %s instead of %s' % (a.cls.name, b.cls.name)))
            return
        goals.append(Goal(what + ': identity', simp(Z(a.id) == Z(b.id))))
        for k in sorted(set(a.fields) | set(b.fields)):
            if k not in a.fields or k not in b.fields:
                goals.append(Goal(what + '.' + k, False, 'field set on one side only'))
            else:
                cmp_value(c, a.fields[k], b.fields[k], what + '.' + k, goals, seen)
        return
    if isinstance(a, NDArr) and isinstance(b, NDArr):
        goals.append(Goal(what + ': array', npmodel.array_goal(c, a, b)))
        return
    if isinstance(a, npmodel.NPScal) or isinstance(b, npmodel.NPScal) or isinstance(a, Scal) or isinstance(b, Scal):
        sa = a.s if isinstance(a, npmodel.NPScal) else (a.elem(None) if isinstance(a, NDArr) and a.shape.n == 0 else npmodel.num(a))
        sb = b.s if isinstance(b, npmodel.NPScal) else (b.elem(None) if isinstance(b, NDArr) and b.shape.n == 0 else npmodel.num(b))
        goals.append(Goal(what + ': entry', npmodel.scal_goal(c, sa, sb)))
        return
    if isinstance(a, npmodel.DType) or isinstance(b, npmodel.DType):
        goals.append(Goal(what, bool(npmodel.dtype_eq(a, b)), 'dtype %r instead of %r' % (a, b)))
        return
    if isinstance(a, DictV) and isinstance(b, DictV) and (isinstance(a.items, FMap) or isinstance(b.items, FMap)):
        fa, fb = [v.items if isinstance(v.items, FMap) else fmap_of(v.items) for v in (a, b)]
        so = z3.StringSort() if getattr(b, 'key_sort', None) is None else b.key_sort
        x = z3.Const(c.name('key'), so)
        if so == z3.StringSort():
            c.pc.append(('f', x != NONESTR))
        (p, v), (q, w) = fa.get(x), fb.get(x)
        goals.append(Goal(what + ': keys', simp(Z(p) == Z(q))))
        sub_ = []
        if v is not None and w is not None:
            cmp_value(c, v, w, what + '[...]', sub_, seen)
        for g in sub_:
            goals.append(Goal(g.name, implies(q, g.f), g.reason))
        return
    if isinstance(a, DictV) and isinstance(b, DictV):
        if len(a.items) != len(b.items):
            goals.append(Goal(what + ': keys', False, 'other keys'))
            return
        for (k1, v1), (k2, v2) in zip(a.items, b.items):
            cmp_value(c, k1, k2, what + ': key', goals, seen)
            cmp_value(c, v1, v2, what + '[...]', goals, seen)
        return
    if isinstance(a, SetV) and isinstance(b, SetV):
        cls = getattr(b, 'elem_sort', None)
        if a.items is not None and b.items is not None:
            goals.append(Goal(what, interp.set_eq(c.interp, a, b)))
        else:
            x = z3.Const(c.name('x'), cls if cls is not None else z3.IntSort())
            goals.append(Goal(what, simp(Z(a.pred(x)) == Z(b.pred(x)))))
        return
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if hasattr(b, 'n'):
            goals.append(Goal(what + ': size', simp(Z(a.n) == Z(b.n)) if hasattr(a, 'n') else False))
        return
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported('value left by a loop')
    if isinstance(a, (Lst, Tup, Obj, NDArr, DictV, SetV)) or isinstance(b, (Lst, Tup, Obj, NDArr, DictV, SetV)):
        goals.append(Goal(what, False, 'kind of value: %s instead of %s' % (type(a).__name__, type(b).__name__)))
        return
    if isinstance(a, (FuncInfo, ClassInfo, Builtin)) or isinstance(b, (FuncInfo, ClassInfo, Builtin)):
        goals.append(Goal(what, a is b))
        return
    if isinstance(a, SPat) and isinstance(b, SPat) and len(a.parts) == len(b.parts):
        for x, y in zip(a.parts, b.parts):
            if isinstance(x, str) or isinstance(y, str) or x[0] != y[0]:
                goals.append(Goal(what, x == y if isinstance(x, str) and isinstance(y, str) else False))
            elif x[0] == 'rep':
                goals.append(Goal(what, conj([x[1] == y[1], simp(Z(x[2]) == Z(y[2]))])))
            else:
                cmp_seq(c, x[1], y[1], what + ': letters', goals, seen)
        return
    if is_bool(a) != is_bool(b) or is_str(a) != is_str(b):
        goals.append(Goal(what, False, 'kind of value: %r instead of %r' % (a, b)))
        return
    goals.append(Goal(what, eqterm(a, b)))


class AnyArr(NDArr):
    """array of which the contract fixes shape and dtype only"""
    def __init__(self, shape, dtype):
        def elem(f):
            raise Unsupported('entry of an unspecified array')
        NDArr.__init__(self, shape, elem, dtype)


class AnyValue:
    """result the contract does not constrain"""


def cmp_seq(c, s, t, what, goals, seen):
    if s is t:
        return
    if isinstance(t, interp.Bag):
        x = z3.Const(c.name('x'), t.sort)
        goals.append(Goal(what + ': number of occurrences', simp(Z(c.count(s, x)) == Z(t.count(x)))))
        return
    goals.append(Goal(what + ': length', simp(Z(s.n) == Z(t.n))))
    if isinstance(s.n, int) and isinstance(t.n, int):
        if s.n == t.n:
            for i in range(s.n):
                cmp_value(c, s.at(i), t.at(i), what + '[%d]' % i, goals, seen)
        return
    i = z3.Int(c.name('el'))
    n = t.n
    if isinstance(n, int) and n == 0 or isinstance(s.n, int) and s.n == 0:
        return
    sub_ = []
    cmp_value(c, s.at(i), t.at(i), what + '[i]', sub_, set())
    for g in sub_:
        goals.append(Goal(g.name, implies(z3.And(0 <= i, i < Z(n)), g.f), g.reason))


def cmp_states(c, p, s, S0, goals, skip=()):
    """state after the body path p against the state after the contract path s"""
    a, b, z = loops.slots(p.state), loops.slots(s.state), loops.slots(S0)
    # a set held by one field is judged by its contents: updating it and replacing it are the same
    owned = set()
    for key, (o, v0) in z.items():
        if key[0] == 'fld' and isinstance(v0, SetV) and id(o) not in skip:
            va, vb = a.get(key, (o, v0))[1], b.get(key, (o, v0))[1]
            if isinstance(va, SetV) and isinstance(vb, SetV):
                owned |= {key, ('set', id(v0))}
                x, y = (lambda t, v: t[('set', id(v))][1] if ('set', id(v)) in t else (v._pred, None if v.items is None else list(v.items)))(a, va), (lambda t, v: t[('set', id(v))][1] if ('set', id(v)) in t else (v._pred, None if v.items is None else list(v.items)))(b, vb)
                if not loops.same_value(x, y):
                    x, y = SetV(pred=x[0], items=x[1]), SetV(pred=y[0], items=y[1])
                    y.elem_sort = getattr(v0, 'elem_sort', None)
                    cmp_value(c, x, y, 'state: .%s of %s' % (key[-1], o.cls.name), goals, set())
    for key, (o, v0) in z.items():
        if key[0] == 'env' or id(o) in skip or key in owned:
            continue
        if key[0] in ('heap', 'alloc'):
            continue
        va = a[key][1] if key in a else v0
        vb = b[key][1] if key in b else v0
        if va is vb:
            continue
        what = 'state: ' + {'fld': '.%s of %s' % (key[-1], getattr(o, 'cls', None) and o.cls.name), 'lst': 'list', 'set': 'set', 'dict': 'dict', 'arr': 'array contents'}[key[0]]
        if key[0] == 'fld':
            cmp_value(c, va, vb, what, goals, set())
        elif key[0] == 'lst':
            cmp_seq(c, va, vb, what, goals, set())
        elif key[0] == 'arr':
            x = NDArr(o.shape, va, o.dtype)
            y = NDArr(o.shape, vb, o.dtype)
            goals.append(Goal(what, npmodel.array_goal(c, x, y)))
        elif key[0] == 'set':
            x, y = SetV(pred=va[0], items=va[1]), SetV(pred=vb[0], items=vb[1])
            y.elem_sort = getattr(o, 'elem_sort', None)
            cmp_value(c, x, y, what, goals, set())
        elif key[0] == 'dict':
            cmp_value(c, DictV(va), DictV(vb), what, goals, set())
    # fields added to existing objects (fields the contract does not know are not its business)
    objs = set(id(o) for o, v in S0[0] if isinstance(o, Obj))
    for key, (o, vb) in list(b.items()):
        if key[0] == 'fld' and key not in z and key[1] in objs and key[1] not in skip:
            if key not in a:
                goals.append(Goal('state: .%s' % key[-1], False, 'field not set'))
            else:
                cmp_value(c, a[key][1], vb, 'state: .%s of %s' % (key[-1], o.cls.name), goals, set())
    # heap fields
    ha, hb = p.state[1], s.state[1]
    aa, ab = p.state[2], s.state[2]
    for (cls, f) in sorted(set(ha) | set(hb)):
        if ha.get((cls, f)) is hb.get((cls, f)):
            continue
        ga = ha.get((cls, f)) or c.hinit(cls, f)
        gb = hb.get((cls, f)) or c.hinit(cls, f)
        j = z3.Int(c.name('obj'))
        fr0 = z3.Int('frontier.' + cls)
        top = ab.get(cls, fr0)
        rng = z3.And(1 <= j, j < top)
        sub_ = []
        cmp_value(c, ga(j), gb(j), 'state: %s.%s' % (cls, f), sub_, set())
        for g in sub_:
            goals.append(Goal(g.name, implies(rng, g.f), g.reason))
    for cls in sorted(set(aa) | set(ab)):
        x, y = aa.get(cls, z3.Int('frontier.' + cls)), ab.get(cls, z3.Int('frontier.' + cls))
        if not (x is y or Z(x).eq(Z(y))):
            goals.append(Goal('state: number of new %s objects' % cls, simp(Z(x) == Z(y))))
            goals[-1].more = simp(Z(x) >= Z(y))


# ------------------------------------------------------------------ discharging
class Result:
    def __init__(self, name, status, back_end, t, reason=''):
        self.name, self.status, self.back_end, self.time, self.reason = name, status, back_end, t, reason

    def json(self):
        return dict(name=self.name, status=self.status, back_end=self.back_end, time_s=round(self.time, 3), reason=self.reason)


def discharge(c, name, pc, f, ms, reason=''):
    t0 = time.time()
    pc0 = c.pc
    c.pc = list(pc)
    try:
        f = simp(f)
        if f is True:
            return Result(name, 'discharged', 'simplifier', 0.0)
        ng = z3.BoolVal(True) if f is False else neg_goal(c, f)
        r = c.check([ng], ms)
        if r == z3.unsat:
            return Result(name, 'discharged', 'z3', time.time() - t0)
        terms = [ng] + [t for k, t in c.pc]
        if c.giveup >= 4:
            return Result(name, 'undecided', 'z3', time.time() - t0, reason or str(f)[:300].replace('\n', ' '))
        lem = c.fold_lemmas(goal_terms(c, ng, c.pc), 1500) + c.fold_step_lemmas([ng], None)
        if lem:
            if c.check(lem + [ng], ms) == z3.unsat:
                return Result(name, 'discharged', 'z3 + product/sum congruence', time.time() - t0)
        if c.valid_split(ng, ms, lem):
            return Result(name, 'discharged', 'z3 (split)', time.time() - t0)
        if case_split(c, ng, lem, ms):
            return Result(name, 'discharged', 'z3 (cases)', time.time() - t0)
        if focused(c, ng, lem, ms):
            return Result(name, 'discharged', 'z3', time.time() - t0)
        if c.check(lem + [ng], ms, True) == z3.unsat:
            return Result(name, 'discharged', 'z3 (mbqi)', time.time() - t0)
        r2 = cvc5_check(c, lem + [ng], 8)
        if r2 == 'unsat':
            return Result(name, 'discharged', 'cvc5', time.time() - t0)
        why = reason or str(f)[:300].replace('\n', ' ')
        inexact = c.soft == 'all' or c.soft and not name.endswith('outcome') or any(x in c.inexact for x in symbols([ng] + [t for k, t in c.pc]))
        m = None
        if r == z3.sat and not inexact and not lem and not apps_in([ng] + [t for k, t in c.pc], set(c.foldnames)):
            m = 'model'
        elif not inexact:
            m = small_model(c, lem + [ng])
        c.giveup += 4 if m else 1
        if m:
            return Result(name, 'refuted', 'z3', time.time() - t0, '%s; %s' % (why, m))
        return Result(name, 'undecided', 'z3, cvc5', time.time() - t0, why)
    finally:
        c.pc = pc0


def goal_terms(c, ng, pc):
    return [ng] + [t for k, t in pc]


def symbols(terms):
    seen, out = set(), set()
    st = list(terms)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            st.extend(t.children())
        elif z3.is_quantifier(t):
            st.append(t.body())
    return out


def valid_split(self, ng, ms, lem):
    """case split of a disjunctive negated goal"""
    if z3.is_or(ng):
        return all(self.check(lem + [d], ms) == z3.unsat for d in ng.children())
    return False


Ctx.valid_split = valid_split


def case_split(c, ng, extra, ms, depth=3):
    """cases on the conditions inside the negated goal, the smallest first"""
    conds, seen, st = [], set(), [ng]
    while st:
        t = st.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not has_var(t.arg(0)) and not has_quant(t.arg(0)):
            conds.append(t.arg(0))
        st.extend(t.children())
    if not conds or not depth:
        return False
    q = min(conds, key=loops.tree_size)
    for v in (True, False):
        g = z3.simplify(z3.substitute(ng, (q, z3.BoolVal(v))))
        ex = extra + [q if v else z3.Not(q)]
        if z3.is_false(g) or c.check(ex + [g], ms) == z3.unsat:
            continue
        if not case_split(c, g, ex, ms, depth - 1):
            return False
    return True


def focused(c, ng, lem, ms):
    """fewer facts (sound: every subset of the facts is true)"""
    pc = c.pc
    try:
        for keep in (lambda k, t: k != 'b' or not has_quant(t), lambda k, t: not has_quant(t) or len(t.sexpr()) < 600, lambda k, t: not has_quant(t) or len(t.sexpr()) < 300):
            c.pc = [(k, t) for k, t in pc if keep(k, Z(t))]
            if len(c.pc) < len(pc) and c.check(lem + [ng], ms) == z3.unsat:
                return True
    finally:
        c.pc = pc
    return False


def expansions(c, terms, fix):
    """definitions of the products and sums that occur, at fixed lengths; None when one of them cannot be expanded"""
    out, done, todo = [], set(), list(terms)
    while todo:
        nxt = []
        for app in apps_in(todo, set(c.foldnames)):
            if app.get_id() in done:
                continue
            done.add(app.get_id())
            kind = c.foldnames[app.decl().name()][3]
            if kind not in ('prod', 'sum'):
                return None
            if z3.is_var(app) or any(has_var(x) for x in app.children()):
                return None
            p = c.foldseq(app)
            n = simp(z3.substitute(Z(p.n), *fix)) if fix else simp(Z(p.n))
            if not isinstance(n, int) or n > 12:
                return None
            v = z3.IntVal(1 if kind == 'prod' else 0)
            for i in range(n):
                v = v * Z(p.at(i)) if kind == 'prod' else v + Z(p.at(i))
            if v.sort() != app.sort():
                v = z3.ToReal(v)
            out.append(app == v)
            nxt.append(v)
        todo = nxt
    return out


def has_var(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        st.extend(x.children())
    return False


def small_model(c, extra):
    """model of the path and the negated goal with short sequences: a counterexample of the obligation"""
    terms = [t for k, t in c.pc] + list(extra)
    lens = sorted(x for x in symbols(terms) if x.startswith('n_'))
    # numbers in products are given: the rest is linear
    rest = [(n, ()) for n in (1, 2, 0, 3)] if not c.sizes else [(n, t) for n in (1, 2) for t in itertools.product((1, 2, 3), repeat=len(c.sizes))]
    for n, t in rest:
        fix = [(z3.Int(x), z3.IntVal(n)) for x in lens] + [(x, z3.IntVal(k)) for x, k in zip(c.sizes, t)]
        ex = expansions(c, terms, fix)
        if ex is None:
            continue
        s = z3.Solver()
        s.set('rlimit', 2500 * RL_PER_MS)
        s.set('timeout', 15000)
        s.set('mbqi', True)
        for x in terms + ex:
            s.add(z3.substitute(x, *fix) if fix else x)
        r = s.check()
        if r == z3.sat:
            m = s.model()
            return 'model with %s: %s' % (', '.join('%s=%s' % x for x in fix) or 'no lengths', str([(d.name(), str(m[d])[:40]) for d in m.decls() if d.arity() == 0][:12])[:300])
        if not fix:
            break
    return None


def cvc5_check(c, extra, secs):
    try:
        import cvc5
        s = z3.Solver()
        for k, t in c.pc:
            s.add(t)
        for t in extra:
            s.add(t)
        txt = s.to_smt2()
        import subprocess, tempfile, os
        exe = '/opt/veriftools/cvc5/bin/cvc5'
        import shutil
        exe = shutil.which('cvc5') or exe
        p = subprocess.run([exe, '--lang', 'smt2', '--tlimit=%d' % (secs * 1000), '-'], input=('(set-logic ALL)\n' + txt).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 5)
        o = p.stdout.decode().strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'


# ------------------------------------------------------------------ one function
def verify(prog, specs, con, deadline_s=None, ms=QUICK_MS):
    """-> dict(function, obligations, degraded, vacuity, ...)"""
    res = dict(function=con.qual, obligations=[], degraded=[], vacuity={}, solver_time=0.0, queries=0, assumed=set(), used=set(), inlined=set())
    short = con.qual.replace('CTL.', '')
    for case in con.cases:
        t0 = time.time()
        c = Ctx(prog, specs, deadline=time.process_time() + (deadline_s or con.timeout))
        ip = interp.Interp(c)
        c.target = con.qual
        c.giveup = 0
        c.loopinv = {(con.qual, k): v for k, v in con.inv.items()}
        label = '%s [%s]' % (short, case.name)
        try:
            f = prog.func(con.qual)
            env = case.setup(c)
            c.roots.extend(env.values())
            if con.counted:
                c.counting = con.counted(c, env)
            S0 = c.snapshot()
            pc0 = list(c.pc)
            names = [a.arg for a in f.node.args.args] + [a.arg for a in f.node.args.kwonlyargs]
            if f.node.args.vararg is not None:
                names.append(f.node.args.vararg.arg)
            env = dict((k, v) for k, v in env.items() if not k.startswith('_'))
            bad = [k for k in env if k not in names]
            if bad:
                raise Unsupported('parameters of %s changed (%s)' % (con.qual, bad))

            def body():
                c.depth = 0
                return ip.call_func(f, [], dict(env))
            c.obls = []
            body_paths = c.explore(body)
            inner = c.obls
            c.obls = []
            live = [p for p in body_paths if p.out[0] == 'normal']
            sat = c.check([], 1500)
            res['vacuity'][label] = 'precondition %s, %d paths (%d end normally)' % ({'sat': 'satisfiable (model found)', 'unknown': 'not refutable', 'unsat': 'UNSATISFIABLE'}[str(sat)], len(body_paths), len(live))
            if sat == z3.unsat or not body_paths:
                res['obligations'].append(Result(label + ': precondition is satisfiable', 'undecided', '', 0, 'vacuous').json())
                continue
            out = []
            for (nm, pc, fm, kind) in inner:
                key = (nm, Z(fm).sexpr(), len(pc))
                if key in [o[0] for o in out]:
                    continue
                out.append((key, nm, pc, fm))
            for (key, nm, pc, fm) in out:
                res['obligations'].append(discharge(c, '%s: %s' % (label, nm), pc, fm, ms).json())
            full_env = ip.bind(f, [], dict(env))
            lemmas = {}
            for pi, p in enumerate(body_paths):
                c.pc = pc0 + list(p.pc)
                c.restore(S0)
                if p.out[0] in ('break', 'return'):
                    raise Unsupported('outcome %s' % p.out[0])

                def spec():
                    c.depth = 1
                    c.witness = (p.out[1],) if p.out[0] == 'normal' else None
                    try:
                        return con.spec(c, dict(full_env))
                    finally:
                        c.witness = None
                c.trace = Trace([])
                c.obls = []
                sp = c.explore(spec)
                # lemmas that the contract relies on
                for (nm, pc, fm, kind) in c.obls:
                    key = (nm, Z(fm).get_id(), tuple(t.get_id() for k, t in pc if k == 'b'))
                    if key not in lemmas:
                        lemmas[key] = (fm, pc)
                        res['obligations'].append(discharge(c, '%s: %s (in the contract)' % (label, nm), pc, fm, ms).json())
                c.obls = []
                pl = '%s: path %d' % (label, pi + 1)
                if not sp:
                    continue
                for si, s in enumerate(sp):
                    pcs = pc0 + list(p.pc) + list(s.pc)
                    if p.out[0] != s.out[0] or (p.out[0] == 'raise' and p.out[1].cls != s.out[1].cls):
                        why = 'body: %s, contract: %s' % (desc(p.out), desc(s.out))
                        res['obligations'].append(discharge(c, '%s: outcome' % pl, pcs, False, ms, why).json())
                        continue
                    goals = []
                    c.pc = list(pcs)
                    if p.out[0] == 'normal':
                        if con.compare:
                            con.compare(c, p, s, goals)
                        else:
                            cmp_value(c, p.out[1], s.out[1], 'result', goals, set())
                        if con.fresh:
                            fresh_goals(c, p.out[1], env, goals)
                        cmp_states(c, p, s, S0, goals)
                    elif p.out[0] == 'raise':
                        cmp_states(c, p, s, S0, goals, [id(env[k]) for k in con.partial])
                    pcs = list(c.pc)
                    if not goals:
                        res['obligations'].append(Result('%s: outcome %s' % (pl, desc(p.out)), 'discharged', 'structural', 0.0).json())
                    shifted = False
                    for g in sorted(goals, key=lambda g: not hasattr(g, 'more')):
                        r = discharge(c, '%s: %s' % (pl, g.name), pcs, g.f, ms, g.reason)
                        if hasattr(g, 'more') and r.status != 'discharged':
                            # objects nobody refers to are no fault; references to later objects are then not comparable
                            r2 = discharge(c, '%s: %s' % (pl, g.name), pcs, g.more, ms, g.reason)
                            if r2.status == 'discharged':
                                r, shifted = r2, True
                        elif shifted and r.status == 'refuted':
                            r.status = 'undecided'
                        res['obligations'].append(r.json())
        except Unsupported as e:
            res['degraded'].append('%s: %s' % (label, e))
        except PathDead:
            res['degraded'].append('%s: contradictory precondition' % label)
        except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, PyRaise, AssertionError) as e:
            res['degraded'].append('%s: %s: %s' % (label, type(e).__name__, str(e)[:200]))
            res['trace'] = traceback.format_exc()
        res['solver_time'] += c.stats.time
        res['queries'] += c.stats.queries
        res['assumed'] |= c.assumed
        res['used'] |= c.used_specs
        res['inlined'] |= c.inlined
    return res


def desc(out):
    if out[0] == 'raise':
        return 'raises %s' % out[1].cls
    return {'normal': 'returns'}.get(out[0], out[0])


def arrays_in(v, seen=None):
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return []
    seen.add(id(v))
    if isinstance(v, NDArr):
        return [v]
    if isinstance(v, Obj):
        return [x for y in v.fields.values() for x in arrays_in(y, seen)]
    if isinstance(v, (Lst, Tup)):
        return [x for p in flat(v.seq) if isinstance(p, CSeq) for y in p.items for x in arrays_in(y, seen)]
    if isinstance(v, DictV):
        return [x for k, y in v.items for x in arrays_in(y, seen)]
    return []


def fresh_goals(c, out, env, goals):
    """arrays of the result share no memory with arrays of the arguments"""
    ins = set(id(npmodel.root(a)) for v in env.values() for a in arrays_in(v))
    for a in arrays_in(out):
        goals.append(Goal('result: array storage is new', id(npmodel.root(a)) not in ins, 'the result may share memory with an argument'))
