"""contracts of the name registries (C19)"""
from tens import *
SS = 'CTL.funcs.stringSet.StringSet'
F = 'CTL.funcs.funcs.'


@contract(F + 'randomString', ['C19'], [], trusted=True, note='random.choice may return any letter: the result is any string of the length asked for')
def randomString(c, e):
    n = e['n']
    return c.choose('random string', z3.StringSort(), lambda r: z3.And(r != NONESTR, z3.Length(r) == (Z(n) if is_int(n) else 0)))


class AnyState:
    """loop invariant: the strings at hand are strings"""
    def formula(self, c, env):
        return conj([simp(Z(v) != NONESTR) for k, v in env.items() if is_str(v) and k != 'inputStr'])


def anyset(c, nm):
    f = z3.Function(nm, z3.StringSort(), z3.BoolSort())
    s = SetV(pred=lambda x: f(Z(x)))
    s.elem_sort = z3.StringSort()
    return s


@contract(F + 'getNewString', ['C19', 'C18'], [('any set', lambda c: dict(knownSet=anyset(c, 'known'), n=Int('n')))], inv={0: AnyState()}, applies=lambda c, e: isinstance(e['knownSet'], SetV) and is_int(e['n']))
def getNewString(c, e):
    """a string that is not in the set (if the call returns)"""
    s = e['knownSet']
    return c.choose('new string', z3.StringSort(), lambda r: conj([simp(r != NONESTR), neg(s.pred(r))]))


def registry(c):
    return Obj(klass(c, SS), c.newid('StringSet'), dict(stringSet=anyset(c, 'held'), n=Int('n')))


def isreg(c, e):
    return isinstance(e['self'], Obj) and isinstance(e['self'].fields.get('stringSet'), SetV)


def put(c, s, x):
    old = s.pred
    r = SetV(pred=lambda y: disj([eqterm(y, x), old(y)]))
    s._pred, s.items = r._pred, None


def name(c, nm):
    x = z3.String(nm)
    c.assume(x != NONESTR)
    return x


@contract(SS + '.__init__', ['C19'], [('any', lambda c: dict(self=Obj(klass(c, SS), c.newid('StringSet'), {}), n=Int('n')))], applies=lambda c, e: False)
def init(c, e):
    """an empty registry"""
    e['self'].fields['stringSet'] = SetV(items=[])
    e['self'].fields['n'] = e['n']


@contract(SS + '.newString', ['C19'], [('generated', lambda c: dict(self=registry(c), inputStr=None)), ('supplied', lambda c: dict(self=registry(c), inputStr=name(c, 's'))), ('any', lambda c: dict(self=registry(c), inputStr=z3.String('s')))], inv={0: AnyState()}, applies=isreg)
def newString(c, e):
    """a name the registry did not hold, registered now; refused for a supplied name it holds"""
    s, x = e['self'].fields['stringSet'], e['inputStr']
    held = s.pred
    if x is None or (isz(x) and c.branch(simp(x == NONESTR))):
        x = c.choose('new name', z3.StringSort(), lambda r: conj([simp(r != NONESTR), neg(held(r))]))
    elif c.branch(held(x)):
        raise_('AssertionError')
    put(c, s, x)
    return x


@contract(SS + '.add', ['C19'], [('any', lambda c: dict(self=registry(c), s=name(c, 's')))], applies=isreg)
def add_(c, e):
    s = e['self'].fields['stringSet']
    if c.branch(s.pred(e['s'])):
        raise_('AssertionError')
    put(c, s, e['s'])


@contract(SS + '.remove', ['C19'], [('any', lambda c: dict(self=registry(c), s=name(c, 's')))], applies=isreg)
def remove_(c, e):
    s, x = e['self'].fields['stringSet'], e['s']
    if not c.branch(s.pred(x)):
        raise_('AssertionError')
    old = s._pred
    s._pred = lambda y: conj([neg(eqterm(y, x)), old(y)])


@contract(SS + '.contains', ['C19'], [('any', lambda c: dict(self=registry(c), s=name(c, 's')))], applies=isreg)
def contains(c, e):
    return e['self'].fields['stringSet'].pred(e['s'])
