"""symbolic pre-states and helpers for the contracts"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'pyvc'))
import z3
from values import *
from engine import *
import npmodel, interp, loops
from npmodel import DType, Grouped, SElem
from prover import Contract, Case, AnyValue

CONTRACTS = []


def contract(qual, props, cases, **kw):
    def deco(f):
        CONTRACTS.append(Contract(qual, f, props, [Case(n, s) for n, s in cases], **kw))
        return f
    return deco


def length(c, name):
    n = z3.Int('n_' + name)
    c.assume(n >= 0)
    return n


def ints(c, name, n=None, sort=None):
    """sequence of arbitrary integers (reals, strings)"""
    f = z3.Function(name, z3.IntSort(), sort if sort is not None else z3.IntSort())
    return FSeq(length(c, name) if n is None else n, lambda i: f(Z(i)), None, name)


def strs(c, name, n=None):
    return ints(c, name, n, z3.StringSort())


def reals(c, name, n=None):
    return ints(c, name, n, z3.RealSort())


def dset(c, name, n=None, sort=None):
    """sequence of distinct elements"""
    so = sort if sort is not None else z3.IntSort()
    n = length(c, name) if n is None else n
    f = z3.Function(name, z3.IntSort(), so)
    pos = z3.Function(name + '.pos', so, z3.IntSort())
    i = z3.Int('i?')
    c.pc.append(('f', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), pos(f(i)) == i), patterns=[f(i)])))

    def find(x):
        p = pos(Z(x))
        return z3.And(0 <= p, p < n, f(p) == Z(x)), p
    c.inverse[pos.name()] = (f, n, pos)
    return FSeq(n, lambda i: f(Z(i)), find, name)


def Int(n):
    return z3.Int(n)


def Real(n):
    return z3.Real(n)


def Str(n):
    return z3.String(n)


def raise_(cls):
    raise PyRaise(cls)
