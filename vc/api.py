"""What contract files import."""
import z3
from fractions import Fraction
from .core import *
from . import core
from .frame import *
from .frame import _scalar
from .stubs import *
from .loader import Universe
from .loops import LoopSpec, CountingLoop, Forall
from . import stubs

CONTRACTS = []


class Contract:
    def __init__(self, prop, name, functions, body, opts, assumptions, setup):
        self.prop, self.name, self.functions, self.body = prop, name, functions, body
        self.opts, self.assumptions, self.setup = opts, assumptions, setup


def contract(prop, name, functions, assumptions=(), overrides=None, modules=None, loops=None, builtin=None, **opts):
    """Register a contract.  body(u): u is a freshly loaded universe."""
    def deco(body):
        CONTRACTS.append(Contract(prop, name, functions, body, opts, list(assumptions),
                                  dict(overrides=overrides, modules=modules, loops=loops, builtin=builtin)))
        return body
    return deco


def sym_index(name, axis='T', nonempty=False, tz=None, freq=None, owner=None, order='asc', dom=None):
    d = dom or Dom.fresh(axis, name, nonempty)
    if order != 'asc':
        d = d.with_(order=order)
    return DatetimeIndex(d, tz=tz, freq=freq, owner=owner and owner + '.index')


def cell_fun(name, kind='f', nan=True, inf=False, lo=None, hi=None):
    """uninterpreted cell function of an input series"""
    c = ctx()
    nm = c.fresh(name)
    if kind == 'b':
        f = z3.Function(nm, z3.IntSort(), z3.BoolSort())
        return memo_cell(lambda t: SB(f(t)))
    if kind == 'ob':
        f = z3.Function(nm, z3.IntSort(), z3.BoolSort())
        g = z3.Function(nm + '.nan', z3.IntSort(), z3.BoolSort())
        return memo_cell(lambda t: SOB(g(t), f(t)))
    f = z3.Function(nm, z3.IntSort(), z3.RealSort())
    n = z3.Function(nm + '.nan', z3.IntSort(), z3.BoolSort()) if nan else None
    p = z3.Function(nm + '.pinf', z3.IntSort(), z3.BoolSort()) if inf else None
    m = z3.Function(nm + '.ninf', z3.IntSort(), z3.BoolSort()) if inf else None

    def cell(t):
        v = SF(n(t) if nan else False, And(Not(n(t)) if nan else True, p(t)) if inf else False,
               And(Not(n(t)) if nan else True, Not(p(t)), m(t)) if inf else False, f(t))
        if lo is not None:
            ctx().assume(f(t) >= zr(lo))
        if hi is not None:
            ctx().assume(f(t) <= zr(hi))
        return v
    return memo_cell(cell)


def sym_series(name, index=None, kind='f', nan=True, inf=False, sname='@', owner=True, lo=None, hi=None, **ik):
    own = name if owner else None
    if index is None:
        index = sym_index(name, owner=own, **ik)
    return Series._mk(index, cell_fun(name, kind, nan, inf, lo, hi), ('name_' + name) if sname == '@' else sname,
                      owner=own)


def sym_float(name, nan=False, inf=False, lo=None, hi=None):
    return SF.fresh(name, nan=nan, inf=inf, lo=lo, hi=hi)


def label(axis='T'):
    ctx().snapshot()
    t = ctx().int('t')
    ctx().note(axis, t)
    return t


def fork(name, *options):
    """non-deterministic choice among python values (each becomes a path)"""
    for o in options[:-1]:
        if ctx().choose(name):
            return o
    return options[-1]


def raises(exc, fn):
    """run fn; True if it raised exc, else (False, value)"""
    try:
        v = fn()
    except exc as e:
        return True, e
    return False, v


def same_index(a, ix, t, name):
    """result is indexed by exactly the labels of ix"""
    d = ix._dom if isinstance(ix, Index) else ix
    ensure(name, Iff(a._dom.mem(t), d.mem(t)))


def unchanged(*names):
    """frame condition: none of the caller's objects was modified"""
    muts = [m for m in ctx().mutations]
    ensure('frame:inputs-not-modified', len(muts) == 0)
    if ctx().opts.get('frame_only'):
        raise PathDone()


def boolcell(v):
    """B of a cell that must be a plain boolean"""
    if isinstance(v, SB):
        return v.b
    if isinstance(v, bool):
        return v
    return None


def ensure_mask(name, mask, index, spec):
    """mask is a plain-boolean series on exactly `index`, True iff spec(t)"""
    t = label()
    same_index(mask, index, t, name + ':index')
    v = boolcell(mask._cell(t))
    ensure(name + ':is-boolean', v is not None)
    if v is not None:
        ensure(name + ':value', Implies(index._dom.mem(t), Iff(v, spec(t))))


def is_type(v, cls):
    return isinstance(v, cls)


def opaque_series(kind, params, inputs, index=None, nan=True, tz=None, name=None):
    """result of a function known only by contract name: a series (on `index`, or on its own label set) that is a
    function of the parameters and the input series"""
    ins = [(s._dom.axis, s._dom.mem, getattr(s, '_cell', None)) for s in inputs]
    params = list(params)

    def fn():
        return opaque_fun(kind, params=params, inputs=ins, sorts=[z3.BoolSort, z3.BoolSort, z3.RealSort]).outs
    if index is None:
        d = Dom('T', lambda t: fn()[0](zi(t)), name=kind)
        index = DatetimeIndex(d, tz=tz)
    return Series._mk(index, memo_cell(lambda t: SF(fn()[1](zi(t)) if nan else False, False, False, fn()[2](zi(t)))), name)
