"""Contract stubs for pandas objects: label-set + cell-function semantics.

Each method here is an *assumed contract* on pandas (trusted base); the ones
with a definite meaning are given definitionally over label sets, the rest are
uninterpreted functionals with congruence (core.opaque)."""
import z3
from fractions import Fraction
from .core import *
from . import core


# ------------------------------------------------------------------ domains
class Dom:
    def __init__(self, axis, memf, order='asc', dup=False, name=''):
        self.axis = axis
        self._memf = memf
        self._memo = {}
        self.order = order
        self.dup = dup
        self.name = name
        self.base = None

    def mem(self, t):
        if isinstance(t, int):
            t = z3.IntVal(t)
        k = t.get_id()
        r = self._memo.get(k)
        c = ctx()
        if r is None:
            v, rec = c.record(lambda: self._memf(t))
            r = (v, t, rec)
            self._memo[k] = r
        else:
            c.reuse(r[2])
        return r[0]

    def with_(self, order=None, dup=None):
        d = Dom(self.axis, self._memf, self.order if order is None else order,
                self.dup if dup is None else dup, self.name)
        d._memo = self._memo
        d.base = self.base or self
        return d

    def ident(self):
        return self.base or self

    def sub(self, pred, name=''):
        d = Dom(self.axis, lambda t: And(self.mem(t), pred(t)), self.order, self.dup, name or self.name)
        d.parent = (self, pred)
        return d

    @staticmethod
    def fresh(axis, name, nonempty=False):
        c = ctx()
        f = z3.Function(c.fresh('in_' + name), z3.IntSort(), z3.BoolSort())
        d = Dom(axis, lambda t: f(t), name=name)
        if nonempty:
            w = c.int('w_' + name)
            c.assume(d.mem(w))
            c.note(axis, w)
        return d


def dom_union(a, b):
    if a.ident() is b.ident():
        return a
    return Dom(a.axis, lambda t: Or(a.mem(t), b.mem(t)), 'asc', False, f'{a.name}|{b.name}')


def dom_inter(a, b):
    if a.ident() is b.ident():
        return a
    return Dom(a.axis, lambda t: And(a.mem(t), b.mem(t)), 'asc', False, f'{a.name}&{b.name}')


_skey = [0]


class SetOps:
    """Skolemised order operators on a membership predicate."""
    def __init__(self, axis, mem, name=''):
        self.axis, self.mem, self.name = axis, mem, name
        self.memo = {}

    def _mk(self, key, name, bound, better):
        c = ctx()
        if key in self.memo:
            r = self.memo[key]
            c.reuse(r[3])
            return r[:2]
        e = c.bool(f'{name}.ex')
        p = c.int(name)
        self.memo[key] = (e, p, bound, None)

        def build():
            c.note(self.axis, p)
            c.assume(Implies(e, And(self.mem(p), bound(p))))
            c.universal(self.axis, lambda u: Implies(And(self.mem(u), bound(u)), And(e, better(p, u))))
        _, rec = c.record(build)
        self.memo[key] = (e, p, bound, rec)
        return e, p

    def prev(self, t, strict=True):
        ctx().note(self.axis, t)
        b = (lambda u: u < t) if strict else (lambda u: u <= t)
        return self._mk(('p', strict, t.get_id(), t), f'prev_{self.name}', b, lambda p, u: u <= p)

    def next(self, t, strict=True):
        ctx().note(self.axis, t)
        b = (lambda u: u > t) if strict else (lambda u: u >= t)
        return self._mk(('n', strict, t.get_id(), t), f'next_{self.name}', b, lambda p, u: u >= p)

    def first(self):
        return self._mk(('f',), f'first_{self.name}', lambda u: True, lambda p, u: u >= p)

    def last(self):
        return self._mk(('l',), f'last_{self.name}', lambda u: True, lambda p, u: u <= p)


def canon_ops(axis, mem, name=''):
    """order operators, shared between structurally equal label sets"""
    c = ctx()
    k = (axis, c.pkey(axis, mem))
    o = c.opscache.get(k)
    if o is None:
        o = c.opscache[k] = SetOps(axis, mem, name)
    return o


def setops(dom):
    d = dom.ident()
    if not hasattr(d, '_ops'):
        d._ops = canon_ops(d.axis, d.mem, d.name)
    return d._ops


def dom_card(dom):
    d = dom.ident()
    if getattr(d, '_card', None) is None:
        def mk():
            c = ctx()
            n = c.int('card_' + d.name)
            c.assume(n >= 0)
            e, f = setops(d).first()
            e2, l = setops(d).last()
            c.assume(Iff(n == 0, Not(e)))
            c.assume(Iff(e, e2))
            c.assume(Implies(And(e, e2), Iff(n == 1, f == l)))
            return SI(n)
        d._card = opaque('card', inputs=[(d.axis, d.mem, None)], mk=mk).outs[0]
        ctx().__dict__.setdefault('_carddom', {}).setdefault(zi(d._card.v).get_id(), (d, d._card.v))
        waiting = ctx().__dict__.setdefault('_cards', [])
        waiting.append(d)
        for x in list(waiting):
            par = getattr(x, 'parent', None)
            if par is None or (x is not d and par[0].ident() is not d):
                continue
            up, pred = par
            if getattr(up.ident(), '_card', None) is None:
                continue
            # fewer labels than the set it was taken from, unless nothing was left out
            e, _ = canon_ops(x.axis, lambda t, up=up, pred=pred: And(up.mem(t), Not(pred(t))), 'out').first()
            n, m = x._card.v, up.ident()._card.v
            ctx().assume(And(n <= m, Iff(n == m, Not(e))))
    return d._card


def doms_equal(a, b):
    """forks: python bool; adds the universal/witness"""
    if a.ident() is b.ident():
        return True
    c = ctx()
    key = ('domeq', id(a.ident()), id(b.ident()))
    b_ = c.appkey.get(key)
    if b_ is None:
        b_ = c.bool('domeq')
        c.appkey[key] = b_
        c.keep.append((a, b))
        w = c.int('domdiff')
        c.note(a.axis, w)
        c.assume(Implies(Not(b_), Xor(a.mem(w), b.mem(w))))
        c.universal(a.axis, lambda u: Implies(b_, Iff(a.mem(u), b.mem(u))))
    return c.decide(b_)


# ------------------------------------------------------------------ freq / offsets
class Freq:
    """symbolic fixed frequency (DateOffset) with a positive length"""
    _vc_offset = True

    def __init__(self, name='freq', nanos=None, fixed=True, tag=None):
        self.tag = tag or name
        self._nanos = nanos
        self.fixed = fixed

    @property
    def nanos(self):
        if not self.fixed:
            raise ValueError(f'{self.tag} is a non-fixed frequency')
        if self._nanos is None:
            c = ctx()
            v = c.int('nanos_' + self.tag)
            c.assume(v > 0)
            self._nanos = SI(v)
        return self._nanos

    def _vc_same(self, o):
        if isinstance(o, Freq):
            if o is self:
                return True
            if self.tag == o.tag:
                return True
            if self._nanos is not None and o._nanos is not None:
                return same(self._nanos, o._nanos)
            return False
        if isinstance(o, str):
            return o == self.tag
        return False

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if o is self:
            return True
        if not isinstance(o, Freq):
            return False
        if self.fixed and o.fixed:
            return SB(zi(self.nanos.v) == zi(o.nanos.v))
        if self.fixed != o.fixed:
            return False
        return self.tag == o.tag

    def __ne__(self, o):
        r = self.__eq__(o)
        return SB(Not(r.b)) if isinstance(r, SB) else not r

    def _vc_add(self, t):
        return ST(zi(t.v) + zi(self.nanos.v), t.nat, t.tz)

    def _vc_sub(self, t):
        return ST(zi(t.v) - zi(self.nanos.v), t.nat, t.tz)

    def __bool__(self):
        return True


class DateOffset:
    """pd.DateOffset(years=..) : uninterpreted calendar shift, strictly monotone"""
    _vc_offset = True

    def __init__(self, *a, **kw):
        self.kw = dict(kw)
        if a:
            raise Unsupported('DateOffset positional')

    def _vc_same(self, o):
        return isinstance(o, DateOffset) and self.kw == o.kw

    def _f(self, t, sign):
        c = ctx()
        kw = tuple(sorted((k, v) for k, v in self.kw.items()))
        key = ('dateoffset', kw, sign)
        if key not in c.appkey:
            f = z3.Function(f'off_{"_".join(k + str(v) for k, v in kw)}_{sign}', z3.IntSort(), z3.IntSort())
            c.appkey[key] = f
            c.tokens[key] = []
        f = c.appkey[key]
        v = f(t)
        seen = c.appkey.setdefault(key + ('seen',), {})
        if t.get_id() in seen:
            return v
        seen[t.get_id()] = t
        for u in c.tokens[key]:
            # calendar shift is monotone (Feb 29 collapses onto Feb 28)
            c.assume(Implies(u <= t, f(u) <= v))
            c.assume(Implies(t <= u, v <= f(u)))
        c.tokens[key].append(t)
        if all(isinstance(x, int) and x > 0 for _, x in kw):
            c.assume(v > t if sign > 0 else v < t)
            if kw and kw[0][0] == 'years':
                n = kw[0][1]
                day = 86400 * 10**9
                c.assume(z3.And(v - t >= sign * 0 + (365 * n - 1) * day, v - t <= (366 * n + 1) * day) if sign > 0
                         else z3.And(t - v >= (365 * n - 1) * day, t - v <= (366 * n + 1) * day))
        return v

    def _vc_add(self, t):
        return ST(self._f(zi(t.v), 1), t.nat, t.tz)

    def _vc_sub(self, t):
        return ST(self._f(zi(t.v), -1), t.nat, t.tz)


# ------------------------------------------------------------------ index
UNSET = object()


def _log(obj, what):
    o = getattr(obj, '_owner', None)
    if o:
        ctx().mutations.append((o, what))


class Index:
    _vc_index = True

    def __init__(self, dom=None, name=None, tz=None, freq=UNSET, owner=None, data=None):
        object.__setattr__(self, '_owner', owner)
        if isinstance(dom, Index):
            object.__setattr__(self, '_dom', dom._dom)
            object.__setattr__(self, '_name', dom._name)
            object.__setattr__(self, '_tz', dom._tz)
            object.__setattr__(self, '_freq', None)
            return
        if isinstance(dom, Arr):
            if dom.labels is None:
                raise Unsupported('Index from non-label array')
            dom = dom.labels
        if dom is not None and not isinstance(dom, Dom):
            raise Unsupported(f'Index from {type(dom)}')
        object.__setattr__(self, '_dom', dom)
        object.__setattr__(self, '_name', name)
        object.__setattr__(self, '_tz', tz)
        object.__setattr__(self, '_freq', None if freq is UNSET else freq)

    def __setattr__(self, k, v):
        if k == 'name':
            if v != self._name:
                _log(self, f'index.name <- {v!r}')
            object.__setattr__(self, '_name', v)
        elif k == 'freq':
            if v is not self._freq:
                _log(self, 'index.freq')
            object.__setattr__(self, '_freq', v)
        elif k.startswith('_'):
            object.__setattr__(self, k, v)
        else:
            raise Unsupported(f'Index.{k} assignment')

    name = property(lambda s: s._name)
    names = property(lambda s: [s._name])

    @property
    def freq(self):
        f = self._freq
        if callable(f):
            f = f()
            object.__setattr__(self, '_freq', f)
        return f

    @property
    def inferred_freq(self):
        return infer_freq(self)

    @property
    def tz(self):
        z = self._tz
        if callable(z):
            z = z()
            object.__setattr__(self, '_tz', z)
        return z

    @property
    def dom(self):
        return self._dom

    def like(self, dom, **kw):
        i = type(self)(dom, name=kw.get('name', self._name), tz=self._tz, freq=kw.get('freq', UNSET))
        return i

    def copy(self, deep=False, name=None):
        i = type(self)(self._dom, name=self._name if name is None else name, tz=self._tz, freq=self._freq)
        return i

    def view(self, what=None):
        if what in ('int64', 'i8', int):
            return Arr(self._dom, lambda t: SI(t), labels=self._dom)
        raise Unsupported(f'Index.view({what!r})')

    @property
    def asi8(self):
        return self.view('int64')

    def astype(self, t):
        if t in ('int64', int, 'i8'):
            return self.view('int64')
        raise Unsupported('Index.astype')

    @property
    def values(self):
        return Arr(self._dom, self._labelcell, labels=self._dom)

    def to_numpy(self):
        return self.values

    def _labelcell(self, t):
        return ST(t, False, self.tz) if self._dom.axis == 'T' and isinstance(self, DatetimeIndex) else SI(t)

    def __vc_len__(self):
        return dom_card(self._dom)

    @property
    def size(self):
        return dom_card(self._dom)

    @property
    def shape(self):
        return (dom_card(self._dom),)

    @property
    def empty(self):
        e, _ = setops(self._dom).first()
        return SB(Not(e))

    def _at(self, which):
        if self._dom.order == 'unk':
            raise Unsupported('positional access to an index of unknown order')
        if self._dom.order == 'desc':
            which = 'last' if which == 'first' else 'first'
        e, p = getattr(setops(self._dom), which)()
        if not ctx().decide(e):
            raise IndexError('index out of bounds')
        return self._labelcell(p)

    def __getitem__(self, k):
        if isinstance(k, int):
            if k == 0:
                return self._at('first')
            if k == -1:
                return self._at('last')
            raise Unsupported('Index[int]')
        if isinstance(k, slice):
            return _slice_index(self, k)
        if isinstance(k, (Series, Arr)):
            return self.like(self._dom.sub(lambda t, k_c=k._cell: truth(k_c(t))))
        raise Unsupported(f'Index[{type(k)}]')

    def min(self):
        e, p = setops(self._dom).first()
        if not ctx().decide(e):
            return ST(z3.IntVal(0), True) if isinstance(self, DatetimeIndex) else SF.of(float('nan'))
        return self._labelcell(p)

    def max(self):
        e, p = setops(self._dom).last()
        if not ctx().decide(e):
            return ST(z3.IntVal(0), True) if isinstance(self, DatetimeIndex) else SF.of(float('nan'))
        return self._labelcell(p)

    def union(self, o, sort=None):
        if sort not in (None, True) and o._dom.ident() is not self._dom.ident():
            raise Unsupported('union without sorting')
        if isinstance(o, Index):
            if o._dom.dup or self._dom.dup:
                raise Unsupported('union of duplicated index')
            return self.like(dom_union(self._dom, o._dom))
        raise Unsupported('union')

    def intersection(self, o, sort=False):
        if sort is not False and self._dom.order != 'asc':
            raise Unsupported('intersection with sorting')
        return self.like(dom_inter(self._dom, o._dom))

    def difference(self, o, sort=None):
        if self._dom.order != 'asc':
            raise Unsupported('difference of an unordered index')
        return self.like(self._dom.sub(lambda t: Not(o._dom.mem(t))))

    def append(self, o):
        a, b = self._dom, o._dom
        return self.like(Dom(a.axis, lambda t: Or(a.mem(t), b.mem(t)), 'unk', True, f'{a.name}+{b.name}'))

    def drop_duplicates(self, keep='first'):
        if keep not in ('first', 'last') and self._dom.dup:
            raise Unsupported('drop_duplicates(keep=False)')
        return self.like(self._dom.with_(dup=False))

    def unique(self):
        return self.drop_duplicates()

    def duplicated(self, keep='first'):
        if not self._dom.dup:
            return Arr(self._dom, lambda t: SB(False))
        raise Unsupported('duplicated')

    def sort_values(self, ascending=True):
        return self.like(self._dom.with_(order='asc' if ascending else 'desc'))

    @property
    def is_monotonic_increasing(self):
        return self._dom.order == 'asc'

    @property
    def is_unique(self):
        return not self._dom.dup

    @property
    def has_duplicates(self):
        return self._dom.dup

    def to_series(self, index=None, name=None):
        ix = self if index is None else as_index(index)
        return Series._mk(ix, self._labelcell, self._name if name is None else name)

    def isin(self, o):
        o = as_index(o)
        return Arr(self._dom, lambda t: SB(o._dom.mem(t)))

    def equals(self, o):
        return doms_equal(self._dom, o._dom)

    def get_level_values(self, k):
        return self

    def _vc_same(self, o):
        return isinstance(o, Index) and self._dom.ident() is o._dom.ident()

    def tz_convert(self, tz):
        if self.tz is None:
            raise TypeError('Cannot convert tz-naive timestamps, use tz_localize to localize')
        i = DatetimeIndex(self._dom, name=self._name, tz=tz, freq=self._freq)
        return i

    def tz_localize(self, tz, *a, **k):
        if tz is None and self.tz is None:
            return self
        raise Unsupported('tz_localize')

    def _arith(self, o, f):
        if isinstance(o, (SD, SI, int)) or hasattr(o, '_vc_offset'):
            raise Unsupported('shifting an index')
        raise Unsupported('index arithmetic')

    def __sub__(self, o):
        if isinstance(o, ST):
            return Arr(self._dom, lambda t: self._labelcell(t) - o)
        if isinstance(o, ShiftedIndex) and o.base is self:
            return Arr(self._dom, lambda t: SD(-zi(o.delta(t))))
        if isinstance(o, Index) and o._dom.ident() is self._dom.ident():
            return Arr(self._dom, lambda t: SD(z3.IntVal(0)))
        return self._arith(o, None)

    def __add__(self, o):
        return self._arith(o, None)

    def shift(self, n=1, freq=None):
        return ShiftedIndex(self, n, freq)

    def __getattr__(self, k):
        if k in ('year', 'month', 'day', 'hour', 'minute', 'second', 'dayofyear', 'date', 'normalize', 'weekday',
                 'day_of_year'):
            if k == 'normalize':
                return lambda: (_ for _ in ()).throw(Unsupported('normalize'))
            return Arr(self._dom, lambda t: ts_field(k, t, self.tz))
        if k.startswith('_'):
            raise AttributeError(k)
        raise Unsupported(f'Index.{k}')

    # comparisons elementwise
    def _cmp(self, o, f):
        if isinstance(o, Index):
            if not doms_equal(self._dom, o._dom):
                raise Unsupported('elementwise comparison of different indexes')
            if o._dom.order == self._dom.order:
                return Arr(self._dom, lambda t: SB(f == '__eq__' or f in ('__le__', '__ge__')))
            raise Unsupported('elementwise comparison of reordered index')
        if isinstance(o, str):
            raise Unsupported('index compared with string')
        return Arr(self._dom, lambda t: getattr(self._labelcell(t), f)(o))

    def __eq__(self, o):
        return self._cmp(o, '__eq__')

    def __ne__(self, o):
        return self._cmp(o, '__ne__')

    def __lt__(self, o):
        return self._cmp(o, '__lt__')

    def __le__(self, o):
        return self._cmp(o, '__le__')

    def __gt__(self, o):
        return self._cmp(o, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, '__ge__')

    __hash__ = object.__hash__

    def __iter__(self):
        raise Unsupported('iteration over a symbolic index')


class ShiftedIndex:
    """index.shift(n) with n a concrete integer: labels t + n*freq"""
    def __init__(self, base, n, freq):
        f = freq or base.freq
        if f is None:
            raise ValueError('Cannot shift with no freq')
        self.base, self.n, self.f = base, n, f

    def delta(self, t):
        return zi(self.n) * zi(self.f.nanos.v)


class DatetimeIndex(Index):
    pass


class RangeIndex(Index):
    pass


def ts_field(k, t, tz):
    v = opaque_fun('ts.' + k, params=[tz], sorts=[z3.IntSort]).outs[0](zi(t))
    return ST(v) if k == 'date' else SI(v)


def infer_freq(ix):
    if isinstance(ix, Series):
        ix = ix.index
    c = ctx()
    d = ix._dom.ident()
    f = getattr(d, '_inferred', UNSET)
    if f is UNSET:
        if d.axis != 'T':
            raise TypeError('cannot infer freq from a non-convertible index')
        has = c.bool('inferrable_' + d.name)
        if c.decide(has):
            f = Freq('inferred_' + d.name)
            d._inferred = f
            nn = f.nanos.v
            # a regular index: consecutive labels differ by the frequency
            ops = setops(d)
            c.universal('T', lambda u: _regular(d, ops, u, nn))
        else:
            f = None
        d._inferred = f
    return f


def _regular(d, ops, u, nn):
    e, p = ops.prev(u)
    return Implies(And(d.mem(u), e), p == u - nn)


def as_index(o):
    if isinstance(o, Index):
        return o
    if isinstance(o, Series):
        return o.as_labels()
    if isinstance(o, Arr) and o.labels is not None:
        return Index(o.labels)
    raise Unsupported(f'index-like {type(o)}')


def _slice_index(ix, k):
    d = ix._dom
    if k.step in (None, 1):
        pred = _pos_slice_pred(d, k)
        return ix.like(d.sub(pred))
    if k.step == -1 and k.start is None and k.stop is None:
        return ix.like(d.with_(order='desc' if d.order == 'asc' else 'asc'))
    raise Unsupported('index slice')


def _pos_slice_pred(d, k):
    """positional slices [1:], [:-1], [0:], [:]"""
    if d.order != 'asc':
        raise Unsupported('positional slice of unordered')
    a, b = k.start, k.stop
    a = 0 if a is None else a
    if isinstance(a, int) and a == 0 and b is None:
        return lambda t: True
    preds = []
    ops = setops(d)
    if isinstance(a, int) and 0 < a <= 3:
        def pa(t, a=a):
            # at least a predecessors
            conds, cur = [], t
            for _ in range(a):
                e, cur = ops.prev(cur)
                conds.append(e)
            return And(*conds)
        preds.append(pa)
    elif a != 0:
        raise Unsupported('positional slice')
    if b is not None:
        if isinstance(b, int) and -3 <= b < 0:
            def pb(t, b=b):
                conds, cur = [], t
                for _ in range(-b):
                    e, cur = ops.next(cur)
                    conds.append(e)
                return And(*conds)
            preds.append(pb)
        else:
            raise Unsupported('positional slice')
    return lambda t: And(*[p(t) for p in preds])


# ------------------------------------------------------------------ arrays
def truth(v):
    """boolean-mask reading of a cell -> B"""
    if isinstance(v, SB):
        return v.b
    if isinstance(v, bool):
        return v
    if isinstance(v, SOB):
        return And(Not(v.nan), v.b)
    raise Unsupported(f'mask cell {type(v)}')


def memo_cell(fn):
    memo = {}

    def cell(t):
        if isinstance(t, int):
            t = z3.IntVal(t)
        k = t.get_id()
        r = memo.get(k)
        c = ctx()
        if r is None:
            v, rec = c.record(lambda: fn(t))
            r = memo[k] = (v, t, rec)
        else:
            c.reuse(r[2])
        return r[0]
    cell._memo = True
    return cell


_OPS = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'truediv': lambda a, b: a / b, 'pow': lambda a, b: a ** b, 'mod': lambda a, b: a % b,
    'floordiv': lambda a, b: a // b,
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
}


def cellop(op, a, b):
    if isinstance(a, SOB) or isinstance(b, SOB):
        if op in ('eq', 'ne'):
            a, b = SOB.of(a), SOB.of(b)
            e = And(Not(a.nan), Not(b.nan), Iff(a.b, b.b))
            return SB(e if op == 'eq' else Not(e))
        raise Unsupported('arithmetic on object bool')
    # NaN mixed with time values
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        if isinstance(a, (ST, SD)) and isinstance(b, SF) and b.nan is True:
            return SB(op == 'ne')
        if isinstance(b, (ST, SD)) and isinstance(a, SF) and a.nan is True:
            return SB(op == 'ne')
        if isinstance(a, (str, SU)) or isinstance(b, (str, SU)):
            e = same(a, b)
            return SB(e if op == 'eq' else Not(e))
    else:
        if isinstance(a, SB):
            a = a.num()
        if isinstance(b, SB):
            b = b.num()
        if isinstance(a, (int, Fraction)) and not isinstance(a, bool) and isinstance(b, (int, Fraction)):
            a = SF.of(a)
    if isinstance(a, (int, float, Fraction)) and not isinstance(b, (SF, SI, SB, ST, SD)):
        a = SF.of(a)
    r = _OPS[op](a, b)
    if r is NotImplemented:
        raise Unsupported(f'{op} of {type(a)}, {type(b)}')
    if isinstance(r, bool):
        return SB(r)
    return r


def celllog(op, a, b):
    """& | ^ on cells; pandas treats NaN in object-bool as False"""
    x, y = truth(a), truth(b)
    return SB({'and': And, 'or': Or, 'xor': Xor}[op](x, y))


class Elementwise:
    """shared operator plumbing of Series and Arr"""
    __array_ufunc__ = None

    def __add__(self, o):
        return self._binop('add', o)

    def __radd__(self, o):
        return self._binop('add', o, True)

    def __sub__(self, o):
        return self._binop('sub', o)

    def __rsub__(self, o):
        return self._binop('sub', o, True)

    def __mul__(self, o):
        return self._binop('mul', o)

    def __rmul__(self, o):
        return self._binop('mul', o, True)

    def __truediv__(self, o):
        return self._binop('truediv', o)

    def __rtruediv__(self, o):
        return self._binop('truediv', o, True)

    def __floordiv__(self, o):
        return self._binop('floordiv', o)

    def __mod__(self, o):
        return self._binop('mod', o)

    def __pow__(self, o):
        return self._binop('pow', o)

    def __lt__(self, o):
        return self._binop('lt', o)

    def __le__(self, o):
        return self._binop('le', o)

    def __gt__(self, o):
        return self._binop('gt', o)

    def __ge__(self, o):
        return self._binop('ge', o)

    def __eq__(self, o):
        return self._binop('eq', o)

    def __ne__(self, o):
        return self._binop('ne', o)

    __hash__ = object.__hash__

    def __and__(self, o):
        return self._logop('and', o)

    def __rand__(self, o):
        return self._logop('and', o)

    def __or__(self, o):
        return self._logop('or', o)

    def __ror__(self, o):
        return self._logop('or', o)

    def __xor__(self, o):
        return self._logop('xor', o)
    __rxor__ = __xor__

    def __invert__(self):
        def f(v):
            if isinstance(v, SB):
                return SB(Not(v.b))
            if isinstance(v, bool):
                return not v
            raise Unsupported(f'~ on {type(v)}')
        return self._map(f)

    def __neg__(self):
        return self._map(lambda v: -SF.of(v) if not isinstance(v, (SI, SD)) else -v)

    def __abs__(self):
        return self._map(abs)

    def abs(self):
        return abs(self)

    def __bool__(self):
        raise ValueError('The truth value of a Series is ambiguous.')

    def __float__(self):
        raise Unsupported('float(series)')

    # null tests
    def isnull(self):
        return self._map(lambda v: SB(isnan(v)))
    isna = isnull

    def notnull(self):
        return self._map(lambda v: SB(Not(isnan(v))))
    notna = notnull

    def round(self, n=0):
        return self._map(lambda v: uf1(f'round{n}', v))

    def clip(self, lower=None, upper=None, **kw):
        def bound(v, lo, hi):
            v = SF.of(v)
            if lo is not None:
                v = ite(And(Not(v.nan), v._lt(SF.of(lo))), SF.of(lo), v)
            if hi is not None:
                v = ite(And(Not(v.nan), SF.of(hi)._lt(v)), SF.of(hi), v)
            return v
        if isinstance(lower, Series) or isinstance(upper, Series):
            # a missing bound does not clip; the bounds are aligned with the data
            if not isinstance(self, Series):
                raise Unsupported('clip by series')

            def cells(b):
                return b._aligned(self._dom) if isinstance(b, Series) else (lambda t: b)
            lo, hi, me = cells(lower), cells(upper), self._cell
            return Series._mk(self.index, memo_cell(lambda t: bound(me(t), lo(t), hi(t))), self._name)
        return self._map(lambda v: bound(v, lower, upper))

    def __vc_reduce__(self, kind, skipna=True, q=None):
        return reduce_(self._dom, self._cell, kind, q=q, skipna=skipna)

    def median(self, axis=None, skipna=True, **kw):
        return self.__vc_reduce__('median', skipna)

    def mean(self, axis=None, skipna=True, **kw):
        return self.__vc_reduce__('mean', skipna)

    def sum(self, axis=None, skipna=True, **kw):
        return self.__vc_reduce__('sum', skipna)

    def max(self, axis=None, skipna=True, **kw):
        return self.__vc_reduce__('max', skipna)

    def min(self, axis=None, skipna=True, **kw):
        return self.__vc_reduce__('min', skipna)

    def std(self, axis=None, skipna=True, **kw):
        return self.__vc_reduce__('std', skipna)

    def var(self, axis=None, skipna=True, **kw):
        return self.__vc_reduce__('var', skipna)

    def count(self):
        d = self._dom.sub(lambda t, self_c=self._cell: Not(isnan(self_c(t))))
        return dom_card(d)

    def any(self, *a, **kw):
        d = self._dom.sub(lambda t, self_c=self._cell: truthy(self_c(t)))
        e, _ = setops(d).first()
        return SB(e)

    def all(self, *a, **kw):
        d = self._dom.sub(lambda t, self_c=self._cell: Not(truthy(self_c(t))))
        e, _ = setops(d).first()
        return SB(Not(e))


def truthy(v):
    if isinstance(v, (SB, bool)):
        return v.b if isinstance(v, SB) else v
    if isinstance(v, SOB):
        return Or(v.nan, v.b)
    if isinstance(v, SF):
        return Not(v.zero())
    raise Unsupported(f'truth of {type(v)}')


class Arr(Elementwise):
    """numpy array whose elements correspond one-to-one to the labels of a
    domain (tail=True: to the labels except the first)."""
    _vc_arr = True

    def __init__(self, dom, cell, tail=False, labels=None):
        self._dom, self._cell, self.tail, self.labels = dom, memo_cell(cell), tail, labels

    def _compat(self, o):
        if o._dom.ident() is self._dom.ident() and o.tail == self.tail and o._dom.order == self._dom.order:
            return
        raise Unsupported('arrays over different domains')

    def _binop(self, op, o, rev=False):
        if isinstance(o, Series):
            return o._binop(op, self, not rev)
        if isinstance(o, Index):
            o = o.values
        if isinstance(o, Arr):
            self._compat(o)
            f = lambda t, o_c=o._cell, self_c=self._cell: cellop(op, o_c(t), self_c(t)) if rev else cellop(op, self_c(t), o_c(t))
        elif _scalar(o):
            f = lambda t, self_c=self._cell: cellop(op, wrap(o), self_c(t)) if rev else cellop(op, self_c(t), wrap(o))
            r = Arr(self._dom, f, self.tail)
            if op == 'eq' and isinstance(wrap(o), SF) and not self.tail:
                r.eqof = (self._dom, self._cell, wrap(o))
            return r
        else:
            return NotImplemented
        return Arr(self._dom, f, self.tail)

    def _logop(self, op, o):
        if isinstance(o, Series):
            return o._logop(op, self)
        if isinstance(o, Arr):
            self._compat(o)
            return Arr(self._dom, lambda t, self_c=self._cell, o_c=o._cell: celllog(op, self_c(t), o_c(t)), self.tail)
        if isinstance(o, (bool, SB)):
            return Arr(self._dom, lambda t, self_c=self._cell: celllog(op, self_c(t), o), self.tail)
        return NotImplemented

    def _map(self, f):
        return Arr(self._dom, lambda t, self_c=self._cell: f(self_c(t)), self.tail)

    def copy(self):
        return Arr(self._dom, self._cell, self.tail, self.labels)

    def astype(self, t, **kw):
        return Arr(self._dom, lambda x, self_c=self._cell: cast(self_c(x), t), self.tail, self.labels)

    def view(self, t):
        if t in ('int64', 'i8'):
            return Arr(self._dom, lambda x, self_c=self._cell: SI(self_c(x).v) if isinstance(self_c(x), (SD, ST)) else self_c(x),
                       self.tail)
        raise Unsupported('Arr.view')

    def total_seconds(self):
        return self._map(lambda v: v.total_seconds())

    @property
    def days(self):
        return self._map(lambda v: v.days)

    @property
    def values(self):
        return self

    def to_numpy(self):
        return self

    @property
    def dtype(self):
        return 'float64'

    @property
    def shape(self):
        return (self.__vc_len__(),)

    @property
    def size(self):
        return self.__vc_len__()

    def __vc_len__(self):
        n = dom_card(self._dom)
        return n - 1 if self.tail else n

    def __vc_reduce__(self, kind, skipna=False, q=None):
        d = self._dom
        if self.tail:
            ops = setops(d)
            d = d.sub(lambda t: ops.prev(t)[0])
        if kind == 'sum' and getattr(self, 'eqof', None):
            r = count_eq(*self.eqof)
            if r is not None:
                return r
        return reduce_(d, self._cell, kind, q=q, skipna=False)

    def __getitem__(self, k):
        d = self._dom
        if isinstance(k, slice) and not self.tail and k.step in (None, 1):
            if d.order != 'asc':
                raise Unsupported('slice of unordered array')
            ops = setops(d)
            if (k.start, k.stop) == (1, None):
                return Arr(d, self._cell, tail=True)
            if k.start in (None, 0) and k.stop == -1:
                def f(t):
                    e, p = ops.prev(t)
                    return self._cell(p)
                return Arr(d, f, tail=True)
            if k.start in (None, 0) and k.stop is None:
                return self
        if isinstance(k, (Arr, Series)):
            if k._dom.ident() is d.ident():
                return Arr(d.sub(lambda t, k_c=k._cell: truth(k_c(t))), self._cell, self.tail)
        if isinstance(k, int) and not self.tail:
            if k in (0, -1):
                e, p = setops(d).first() if (k == 0) == (d.order == 'asc') else setops(d).last()
                if not ctx().decide(e):
                    raise IndexError('out of bounds')
                return self._cell(p)
        if isinstance(k, SI) and d.axis.startswith('U') and not self.tail:
            inb = And(zi(0) <= zi(k.v), d.mem(zi(k.v)))
            if not ctx().decide(inb):
                raise IndexError('out of bounds')
            ctx().note(d.axis, zi(k.v))
            return self._cell(zi(k.v))
        raise Unsupported(f'Arr[{k!r}]')

    def __setitem__(self, k, v):
        old = self._cell
        if isinstance(k, (Arr, Series)) and k._dom.ident() is self._dom.ident() and _scalar(v):
            self._cell = memo_cell(lambda t, k_c=k._cell: ite(truth(k_c(t)), wrap(v), old(t)))
            return
        if isinstance(k, SI) and self._dom.axis.startswith('U') and _scalar(v) and not self.tail:
            kv, w = zi(k.v), numericize(wrap(v))
            if not ctx().decide(And(zi(0) <= kv, self._dom.mem(kv))):
                raise IndexError('out of bounds')
            ctx().note(self._dom.axis, kv)
            self._cell = memo_cell(lambda t: ite(t == kv, w, old(t)))
            return
        raise Unsupported('Arr[...] = ')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic array')


def count_eq(dom, cell, v):
    """how many of the data equal v: a function of v, per data set"""
    c = ctx()
    k = ('count_eq', dom.axis, c.pkey(dom.axis, dom.mem), c.pkey(dom.axis, cell))
    f = c.appkey.get(k)
    if f is None:
        f = c.appkey[k] = z3.Function(c.fresh('count_eq'), z3.RealSort(), z3.IntSort())
        c.kinds.add('count_eq')
    r = f(zr(v.r))
    if isinstance(v.fin, bool) and v.fin:
        c.assume(r >= 0)
        return SF(False, False, False, zr(z3.ToReal(r)))
    return None


class Mat(Elementwise):
    """square array over pairs of labels of one domain"""
    def __init__(self, dom, cell):
        self._dom, self.cell2 = dom, cell

    def _map(self, f):
        return Mat(self._dom, lambda i, j: f(self.cell2(i, j)))

    def _binop(self, op, o, rev=False):
        if isinstance(o, Mat) and o._dom.ident() is self._dom.ident():
            return Mat(self._dom, lambda i, j: cellop(op, o.cell2(i, j), self.cell2(i, j)) if rev
                       else cellop(op, self.cell2(i, j), o.cell2(i, j)))
        if _scalar(o):
            w = wrap(o)
            return Mat(self._dom, lambda i, j: cellop(op, w, self.cell2(i, j)) if rev else cellop(op, self.cell2(i, j), w))
        return NotImplemented

    def _logop(self, op, o):
        raise Unsupported('matrix logic')

    @property
    def T(self):
        return Mat(self._dom, lambda i, j: self.cell2(j, i))

    def tri(self, keep):
        return Mat(self._dom, lambda i, j: ite(keep(i, j), SF.of(self.cell2(i, j)), SF.of(0)))

    def __vc_reduce__(self, kind, skipna=False, q=None):
        return reduce_(*pairs(self._dom, self.cell2), kind, q=q, skipna=False)


def pairs(dom, cell2):
    """the domain of ordered pairs of labels, with cells"""
    ax = dom.axis * 2
    f, g = z3.Function('fst', z3.IntSort(), z3.IntSort()), z3.Function('snd', z3.IntSort(), z3.IntSort())
    return Dom(ax, lambda p: And(dom.mem(f(p)), dom.mem(g(p))), name='pairs'), lambda p: cell2(f(p), g(p))


def positions(n, name='pos', axis='U'):
    """the label set 0 .. n-1"""
    d = Dom(axis, lambda i: And(zi(0) <= i, i < zi(n)), name=name)
    d._card = SI(n)
    ctx().__dict__.setdefault('_carddom', {})[zi(n).get_id()] = (d, n)
    return d


def position(dom):
    """rank of a label in its (ascending) set: 0 for the first, one more than its predecessor for every other"""
    c = ctx()
    f = z3.Function(f'pos#{c.ufid(("pos", dom.axis, c.pkey(dom.axis, dom.mem)))}', z3.IntSort(), z3.IntSort())
    ops = setops(dom)

    def p(t):
        r = f(zi(t))
        n = dom_card(dom).v
        c.assume(And(r >= 0, Implies(dom.mem(t), r < zi(n))))
        e, q = ops.prev(t)
        c.assume(Implies(dom.mem(t), And(Implies(e, r == f(zi(q)) + 1), Implies(Not(e), r == 0))))
        return SI(r)
    return p


class SRange:
    """range(n) for a symbolic n"""
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        raise Unsupported('range over a symbolic count')

    def __vc_len__(self):
        return SI(self.n)


class CArr(list):
    """concrete-length array of symbolic scalars"""
    def _b(self, o, f):
        if isinstance(o, (list, tuple)):
            if len(o) != len(self):
                raise Unsupported('broadcast')
            return CArr(f(SF.of(a), SF.of(b)) for a, b in zip(self, o))
        if SF.of(o) is None:
            raise Unsupported('CArr op')
        return CArr(f(SF.of(a), SF.of(o)) for a in self)

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)
    __radd__ = __add__

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __neg__(self):
        return CArr(-SF.of(a) for a in self)

    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        return CArr(r) if isinstance(k, slice) else r

    def tolist(self):
        return list(self)

    @property
    def values(self):
        return self

    @property
    def shape(self):
        return (list.__len__(self),)

    def copy(self):
        return CArr(self)

    __hash__ = None


def _scalar(o):
    return isinstance(o, (int, float, Fraction, SF, SI, SB, SOB, ST, SD, bool, str, SU)) or o is None


def wrap(v):
    if isinstance(v, bool):
        return SB(v)
    if isinstance(v, (int, float, Fraction)):
        return SF.of(v)
    if v is None:
        return SF.of(float('nan'))
    return v


def cast(v, t):
    if t in (float, 'float', 'float64'):
        if isinstance(v, (SF,)):
            return v
        return SF.of(v)
    if t in (bool, 'bool'):
        if isinstance(v, SOB):
            return SB(Or(v.nan, v.b))
        if isinstance(v, (SB, bool)):
            return v
        if isinstance(v, SF):
            return SB(Not(v.zero()))
    if t in (int, 'int', 'int64'):
        if isinstance(v, SB):
            return SI(z3.If(zb(v.b), z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, SI):
            return v
        if isinstance(v, (ST, SD)):
            return SI(v.v)
    if t in (object, 'object', 'O'):
        return v
    raise Unsupported(f'astype({t!r}) of {type(v).__name__}')


# ------------------------------------------------------------------ reductions
HOMOGENEOUS = ('sum', 'mean', 'median', 'min', 'max', 'quantile', 'std')


def reduce_(dom, cell, kind, q=None, skipna=True, extra=(), min_count=0):
    """reduction over a label set.  skipna: NaN entries removed from the set"""
    if not skipna and kind in ('sum', 'mean', 'min', 'max', 'median', 'quantile', 'std'):
        r = reduce_(dom, cell, kind, q, True, extra, min_count)
        if isinstance(r, SF):
            bad = canon_ops(dom.axis, lambda t: And(dom.mem(t), isnan(cell(t))), 'nan').first()[0]
            return SF(Or(r.nan, bad), And(Not(bad), r.pi), And(Not(bad), r.ni), r.r)
    dt = [None]

    def numcell(t):
        v = cell(t)
        if isinstance(v, SD):
            dt[0] = 'd'
            return v._n()
        if isinstance(v, ST):
            dt[0] = 't'
            return SF(v.nat, False, False, zr(v.v))
        if isinstance(v, (SOB,)):
            return SF(v.nan, False, False, rite(v.b, Fraction(1), Fraction(0)))
        return SF.of(v)
    if skipna:
        m = lambda t: And(dom.mem(t), Not(isnan(cell(t))))
    else:
        m = dom.mem
    c = ctx()
    # probe the value type with a fresh label
    probe = c.int('probe')
    pv = numcell(probe)
    if dt[0] is None and skipna and kind in HOMOGENEOUS:
        # f(k x) == k f(x) for a positive number k: reduce the unscaled cells
        k, _ = factor(pv.r)
        if k is not None and k != 1:
            def base(t):
                v = numcell(t)
                k2, r = factor(v.r)
                return SF(v.nan, v.pi, v.ni, r if k2 == k else rmul(Fraction(1) / k, v.r))
            r = reduce_(dom, base, kind, q, skipna, extra, min_count)
            return SF(r.nan, r.pi, r.ni, rmul(k, r.r))
    qs = [] if q is None else [q]

    def mk():
        out = SF.fresh(kind, nan=(kind != 'sum' or not skipna), inf=True)
        ne = c.bool(kind + '_nonempty')
        c.assume(Iff(ne, canon_ops(dom.axis, m, kind).first()[0]))
        lo, hi = c.int(kind + '_lo'), c.int(kind + '_hi')
        c.note(dom.axis, lo)
        c.note(dom.axis, hi)
        if kind in ('median', 'mean', 'quantile', 'min', 'max'):
            ops = canon_ops(dom.axis, m, kind)
            e, f = ops.first()
            if skipna:
                c.assume(Iff(out.nan, Not(e)))
            cl, ch = numcell(lo), numcell(hi)
            c.assume(Implies(Not(out.nan), And(m(lo), m(hi), cl._le(out), out._le(ch))))
            if kind == 'min':
                c.universal(dom.axis, lambda u: Implies(And(Not(out.nan), m(u)), out._le(numcell(u))))
                c.assume(Implies(Not(out.nan), same(out, cl)))
            if kind == 'max':
                c.universal(dom.axis, lambda u: Implies(And(Not(out.nan), m(u)), numcell(u)._le(out)))
                c.assume(Implies(Not(out.nan), same(out, ch)))
        if kind == 'sum':
            c.assume(Implies(Not(ne), And(out.fin, rcmp('==', out.r, Fraction(0)))))
            if c.opts.get('sum_facts'):
                # a non-zero sum has a non-zero term, a negative sum a negative term
                c.assume(Implies(Not(out._eq(SF.of(0))), And(m(lo), Not(numcell(lo).zero()))))
                c.assume(Implies(Or(out.nan, out._lt(SF.of(0))), And(m(hi), Or(numcell(hi).pi, numcell(hi)._lt(SF.of(0))))))
        return out, SB(ne)
    # quantile outputs: extended reals
    a = opaque('red.' + kind + ('' if skipna else '.keepna'), params=list(extra),
               inputs=[(dom.axis, m, lambda t: numcell(t))], args=[SF.of(x) for x in qs], mk=mk)
    a.rdom, a.rcell, a.rm = dom, numcell, m
    out = a.outs[0]
    if min_count == 1:
        out = SF(Or(out.nan, Not(a.outs[1].b)), out.pi, out.ni, out.r)
    elif min_count:
        raise Unsupported('min_count')
    if dt[0] == 'd':
        v = c.int('td')
        c.assume(Implies(out.fin, And(z3.ToReal(v) <= zr(out.r), zr(out.r) < z3.ToReal(v) + 1)))
        return SD(v, out.nan)
    if dt[0] == 't':
        v = c.int('ts')
        c.assume(Implies(out.fin, And(z3.ToReal(v) <= zr(out.r), zr(out.r) < z3.ToReal(v) + 1)))
        return ST(v, out.nan)
    return out


# ------------------------------------------------------------------ Series
class _Iloc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        s = self.s
        if isinstance(k, int):
            if s._dom.order == 'unk':
                raise Unsupported('iloc on unordered')
            if k in (0, -1):
                first = (k == 0) == (s._dom.order == 'asc')
                e, p = setops(s._dom).first() if first else setops(s._dom).last()
                if not ctx().decide(e):
                    raise IndexError('single positional indexer is out-of-bounds')
                if isinstance(s, DataFrame):
                    return {c: f(p) for c, f in s._cols.items()}
                return s._cell(p)
            raise Unsupported(f'iloc[{k}]')
        if isinstance(k, slice):
            if k.step == -1 and k.start is None and k.stop is None:
                return s._restrict(None, index=_slice_index(s.index, k))
            return s._restrict(_pos_slice_pred(s._dom, k))
        raise Unsupported('iloc')

    def __setitem__(self, k, v):
        s = self.s
        if isinstance(k, int) and k in (0, -1) and not isinstance(s, DataFrame):
            e, p = setops(s._dom).first() if (k == 0) == (s._dom.order == 'asc') else setops(s._dom).last()
            old = s._cell
            s._mutate(lambda t: ite(And(e, t == p), wrap(v), old(t)), 'iloc[]=')
            return
        raise Unsupported('iloc set')


def _label_pred(ix, k):
    """label-based slice"""
    a, b = k.start, k.stop

    def conv(x):
        if isinstance(x, ST):
            return x.v
        if isinstance(x, (SI,)):
            return x.v
        if isinstance(x, int) and ix._dom.axis != 'T':
            return x
        raise Unsupported(f'label slice bound {type(x)}')
    conds = []
    if a is not None:
        av = conv(a)
        conds.append(lambda t: t >= zi(av))
    if b is not None:
        bv = conv(b)
        conds.append(lambda t: t <= zi(bv))
    return lambda t: And(*[f(t) for f in conds])


class _Loc:
    def __init__(self, s):
        self.s = s

    def _rowpred(self, k):
        """-> predicate on labels or None for all"""
        s = self.s
        if isinstance(k, slice):
            if k.step == -1 and k.start is None and k.stop is None:
                return 'rev'
            if k.step is not None:
                raise Unsupported('loc slice step')
            if k.start is None and k.stop is None:
                return None
            return _label_pred(s.index, k)
        if isinstance(k, Series):
            v = k
            if v._dom.ident() is not s._dom.ident():
                if not doms_equal(v._dom, s._dom):
                    # pandas aligns the mask and raises if labels are missing
                    c = ctx()
                    w = c.int('missing')
                    c.note(s._dom.axis, w)
                    miss = c.bool('mask_missing')
                    c.assume(Implies(miss, And(s._dom.mem(w), Not(v._dom.mem(w)))))
                    c.universal(s._dom.axis, lambda u: Implies(And(Not(miss), s._dom.mem(u)), v._dom.mem(u)))
                    if c.decide(miss):
                        raise KeyError('Unalignable boolean Series provided as indexer')
            return lambda t, v_c=v._cell: truth(v_c(t))
        if isinstance(k, Arr):
            if k._dom.ident() is s._dom.ident():
                return lambda t, k_c=k._cell: truth(k_c(t))
            if k.labels is not None:
                k = Index(k.labels)
            else:
                raise Unsupported('loc array')
        if isinstance(k, Index):
            return k
        if isinstance(k, (ST, SI)):
            return k
        raise Unsupported(f'loc key {type(k)}')

    def _check_labels(self, ix):
        s = self.s
        if ix._dom.ident() is s._dom.ident():
            return
        c = ctx()
        w = c.int('missing')
        c.note(s._dom.axis, w)
        miss = c.bool('labels_missing')
        c.assume(Implies(miss, And(ix._dom.mem(w), Not(s._dom.mem(w)))))
        c.universal(s._dom.axis, lambda u: Implies(And(Not(miss), ix._dom.mem(u)), s._dom.mem(u)))
        if c.decide(miss):
            raise KeyError('not in index')

    def __getitem__(self, k):
        s = self.s
        if isinstance(k, tuple):
            r, col = k
            df = s
            if isinstance(col, str):
                return df[col].loc[r]
            return df[list(col)].loc[r]
        p = self._rowpred(k)
        if p is None:
            return s._restrict(None, index=s.index)
        if isinstance(p, str) and p == 'rev':
            return s._restrict(None, index=_slice_index(s.index, slice(None, None, -1)))
        if isinstance(p, Index):
            self._check_labels(p)
            d = p._dom
            return s._restrict(None, index=s.index.like(d))
        if isinstance(p, (ST, SI)):
            e = s._dom.mem(zi(p.v))
            if not ctx().decide(e):
                raise KeyError('label')
            return s._cell(zi(p.v))
        r = s._restrict(p)
        if isinstance(k, slice) and s._dom.order == 'asc' and s.index._freq is not None:
            object.__setattr__(r.index, '_freq', s.index._freq)     # consecutive rows keep the frequency
        return r

    def __setitem__(self, k, v):
        s = self.s
        if isinstance(k, tuple):
            r, col = k
            if not isinstance(s, DataFrame):
                raise Unsupported('loc tuple on series')
            if not isinstance(col, str):
                raise Unsupported('loc set many columns')
            p = self._rowpred(r)
            if isinstance(p, Index):
                self._check_labels(p)
                pp = p._dom.mem
            elif p is None:
                pp = lambda t: True
            elif isinstance(p, (ST, SI)):
                pp = lambda t: t == zi(p.v)
            else:
                pp = p
            old = s._cols.get(col, lambda t: SF.of(float('nan')))
            new = _valcell(s.index, v)
            s._setcol(col, lambda t: ite(pp(t), new(t), old(t)))
            return
        p = self._rowpred(k)
        if isinstance(p, Index):
            self._check_labels(p)
            pp = p._dom.mem
        elif p is None:
            pp = lambda t: True
        elif isinstance(p, str):
            raise Unsupported('loc set rev')
        elif isinstance(p, (ST, SI)):
            pp = lambda t: t == zi(p.v)
        else:
            pp = p
        if isinstance(s, DataFrame):
            new = _valcell(s.index, v)
            for cn in list(s._cols):
                old = s._cols[cn]
                s._setcol(cn, lambda t, old=old: ite(pp(t), new(t), old(t)))
            return
        old = s._cell
        new = _valcell(s.index, v)
        s._mutate(lambda t: ite(pp(t), new(t), old(t)), 'loc[]=')


def _valcell(index, v):
    """cells of a value assigned onto `index` (alignment for Series)"""
    if _scalar(v):
        w = wrap(v)
        return lambda t: w
    if isinstance(v, Series):
        return v._aligned(index._dom)
    if isinstance(v, Arr):
        if v._dom.ident() is index._dom.ident() and not v.tail:
            return v._cell
        if not v.tail and doms_equal(v._dom, index._dom):
            return v._cell
        raise Unsupported('array assigned onto a different index')
    if isinstance(v, Index):
        if v._dom.ident() is index._dom.ident():
            return v._labelcell
        raise Unsupported('index assigned as column')
    if isinstance(v, SRange):
        r = ctx().__dict__.get('_carddom', {}).get(zi(v.n).get_id())
        if r and index._dom.order == 'asc' and (r[0].ident() is index._dom.ident() or doms_equal(r[0], index._dom)):
            return position(index._dom)
        raise Unsupported('range assigned as a column')
    if isinstance(v, DataFrame) and len(v._cols) == 1:
        return v[list(v._cols)[0]]._aligned(index._dom)
    raise Unsupported(f'assigned value {type(v)}')


def fill_missing(mem, cell, t, fill=None):
    m = mem(t)
    if m is True:
        return cell(t)
    if m is False:
        return SF.of(float('nan')) if fill is None else fill
    return ite(m, cell(t), SF.of(float('nan')) if fill is None else fill)


class Series(Elementwise):
    _vc_series = True

    def __new__(cls, data=None, index=None, name=None, dtype=None, copy=None):
        self = object.__new__(cls)
        return self

    def __init__(self, data=None, index=None, name=None, dtype=None, copy=None):
        object.__setattr__(self, '_owner', None)
        if isinstance(data, Series):
            ix = data.index if index is None else as_index(index)
            cell = data._cell if index is None else data._aligned(ix._dom)
            name = data.name if name is None else name
        elif isinstance(data, Arr):
            if data.tail:
                raise Unsupported('Series from a shortened array')
            if index is None:
                ix = RangeIndex(data._dom)      # positions stand for labels until re-indexed
                object.__setattr__(ix, '_positional', True)
            else:
                ix = as_index(index)
                if data._dom.ident() is not ix._dom.ident() and not doms_equal(data._dom, ix._dom):
                    raise Unsupported('Series(data, index) over different domains')
            cell = data._cell
        elif isinstance(data, Index):
            ix = RangeIndex(data._dom) if index is None else as_index(index)
            if index is None:
                object.__setattr__(ix, '_positional', True)
            cell = data._labelcell
        elif index is not None and (_scalar(data) or data is None):
            ix = as_index(index)
            w = wrap(data)
            cell = lambda t: w
        elif isinstance(data, (list, tuple, CArr)):
            raise Unsupported('Series from a concrete list')
        elif isinstance(data, dict):
            raise Unsupported('Series from dict')
        else:
            raise Unsupported(f'Series({type(data)})')
        if dtype is not None:
            cell = (lambda c: lambda t: cast(c(t), dtype))(cell)
        object.__setattr__(self, '_index', ix)
        object.__setattr__(self, '_cell', memo_cell(cell) if not getattr(cell, '_memo', False) else cell)
        object.__setattr__(self, '_name', name)

    @staticmethod
    def _mk(index, cell, name=None, owner=None):
        s = object.__new__(Series)
        object.__setattr__(s, '_owner', owner)
        object.__setattr__(s, '_index', index)
        object.__setattr__(s, '_cell', cell if getattr(cell, '_memo', False) else memo_cell(cell))
        object.__setattr__(s, '_name', name)
        return s

    def __setattr__(self, k, v):
        if k == 'name':
            if not (v is self._name or (isinstance(v, str) and v == self._name)):
                _log(self, f'name <- {v!r}')
            object.__setattr__(self, '_name', v)
        elif k == 'index':
            _log(self, 'index reassigned')
            v = as_index(v)
            if getattr(self._index, '_positional', False) or v._dom.ident() is self._dom.ident() \
                    or doms_equal(v._dom, self._dom):
                object.__setattr__(self, '_index', v)
            else:
                raise Unsupported('re-labelling a series')
        elif k.startswith('_'):
            object.__setattr__(self, k, v)
        else:
            raise Unsupported(f'Series.{k} assignment')

    def _mutate(self, cell, what):
        _log(self, what)
        object.__setattr__(self, '_cell', memo_cell(cell))

    @property
    def name(self):
        return self._name

    @property
    def index(self):
        return self._index

    @property
    def _dom(self):
        return self._index._dom

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _Iloc(self)

    @property
    def values(self):
        return Arr(self._dom, self._cell)

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def dt(self):
        return _Dt(self)

    @property
    def dtype(self):
        return 'float64'

    @property
    def empty(self):
        return self._index.empty

    @property
    def size(self):
        return dom_card(self._dom)

    @property
    def shape(self):
        return (dom_card(self._dom),)

    def __vc_len__(self):
        return dom_card(self._dom)

    def as_labels(self):
        """a series of timestamps used as an index: only the identity case"""
        c = ctx()
        t = c.int('probe')
        v = self._cell(t)
        if isinstance(v, ST) and isz(v.v) and v.v.eq(t):
            return DatetimeIndex(self._dom, name=self.name, tz=self.index.tz)
        raise Unsupported('series used as an index')

    # -- alignment
    def _aligned(self, dom):
        if dom.ident() is self._dom.ident():
            return self._cell
        return memo_cell(lambda t: fill_missing(self._dom.mem, self._cell, t))

    def _restrict(self, pred, index=None):
        if index is None:
            index = self.index.like(self._dom.sub(pred))
        return Series._mk(index, self._cell, self._name)

    def _rename(self, o):
        if isinstance(o, Series):
            return self._name if (self._name == o._name) is True or self._name is o._name else None
        return self._name

    def _binop(self, op, o, rev=False):
        iscmp = op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')
        if isinstance(o, Series):
            if o._dom.ident() is self._dom.ident():
                ix, a, b = self.index, self._cell, o._cell
            elif iscmp:
                if not doms_equal(self._dom, o._dom):
                    raise ValueError('Can only compare identically-labeled Series objects')
                ix, a, b = self.index, self._cell, o._cell
            else:
                d = dom_union(self._dom, o._dom)
                ix = self.index.like(d)
                a, b = self._aligned(d), o._aligned(d)
            nm = self._rename(o)
        elif isinstance(o, (Arr, Index)):
            b = _valcell(self.index, o)
            ix, a, nm = self.index, self._cell, self._name
        elif _scalar(o):
            w = wrap(o)
            ix, a, b, nm = self.index, self._cell, (lambda t: w), self._name
        elif hasattr(o, '_vc_offset'):
            f = (lambda t, self_c=self._cell: self_c(t) + o) if op == 'add' else (lambda t, self_c=self._cell: self_c(t) - o)
            return Series._mk(self.index, f, self._name)
        elif isinstance(o, DataFrame):
            return NotImplemented
        else:
            return NotImplemented
        if rev:
            a, b = b, a
        return Series._mk(ix, lambda t: cellop(op, a(t), b(t)), nm)

    def _flex(self, op, o, fill_value=None, rev=False):
        if isinstance(o, RelSeries):
            o = o.as_series()
        if fill_value is None or not isinstance(o, Series):
            return self._binop(op, o, rev)
        d = dom_union(self._dom, o._dom)
        fv = wrap(fill_value)
        m1, m2 = self._dom.mem, o._dom.mem

        def f(t):
            a = fill_missing(m1, self._cell, t)
            b = fill_missing(m2, o._cell, t)
            a = numericize(a)
            b = numericize(b)
            na, nb = isnan(a), isnan(b)
            a2 = ite(And(na, Not(nb)), fv, a)
            b2 = ite(And(nb, Not(na)), fv, b)
            return cellop(op, b2, a2) if rev else cellop(op, a2, b2)
        return Series._mk(self.index.like(d), f, self._rename(o))

    def add(self, o, fill_value=None, **k):
        return self._flex('add', o, fill_value)

    def sub(self, o, fill_value=None, **k):
        return self._flex('sub', o, fill_value)
    subtract = sub

    def mul(self, o, fill_value=None, **k):
        return self._flex('mul', o, fill_value)
    multiply = mul

    def div(self, o, fill_value=None, **k):
        return self._flex('truediv', o, fill_value)
    divide = div
    truediv = div

    def rdiv(self, o):
        return self._flex('truediv', o, None, True)

    def lt(self, o):
        return self._flexcmp('lt', o)

    def le(self, o):
        return self._flexcmp('le', o)

    def gt(self, o):
        return self._flexcmp('gt', o)

    def ge(self, o):
        return self._flexcmp('ge', o)

    def eq(self, o):
        return self._flexcmp('eq', o)

    def ne(self, o):
        return self._flexcmp('ne', o)

    def _flexcmp(self, op, o):
        if isinstance(o, Series) and o._dom.ident() is not self._dom.ident():
            d = dom_union(self._dom, o._dom)
            a, b = self._aligned(d), o._aligned(d)
            return Series._mk(self.index.like(d), lambda t: cellop(op, a(t), b(t)), self._rename(o))
        return self._binop(op, o)

    def between(self, a, b, inclusive='both'):
        lo = (self >= a) if inclusive in ('both', 'left') else (self > a)
        hi = (self <= b) if inclusive in ('both', 'right') else (self < b)
        return lo & hi

    def _logop(self, op, o):
        if isinstance(o, Series):
            if o._dom.ident() is self._dom.ident():
                return Series._mk(self.index, lambda t, self_c=self._cell, o_c=o._cell: celllog(op, self_c(t), o_c(t)), self._rename(o))
            d = dom_union(self._dom, o._dom)
            a, b = self._aligned(d), o._aligned(d)
            return Series._mk(self.index.like(d), lambda t: celllog(op, nanfalse(a(t)), nanfalse(b(t))),
                              self._rename(o))
        if isinstance(o, (bool, SB)):
            return Series._mk(self.index, lambda t, self_c=self._cell: celllog(op, self_c(t), o), self._name)
        if isinstance(o, Arr):
            b = _valcell(self.index, o)
            return Series._mk(self.index, lambda t, self_c=self._cell: celllog(op, self_c(t), b(t)), self._name)
        raise Unsupported(f'logical op with {type(o)}')

    def _map(self, f):
        return Series._mk(self.index, lambda t, self_c=self._cell: f(self_c(t)), self._name)

    # -- basic methods
    def copy(self, deep=True):
        if deep is not True:
            raise Unsupported('shallow copy')
        return Series._mk(self.index.copy(), self._cell, self._name)

    def astype(self, t, **kw):
        if t == 'timedelta64[s]':
            raise Unsupported('timedelta cast')
        return self._map(lambda v: cast(v, t))

    def rename(self, name=None, **kw):
        if isinstance(name, dict):
            raise Unsupported('rename labels')
        if kw.get('inplace'):
            self.name = name
            return None
        return Series._mk(self.index, self._cell, name)

    def rename_axis(self, name):
        s = Series._mk(self.index.copy(), self._cell, self._name)
        s.index.name = name
        return s

    def fillna(self, value=None, inplace=False, method=None, **kw):
        if method is not None:
            r = {'ffill': self.ffill, 'bfill': self.bfill, 'pad': self.ffill, 'backfill': self.bfill}[method]()
        elif isinstance(value, Series):
            al = value._aligned(self._dom)
            r = Series._mk(self.index, lambda t, self_c=self._cell: ite(isnan(self_c(t)), al(t), self_c(t)), self._name)
        else:
            w = wrap(value)

            def f(v):
                if isinstance(v, SOB) and isinstance(w, SB):
                    return SB(bite(v.nan, w.b, v.b))
                n = isnan(v)
                if n is False:
                    return v
                return ite(n, w, v)
            r = self._map(f)
        if inplace:
            self._mutate(r._cell, 'fillna(inplace)')
            return None
        return r

    def dropna(self, inplace=False, **kw):
        r = self._restrict(lambda t, self_c=self._cell: Not(isnan(self_c(t))))
        r = _dropna_identity(self, r)
        if inplace:
            _log(self, 'dropna(inplace)')
            object.__setattr__(self, '_index', r.index)
            return None
        return r

    def sort_index(self, ascending=True, **kw):
        return Series._mk(self.index.like(self._dom.with_(order='asc' if ascending else 'desc'),
                                          freq=self.index._freq), self._cell, self._name)

    def drop_duplicates(self, *a, **kw):
        raise Unsupported('drop_duplicates of values')

    def where(self, cond, other=float('nan'), **kw):
        if callable(cond):
            cond = cond(self)
        cc = _maskcell(self, cond, False)
        oc = _valcell(self.index, other)
        return Series._mk(self.index, lambda t, self_c=self._cell: ite(cc(t), self_c(t), oc(t)), self._name)

    def mask(self, cond, other=float('nan'), **kw):
        if callable(cond):
            cond = cond(self)
        cc = _maskcell(self, cond, False)
        oc = _valcell(self.index, other)
        return Series._mk(self.index, lambda t, self_c=self._cell: ite(cc(t), oc(t), self_c(t)), self._name)

    def combine(self, o, func, fill_value=None):
        d = dom_union(self._dom, o._dom)
        fv = SF.of(float('nan')) if fill_value is None else wrap(fill_value)
        m1, m2, c1, c2 = self._dom.mem, o._dom.mem, self._cell, o._cell
        all1, all2 = d is self._dom, d is o._dom
        return Series._mk(self.index.like(d) if d is not self._dom else self.index,
                          lambda t: func(c1(t) if all1 else ite(m1(t), c1(t), fv), c2(t) if all2 else ite(m2(t), c2(t), fv)),
                          self._name)

    def apply(self, f, *a, **kw):
        if isinstance(f, str):
            return getattr(self, f)(*a, **kw)
        return self._map(lambda v: wrap(f(v, *a, **kw)))

    def map(self, f):
        if isinstance(f, dict):
            def g(v):
                out = SF.of(float('nan'))
                for k, x in f.items():
                    out = ite(same(v, k), wrap(x), out)
                return out
            return self._map(g)
        return self._map(lambda v: wrap(f(v)))

    def isin(self, vals):
        if isinstance(vals, (list, tuple, set)):
            return self._map(lambda v: SB(Or(*[cellop('eq', v, wrap(x)).b for x in vals])))
        raise Unsupported('isin')

    def to_frame(self, name=None):
        nm = self._name if name is None else name
        return DataFrame._mk(self.index, {nm if nm is not None else 0: self._cell})

    def reset_index(self, drop=False, **kw):
        if drop:
            raise Unsupported('reset_index(drop)')
        ixname = self.index.name or 'index'
        df = DataFrame._mk(RangeIndex(self._dom), {ixname: self.index._labelcell,
                                                   self._name if self._name is not None else 0: self._cell})
        return df

    def reindex(self, index=None, method=None, fill_value=None, copy=None, tolerance=None, **kw):
        if index is None:
            raise Unsupported('reindex()')
        ix = as_index(index)
        if self._dom.dup:
            raise ValueError('cannot reindex on an axis with duplicate labels')
        cell = reindex_cell(self._dom, self._cell, ix._dom, method, fill_value)
        if tolerance is not None:
            raise Unsupported('reindex tolerance')
        return Series._mk(ix, cell, self._name)

    def shift(self, n=1, freq=None, fill_value=None):
        if freq is not None:
            raise Unsupported('shift(freq)')
        return Series._mk(self.index, shift_cell(self._dom, self._cell, n, fill_value), self._name)

    def diff(self, n=1):
        if n not in (1, -1):
            raise Unsupported('diff(n)')
        sh, me = shift_cell(self._dom, self._cell, n), self._cell

        def f(t):
            a, b = me(t), sh(t)
            if isinstance(a, SI):
                a = SF.of(a)
            if isinstance(b, SI):
                b = SF.of(b)
            if isinstance(a, ST) and isinstance(b, SF):
                return SD(z3.IntVal(0), True)
            return cellop('sub', a, b)
        return Series._mk(self.index, f, self._name)

    def ffill(self, inplace=False, limit=None, **kw):
        r = Series._mk(self.index, fill_cell(self._dom, self._cell, 'f', limit), self._name)
        if inplace:
            self._mutate(r._cell, 'ffill')
            return None
        return r
    pad = ffill

    def bfill(self, inplace=False, limit=None, **kw):
        r = Series._mk(self.index, fill_cell(self._dom, self._cell, 'b', limit), self._name)
        if inplace:
            self._mutate(r._cell, 'bfill')
            return None
        return r
    backfill = bfill

    def interpolate(self, method='linear', limit_area=None, inplace=False, **kw):
        if inplace is True:
            r = self.interpolate(method, limit_area=limit_area, **kw)
            _log(self, 'interpolate(inplace)')
            object.__setattr__(self, '_cell', r._cell)
            return None
        if kw or limit_area not in (None, 'inside'):
            raise Unsupported(f'interpolate({kw})')
        return Series._mk(self.index, interp_cell(self._dom, self._cell, method, limit_area), self._name)

    def quantile(self, q=0.5, **kw):
        if kw:
            raise Unsupported('quantile kw')
        if isinstance(q, (list, tuple)):
            return CArr(self.__vc_reduce__('quantile', True, q=x) for x in q)
        return self.__vc_reduce__('quantile', True, q=q)

    def mode(self):
        return _Mode(self)

    def idxmax(self):
        raise Unsupported('idxmax')

    def idxmin(self):
        """of flags: the first False, or the first label if there is none"""
        if self._dom.order != 'asc':
            raise Unsupported('idxmin of unordered labels')
        probe = self._cell(ctx().int('probe'))
        if not isinstance(probe, (SB, bool)):
            raise Unsupported('idxmin of numbers')
        off = lambda t: Not(self._cell(t).b if isinstance(self._cell(t), SB) else self._cell(t))
        e, p = setops(self._dom.sub(off)).first()
        if ctx().decide(e):
            return self.index._labelcell(p)
        e, p = setops(self._dom).first()
        if not ctx().decide(e):
            raise ValueError('attempt to get argmin of an empty sequence')
        return self.index._labelcell(p)

    def nunique(self):
        raise Unsupported('nunique')

    def cumsum(self):
        return Series._mk(self.index, cumsum_cell(self._dom, self._cell), self._name)

    def rolling(self, window, min_periods=None, center=False, closed=None, win_type=None, **kw):
        if kw:
            raise Unsupported('rolling kw')
        if isinstance(window, str):
            from .stubs import Timedelta
            try:
                window = Timedelta(window)
            except Exception:
                pass
        return Rolling(self, [window, min_periods, center, closed, win_type])

    def resample(self, rule, **kw):
        return Resampler(self, rule, kw)

    def groupby(self, by=None, **kw):
        if type(by).__name__ == 'Grouper':
            if by.key is not None or by.kw or kw or by.freq is None:
                raise Unsupported('Grouper options')
            return self.resample(by.freq)
        return GroupBy(self, by, kw)

    def first_valid_index(self):
        d = self._dom.sub(lambda t, self_c=self._cell: Not(isnan(self_c(t))))
        e, p = setops(d).first()
        if not ctx().decide(e):
            return None
        return self.index._labelcell(p)

    def last_valid_index(self):
        d = self._dom.sub(lambda t, self_c=self._cell: Not(isnan(self_c(t))))
        e, p = setops(d).last()
        if not ctx().decide(e):
            return None
        return self.index._labelcell(p)

    def tz_localize(self, tz):
        raise Unsupported('tz_localize')

    def tz_convert(self, tz):
        return Series._mk(self.index.tz_convert(tz), self._cell, self._name)

    def total_seconds(self):
        raise AttributeError('total_seconds')

    def items(self):
        raise Unsupported('iteration over a symbolic series')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic series')

    def __getitem__(self, k):
        if isinstance(k, Series):
            p = _Loc(self)._rowpred(k)
            return self._restrict(p)
        if isinstance(k, Arr):
            if k._dom.ident() is self._dom.ident():
                return self._restrict(lambda t, k_c=k._cell: truth(k_c(t)))
            raise Unsupported('mask array')
        if isinstance(k, slice):
            if k.step not in (None, 1):
                return self.iloc[k]
            if isinstance(k.start, (ST,)) or isinstance(k.stop, (ST,)):
                return self._restrict(_label_pred(self.index, k))
            return self._restrict(_pos_slice_pred(self._dom, k))
        if isinstance(k, Index):
            return self.loc[k]
        if isinstance(k, (ST,)):
            return self.loc[k]
        if isinstance(k, int) and isinstance(self.index, DatetimeIndex):
            return self.iloc[k]
        raise Unsupported(f'Series[{type(k)}]')

    def __setitem__(self, k, v):
        if isinstance(k, (Series, Arr)):
            if isinstance(k, Series) and k._dom.ident() is not self._dom.ident():
                p = _Loc(self)._rowpred(k)
            else:
                p = lambda t, k_c=k._cell: truth(k_c(t))
            old, new = self._cell, _valcell(self.index, v)
            self._mutate(lambda t: ite(p(t), new(t), old(t)), '[]=')
            return
        if isinstance(k, slice) and (isinstance(k.start, ST) or isinstance(k.stop, ST)):
            p = _label_pred(self.index, k)
            old, new = self._cell, _valcell(self.index, v)
            self._mutate(lambda t: ite(p(t), new(t), old(t)), '[a:b]=')
            return
        if isinstance(k, (ST, SI)):
            old, new = self._cell, _valcell(self.index, v)
            self._mutate(lambda t: ite(t == zi(k.v), new(t), old(t)), '[label]=')
            return
        raise Unsupported('Series[...] = ')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'Series.{k}')


def numericize(v):
    if isinstance(v, SI):
        return SF.of(v)
    if isinstance(v, SB):
        return v.num()
    return v


def nanfalse(v):
    if isinstance(v, SOB):
        return SB(And(Not(v.nan), v.b))
    if isinstance(v, SF) and v.nan is True:
        return SB(False)
    return v


def _maskcell(s, cond, default):
    if isinstance(cond, Series):
        al = cond._aligned(s._dom)
        return lambda t: truth(nanfalse(al(t)))
    if isinstance(cond, Arr):
        c = _valcell(s.index, cond)
        return lambda t: truth(c(t))
    if isinstance(cond, (bool, SB)):
        return lambda t: truth(cond)
    raise Unsupported('mask condition')


def _dropna_identity(s, r):
    """frequency bookkeeping: dropping rows loses the freq attribute unless
    nothing, or only rows at the ends, are dropped"""
    if callable(s.index._freq) or s.index._freq is not None:
        c = ctx()
        d = s._dom.sub(lambda t, s_c=s._cell: isnan(s_c(t)))
        e, _ = setops(d).first()
        if not c.decide(e) or c.decide(c.bool('only rows at the ends dropped')):
            r.index.freq = s.index.freq
    return r


class _Mode:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if k == 0:
            return self.s.__vc_reduce__('mode')
        raise Unsupported('mode()[k]')

    @property
    def iloc(self):
        return self


class _Dt:
    def __init__(self, s):
        self.s = s

    def __getattr__(self, k):
        s = self.s
        if k == 'days':
            return s._map(lambda v: v.days)
        if k == 'total_seconds':
            return lambda: s._map(lambda v: v.total_seconds())
        if k in ('year', 'month', 'day', 'hour', 'minute'):
            return s._map(lambda v: ts_field(k, v.v, v.tz))
        raise Unsupported(f'dt.{k}')


# ------------------------------------------------------------------ cell transformers
def shift_cell(dom, cell, n, fill=None):
    if not isinstance(n, int) or abs(n) > 3:
        raise Unsupported('shift(n)')
    if dom.order == 'unk':
        raise Unsupported('shift on unordered')
    if dom.order == 'desc':
        n = -n
    ops = setops(dom)
    fv = SF.of(float('nan')) if fill is None else wrap(fill)

    def f(t):
        cur, conds = t, []
        for _ in range(abs(n)):
            e, cur = ops.prev(cur) if n > 0 else ops.next(cur)
            conds.append(e)
        v = cell(cur)
        if isinstance(v, SI) and fill is None:
            v = SF.of(v)
        return ite(And(*conds), v, fv)
    return memo_cell(f)


def valid_ops(dom, cell):
    m = lambda t: And(dom.mem(t), Not(isnan(cell(t))))
    return canon_ops(dom.axis, m, 'valid_' + dom.name)


def fill_cell(dom, cell, how, limit=None):
    if dom.order == 'unk':
        raise Unsupported('fill on unordered')
    if dom.order == 'desc':
        how = 'b' if how == 'f' else 'f'
    ops = valid_ops(dom, cell)

    def f(t):
        v = cell(t)
        n = isnan(v)
        if n is False:
            return v
        e, p = ops.prev(t, strict=False) if how == 'f' else ops.next(t, strict=False)
        w = cell(p)
        if limit is not None:
            k, pos = limit, position(dom)
            d = zi(pos(t).v) - zi(pos(p).v)
            e = And(e, (d if how == 'f' else -d) <= zi(k.v if isinstance(k, SI) else k))
        return ite(Not(n), v, ite(e, w, nan_like(v)))
    return memo_cell(f)


def nan_like(v):
    if isinstance(v, ST):
        return ST(v.v, True, v.tz)
    if isinstance(v, SD):
        return SD(v.v, True)
    return SF.of(float('nan'))


def reindex_cell(dom, cell, newdom, method, fill):
    if method is None:
        if dom.ident() is newdom.ident():
            return cell
        fv = None if fill is None else wrap(fill)
        if fv is not None and isinstance(fv, SF) and fv.nan is True:
            fv = None
        return memo_cell(lambda t: fill_missing(dom.mem, cell, t, fv))
    if dom.order != 'asc' and dom.order != 'desc':
        raise Unsupported('reindex(method) on unordered')
    ops = setops(dom)
    if method in ('ffill', 'pad'):
        g = lambda t: ops.prev(t, strict=False)
    elif method in ('bfill', 'backfill'):
        g = lambda t: ops.next(t, strict=False)
    elif method == 'nearest':
        def f(t):
            e1, p = ops.prev(t, strict=False)
            e2, n = ops.next(t, strict=False)
            usep = And(e1, Or(Not(e2), t - p < n - t))
            return ite(usep, cell(p), ite(e2, cell(n), SF.of(float('nan'))))
        return memo_cell(f)
    else:
        raise Unsupported(f'reindex(method={method!r})')

    def f(t):
        e, p = g(t)
        return ite(e, cell(p), SF.of(float('nan')))
    return memo_cell(f)


def interp_cell(dom, cell, method, area=None):
    if method == 'linear' and area is None:
        # by position: given values are kept, nothing is said about the others
        nm = ctx().fresh('linear')
        f, g = z3.Function(nm, z3.IntSort(), z3.RealSort()), z3.Function(nm + '.nan', z3.IntSort(), z3.BoolSort())

        def any_value(t):
            v = SF.of(cell(t))
            return ite(Not(v.nan), v, SF(g(zi(t)), False, False, f(zi(t))))
        return memo_cell(any_value)
    if method not in ('index', 'time', 'values'):
        raise Unsupported(f'interpolate({method!r})')
    if dom.order != 'asc':
        raise Unsupported('interpolate on unordered')
    ops = valid_ops(dom, cell)

    def f(t):
        v = SF.of(cell(t))
        if v.nan is False:
            return v
        e1, p = ops.prev(t, strict=False)
        e2, n = ops.next(t, strict=False)
        a, b = SF.of(cell(p)), SF.of(cell(n))
        lin = lerp(a, b, p, n, t)
        tail = a if area is None else SF.of(float('nan'))
        return ite(Not(v.nan), v, ite(e1, ite(e2, lin, tail), SF.of(float('nan'))))
    return memo_cell(f)


def lerp(a, b, p, n, t):
    """value at t on the line through (p, a), (n, b)"""
    def mk():
        v = SF(Or(a.nan, b.nan), False, False, ctx().real('lerp'))
        ctx().lazy_axiom(Implies(And(p < n, Not(v.nan)), zr(v.r) * (zr(n) - zr(p)) ==
                                 zr(a.r) * (zr(n) - zr(t)) + zr(b.r) * (zr(t) - zr(p))))
        return v
    return opaque('lerp', args=[a, b, p, n, t], mk=mk).outs[0]


def cumsum_cell(dom, cell):
    """cumulative sum: uninterpreted with the defining recurrence"""
    c = ctx()
    ops = setops(dom)
    memo = {}

    def num_(t):
        v = cell(t)
        if isinstance(v, SB):
            return v.num()
        v = SF.of(v)
        return v

    def f(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        r = c.real('cumsum')
        memo[k] = (None, t)
        out = SF(num_(t).nan, False, False, r)
        memo[k] = (out, t)
        if ctx().depth <= getattr(ctx(), 'cumdepth', 3):
            e, p = ops.prev(t)
            prev = g(p) if hasattr(ctx(), 'cumdepth') else f(p)
            v = num_(t)
            inc = rite(v.nan, Fraction(0), v.r)
            ctx().assume(Implies(dom.mem(t), And(Implies(e, rcmp('==', r, radd(prev.r, inc))),
                                                 Implies(Not(e), rcmp('==', r, inc)))))
        return out
    # recursion depth is limited by the instantiation depth
    def g(t):
        old = ctx().depth
        ctx().depth = old + 1
        try:
            return f(t)
        finally:
            ctx().depth = old
    return g


# ------------------------------------------------------------------ windows and groups
class Rolling:
    def __init__(self, obj, params):
        self.obj, self.params = obj, params

    def _ap(self, kind, extra=()):
        s = self.obj
        if isinstance(s, DataFrame):
            return DataFrame._mk(s.index, {c: Rolling(s[c], self.params)._ap(kind, extra)._cell for c in s._cols})
        params = list(self.params) + [s._dom.order] + list(extra)

        def f(t):
            a = opaque_fun('rolling.' + kind, params=params, inputs=[(s._dom.axis, s._dom.mem, s._cell)],
                           sorts=[z3.BoolSort, z3.RealSort])
            return SF(a.outs[0](t), False, False, a.outs[1](t))
        return Series._mk(s.index, memo_cell(f), s.name)

    def median(self):
        return self._ap('median')

    def mean(self, std=None):
        return self._ap('mean', [] if std is None else [std])

    def sum(self):
        return self._ap('sum')

    def max(self):
        return self._ap('max')

    def min(self):
        return self._ap('min')

    def std(self):
        return self._ap('std')

    def quantile(self, q):
        return self._ap('quantile', [q])

    def apply(self, f, raw=False):
        """any/all over a short centred window that needs one value"""
        w, mp, center, closed, wt = self.params
        s = self.obj
        kind = {'any': 'any', 'all': 'all', 'vc_any': 'any', 'vc_all': 'all'}.get(getattr(f, '__name__', ''))
        if kind is None or w not in (1, 3, 5, 7) or mp != 1 or center is not True or closed or wt or isinstance(s, DataFrame) \
                or s._dom.order != 'asc':
            raise Unsupported('rolling.apply')
        ops = setops(s._dom)

        def cell(t):
            hits = [(True, s._cell(t))]
            for step in (ops.prev, ops.next):
                cur, ok = t, True
                for _ in range(w // 2):
                    e, cur = step(cur)
                    ok = And(ok, e)
                    hits.append((ok, s._cell(cur)))
            if not all(isinstance(v, SB) for _, v in hits):
                raise Unsupported('rolling.apply of numbers')
            b = Or(*[And(o, v.b) for o, v in hits]) if kind == 'any' else And(*[Implies(o, v.b) for o, v in hits])
            return SB(b).num()
        return Series._mk(s.index, memo_cell(cell), s.name)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'rolling.{k}')


class Bins:
    """time bins of a resample: uninterpreted bin label, depending only on the
    rule, the options and the index"""
    def __init__(self, dom, rule, kw):
        self.dom, self.rule, self.kw = dom, rule, tuple(sorted(kw.items(), key=lambda x: x[0]))
        self.params = [rule] + [x for kv in self.kw for x in kv]
        self.memo = {}
        self.resdom = Dom('T', self._mem, name='bins')
        self.memmemo = {}

    def bin(self, t):
        b = opaque_fun('bin', params=self.params, inputs=[(self.dom.axis, self.dom.mem, None)],
                       sorts=[z3.IntSort]).outs[0](zi(t))
        k = t.get_id()
        if k not in self.memo:
            self.memo[k] = (b, t)
            ctx().assume(Implies(self.dom.mem(t), self.resdom.mem(b)))
        return b

    def _mem(self, L):
        return opaque_fun('binmem', params=self.params, inputs=[(self.dom.axis, self.dom.mem, None)],
                          sorts=[z3.BoolSort]).outs[0](zi(L))


class Resampler:
    def __init__(self, obj, rule, kw):
        self.obj, self.rule, self.kw = obj, rule, kw
        kw = {k: v for k, v in kw.items()}
        # defaults made explicit
        kw.setdefault('closed', None)
        kw.setdefault('label', None)
        kw.setdefault('origin', 'start_day')
        key = ('bins', id(obj._dom.ident()), str(rule), tuple(sorted((k, str(v)) for k, v in kw.items())))
        c = ctx()
        if key not in c.appkey:
            c.appkey[key] = (Bins(obj._dom, rule, kw), obj._dom)
        self.bins = c.appkey[key][0]

    def _red(self, kind, min_count=0, q=None):
        s = self.obj
        if isinstance(s, DataFrame):
            ix = DatetimeIndex(self.bins.resdom, name=s.index.name, tz=s.index._tz)
            return DataFrame._mk(ix, {c: self._cellred(s[c], kind, min_count, q) for c in s._cols})
        ix = DatetimeIndex(self.bins.resdom, name=s.index.name, tz=s.index._tz, freq=self.rule)
        return Series._mk(ix, self._cellred(s, kind, min_count, q), s.name)

    def _cellred(self, s, kind, min_count, q):
        bins = self.bins

        def f(L):
            d = Dom(s._dom.axis, lambda t: And(s._dom.mem(t), bins.bin(t) == L), name='inbin')
            return reduce_(d, s._cell, kind, q=q, min_count=min_count if kind == 'sum' else 0)
        return memo_cell(f)

    def sum(self, min_count=0, **kw):
        return self._red('sum', min_count)

    def mean(self, **kw):
        return self._red('mean')

    def median(self, **kw):
        return self._red('median')

    def max(self, **kw):
        return self._red('max')

    def min(self, **kw):
        return self._red('min')

    def std(self, **kw):
        return self._red('std')

    def count(self, **kw):
        return self._red('count')

    def quantile(self, q=0.5):
        return self._red('quantile', q=q)

    def _edge(self, which):
        s, bins = self.obj, self.bins
        if isinstance(s, DataFrame):
            raise Unsupported('resample.' + which)

        def cell(L):
            o = canon_ops(s._dom.axis, lambda t: And(s._dom.mem(t), bins.bin(t) == L, Not(isnan(s._cell(t)))), 'inbin')
            ex, w = o.first() if which == 'first' else o.last()
            return ite(ex, s._cell(w), SF.of(float('nan')))
        return Series._mk(DatetimeIndex(bins.resdom, name=s.index.name, tz=s.index._tz, freq=self.rule), memo_cell(cell), s.name)

    def first(self):
        return self._edge('first')

    def last(self):
        return self._edge('last')

    def agg(self, f, *a, **kw):
        """one value per bin: the given function of the readings in it"""
        s = self.obj
        if isinstance(s, DataFrame) or not callable(f):
            raise Unsupported('resample.agg')
        bins = self.bins

        def cell(L):
            d = Dom(s._dom.axis, lambda t: And(s._dom.mem(t), bins.bin(t) == L), name='inbin')
            r = f(Series._mk(s.index.like(d), s._cell, s.name), *a, **kw)
            if not isinstance(r, (SF, int, float)):
                raise Unsupported('resample.agg result')
            return SF.of(r)
        ix = DatetimeIndex(bins.resdom, name=s.index.name, tz=s.index._tz, freq=self.rule)
        return Series._mk(ix, memo_cell(cell), s.name)

    apply = agg

    def asfreq(self, fill_value=None):
        s = self.obj
        if fill_value is not None or isinstance(s, DataFrame):
            raise Unsupported('resample.asfreq')
        ix = DatetimeIndex(self.bins.resdom, name=s.index.name, tz=s.index._tz, freq=self.rule)
        return Series._mk(ix, memo_cell(lambda L: ite(s._dom.mem(L), s._cell(L), SF.of(float('nan')))), s.name)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'resample.{k}')


class GroupBy:
    def __init__(self, obj, by, kw, col=None):
        self.obj, self.by, self.kw, self.col = obj, by, kw, col
        if kw.get('observed') is not None:
            kw.pop('observed')

    def _keycell(self):
        s = self.obj
        b = self.by
        if isinstance(b, list) and len(b) == 1:
            b = b[0]
        if isinstance(b, str) and isinstance(s, DataFrame):
            return s._cols[b]
        if isinstance(b, Series):
            return b._aligned(s._dom)
        if isinstance(b, (Arr,)):
            return b._cell
        raise Unsupported(f'groupby key {type(b)}')

    def __getitem__(self, c):
        return GroupBy(self.obj, self.by, self.kw, c)

    def __getattr__(self, c):
        if c.startswith('__'):
            raise AttributeError(c)
        if isinstance(self.obj, DataFrame) and c in self.obj._cols:
            return self[c]
        raise Unsupported(f'groupby.{c}')

    def _target(self):
        s = self.obj
        return s[self.col] if isinstance(s, DataFrame) else s

    def transform(self, f):
        s = self._target()
        key = self._keycell()

        def g(t):
            kt = key(t)
            d = Dom(s._dom.axis, lambda u: And(s._dom.mem(u), same(key(u), kt)), name='grp')
            return reduce_(d, s._cell, f)
        return Series._mk(s.index, g, s.name)

    def cumcount(self):
        s = self.obj
        key = self._keycell()
        dom = s._dom

        def g(t):
            kt = key(t)
            d = Dom(dom.axis, lambda u: And(dom.mem(u), same(key(u), kt)), name='grp')
            e, p = canon_ops(dom.axis, d.mem, 'grp').prev(t)
            return SI(opaque('cumcount', inputs=[(dom.axis, d.mem, None)], args=[t],
                             mk=lambda: (ctx().int('cumcount'),)).outs[0])
        return Series._mk(s.index, g)


# ------------------------------------------------------------------ DataFrame
class Wide(Elementwise):
    """table over any set of columns: cell2(label, column)"""
    _vc_frame = True

    def __init__(self, index, cols, cell2, owner=None):
        self._index, self._coldom, self._owner = index, cols, owner
        memo = {}

        def c2(t, s):
            t, s = zi(t), zi(s)
            k = (t.get_id(), s.get_id())
            c = ctx()
            r = memo.get(k)
            if r is None:
                v, rec = c.record(lambda: cell2(t, s))
                r = memo[k] = (v, t, s, rec)
            else:
                c.reuse(r[3])
            return r[0]
        self.cell2 = c2

    index = property(lambda s: s._index)
    _dom = property(lambda s: s._index._dom)

    @property
    def shape(self):
        return (dom_card(self._dom), dom_card(self._coldom))

    def _map(self, f):
        return Wide(self._index, self._coldom, lambda t, s: f(self.cell2(t, s)))

    def _with(self, f, o, axis='columns'):
        """f(own cell, other's cell); a series is matched with the columns, or with the rows for axis=0"""
        me = self.cell2
        if isinstance(o, Wide):
            if o._dom.ident() is self._dom.ident() and o._coldom.ident() is self._coldom.ident():
                return Wide(self._index, self._coldom, lambda t, s: f(me(t, s), o.cell2(t, s)))
            raise Unsupported('tables with different labels')
        if isinstance(o, Series):
            d = self._dom if axis in (0, 'index') else self._coldom
            if o._dom.ident() is not d.ident():
                if o._dom.axis != d.axis:
                    raise Unsupported('table aligned with a series over other labels')
                if not doms_equal(o._dom, d):
                    raise Unsupported('table aligned with a series of other labels')
            oc = o._cell
            if d is self._dom:
                return Wide(self._index, self._coldom, lambda t, s: f(me(t, s), oc(t)))
            return Wide(self._index, self._coldom, lambda t, s: f(me(t, s), oc(s)))
        if _scalar(o):
            w = wrap(o)
            return Wide(self._index, self._coldom, lambda t, s: f(me(t, s), w))
        raise Unsupported(f'table with {type(o).__name__}')

    def _binop(self, op, o, rev=False):
        return self._with(lambda a, b: cellop(op, b, a) if rev else cellop(op, a, b), o)

    def _logop(self, op, o):
        return self._with(lambda a, b: celllog(op, a, b), o)

    def _flexop(op, rev=False):
        def g(self, o, axis='columns', **kw):
            if kw:
                raise Unsupported('table arithmetic with a fill value')
            return self._with(lambda a, b: cellop(op, b, a) if rev else cellop(op, a, b), o, axis)
        return g
    divide = div = truediv = _flexop('truediv')
    multiply = mul = _flexop('mul')
    add, sub = _flexop('add'), _flexop('sub')
    lt, le, gt, ge, eq, ne = map(_flexop, ('lt', 'le', 'gt', 'ge', 'eq', 'ne'))

    def fillna(self, v, **kw):
        if kw or not _scalar(v):
            raise Unsupported('table fillna')
        w = wrap(v)
        return self._map(lambda x: ite(isnan(x), w, x))

    def replace(self, a, b, **kw):
        if a is False and b is None or a is False and isinstance(b, float) and b != b:
            return self._map(lambda x: ite(x.b, SF.of(1), SF.of(float('nan'))))
        raise Unsupported('table replace')

    def where(self, cond, other=float('nan')):
        w = wrap(other)
        return self._with(lambda a, b: ite(truth(b), a, w), cond)

    def mask(self, cond, other=float('nan')):
        w = wrap(other)
        return self._with(lambda a, b: ite(truth(b), w, a), cond)

    def astype(self, t, **kw):
        return self._map(lambda x: cast(x, t))

    def copy(self, deep=True):
        return Wide(self._index, self._coldom, self.cell2)

    def __getitem__(self, k):
        if isinstance(k, Wide):
            return self.where(k)
        raise Unsupported('table selection')

    def __vc_reduce__(self, kind, skipna=True, q=None, axis=0):
        me = self.cell2
        if axis in (1, 'columns'):
            if kind in ('any', 'all'):
                def f(t):
                    pred = (lambda s: truthy(me(t, s))) if kind == 'any' else (lambda s: Not(truthy(me(t, s))))
                    e, _ = canon_ops(self._coldom.axis, lambda s: And(self._coldom.mem(s), pred(s)), kind).first()
                    return SB(e if kind == 'any' else Not(e))
                return Series._mk(self._index, memo_cell(f))
            return Series._mk(self._index, memo_cell(lambda t: reduce_(self._coldom, lambda s: me(t, s), kind, q, skipna)))
        ix = Index(self._coldom)
        if kind in ('any', 'all'):
            raise Unsupported('column-wise ' + kind)
        return Series._mk(ix, memo_cell(lambda s: reduce_(self._dom, lambda t: me(t, s), kind, q, skipna)))

    def _red(kind):
        def g(self, axis=0, skipna=True, **kw):
            if kw:
                raise Unsupported(f'table {kind} with options')
            return self.__vc_reduce__(kind, skipna, axis=axis)
        return g
    mean, median, sum, min, max, any, all, std = map(
        _red, ('mean', 'median', 'sum', 'min', 'max', 'any', 'all', 'std'))

    def quantile(self, q=0.5, axis=0, **kw):
        if isinstance(q, (list, tuple)) or kw:
            raise Unsupported('several quantiles')
        return self.__vc_reduce__('quantile', True, q, axis)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'table.{k}')


class ColFrame:
    """table with a symbolic number of columns 0..n-1: cell2(label, column)"""
    _vc_frame = True
    __array_ufunc__ = None

    def __init__(self, index, n, cell2=None):
        self._index, self.n = index, n
        self.cell2 = cell2 or (lambda t, b: SF.of(float('nan')))

    index = property(lambda s: s._index)
    _dom = property(lambda s: s._index._dom)
    columns = property(lambda s: SRange(s.n))
    loc = property(lambda s: _ColLoc(s))

    def havoc(self):
        f = z3.Function(ctx().fresh('tab'), z3.IntSort(), z3.IntSort(), z3.RealSort())
        n = z3.Function(ctx().fresh('tab.nan'), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.cell2 = lambda t, b: SF(n(zi(t), zi(b)), False, False, f(zi(t), zi(b)))

    def col(self, b):
        return Series._mk(self.index, memo_cell(lambda t: self.cell2(t, zi(b))), SI(b))

    def set(self, b, v):
        bv = zi(b.v) if isinstance(b, SI) else zi(b)
        if not ctx().decide(And(zi(0) <= bv, bv < zi(self.n))):
            raise Unsupported('assignment adds a column')
        old, new = self.cell2, _valcell(self.index, v)
        self.cell2 = lambda t, c: ite(zi(c) == bv, SF.of(new(t)), old(t, c))

    def __getitem__(self, b):
        if isinstance(b, (SI, int)):
            return self.col(b.v if isinstance(b, SI) else b)
        raise Unsupported('table column key')

    def __setitem__(self, b, v):
        if isinstance(b, (SI, int)):
            return self.set(b, v)
        raise Unsupported('table column key')

    def apply(self, f, axis=0, **kw):
        """one value per column"""
        if axis != 0:
            raise Unsupported('apply over rows')
        d = positions(self.n)
        return Series._mk(RangeIndex(d), memo_cell(lambda b: f(self.col(b), **kw)))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'table.{k}')


class _ColLoc:
    def __init__(self, s):
        self.s = s

    def _k(self, k):
        if isinstance(k, tuple) and isinstance(k[0], slice) and k[0] == slice(None) and isinstance(k[1], (SI, int)):
            return k[1]
        raise Unsupported('table loc')

    def __getitem__(self, k):
        return self.s[self._k(k)]

    def __setitem__(self, k, v):
        self.s[self._k(k)] = v


class DataFrame:
    _vc_frame = True
    __array_ufunc__ = None

    def __new__(cls, data=None, index=None, columns=None, **kw):
        if isinstance(columns, SRange):
            if data is not None or index is None:
                raise Unsupported('DataFrame with symbolic columns')
            return ColFrame(as_index(index), columns.n)
        return object.__new__(cls)

    def __init__(self, data=None, index=None, columns=None, dtype=None, **kw):
        object.__setattr__(self, '_owner', None)
        cols = {}
        if isinstance(data, Series):
            nm = data.name
            if columns is not None:
                nm = list(columns)[0]
            ix = data.index if index is None else as_index(index)
            cols[0 if nm is None else nm] = data._aligned(ix._dom)
        elif isinstance(data, DataFrame):
            ix = data.index if index is None else as_index(index)
            cols = {c: data[c]._aligned(ix._dom) for c in data._cols}
        elif isinstance(data, dict):
            if index is not None:
                ix = as_index(index)
            else:
                ser = [v for v in data.values() if isinstance(v, Series)]
                if not ser:
                    raise Unsupported('DataFrame(dict) without series')
                d = ser[0]._dom
                for s in ser[1:]:
                    d = dom_union(d, s._dom)
                ix = ser[0].index if d is ser[0]._dom else ser[0].index.like(d)
            for k, v in data.items():
                cols[k] = _valcell(ix, v)
        elif data is None and index is not None:
            ix = as_index(index)
            if columns is not None:
                for cname in columns:
                    cols[cname] = lambda t: SF.of(float('nan'))
        else:
            raise Unsupported(f'DataFrame({type(data)})')
        if columns is not None and isinstance(data, (DataFrame, dict)):
            raise Unsupported('DataFrame(data, columns)')
        if dtype is not None:
            cols = {k: (lambda c: lambda t: cast(c(t), dtype))(c) for k, c in cols.items()}
        object.__setattr__(self, '_index', ix)
        object.__setattr__(self, '_cols', {k: memo_cell(v) for k, v in cols.items()})

    @staticmethod
    def _mk(index, cols, owner=None):
        d = object.__new__(DataFrame)
        object.__setattr__(d, '_owner', owner)
        object.__setattr__(d, '_index', index)
        object.__setattr__(d, '_cols', dict(cols))
        return d

    def __setattr__(self, k, v):
        if k == 'columns':
            _log(self, 'columns reassigned')
            v = list(v)
            object.__setattr__(self, '_cols', dict(zip(v, self._cols.values())))
        elif k == 'index':
            _log(self, 'index reassigned')
            v = as_index(v)
            if v._dom.ident() is self._dom.ident() or doms_equal(v._dom, self._dom):
                object.__setattr__(self, '_index', v)
            else:
                raise Unsupported('re-labelling a frame')
        elif k in self._cols:
            self[k] = v
        elif k.startswith('_'):
            object.__setattr__(self, k, v)
        elif isinstance(v, (SF, SB, SI, int, float, str)) and not hasattr(type(self), k):
            object.__setattr__(self, k, v)    # a plain attribute, not a column
        else:
            raise Unsupported(f'DataFrame.{k} assignment')

    index = property(lambda s: s._index)
    _dom = property(lambda s: s._index._dom)
    columns = property(lambda s: Cols(s._cols))
    loc = property(lambda s: _Loc(s))
    iloc = property(lambda s: _Iloc(s))

    @property
    def empty(self):
        return self._index.empty

    def __vc_len__(self):
        return dom_card(self._dom)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        cols = object.__getattribute__(self, '_cols')
        if k in cols:
            return self[k]
        raise Unsupported(f'DataFrame.{k}')

    def _setcol(self, c, cell):
        _log(self, f'column {c!r} set')
        self._cols[c] = memo_cell(cell)

    def _restrict(self, pred, index=None):
        if index is None:
            index = self.index.like(self._dom.sub(pred))
        return DataFrame._mk(index, self._cols)

    def __getitem__(self, k):
        if isinstance(k, (str, int)) and not isinstance(k, bool):
            if k not in self._cols:
                raise KeyError(k)
            return Series._mk(self.index, self._cols[k], k)
        if isinstance(k, list):
            for c in k:
                if c not in self._cols:
                    raise KeyError(c)
            return DataFrame._mk(self.index, {c: self._cols[c] for c in k})
        if isinstance(k, Series):
            return self._restrict(_Loc(self)._rowpred(k))
        if isinstance(k, Arr):
            return self._restrict(_Loc(self)._rowpred(k))
        if isinstance(k, slice):
            if isinstance(k.start, ST) or isinstance(k.stop, ST):
                return self._restrict(_label_pred(self.index, k))
            return self._restrict(_pos_slice_pred(self._dom, k))
        raise Unsupported(f'DataFrame[{type(k)}]')

    def __setitem__(self, k, v):
        if isinstance(k, (str, int)):
            self._setcol(k, _valcell(self.index, v))
            return
        raise Unsupported('DataFrame[...] = ')

    def __contains__(self, k):
        return k in self._cols

    def __iter__(self):
        return iter(list(self._cols))

    def keys(self):
        return Cols(self._cols)

    def items(self):
        return [(c, self[c]) for c in self._cols]

    def copy(self, deep=True):
        if deep is not True:
            raise Unsupported('shallow copy')
        return DataFrame._mk(self.index.copy(), self._cols)

    def dropna(self, axis=0, how='any', subset=None, inplace=False, **kw):
        if axis not in (0, 'index') or how != 'any':
            raise Unsupported('dropna options')
        names = list(self._cols) if subset is None else ([subset] if isinstance(subset, str) else list(subset))
        cs = [self._cols[c] for c in names]
        r = self._restrict(lambda t: And(*[Not(isnan(f(t))) for f in cs]))
        if callable(self.index._freq) or self.index._freq is not None:
            d = self._dom.sub(lambda t: Or(*[isnan(f(t)) for f in cs]))
            e, _ = setops(d).first()
            if not ctx().decide(e) or ctx().decide(ctx().bool('only rows at the ends dropped')):
                r.index.freq = self.index.freq
        if inplace:
            _log(self, 'dropna(inplace)')
            object.__setattr__(self, '_index', r.index)
            return None
        return r

    def ffill(self, inplace=False, limit=None, **kw):
        if inplace:
            raise Unsupported('frame ffill in place')
        return DataFrame._mk(self.index, {c: fill_cell(self._dom, f, 'f', limit) for c, f in self._cols.items()})

    def bfill(self, inplace=False, limit=None, **kw):
        if inplace:
            raise Unsupported('frame bfill in place')
        return DataFrame._mk(self.index, {c: fill_cell(self._dom, f, 'b', limit) for c, f in self._cols.items()})

    def reindex(self, index=None, method=None, fill_value=None, **kw):
        ix = as_index(index)
        return DataFrame._mk(ix, {c: reindex_cell(self._dom, f, ix._dom, method, fill_value)
                                  for c, f in self._cols.items()})

    def sort_index(self, **kw):
        return DataFrame._mk(self.index.like(self._dom.with_(order='asc')), self._cols)

    def rename(self, columns=None, index=None, inplace=False, **kw):
        m = columns or {}
        cols = {(m(c) if callable(m) else m.get(c, c)): f for c, f in self._cols.items()}
        if inplace:
            object.__setattr__(self, '_cols', cols)
            return None
        return DataFrame._mk(self.index, cols)

    def drop(self, labels=None, axis=0, columns=None, inplace=False, **kw):
        names = columns if columns is not None else labels
        if columns is None and axis not in (1, 'columns'):
            raise Unsupported('drop rows')
        names = [names] if isinstance(names, str) else list(names)
        for n in names:
            if n not in self._cols:
                raise KeyError(n)
        cols = {c: f for c, f in self._cols.items() if c not in names}
        if inplace:
            _log(self, 'drop(inplace)')
            object.__setattr__(self, '_cols', cols)
            return None
        return DataFrame._mk(self.index, cols)

    def assign(self, **kw):
        d = DataFrame._mk(self.index, self._cols)
        for k, v in kw.items():
            d[k] = v(d) if callable(v) else v
        return d

    def fillna(self, value=None, inplace=False, **kw):
        cols = {c: Series._mk(self.index, f, c).fillna(value)._cell for c, f in self._cols.items()}
        if inplace:
            _log(self, 'fillna(inplace)')
            object.__setattr__(self, '_cols', cols)
            return None
        return DataFrame._mk(self.index, cols)

    def isnull(self):
        return DataFrame._mk(self.index, {c: (lambda f: lambda t: SB(isnan(f(t))))(f) for c, f in self._cols.items()})
    isna = isnull

    def notnull(self):
        return DataFrame._mk(self.index, {c: (lambda f: lambda t: SB(Not(isnan(f(t)))))(f) for c, f in self._cols.items()})
    notna = notnull

    def astype(self, t):
        return DataFrame._mk(self.index, {c: (lambda f: lambda x: cast(f(x), t))(f) for c, f in self._cols.items()})

    def _rowred(self, kind):
        fs = list(self._cols.values())

        def f(t):
            if kind == 'all':
                return SB(And(*[truthy(g(t)) for g in fs]))
            if kind == 'any':
                return SB(Or(*[truthy(g(t)) for g in fs]))
            vals = [SF.of(g(t)) for g in fs]
            if kind == 'sum':
                out = SF.of(0)
                for v in vals:
                    out = out + ite(v.nan, SF.of(0), v)
                return out
            if kind == 'mean':
                out, n = SF.of(0), SF.of(0)
                for v in vals:
                    out = out + ite(v.nan, SF.of(0), v)
                    n = n + ite(v.nan, SF.of(0), SF.of(1))
                return out / n
            out = SF.of(float('nan'))
            for v in vals:
                better = v._lt(out) if kind == 'min' else out._lt(v)
                out = ite(And(Not(v.nan), Or(out.nan, better)), v, out)
            return out
        return Series._mk(self.index, f)

    def _red(self, kind, axis):
        if axis in (1, 'columns'):
            return self._rowred(kind)
        raise Unsupported(f'column-wise {kind}')

    def all(self, axis=0, **kw):
        return self._red('all', axis)

    def any(self, axis=0, **kw):
        return self._red('any', axis)

    def max(self, axis=0, **kw):
        return self._red('max', axis)

    def min(self, axis=0, **kw):
        return self._red('min', axis)

    def sum(self, axis=0, **kw):
        return self._red('sum', axis)

    def mean(self, axis=0, **kw):
        return self._red('mean', axis)

    def resample(self, rule, **kw):
        return Resampler(self, rule, kw)

    def rolling(self, window, min_periods=None, center=False, closed=None, win_type=None, **kw):
        return Rolling(self, [window, min_periods, center, closed, win_type])

    def groupby(self, by=None, **kw):
        return GroupBy(self, by, kw)

    def squeeze(self):
        if len(self._cols) == 1:
            return self[list(self._cols)[0]]
        return self

    def reset_index(self, drop=False, inplace=False, **kw):
        if drop or inplace or kw:
            raise Unsupported('DataFrame.reset_index')
        cols = {self.index.name or 'index': self.index._labelcell}
        cols.update(self._cols)
        return DataFrame._mk(RangeIndex(self._dom), cols)

    def drop_duplicates(self, subset=None, keep='first', **kw):
        """only on a column that holds the (distinct) row labels: nothing to drop"""
        if isinstance(subset, (list, tuple)) and len(subset) == 1:
            subset = subset[0]
        if kw or self._dom.dup or subset not in self._cols:
            raise Unsupported('DataFrame.drop_duplicates')
        t = ctx().int('probe')
        v = self._cols[subset](t)
        if not (isinstance(v, ST) and isz(v.v) and v.v.eq(t)):
            raise Unsupported('DataFrame.drop_duplicates')
        return DataFrame._mk(self.index, dict(self._cols))

    def set_index(self, k, drop=True, **kw):
        """set_index to a datetime column that equals the row label"""
        if isinstance(k, str):
            cell = self._cols[k]
        elif isinstance(k, Series):
            cell = k._aligned(self._dom)
        else:
            raise Unsupported('set_index')
        c = ctx()
        t = c.int('probe')
        v = cell(t)
        if isinstance(v, ST) and isz(v.v) and v.v.eq(t):
            cols = {n: f for n, f in self._cols.items() if not (drop and n == k)} if isinstance(k, str) else self._cols
            return DataFrame._mk(DatetimeIndex(self._dom, name=k if isinstance(k, str) else k.name), cols)
        return Relabeled(self, cell)

    def sort_values(self, by, **kw):
        return Sorted(self, by, kw.get('kind') in ('stable', 'mergesort'))

    def join(self, o, how='left', **kw):
        if isinstance(o, Series):
            o = o.to_frame()
        if how != 'left':
            raise Unsupported('join how')
        cols = dict(self._cols)
        for c2 in o._cols:
            cols[c2] = o[c2]._aligned(self._dom)
        return DataFrame._mk(self.index, cols)

    # elementwise arithmetic of frames with scalars / frames
    def _bin(self, op, o, rev=False):
        if _scalar(o):
            return DataFrame._mk(self.index, {c: self[c]._binop(op, o, rev)._cell for c in self._cols})
        if isinstance(o, DataFrame) and set(o._cols) == set(self._cols):
            out = {c: self[c]._binop(op, o[c], rev) for c in self._cols}
            ix = next(iter(out.values())).index
            return DataFrame._mk(ix, {c: s._cell for c, s in out.items()})
        raise Unsupported('frame arithmetic')

    def __mul__(self, o):
        return self._bin('mul', o)

    def __rmul__(self, o):
        return self._bin('mul', o, True)

    def __truediv__(self, o):
        return self._bin('truediv', o)

    def __add__(self, o):
        return self._bin('add', o)

    def __sub__(self, o):
        return self._bin('sub', o)

    def __lt__(self, o):
        return self._bin('lt', o)

    def __gt__(self, o):
        return self._bin('gt', o)

    def __bool__(self):
        raise ValueError('The truth value of a DataFrame is ambiguous.')


class Relabeled:
    """frame re-indexed by an arbitrary datetime column (possibly duplicated)"""
    def __init__(self, df, keycell, dedup=False):
        self.df, self.keycell, self.dedup = df, keycell, dedup

    def drop_duplicates(self, col=None, keep='first', **kw):
        if isinstance(col, (list, tuple)) and len(col) == 1:
            col = col[0]
        if kw or keep not in ('first', 'last') or col not in self.df._cols:
            raise Unsupported('drop_duplicates options')
        k = self.df._cols[col]
        pr = ctx().int('probe')
        if k is not self.keycell and ctx().vkey(k(pr)) != ctx().vkey(self.keycell(pr)):
            raise Unsupported('drop_duplicates on another column')
        return Relabeled(self.df, self.keycell, keep)

    def __getattr__(self, k):
        if k in self.df._cols:
            return RelSeries(self, self.df._cols[k])
        raise Unsupported(f'relabeled.{k}')

    def __getitem__(self, k):
        return RelSeries(self, self.df._cols[k])


class RelSeries:
    """column of a Relabeled frame; becomes a Series on the key labels"""
    def __init__(self, rel, cell):
        self.rel, self.cell = rel, cell

    def notnull(self):
        return RelSeries(self.rel, lambda t: SB(Not(isnan(self.cell(t)))))
    notna = notnull

    def isnull(self):
        return RelSeries(self.rel, lambda t: SB(isnan(self.cell(t))))

    def astype(self, ty):
        return RelSeries(self.rel, lambda t: cast(self.cell(t), ty))

    def as_series(self):
        """label k -> value of the FIRST row with key k (after drop_duplicates)"""
        if not self.rel.dedup:
            raise Unsupported('duplicated relabelled frame')
        df, key = self.rel.df, self.rel.keycell
        c = ctx()
        opsmemo = {}

        def ops(k):
            kk = k.get_id()
            if kk not in opsmemo:
                m = lambda t: And(df._dom.mem(t), Not(isnan(key(t))), key(t).v == k)
                opsmemo[kk] = (canon_ops(df._dom.axis, m, 'key'), k)
            return opsmemo[kk][0]
        d = Dom('T', lambda k: ops(k).first()[0], name='keys')

        def cell(k):
            e, p = ops(k).first() if self.rel.dedup == 'first' else ops(k).last()
            return self.cell(p)
        return Series._mk(DatetimeIndex(d), cell)


class Sorted:
    def __init__(self, df, by, stable=True):
        self.df, self.by, self.stable = df, by, stable


class Cols(list):
    """column labels"""
    def __init__(self, it):
        super().__init__(it)

    def tolist(self):
        return list(self)

    def __hash__(self):
        return id(self)

    @property
    def values(self):
        return list(self)


from . import strict as _strict, frame as _me    # noqa: E402
_strict.apply(_me)
