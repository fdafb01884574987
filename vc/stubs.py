"""Stub modules (assumed contracts) the real source is executed against."""
import re, math, builtins, types
from fractions import Fraction
import z3
from .core import *
from . import core, frame
from .frame import *
from .frame import _scalar, _valcell

TOK = re.compile('\x00\\d+\x01')


class Absent:
    """module or attribute outside the modelled subset"""
    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Absent(self._n + '.' + k)

    def __call__(self, *a, **k):
        raise Unsupported(f'call of {self._n}')

    def __instancecheck__(self, o):
        return False

    def __mro_entries__(self, bases):
        return (object,)


class Stub:
    def __init__(self, name, d):
        self.__dict__.update(d)
        self.__dict__['_n'] = name

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Absent(self._n + '.' + k)


# ------------------------------------------------------------------ opaque arrays
class OArr:
    """uninterpreted array expression (random draws and their images)"""
    __array_ufunc__ = None

    def __init__(self, kind, parts=(), rand=False):
        self.kind, self.parts, self.rand = kind, tuple(parts), rand

    def _vc_key(self, c):
        if self.rand:
            c.keepz.append(self)
            return ('o', id(self))
        return ('oarr', self.kind) + tuple(c.vkey(p) for p in self.parts)

    def _vc_same(self, o):
        if self is o:
            return True
        if not isinstance(o, OArr) or self.rand or o.rand or self.kind != o.kind or len(self.parts) != len(o.parts):
            return False
        return And(*[part_same(a, b) for a, b in zip(self.parts, o.parts)])

    def _b(self, op, o, rev=False):
        return OArr(op, (o, self) if rev else (self, o))

    def __add__(self, o):
        return self._b('add', o)

    def __radd__(self, o):
        return self._b('add', o, True)

    def __sub__(self, o):
        return self._b('sub', o)

    def __rsub__(self, o):
        return self._b('sub', o, True)

    def __mul__(self, o):
        return self._b('mul', o)

    def __rmul__(self, o):
        return self._b('mul', o, True)

    def __truediv__(self, o):
        return self._b('truediv', o)

    def __rtruediv__(self, o):
        return self._b('truediv', o, True)

    def __getitem__(self, k):
        return OArr('getitem', (self, repr(k)))

    def __iter__(self):
        raise Unsupported('iteration over opaque array')

    def __bool__(self):
        raise Unsupported('truth of opaque array')

    @property
    def values(self):
        return self

    def __vc_len__(self):
        v = opaque('olen', params=[self], mk=lambda: (SI(ctx().int('olen')),)).outs[0]
        ctx().assume(v.v >= 0)
        return v

    def median(self, axis=None):
        return np_median(self, axis)

    def mean(self, axis=None):
        return OArr('mean', (self, axis))


def part_same(a, b):
    if isinstance(a, Series) and isinstance(b, Series):
        return series_same(a, b)
    return same(a, b)


def series_same(a, b):
    """extensional equality through a Skolem witness (sound as a *hypothesis*)"""
    if a._dom.ident() is b._dom.ident() and a._cell is b._cell:
        return True
    c = ctx()
    s = c.int('ext')
    c.note(a._dom.axis, s)
    return And(Iff(a._dom.mem(s), b._dom.mem(s)), Implies(a._dom.mem(s), same(a._cell(s), b._cell(s))))


def percentile(x, q, scale=100):
    if isinstance(q, (list, tuple)):
        return CArr(percentile(x, qq, scale) for qq in q)
    qv = SF.of(q)
    if scale != 100:
        qv = qv * 100
    if isinstance(x, OArr) and x.kind in ('mul', 'truediv', 'add', 'sub') and builtins.len(x.parts) == 2 and not x.rand:
        # percentiles commute with an increasing affine map
        a, b = x.parts
        if isinstance(a, OArr) and isinstance(b, (int, float)) and (b > 0 or x.kind in ('add', 'sub')):
            r = percentile(a, q, scale)
            return {'mul': lambda: r * b, 'truediv': lambda: r / b, 'add': lambda: r + b, 'sub': lambda: r - b}[x.kind]()
        if isinstance(b, OArr) and isinstance(a, (int, float)) and (x.kind == 'add' or x.kind == 'mul' and a > 0):
            r = percentile(b, q, scale)
            return r * a if x.kind == 'mul' else r + a
    c = ctx()
    lo = Or(qv.nan, qv._lt(SF.of(0)), SF.of(100)._lt(qv))
    if c.decide(lo):
        raise ValueError('Percentiles must be in the range [0, 100]')

    def mk():
        return SF.fresh('pct', nan=True, inf=False)
    if isinstance(x, (Arr, Series)):
        return reduce_(x._dom, x._cell, 'quantile', q if scale == 1 else SF.of(q) / 100, skipna=False)
    else:
        a = opaque('percentile', params=[x], args=[qv], mk=mk)
        # monotone in q for the same data (numpy contract), NaN-ness depends on data only
        known = c.__dict__.setdefault('_percentiles', [])
        new = not builtins.any(b is a for b in known)
        for b in known:
            if new:
                e = same(b.params[0], x)
                if e is False:
                    continue
                c.assume(Implies(e, And(Iff(a.outs[0].nan, b.outs[0].nan),
                                        Implies(rcmp('<=', qv.r, b.args[0].r), rcmp('<=', a.outs[0].r, b.outs[0].r)),
                                        Implies(rcmp('<=', b.args[0].r, qv.r), rcmp('<=', b.outs[0].r, a.outs[0].r)))))
        if new:
            known.append(a)
    return a.outs[0]


def np_median(x, axis=None):
    if isinstance(x, (Series, Arr)):
        return x.__vc_reduce__('median', False) if isinstance(x, Arr) else reduce_(x._dom, x._cell, 'median', skipna=False)
    if isinstance(x, OArr):
        if axis is None:
            return opaque('median.o', params=[x], mk=lambda: SF.fresh('med')).outs[0]
        return OArr('median', (x, axis))
    raise Unsupported('np.median')


def np_reduce(kind, nanskip=False):
    def f(x, axis=None, **kw):
        if kw:
            raise Unsupported(f'np.{kind} with options')
        if isinstance(x, Series):
            # np.mean(series) dispatches to the skipna method of pandas
            return x.__vc_reduce__(kind, True)
        if isinstance(x, Arr):
            if getattr(x, 'eqof', None):
                return x.__vc_reduce__(kind)
            return reduce_(x._dom, x._cell, kind, skipna=nanskip)
        if isinstance(x, Mat) and axis is None and not nanskip:
            return x.__vc_reduce__(kind)
        if isinstance(x, CArr):
            vals = [SF.of(v) for v in x]
            if kind == 'sum':
                out = SF.of(0)
                for v in vals:
                    out = out + v
                return out
            if kind == 'mean':
                out = SF.of(0)
                for v in vals:
                    out = out + v
                return out / builtins.len(vals)
        if isinstance(x, OArr):
            if axis is None:
                return opaque(kind + '.o', params=[x], mk=lambda: SF.fresh(kind)).outs[0]
            return OArr(kind, (x, axis))
        if _scalar(x):
            return x
        raise Unsupported(f'np.{kind}({type(x).__name__})')
    return f


def np_map(f):
    def g(x, *a, **kw):
        if a or kw:
            raise Unsupported('np ufunc with options')
        if isinstance(x, (Series, Arr, Mat)):
            return x._map(f)
        if isinstance(x, CArr):
            return CArr(f(v) for v in x)
        if isinstance(x, OArr):
            return OArr('map.' + getattr(f, '__name__', 'f'), (x,))
        if _scalar(x):
            return f(wrap(x))
        raise Unsupported(f'np ufunc of {type(x).__name__}')
    return g


def _sign(v):
    v = SF.of(v)
    return SF(v.nan, False, False, rite(v.pos(), Fraction(1), rite(v.neg(), Fraction(-1), Fraction(0))))


def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported('np.where(cond)')
    if isinstance(c, (Series, Arr)):
        ix = c.index if isinstance(c, Series) else Index(c._dom)
        ca, cb = _valcell(ix, a), _valcell(ix, b)
        return Arr(c._dom, lambda t, c_c=c._cell: ite(truth(c_c(t)), ca(t), cb(t)))
    if _scalar(c):
        return ite(truth(wrap(c)), wrap(a), wrap(b))
    raise Unsupported('np.where')


def np_diff(x, **kw):
    if isinstance(x, Index):
        x = x.values
    if isinstance(x, Series):
        x = x.values
    if isinstance(x, Arr) and not x.tail:
        return x[1:] - x[:-1]
    if isinstance(x, CArr) and not kw:
        return CArr(b - a for a, b in zip(x, x[1:]))
    raise Unsupported('np.diff')


def np_insert(x, pos, v):
    if isinstance(x, Arr) and x.tail and pos == 0 and _scalar(v):
        ops = setops(x._dom)
        w, xc = wrap(v), x._cell

        def f(t):
            e, _ = ops.prev(t)
            return ite(e, numericize(xc(t)), w)
        return Arr(x._dom, f)
    raise Unsupported('np.insert')


def np_array(x, dtype=None, **kw):
    if dtype is not None:
        if isinstance(x, (Series, Arr)):
            return x.values.astype(dtype) if isinstance(x, Series) else x.astype(dtype)
        if dtype not in (float, object, 'float', 'float64'):
            raise Unsupported('np.array(dtype)')
    if isinstance(x, (Series,)):
        return x.values
    if isinstance(x, (Arr, CArr, OArr)):
        return x
    if isinstance(x, (list, tuple)):
        return CArr(x)
    raise Unsupported('np.array')


def np_minmax(which):
    def f(a, b):
        def g(x, y):
            x, y = SF.of(x), SF.of(y)
            pick = x._lt(y) if which == 'min' else y._lt(x)
            n = Or(x.nan, y.nan)
            r = ite(pick, x, y)
            return SF(Or(n, r.nan), r.pi, r.ni, r.r)
        if isinstance(a, (Series, Arr)):
            if isinstance(b, (Series, Arr)):
                ix = a.index if isinstance(a, Series) else Index(a._dom)
                if isinstance(a, Series) and isinstance(b, Series) and a._dom.ident() is not b._dom.ident():
                    raise Unsupported('minimum over different indexes')
                bc = _valcell(ix, b)
                if isinstance(a, Series):
                    return Series._mk(a.index, lambda t, a_c=a._cell: g(a_c(t), bc(t)), a.name)
                return Arr(a._dom, lambda t, a_c=a._cell: g(a_c(t), bc(t)))
            return a._map(lambda v: g(v, b))
        if isinstance(b, (Series, Arr)):
            return b._map(lambda v: g(a, v))
        return g(wrap(a), wrap(b))
    return f


def np_logical(op):
    def f(a, b):
        if isinstance(a, (Series, Arr)):
            return a._logop(op, b)
        if isinstance(b, (Series, Arr)):
            return b._logop(op, a)
        return celllog(op, wrap(a), wrap(b))
    return f


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    raise Unsupported('np.isclose')


def mk_random():
    def choice(a, size=None, replace=True, p=None):
        d = OArr('choice', (a, repr(replace)), rand=True)
        d.source, d.size, d.replace, d.p = a, size, replace, p
        ctx().keep.append(('draw', d))
        return d

    def multivariate_normal(mean, cov, size=None):
        d = OArr('mvn', (mean, cov), rand=True)
        d.mean, d.cov, d.size = mean, cov, size
        ctx().keep.append(('draw', d))
        return d

    def gen(kind):
        def f(*a, **k):
            d = OArr(kind, tuple(a), rand=True)
            d.args, d.kw = a, k
            ctx().keep.append(('draw', d))
            return d
        return f
    return Stub('numpy.random', dict(choice=choice, multivariate_normal=multivariate_normal,
                                     normal=gen('normal'), uniform=gen('uniform'), rand=gen('rand'),
                                     permutation=gen('permutation')))


class ndarray(type('nd', (), {})):
    pass


def isnull(x):
    if isinstance(x, (Series, Arr, DataFrame)):
        return x.isnull()
    return SB(isnan(x)) if not isinstance(isnan(x), bool) else isnan(x)


def notnull(x):
    r = isnull(x)
    return ~r if not isinstance(r, bool) else not r


def _trunc(v):
    return uf1('trunc', v)


def np_full(shape, v):
    raise Unsupported('np.full')


def np_clip(x, lo, hi):
    if isinstance(x, (Series, Arr)):
        return x.clip(lo, hi)
    raise Unsupported('np.clip')


def numpy_stub():
    d = dict(
        nan=float('nan'), NaN=float('nan'), inf=float('inf'), pi=math.pi, newaxis=None,
        float64=float, int64=int, bool_=bool, ndarray=Arr,
        abs=lambda x: abs(x), absolute=lambda x: abs(x), fabs=lambda x: abs(x),
        sqrt=np_map(sqrt), cos=np_map(lambda v: uf1('cos', v, (-1, 1))), sin=np_map(lambda v: uf1('sin', v, (-1, 1))),
        exp=np_map(lambda v: uf1('exp', v, (0, None))), log=np_map(lambda v: uf1('log', v)),
        floor=np_map(lambda v: uf1('floor', v)), ceil=np_map(lambda v: uf1('ceil', v)), round=np_map(lambda v: uf1('round0', v)),
        sign=np_map(_sign), square=np_map(lambda v: SF.of(v) * SF.of(v)),
        isnan=np_map(lambda v: SB(isnan(v))), isinf=np_map(lambda v: SB(Or(SF.of(v).pi, SF.of(v).ni))),
        isfinite=np_map(lambda v: SB(SF.of(v).fin)),
        mean=np_reduce('mean'), sum=np_reduce('sum'), max=np_reduce('max'), min=np_reduce('min'), std=np_reduce('std0'),
        nanmean=np_reduce('mean', True), nansum=np_reduce('sum', True), nanmax=np_reduce('max', True),
        nanmin=np_reduce('min', True), nanmedian=np_reduce('median', True), amax=np_reduce('max'), amin=np_reduce('min'),
        median=np_median, percentile=lambda a, q: percentile(a, q), quantile=lambda x, q: percentile(x, q, 1),
        where=np_where, diff=np_diff, insert=np_insert, array=np_array, asarray=np_array,
        minimum=np_minmax('min'), maximum=np_minmax('max'),
        logical_and=np_logical('and'), logical_or=np_logical('or'), logical_xor=np_logical('xor'),
        logical_not=lambda x: ~x, invert=lambda x: ~x,
        add=lambda a, b: a + b, subtract=lambda a, b: a - b, multiply=lambda a, b: a * b, divide=lambda a, b: a / b,
        true_divide=lambda a, b: a / b, power=lambda a, b: a ** b, negative=lambda a: -a,
        greater=lambda a, b: a > b, less=lambda a, b: a < b, greater_equal=lambda a, b: a >= b,
        less_equal=lambda a, b: a <= b, clip=np_clip, any=lambda x, **k: x.any(**k), all=lambda x, **k: x.all(**k),
        isscalar=lambda x: _scalar(x), random=mk_random(),
        seterr=lambda **k: None, errstate=lambda **k: _NullCM(),
    )
    d['subtract'] = Outer(lambda a, b: a - b)
    d['arange'] = np_arange
    d['triu'] = lambda m, k=0: tri(m, k, True)
    d['tril'] = lambda m, k=0: tri(m, k, False)
    d['unique'], d['zeros'], d['zeros_like'] = np_unique, np_zeros, lambda x: np_fill(x._dom, 0)
    d['ones'] = lambda shape: np_zeros(shape, 1)
    d['count_nonzero'] = lambda x: x.__vc_reduce__('sum') if getattr(x, 'eqof', None) else reduce_(x._dom, lambda t: ite(truthy(x._cell(t)), SF.of(1), SF.of(0)), 'sum', skipna=False)
    return Stub('numpy', d)


class Outer:
    """binary ufunc with .outer"""
    def __init__(self, f):
        self.f = f

    def __call__(self, a, b):
        return self.f(a, b)

    def outer(self, a, b):
        if isinstance(a, Arr) and isinstance(b, Arr) and a._dom.ident() is b._dom.ident() and not a.tail and not b.tail \
                and a._dom.order == 'asc':
            return Mat(a._dom, lambda i, j, x=a._cell, y=b._cell: self.f(x(i), y(j)))
        raise Unsupported('ufunc.outer')


def tri(m, k, upper):
    if not isinstance(m, Mat) or k not in ((0, 1) if upper else (0, -1)):
        raise Unsupported('np.triu')
    if upper:
        return m.tri((lambda i, j: i < j) if k == 1 else (lambda i, j: i <= j))
    return m.tri((lambda i, j: j < i) if k == -1 else (lambda i, j: j <= i))


def np_unique(x, return_counts=False, **kw):
    """the distinct values in increasing order; facts: every position's value occurs count >= 1 times, and when there
    are as many distinct values as values every count is 1"""
    if kw or not isinstance(x, (Arr, Series)):
        raise Unsupported('np.unique')
    c = ctx()
    d, cell = x._dom, x._cell

    def mk():
        g = c.int('n_unique')
        n = dom_card(d).v
        c.assume(And(zi(0) <= g, g <= zi(n), Iff(g == 0, zi(n) == 0)))
        return (SI(g),)
    a = opaque('unique', inputs=[(d.axis, d.mem, lambda t: SF.of(cell(t)))], mk=mk)
    if not hasattr(a, 'arr'):
        g = a.outs[0].v
        ud = positions(g, 'unique')
        f = z3.Function(c.fresh('unique'), z3.IntSort(), z3.RealSort())
        a.arr = Arr(ud, lambda i: SF(False, False, False, f(i)))
        cnt = memo_cell(lambda i: count_eq(d, cell, SF(False, False, False, f(i))))
        a.cnt = Arr(ud, cnt)
        n = dom_card(d).v
        c.universal(ud.axis, lambda i: Implies(ud.mem(i), And(SF.of(1)._le(cnt(i)), Implies(zi(n) == g, same(cnt(i), SF.of(1))))))
    return (a.arr, a.cnt) if return_counts else a.arr


def np_fill(dom, v):
    return Arr(dom, lambda t: SF.of(v))


def np_zeros(shape, v=0):
    n = shape[0] if isinstance(shape, tuple) and builtins.len(shape) == 1 else shape
    if isinstance(n, SI):
        r = ctx().__dict__.get('_carddom', {}).get(zi(n.v).get_id())
        return np_fill(r[0] if r else positions(n.v), v)
    if isinstance(n, int):
        return CArr([SF.of(v)] * n)
    raise Unsupported('np.zeros')


def np_arange(*a, **kw):
    if builtins.len(a) == 1 and isinstance(a[0], SI) and not kw:
        n = a[0]
        r = ctx().__dict__.get('_carddom', {}).get(zi(n.v).get_id())
        d = r[0] if r else positions(n.v)
        if d.axis.startswith('U'):
            return Arr(d, lambda t: SI(t))
        if d.order == 'asc':
            return Arr(d, position(d))
    raise Unsupported('np.arange')


def scipy_stub():
    norm = Stub('norm', dict(cdf=lambda v: uf1('normcdf', v, (0, 1)), ppf=lambda v: uf1('normppf', v)))
    return Stub('scipy', dict(stats=Stub('scipy.stats', dict(norm=norm))))


class _NullCM:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return []

    def __exit__(self, *a):
        return False


UNITS = {'d': 86400 * 10**9, 'day': 86400 * 10**9, 'days': 86400 * 10**9, 'h': 3600 * 10**9, 'hour': 3600 * 10**9,
         'hours': 3600 * 10**9, 'hr': 3600 * 10**9, 'm': 60 * 10**9, 'min': 60 * 10**9, 'minutes': 60 * 10**9,
         't': 60 * 10**9, 's': 10**9, 'sec': 10**9, 'seconds': 10**9, 'second': 10**9, 'ms': 10**6, 'us': 10**3,
         'ns': 1, 'w': 7 * 86400 * 10**9, 'minute': 60 * 10**9}


def parse_td(s):
    m = TOK.search(s)
    if m:
        v = core.ctx().tokens[m.group(0)]
        unit = s.replace(m.group(0), '').strip()
        if unit.lower() not in UNITS:
            raise Unsupported(f'timedelta text {s!r}')
        return td_from(v, UNITS[unit.lower()])
    m = re.fullmatch(r'\s*([-+]?[\d.]*)\s*([A-Za-z]+)\s*', s)
    if not m or m.group(2).lower() not in UNITS:
        raise Unsupported(f'timedelta text {s!r}')
    n = Fraction(m.group(1)) if m.group(1) not in ('', '+', '-') else Fraction(1)
    return SD(int(n * UNITS[m.group(2).lower()]))


def td_from(v, scale):
    x = SF.of(v) * scale
    if x.const():
        return SD(int(x.r))
    c = ctx()
    memo = c.__dict__.setdefault('_tdmemo', {})
    key = tuple(z.get_id() if isz(z) else z for z in (x.nan, x.pi, x.ni, x.r))
    if key in memo:
        return memo[key][0]
    k = c.int('tdns')
    c.assume(Implies(x.fin, And(z3.ToReal(k) <= zr(x.r), zr(x.r) < z3.ToReal(k) + 1)))
    memo[key] = (SD(k, x.nan), x)
    return memo[key][0]


def Timedelta(value=None, unit=None, **kw):
    if value is None and kw:
        tot = 0
        for k, v in kw.items():
            if k not in UNITS:
                raise Unsupported('Timedelta kw')
            tot = tot + td_from(v, UNITS[k]).v
        return SD(tot)
    if isinstance(value, SD):
        return value
    if isinstance(value, str):
        return parse_td(value)
    if isinstance(value, Freq):
        return SD(value.nanos.v)
    if isinstance(value, (int, float, SF, SI)):
        return td_from(value, UNITS[(unit or 'ns').lower()])
    raise Unsupported(f'Timedelta({type(value)})')


def to_timedelta(x, unit=None, **kw):
    if isinstance(x, (Series, Arr)):
        return x._map(lambda v: td_from(v, UNITS[(unit or 'ns').lower()]))
    return Timedelta(x, unit)


def to_offset(x):
    if isinstance(x, (Freq, DateOffset)) or x is None:
        return x
    if isinstance(x, str):
        m = TOK.search(x)
        if m:
            v = ctx().tokens[m.group(0)]
            unit = x.replace(m.group(0), '').strip()
            u = UNITS.get(unit.lower())
            if u is None or not isinstance(v, SI):
                raise Unsupported('offset text')
            return Freq(x, SI(zi(v.v) * u))
        mm = re.fullmatch(r'(\d*)([A-Za-z]+)', x)
        if mm and mm.group(2).lower() in UNITS and mm.group(2) not in ('M', 'W'):
            return Freq(x, SI(z3.IntVal(int(mm.group(1) or 1) * UNITS[mm.group(2).lower()])))
        if x in ('M', 'MS', 'ME', 'W', 'Y', 'YE', 'YS', 'A', 'AS'):
            return Freq(x, fixed=False)
        f = ctx().tokens.get(('freqstr', x))
        if f is not None:
            return f
    raise Unsupported(f'to_offset({x!r})')


def date_range(start=None, end=None, freq=None, periods=None, **kw):
    """regular grid from start to end: uninterpreted label set"""
    if periods is not None or kw:
        raise Unsupported('date_range options')
    fr = to_offset(freq) if isinstance(freq, str) else freq
    a = [start.v, end.v]
    c = ctx()
    key = ('date_range', a[0].get_id(), a[1].get_id(), str(freq))
    if key in c.appkey:
        d = c.appkey[key][0]
    else:
        d = Dom('T', lambda t: opaque_fun('grid', params=[fr, start.tz], args=[a[0], a[1]],
                                          sorts=[z3.BoolSort]).outs[0](t), name='grid')
        c.appkey[key] = (d, a)
        c.universal('T', lambda u: Implies(d.mem(u), And(a[0] <= u, u <= a[1])))
        c.assume(Implies(a[0] <= a[1], d.mem(a[0])))
    return DatetimeIndex(d, tz=start.tz, freq=fr)


def to_datetime(x, utc=None, **kw):
    if isinstance(x, Index):
        return DatetimeIndex(x._dom, name=x.name, tz='UTC' if utc else x.tz)
    if isinstance(x, Arr) and x.labels is not None:
        return DatetimeIndex(x.labels, tz='UTC' if utc else None)
    if isinstance(x, Series):
        return x
    raise Unsupported('to_datetime')


def concat(objs, axis=0, join='outer', **kw):
    if isinstance(objs, dict):
        keys, objs = list(objs), list(objs.values())
        kw['keys'] = keys
    objs = list(objs)
    if axis not in (1, 'columns'):
        raise Unsupported('concat axis 0')
    d = objs[0]._dom
    for o in objs[1:]:
        d = dom_union(d, o._dom) if join == 'outer' else dom_inter(d, o._dom)
    ix = objs[0].index if d is objs[0]._dom else objs[0].index.like(d)
    cols = {}
    n = 0
    keys = kw.get('keys')
    for i, o in enumerate(objs):
        if isinstance(o, Series):
            nm = keys[i] if keys else o.name
            if nm is None or nm in cols:
                nm = n
                n += 1
            if nm in cols:
                nm = f'{nm}#{i}'
            cols[nm] = o._aligned(d)
        else:
            for c_ in o._cols:
                cols[c_] = o[c_]._aligned(d)
    return DataFrame._mk(ix, {k: memo_cell(v) for k, v in cols.items()})


class AsOf:
    """library operator: the closest right row (label) on the stated side of a key value, within a tolerance; among
    equal keys the last (backward) or first (forward) row in the given order"""
    @staticmethod
    def of(dom, rk, tolerance=None, direction='backward', stable=True):
        c = ctx()
        k = ('asof', dom.axis, c.pkey(dom.axis, dom.mem), c.pkey(dom.axis, rk),
             None if tolerance is None else c.vkey(tolerance), direction, stable)
        o = c.opscache.get(k)
        if o is None:
            o = c.opscache[k] = AsOf()
            o.dom, o.rk, o.tol, o.dir, o.stable, o.memo = dom, rk, tolerance, direction, stable, {}
            if direction not in ('backward', 'forward'):
                raise Unsupported('merge_asof nearest')
        return o

    def match(self, L):
        c = ctx()
        Lv = zi(L.v)
        kk = Lv.get_id()
        if kk in self.memo:
            r = self.memo[kk]
            c.reuse(r[3])
            return r[:2]
        e, p = c.bool('asof.ex'), c.int('asof')
        self.memo[kk] = (e, p, Lv, None)
        rk, tol = self.rk, self.tol
        back = self.dir == 'backward'

        def ok(u):
            R = rk(u)
            cond = And(Not(R.nat), R.v <= Lv if back else R.v >= Lv)
            if tol is not None:
                cond = And(cond, (Lv - R.v if back else R.v - Lv) <= zi(tol.v))
            return cond

        def better(u):
            a, b = rk(u).v, rk(p).v
            if back:
                return Or(a < b, And(a == b, u <= p if self.stable else True))
            return Or(a > b, And(a == b, u >= p if self.stable else True))

        def build():
            c.note(self.dom.axis, p)
            c.assume(Implies(e, And(self.dom.mem(p), ok(p))))
            c.universal(self.dom.axis, lambda u: Implies(And(self.dom.mem(u), ok(u)), And(e, better(u))))
        _, rec = c.record(build)
        self.memo[kk] = (e, p, Lv, rec)
        return e, p


def merge_asof(left, right, left_on=None, right_on=None, on=None, suffixes=('_x', '_y'), tolerance=None,
               direction='backward', allow_exact_matches=True, **kw):
    """for each left row: the last right row (in right_on order) with
    right_on <= left_on and within tolerance"""
    if kw or not allow_exact_matches:
        raise Unsupported('merge_asof options')
    if on is not None:
        left_on = right_on = on
    stable = True
    if isinstance(right, Sorted):
        stable, right = right.stable, right.df
    lk, rk = left._cols[left_on], right._cols[right_on]
    op = AsOf.of(right._dom, rk, tolerance, direction, stable)

    def match(t):
        return op.match(lk(t))
    cols = {}
    for n, f in left._cols.items():
        nm = n + suffixes[0] if (n in right._cols and not (n == left_on == right_on)) else n
        cols[nm] = f
    for n, f in right._cols.items():
        if n == left_on == right_on:
            continue
        nm = n + suffixes[1] if n in left._cols else n

        def g(t, f=f):
            e, p = match(t)
            return ite(e, f(p), nan_like(f(p)))
        cols[nm] = memo_cell(g)
    return DataFrame._mk(left.index, cols)


class Grouper:
    def __init__(self, key=None, freq=None, **kw):
        self.key, self.freq, self.kw = key, freq, kw


def Timestamp(x, tz=None):
    if isinstance(x, ST):
        return x
    raise Unsupported('Timestamp()')


def pandas_stub():
    off = Stub('pandas.tseries.offsets', dict(DateOffset=(Freq, DateOffset)))
    fr = Stub('pandas.tseries.frequencies', dict(to_offset=to_offset))
    off2 = Stub('pandas.tseries.offsets', {})
    ts = Stub('pandas.tseries', dict(frequencies=fr, offsets=Stub('off', dict(DateOffset=OffsetBase, Day=lambda n=1: to_offset(f'{n}D'), MonthEnd=lambda n=1: to_offset('ME' if n == 1 else f'{n}ME')))))
    d = dict(Series=Series, DataFrame=DataFrame, Index=Index, DatetimeIndex=DatetimeIndex, RangeIndex=RangeIndex,
             Timedelta=Timedelta, to_timedelta=to_timedelta, to_datetime=to_datetime, date_range=date_range,
             infer_freq=infer_freq, concat=concat, isnull=isnull, isna=isnull, notnull=notnull, notna=notnull,
             DateOffset=DateOffset, merge_asof=merge_asof, Grouper=Grouper, Timestamp=Timestamp, tseries=ts,
             NaT=ST(0, True), NA=float('nan'), offsets=Stub('off', dict(DateOffset=OffsetBase, Day=lambda n=1: to_offset(f'{n}D'), MonthEnd=lambda n=1: to_offset('ME' if n == 1 else f'{n}ME'))))
    return Stub('pandas', d)


class _OffMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (Freq, DateOffset))


class OffsetBase(metaclass=_OffMeta):
    def __new__(cls, *a, **k):
        return DateOffset(*a, **k)


# ------------------------------------------------------------------ builtins
def vc_len(x):
    f = getattr(type(x), '__vc_len__', None)
    if f is not None:
        return f(x)
    return builtins.len(x)


def vc_min(*a, **k):
    if builtins.len(a) == 2 and any(isinstance(x, (SF, SI)) for x in a):
        x, y = a
        # python min(x, y): y if y < x else x
        return ite((SF.of(y) < SF.of(x)).b, wrap(y), wrap(x)) if not all(isinstance(v, (SI, int)) for v in a) \
            else SI(z3.If(zi(y.v if isinstance(y, SI) else y) < zi(x.v if isinstance(x, SI) else x),
                          zi(y.v if isinstance(y, SI) else y), zi(x.v if isinstance(x, SI) else x)))
    if builtins.len(a) == 1 and isinstance(a[0], (Series, Arr)):
        return a[0].min()
    return builtins.min(*a, **k)


def vc_max(*a, **k):
    if builtins.len(a) == 2 and any(isinstance(x, (SF, SI)) for x in a):
        x, y = a
        return ite((SF.of(y) > SF.of(x)).b, wrap(y), wrap(x)) if not all(isinstance(v, (SI, int)) for v in a) \
            else SI(z3.If(zi(y.v if isinstance(y, SI) else y) > zi(x.v if isinstance(x, SI) else x),
                          zi(y.v if isinstance(y, SI) else y), zi(x.v if isinstance(x, SI) else x)))
    if builtins.len(a) == 1 and isinstance(a[0], (Series, Arr)):
        return a[0].max()
    return builtins.max(*a, **k)


def vc_all(x):
    if isinstance(x, (Series, Arr)):
        return x.all()
    return builtins.all(x)


def vc_any(x):
    if isinstance(x, (Series, Arr)):
        return x.any()
    return builtins.any(x)


def vc_sum(x, *a):
    if isinstance(x, Arr):
        return x.__vc_reduce__('sum')
    if isinstance(x, Series):
        return reduce_(x._dom, x._cell, 'sum', skipna=False)
    return builtins.sum(x, *a)


class vc_float_meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, SF))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class vc_float(float, metaclass=vc_float_meta):
    def __new__(cls, x=0.0):
        if isinstance(x, (SF, SI, SB)):
            return SF.of(x)
        return float(x)


class vc_int_meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, SI))

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class vc_int(int, metaclass=vc_int_meta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SI):
            return x
        if isinstance(x, SF):
            if ctx().decide(Not(x.fin)):
                raise ValueError('cannot convert float NaN to integer')
            if x.const():
                return int(x.r)
            k = ctx().int('trunc')
            # truncation toward zero
            r = zr(x.r)
            ctx().assume(z3.If(r >= 0, z3.And(z3.ToReal(k) <= r, r < z3.ToReal(k) + 1),
                               z3.And(z3.ToReal(k) >= r, r > z3.ToReal(k) - 1)))
            return SI(k)
        if isinstance(x, SB):
            return SI(z3.If(zb(x.b), z3.IntVal(1), z3.IntVal(0)))
        return int(x, *a)


def vc_isinstance(o, cls):
    if isinstance(cls, tuple):
        return any(vc_isinstance(o, c) for c in cls)
    if isinstance(cls, Absent):
        return False
    if cls is bool:
        return isinstance(o, (bool, SB))
    if cls in (float, int, vc_float, vc_int):
        if cls in (int, vc_int):
            return isinstance(o, (int, SI))
        return builtins.isinstance(o, (float, SF))
    if isinstance(cls, type(Timedelta)) and cls is Timedelta:
        return isinstance(o, SD)
    if isinstance(cls, type(Timestamp)) and cls is Timestamp:
        return isinstance(o, ST)
    return builtins.isinstance(o, cls)


def vc_range(*a):
    if any(isinstance(x, SI) for x in a):
        if builtins.len(a) == 1 or (builtins.len(a) == 2 and isinstance(a[0], int) and a[0] == 0):
            return SRange(a[-1].v)
        raise Unsupported('range over a symbolic count')
    return builtins.range(*a)


class SIter:
    """iterator of n items, item(k) for a symbolic k"""
    def __init__(self, n, item):
        self.n, self.item = n, item

    def __iter__(self):
        raise Unsupported('symbolic iterator without a loop contract')


def vc_enumerate(x, start=0):
    if hasattr(x, 'n') and not isinstance(x, (list, tuple)):
        it = x.item if hasattr(x, 'item') else (lambda k: SI(k))
        return SIter(x.n, lambda k: (SI(zi(k) + start), it(k)))
    return enumerate(x, start)


def vc_sorted(x, **k):
    return builtins.sorted(x, **k)


class WarnStub:
    def warn(self, msg, category=None, *a, **k):
        ctx().warnings.append((category.__name__ if isinstance(category, type) else 'UserWarning', str(msg)))

    def catch_warnings(self, *a, **k):
        return _NullCM()

    def simplefilter(self, *a, **k):
        pass

    def filterwarnings(self, *a, **k):
        pass

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Absent('warnings.' + k)


# ------------------------------------------------------------------ statsmodels
def is_one(cell, axis):
    v = ctx().at_probe(axis, cell)
    v = SF.of(v) if _scalar(v) else None
    return v is not None and v.const() and v.r == 1


class OLSResults:
    def __init__(self, params, bse, mse, cov):
        self.params, self.bse, self.mse_resid, self._cov = params, bse, mse, cov

    def cov_params(self):
        return self._cov

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('OLS results: ' + k)


def ols_fit(dom, y, x, missing='drop'):
    """least-squares line of y against x over the rows of dom (named functional): dict of its numbers"""
    ok = (lambda t: And(dom.mem(t), Not(isnan(y(t))), Not(isnan(x(t))))) if missing == 'drop' else dom.mem
    names = ('intercept', 'slope', 'intercept_stderr', 'slope_stderr', 'mse')
    a = opaque('ols', params=[missing], inputs=[(dom.axis, ok, lambda t: (SF.of(y(t)), SF.of(x(t))))],
               mk=lambda: tuple(SF.fresh('ols_' + n) for n in names))
    return dict(zip(names, a.outs))


class OLS:
    def __init__(self, endog=None, exog=None, hasconst=None, missing='none', **kw):
        if kw or not isinstance(exog, DataFrame) or len(exog._cols) != 2 or not isinstance(endog, Series):
            raise Unsupported('OLS form')
        if endog._dom.ident() is not exog._dom.ident():
            raise Unsupported('OLS over different indexes')
        self.y, self.X, self.missing = endog, exog, missing

    def fit(self, *a, **k):
        if a or k:
            raise Unsupported('OLS.fit options')
        d = self.y._dom
        one = [is_one(c, d.axis) for c in self.X._cols.values()]
        if sorted(one) != [False, True]:
            raise Unsupported('OLS without exactly one constant column')
        x = [c for c, o in zip(self.X._cols.values(), one) if not o][0]
        r = ols_fit(d, self.y._cell, x, self.missing)
        pick = lambda s: CArr(r['intercept' + s] if o else r['slope' + s] for o in one)
        p, b = pick(''), pick('_stderr')
        return OLSResults(p, b, r['mse'], OArr('cov', tuple(p) + tuple(b) + (repr(one),)))


def add_constant(data, prepend=True, has_constant='skip'):
    if not isinstance(data, DataFrame):
        raise Unsupported('add_constant')
    c = {'const': lambda t: SF.of(1.0)}
    if has_constant != 'add':
        # a column that is constant already suppresses the new one
        for n, f in data._cols.items():
            s = Series._mk(data.index, f)
            lo, hi = s.min(), s.max()
            if ctx().decide(And(SF.of(lo)._eq(SF.of(hi)), Not(SF.of(lo).zero()))):
                return data
    return DataFrame._mk(data.index, {**c, **data._cols} if prepend else {**data._cols, **c})


def statsmodels_stub():
    return Stub('statsmodels', dict(api=Stub('statsmodels.api', dict(OLS=OLS, add_constant=add_constant))))


from . import strict as _strict, stubs as _me    # noqa: E402
_strict.apply(_me)
