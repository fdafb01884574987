from vc.api import *

P = 'C08'
DAY = 86400 * 10**9
ASSUME = ['pandas: merge_asof matches each left row with the last right row whose key is <= the left key and within the '
          'tolerance; adding a calendar year is a monotone shift of 364..367 days; median is a named functional of the '
          'non-missing values']
F = ['degradation.degradation_year_on_year']
NAN_ = float('nan')


class Spec:
    """the pairs and slopes the property promises"""
    def __init__(self, x, renorm):
        yr = DateOffset(years=1)
        self.x, self.renorm = x, renorm
        self.Y = lambda p: yr._vc_add(ST(p))
        self.op = AsOf.of(x._dom, self.Y, SD(8 * DAY))
        self.slope = memo_cell(self._slope)

    def pair(self, t):
        return self.op.match(ST(t))

    def _slope(self, t):
        e, p = self.pair(t)
        a = SF.of(self.x._cell(t)) / self.renorm
        b = ite(e, SF.of(self.x._cell(p)) / self.renorm, SF.of(NAN_))
        return 100.0 * (a - b) / (SD(t - p, Not(e)) / SD(365 * DAY))


def ends(x):
    return setops(x._dom).first()[1], setops(x._dom).last()[1]


def setup(u, rec, order='asc', method='none', **kw):
    x = sym_series('x', nonempty=True, order=order)
    bad, r = raises(ValueError, lambda: u.degradation.degradation_year_on_year(
        x, recenter=rec, uncertainty_method=method, **kw))
    xs = Series._mk(DatetimeIndex(x._dom.with_(order='asc')), x._cell)
    f, l = ends(xs)
    renorm = SF.of(1.0)
    if rec:
        renorm = u.utilities.robust_median(xs[ST(f):ST(f) + Timedelta('364d')])
    sp = Spec(xs, renorm)
    return x, xs, bad, r, renorm, sp


@contract(P, 'pairs are the latest point a calendar year before, within 8 days', [], assumptions=ASSUME)
def _(u):
    """the library operator used by the specification means what the property says"""
    x = sym_series('x', nonempty=True)
    sp = Spec(x, SF.of(1.0))
    t, q = label(), label()
    e, p = sp.pair(t)
    Y = lambda v: sp.Y(v).v
    ensure('pair:is-a-point', Implies(e, x._dom.mem(p)))
    ensure('pair:a-year-before', Implies(e, And(Y(p) <= t, t - Y(p) <= 8 * DAY, p < t)))
    ensure('pair:latest', Implies(And(e, x._dom.mem(q), Y(q) <= t), q <= p))
    ensure('pair:complete', Implies(And(x._dom.mem(q), Y(q) <= t, t - Y(q) <= 8 * DAY), e))


@contract(P, 'rate is the median of the slopes', F, assumptions=ASSUME)
def _(u):
    x, xs, bad, rd, renorm, sp = setup(u, fork('recenter', True, False), fork('order', 'asc', 'any'))
    unchanged()
    if bad:
        return
    d = xs._dom.sub(lambda t: Not(isnan(sp.slope(t))))
    ensure('rate:is-median-of-slopes', same(SF.of(rd), reduce_(xs._dom, sp.slope, 'median')))
    ensure('rate:has-pairs', setops(d).first()[0])


@contract(P, 'reported slopes, factor and usage', F, assumptions=ASSUME)
def _(u):
    x, xs, bad, r, renorm, sp = setup(u, fork('recenter', True, False), method='simple')
    unchanged()
    if bad:
        return
    rd, ci, info = r
    sl = sp.slope
    y, us = info['YoY_values'], info['usage_of_points']
    ensure('renormalizing_factor', same(SF.of(info['renormalizing_factor']), renorm))
    t = label()
    ensure('YoY_values:index', Iff(y._dom.mem(t), And(xs._dom.mem(t), Not(isnan(sl(t))))))
    ensure('YoY_values:value', Implies(And(xs._dom.mem(t), Not(isnan(sl(t)))), same(y._cell(t), sl(t))))
    ensure('usage_of_points:index', Iff(us._dom.mem(t), xs._dom.mem(t)))
    e, q = canon_ops('T', lambda q: And(xs._dom.mem(q), sp.pair(q)[0], sp.pair(q)[1] == t), 'user').first()
    cnt = ite(Not(isnan(sl(t))), SF.of(1), SF.of(0)) + ite(And(e, Not(isnan(sl(q)))), SF.of(1), SF.of(0))
    ensure('usage_of_points:value', Implies(xs._dom.mem(t), same(SF.of(us._cell(t)), cnt)))
    ensure('rate', same(SF.of(rd), reduce_(xs._dom, sl, 'median')))


@contract(P, 'rescaling does not change the slopes', ['utilities.robust_median'], assumptions=ASSUME + [
    'robust_median scales with the data (contract of C25)'])
def _(u):
    """lemma over the contracts: with the factor k on the data and, by the contract of robust_median, on the renormalizing
    factor, every slope - hence their median - stays the same"""
    x = sym_series('x', nonempty=True)
    k, R = sym_float('k'), sym_float('R', nan=True)
    assume(k.r > 0)
    quot = lambda v: same(v * k / (R * k), v / R)
    if fork('step', 'quotient', 'slopes') == 'quotient':
        ensure('rescaling:same-quotient', quot(sym_float('v', nan=True)))
        return
    a = Spec(x, R)
    b = Spec(x._map(lambda v: v * k), R * k)
    t = label()
    for p in (t, a.pair(t)[1]):
        assume(quot(SF.of(x._cell(p))))     # the lemma of the other path, at the two values used
    ensure('rescaling:same-slopes', same(a.slope(t), b.slope(t)))


@contract(P, 'less than two years or no pairs raises', F, assumptions=ASSUME)
def _(u):
    x, xs, bad, rd, renorm, sp = setup(u, fork('recenter', True, False))
    f, l = ends(xs)
    yrs = DateOffset(years=2)
    if xs.index.inferred_freq is not None:
        lim = (ST(f) + yrs) - to_offset(xs.index.inferred_freq)
    else:
        lim = (ST(f) + yrs) - xs.index.to_series().diff().median()
    d = xs._dom.sub(lambda t: Not(isnan(sp.slope(t))))
    short = (ST(l) < lim).b
    ensure('raises-iff-short-or-no-pairs', Iff(bad, Or(short, Not(setops(d).first()[0]))))
