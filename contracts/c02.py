from vc.api import *
from contracts.c01 import interp_spec, valid_dom, gap_series
P = 'C02'
HOUR = 3600 * 10**9
NAN = float('nan')


def span(a, b):
    """elapsed hours between two labels"""
    return SF(False, False, False, z3.ToReal(b - a)) / HOUR


def contributions(ts, target, max_ns, kind):
    """energy contributed by the elementary segment ending at each sample time / interval boundary"""
    bins = ts.resample(target, closed='right', label='right', origin='start').sum()
    U = dom_union(ts._dom, bins._dom)
    V = valid_dom(ts)
    vo, uo = setops(V), setops(U)
    nan = SF.of(NAN)

    def supported(x):
        """x lies after the first valid sample, not beyond the last, in an allowed gap"""
        e0, p = vo.prev(x)
        e1, n = vo.next(x, strict=False)
        first = Not(uo.prev(x)[0])
        ok = And(e0, e1, (SF(False, False, False, z3.ToReal(n - p)) <= max_ns).b)
        return ok, e0, e1, p, n

    def val(x):
        """instantaneous power at x, NaN where unsupported (the very first time needs no preceding gap)"""
        ok, e0, e1, p, n = supported(x)
        isfirst = Not(uo.prev(x)[0])
        lin = lerp(ts._cell(p), ts._cell(n), p, n, x)
        return ite(And(isfirst, V.mem(x)), ts._cell(x), ite(ok, ite(V.mem(x), ts._cell(x), lin), nan))

    def cell(v):
        e, u = uo.prev(v)
        ok, e0, e1, p, n = supported(v)
        if kind == 'right_labeled':
            c = ite(ok, ts._cell(n), nan) * span(u, v)
        else:
            c = (val(v) + val(u)) / 2 * span(u, v)
        return ite(e, c, nan)
    return Series._mk(DatetimeIndex(U, tz=ts.index._tz), memo_cell(cell))


def aggregate_spec(ts, target, max_ns, kind):
    s = contributions(ts, target, max_ns, kind)
    return s.resample(target, closed='right', label='right', origin='start').sum(min_count=1)


@contract(P, '_aggregate', ['normalization._aggregate'],
          assumptions=['at least one valid power value', 'resample bins are a function of the index and the options'])
def _(u):
    tz = 'TZA'
    ts = sym_series('power', tz=tz, nonempty=True)
    e, f = setops(valid_dom(ts)).first()
    assume(e)
    F = Freq('F')
    mx = SD(ctx().int('mx'))
    assume(mx.v >= 0)
    kind = fork('kind', 'right_labeled', 'instantaneous', 'other')
    if kind == 'other':
        r, ex = raises(ValueError, lambda: u.normalization._aggregate(ts, F, mx, 'left'))
        ensure('unknown-power-type-raises-ValueError', r)
        return
    out = u.normalization._aggregate(ts, F, mx, kind)
    m = SF.of(mx.total_seconds()) * 10**9
    spec = aggregate_spec(ts, F, m, kind)
    L = label()
    first = setops(spec._dom).first()[1]
    ensure('labels-are-the-intervals-after-the-first', Iff(out._dom.mem(L), And(spec._dom.mem(L), L != first)))
    ensure('energy-is-the-sum-over-the-interval', Implies(out._dom.mem(L), same(out._cell(L), spec._cell(L))))
    unchanged()


def aggregate_contract(time_series, target_frequency, max_timedelta, series_type):
    """callee contract of _aggregate (body verified above)"""
    if series_type not in ('right_labeled', 'instantaneous'):
        raise ValueError('series_type')
    ensure('callee-precondition:_aggregate-gets-a-valid-sample', setops(valid_dom(time_series)).first()[0])
    spec = aggregate_spec(time_series, target_frequency, SF.of(max_timedelta.total_seconds()) * 10**9, series_type)
    first = setops(spec._dom).first()[1]
    return Series._mk(DatetimeIndex(spec._dom.sub(lambda t: t != first, 'tail'), tz=time_series.index.tz), spec._cell,
                      spec.name)


def interpolate_freq_contract(time_series, target, max_timedelta=None, warning_threshold=0.1):
    """callee contract of interpolate (property C01)"""
    ops = setops(time_series._dom)
    tz = time_series.index.tz
    grid = pandas_stub().date_range(ST(ops.first()[1], tz=tz), ST(ops.last()[1], tz=tz), freq=target)
    return Series._mk(grid, memo_cell(lambda t: interp_spec(time_series, max_timedelta, t)), time_series.name)


class SDlike:
    def __init__(self, ns):
        self.ns = ns

    def total_seconds(self):
        return SF.of(self.ns) / 10**9


def t_step_contract(time_series):
    g = gap_series(time_series._dom)
    return Series._mk(time_series.index, g._cell)


@contract(P, '_t_step_nanoseconds', ['normalization._t_step_nanoseconds'])
def _(u):
    ts = sym_series('x', tz='TZA', nonempty=True)
    out = u.normalization._t_step_nanoseconds(ts)
    t = label()
    same_index(out, ts.index, t, 'index')
    ensure('value', Implies(ts._dom.mem(t), same(out._cell(t), t_step_contract(ts)._cell(t))))
    unchanged()


def efp(default_gap, kind):
  @contract(P, f'energy_from_power: {kind}, {"default" if default_gap else "given"} gap',
          ['normalization.energy_from_power'],
          overrides={'normalization._t_step_nanoseconds': t_step_contract, 'normalization._aggregate': aggregate_contract, 'normalization.interpolate': interpolate_freq_contract},
          assumptions=['the first power value is valid (all-missing power is rejected by an exception)',
                       'target frequency has a fixed length'])
  def _(u):
      tz = 'TZA'
      ts = sym_series('power', tz=tz, nonempty=True)
      ops = setops(ts._dom)
      f, l = ops.first()[1], ops.last()[1]
      assume(And(f < l, Not(ts._cell(f).nan)))
      assume(dom_card(ts._dom) >= 2)
      F = Freq('F')
      mx = None if default_gap else SD(ctx().int('mx'))
      kw = {}
      if mx is not None:
          assume(mx.v >= 0)
          kw['max_timedelta'] = mx
      if kind != 'default':
          kw['power_type'] = kind
      out = u.normalization.energy_from_power(ts, F, **kw)
      steps = gap_series(ts._dom)
      step = steps.median()
      m = step if mx is None else SF.of(mx.total_seconds()) * 10**9
      # gaps are whole nanoseconds: comparing them with the limit or with its whole part is the same
      mt = SF.of(to_timedelta(f'{m} ns').total_seconds()) * 10**9
      fine = bool(SF.of(F.nanos) <= step)
      inner = interpolate_freq_contract(ts, F, SDlike(mt)) if fine else ts
      agg = aggregate_spec(inner, F, mt, 'right_labeled' if kind == 'default' else kind)
      L = label()
      first = setops(agg._dom).first()[1]
      ensure('labels', Iff(out._dom.mem(L), And(agg._dom.mem(L), L != first)))
      e, n = ops.next(L, strict=False)
      over = And(e, (steps._cell(n) > m).b)
      ensure('value', Implies(out._dom.mem(L), same(out._cell(L), ite(over, SF.of(NAN), agg._cell(L)))))
      ensure('name', out.name == 'energy_Wh')
      unchanged()


for _d in (True, False):
    for _k in ('default', 'right_labeled', 'instantaneous'):
        efp(_d, _k)


@contract(P, 'energy_from_power: single sample and rejected inputs', ['normalization.energy_from_power'],
          overrides={'normalization._aggregate': aggregate_contract, 'normalization.interpolate': interpolate_freq_contract})
def _(u):
    case = fork('case', 'single', 'single-index-freq', 'single-instantaneous', 'single-no-freq', 'not-datetime', 'type')
    E = u.normalization.energy_from_power
    if case == 'not-datetime':
        d = Dom.fresh('T', 'p')
        s = Series._mk(Index(d), cell_fun('p'))
        ensure('non-datetime-index-raises-ValueError', raises(ValueError, lambda: E(s))[0])
        return
    has = case == 'single-index-freq'
    F = Freq('F')
    s = sym_series('power', nonempty=True, freq=F if has else None)
    ops = setops(s._dom)
    if case == 'type':
        assume(dom_card(s._dom) >= 2)
        f, l = ops.first()[1], ops.last()[1]
        assume(And(f < l, Not(s._cell(f).nan)))
        ensure('unknown-power-type-raises-ValueError', raises(ValueError, lambda: E(s, F, power_type='left'))[0])
        return
    assume(dom_card(s._dom) == 1)
    if case == 'single-no-freq':
        ensure('no-frequency-raises-ValueError', raises(ValueError, lambda: E(s))[0])
        return
    if case == 'single-instantaneous':
        ensure('instantaneous-single-sample-raises', raises(ValueError, lambda: E(s, F, power_type='instantaneous'))[0])
        return
    out = E(s) if has else E(s, F)
    t = label()
    same_index(out, s.index, t, 'index')
    ensure('value', Implies(s._dom.mem(t), same(out._cell(t), s._cell(t) * SF.of(F.nanos) / HOUR)))
    ensure('name', out.name == 'energy_Wh')
    unchanged()
