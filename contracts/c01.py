from vc.api import *
P = 'C01'


def valid_dom(x):
    return x._dom.sub(lambda t: Not(x._cell(t).nan), 'valid')


def gap_series(d):
    """spacing (ns) to the previous valid sample, NaN for the first"""
    ops = setops(d)

    def cell(t):
        e, p = ops.prev(t)
        return SF(Not(e), False, False, z3.ToReal(t - p))
    return Series._mk(Index(d), memo_cell(cell))


def max_gap_ns(x, mx):
    if mx is None:
        return gap_series(valid_dom(x)).median() * 2
    return SF.of(mx.total_seconds()) * 10**9


def interp_spec(x, mx, t):
    """NaN-aware value the contract assigns to time t"""
    d = valid_dom(x)
    ops = setops(d)
    e1, p = ops.prev(t)
    e2, n = ops.next(t)
    m = max_gap_ns(x, mx)
    nan = SF.of(float('nan'))
    a, b = x._cell(p), x._cell(n)
    inside = And(e1, e2, (SF(False, False, False, z3.ToReal(n - p)) <= m).b)
    lin = lerp(a, b, p, n, t)      # the straight line through the two neighbours
    return ite(d.mem(t), x._cell(t), ite(inside, lin, nan))


def two_valid(x):
    """precondition: at least two valid samples (the default gap is undefined otherwise)"""
    d = valid_dom(x)
    e, f = setops(d).first()
    e2, l = setops(d).last()
    assume(And(e, e2, f < l))


def setup(mxs=True, order='asc'):
    tz1, tz2 = fork('tz', (None, None), ('TZA', 'TZB'))
    x = sym_series('x', tz=tz1)
    tgt = sym_index('target', tz=tz2, order=order, owner='target')
    mx = fork('default gap', None, SD(ctx().int('mx')))
    if mx is None:
        two_valid(x)
    else:
        assume(mx.v >= 0)
    return x, tgt, mx


@contract(P, 'interpolate: series onto an index', ['normalization.interpolate', 'normalization._interpolate_series'],
          assumptions=['at least two valid samples when the maximum gap is omitted; sorted unique sample times'])
def _(u):
    x, tgt, mx = setup(order='unk')
    out = u.normalization.interpolate(x, tgt, mx) if mx is not None else u.normalization.interpolate(x, tgt)
    t = label()
    ensure('result-is-a-series', isinstance(out, Series))
    same_index(out, tgt, t, 'indexed-by-target')
    ensure('time-zone-of-target', out.index.tz == tgt.tz)
    ensure('keeps-name', same(out.name, x.name))
    ensure('value', Implies(tgt._dom.mem(t), same(out._cell(t), interp_spec(x, mx, t))))
    unchanged()


def interpolate_series_contract(time_series, target_index, max_timedelta=None, warning_threshold=0.1):
    """callee contract (its body is verified by the first contract)"""
    return Series._mk(target_index, memo_cell(lambda t: interp_spec(time_series, max_timedelta, t)), time_series.name)


@contract(P, 'interpolate: frame column by column', ['normalization.interpolate'],
          overrides={'normalization._interpolate_series': interpolate_series_contract})
def _(u):
    tz = fork('tz', None, 'TZA')
    ix = sym_index('x', tz=tz)
    a, b = sym_series('a', ix, owner=False), sym_series('b', ix, owner=False)
    df = DataFrame._mk(ix, {'A': a._cell, 'B': b._cell}, owner='df')
    tgt = sym_index('target', tz=tz)
    mx = fork('default gap', None, SD(ctx().int('mx')))
    if mx is None:
        two_valid(a)
        two_valid(b)
    else:
        assume(mx.v >= 0)
    out = u.normalization.interpolate(df, tgt, mx)
    t = label()
    ensure('result-is-a-frame', isinstance(out, DataFrame))
    ensure('same-columns', list(out._cols) == ['A', 'B'])
    same_index(out, tgt, t, 'indexed-by-target')
    for c, s in (('A', a), ('B', b)):
        ensure('value-' + c, Implies(tgt._dom.mem(t), same(out._cols[c](t), interp_spec(s, mx, t))))
    unchanged()


@contract(P, 'interpolate: onto a frequency', ['normalization.interpolate'])
def _(u):
    tz = fork('tz', None, 'TZA')
    x = sym_series('x', tz=tz, nonempty=True)
    f = Freq('F')
    mx = SD(ctx().int('mx'))
    assume(mx.v >= 0)
    out = u.normalization.interpolate(x, f, mx)
    ops = setops(x._dom)
    e, first = ops.first()
    e2, last = ops.last()
    t = label()
    # target times: the pandas date range of that frequency from the first to the last sample time
    grid = pandas_stub().date_range(ST(first, tz=tz), ST(last, tz=tz), freq=f)
    ensure('indexed-by-date-range', Iff(out._dom.mem(t), grid._dom.mem(t)))
    ensure('time-zone-of-input', out.index.tz == tz)
    ensure('value', Implies(out._dom.mem(t), same(out._cell(t), interp_spec(x, mx, t))))
    unchanged()


@contract(P, 'interpolate: time zone mismatch', ['normalization.interpolate'])
def _(u):
    tz1, tz2 = fork('tz', (None, 'TZA'), ('TZA', None))
    x = sym_series('x', tz=tz1)
    tgt = sym_index('target', tz=tz2)
    which = fork('kind', 'series', 'frame')
    v = x if which == 'series' else DataFrame._mk(x.index, {'A': x._cell})
    r, e = raises(ValueError, lambda: u.normalization.interpolate(v, tgt))
    ensure('raises-ValueError', r)
