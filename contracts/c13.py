"""C13: the daily soiling table (events, intervals, day count, normalisation) of SRRAnalysis, for any record"""
from vc.api import *
import contracts.srrwiring    # noqa: F401

P = 'C13'
ASSUME = ['pandas join, ffill/bfill with a limit, shift, diff, cumsum and rolling as library contracts; the rolling median is an '
          'uninterpreted function of the window, the centring and the filled daily series']
DAY = 86400 * 10**9


def anchor(u, precip):
    S = u.soiling.SRRAnalysis
    s = object.__new__(S)
    s.pm = sym_series('pm')
    s.insolation_daily = sym_series('ins')
    s.precipitation_daily = sym_series('rain') if precip else None
    return s


def at(s, t):
    """value of a series at a day, missing where the series has none"""
    return ite(s._dom.mem(t), s._cell(t), SF.of(float('nan')))


for CRIT in ('shift', 'precip', 'precip_and_shift', 'precip_or_shift'):
    @contract(P, f'_calc_daily_df, {CRIT}', ['soiling.SRRAnalysis._calc_daily_df'], assumptions=ASSUME)
    def _(u, CRIT=CRIT):
        ctx().cumdepth = 1      # one step of the recurrence is all that is used
        s = anchor(u, precip=fork('precipitation', True, False))
        x, ins, rain = s.pm, s.insolation_daily, s.precipitation_daily
        day_scale = SI(ctx().int('day_scale'))
        assume(zi(day_scale.v) >= 1)
        rec = fork('recenter', True, False)
        thr = fork('threshold', 'infer', 'given')
        given = sym_float('thr')
        prthr, of = sym_float('prthr'), sym_float('of', lo=0)
        none, _r = raises(IndexError, lambda: s._calc_daily_df(
            day_scale=day_scale, clean_threshold='infer' if thr == 'infer' else given, recenter=rec,
            clean_criterion=CRIT, precip_threshold=prthr, outlier_factor=of))
        vops = canon_ops('T', lambda t: And(x._dom.mem(t), Not(x._cell(t).nan)), 'data')
        e, first = vops.first()
        _, last = vops.last()
        if none:
            ensure('rejected only without data', Not(e))
            return
        df = s.daily_df
        t = label()
        mem = lambda t: And(x._dom.mem(t), t >= first, t <= last)
        D = Dom('T', mem, name='days')
        ensure('days: every day from the first to the last with data', Iff(df._dom.mem(t), mem(t)))
        if rec:
            renorm = reduce_(Dom('T', lambda t: And(mem(t), t <= first + 364 * DAY), name='year1'), x._cell, 'median')
        else:
            renorm = SF.of(1)
        ensure('renormalizing factor', same(SF.of(s.renorm_factor), renorm))
        pin = memo_cell(lambda t: SF.of(x._cell(t)) / renorm)
        ops = canon_ops('T', mem, 'days')
        pos = position(D)
        known = canon_ops('T', lambda t: And(mem(t), Not(pin(t).nan)), 'known')

        def filled(t):
            e, p = known.prev(t, strict=False)
            return ite(Not(pin(t).nan), pin(t), ite(And(e, zi(pos(t).v) - zi(pos(p).v) <= zi(day_scale.v)), pin(p), SF.of(float('nan'))))
        med = Series._mk(DatetimeIndex(D), memo_cell(filled)).rolling(day_scale, center=True).median()._cell

        def delta(t):
            e, p = ops.prev(t)
            return ite(e, SF.of(med(t)) - SF.of(med(p)), SF.of(float('nan')))
        delta = memo_cell(delta)
        if thr == 'infer':
            size = memo_cell(lambda t: abs(SF.of(delta(t))))
            q3, q1 = reduce_(D, size, 'quantile', q=SF.of(0.75)), reduce_(D, size, 'quantile', q=SF.of(0.25))
            limit = q3 + of * (q3 - q1)
        else:
            limit = given
        shift = lambda t: (SF.of(delta(t)) > limit).b
        wet = (lambda t: (at(rain, t) > prthr).b) if rain is not None else (lambda t: (SF.of(0) > prthr).b)

        def near(t):
            e1, p = ops.prev(t)
            e2, n = ops.next(t)
            return Or(wet(t), And(e1, wet(p)), And(e2, wet(n)))
        event = {'shift': shift, 'precip': wet, 'precip_or_shift': lambda t: Or(shift(t), wet(t)),
                 'precip_and_shift': lambda t: And(shift(t), near(t))}[CRIT]

        def outage(t):
            e1, n = known.next(t)
            e2, p = known.prev(t)
            has = Not(pin(t).nan)
            return And(has, Or(And(e1, zi(pos(n).v) - zi(pos(t).v) - 1 > zi(day_scale.v)),
                               And(e2, zi(pos(t).v) - zi(pos(p).v) - 1 > zi(day_scale.v))))
        zero = lambda v: ite(SF.of(v).nan, SF.of(0), SF.of(v))
        c = {k: df._cols[k] for k in ('pi_norm', 'insol', 'day', 'delta', 'clean_event', 'run')}
        if not isinstance(c['clean_event'](t), SB):
            raise Unsupported('events are not booleans')
        ensure('normalised performance', Implies(mem(t), same(SF.of(c['pi_norm'](t)), zero(pin(t)))))
        ensure('insolation', Implies(mem(t), same(SF.of(c['insol'](t)), zero(at(ins, t)))))
        ensure('day number', Implies(mem(t), same(SF.of(c['day'](t)), SF.of(pos(t)))))
        ensure('shift of the rolling median', Implies(mem(t), same(SF.of(c['delta'](t)), zero(delta(t)))))
        ensure('event', Implies(And(mem(t), Not(renorm.nan), Not(renorm.zero())), Iff(c['clean_event'](t).b, Or(event(t), outage(t)))))
        e, p = ops.prev(t)
        run, before = SF.of(c['run'](t)), SF.of(c['run'](p))
        ensure('interval number', Implies(And(mem(t), e), same(run, before + ite(c['clean_event'](t).b, SF.of(1), SF.of(0)))))
        unchanged()


@contract(P, '_calc_daily_df, unknown criterion', ['soiling.SRRAnalysis._calc_daily_df'], assumptions=ASSUME)
def _(u):
    s = anchor(u, precip=fork('precipitation', True, False))
    r, v = raises((ValueError, IndexError), lambda: s._calc_daily_df(clean_criterion='other'))
    ensure('rejected', r)
    unchanged()


@contract(P, 'SRRAnalysis.__init__', ['soiling.SRRAnalysis.__init__'], assumptions=['pandas.infer_freq tells whether an index is daily'])
def _(u):
    args, freqs = [], []
    for n in ('pm', 'ins', 'rain'):
        s = sym_series(n)
        f = fork('frequency of ' + n, 'D', '2D', None)
        s._dom.ident()._inferred = f
        args.append(s)
        freqs.append(f)
    if fork('precipitation', True, False):
        bad = any(f != 'D' for f in freqs)
    else:
        args[2] = None
        bad = any(f != 'D' for f in freqs[:2])
    r, a = raises(ValueError, lambda: u.soiling.SRRAnalysis(*args))
    ensure('non-daily input rejected', r == bad)
    if not r:
        ensure('inputs kept', a.pm is args[0] and a.insolation_daily is args[1] and a.precipitation_daily is args[2])
    unchanged()
