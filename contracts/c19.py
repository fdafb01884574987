"""C19: combination of the losses and availability per period (the search for outages by executable contracts)"""
from vc.api import *

P = 'C19'


def efp(x, *a, **k):
    if a or k:
        raise Unsupported('energy_from_power call')
    return opaque_series('energy', [], [x])


def start(u):
    ix = sym_index('ix', owner='times')
    a = object.__new__(u.availability.AvailabilityAnalysis)
    a.loss_system = sym_series('loss_system', ix)
    a.loss_subsystem = sym_series('loss_subsystem', ix)
    a.energy_cumulative_corrected = sym_series('meter', ix)
    return ix, a


@contract(P, '_combine_losses', ['availability.AvailabilityAnalysis._combine_losses'],
          overrides={'normalization.energy_from_power': efp},
          assumptions=['energy_from_power through its contract (C02)', 'pandas resample sum, first and last as library contracts'])
def _(u):
    ix, a = start(u)
    ls, lb, m = a.loss_system, a.loss_subsystem, a.energy_cumulative_corrected
    per = fork('period', 'ME', 'D', '7D', 'default')
    a._combine_losses() if per == 'default' else a._combine_losses(per)
    t = label()
    same_index(a.loss_total, ix, t, 'total:index')
    ensure('total loss', Implies(ix._dom.mem(t), same(a.loss_total._cell(t), ls._cell(t) + lb._cell(t))))
    tot = Series._mk(ix, memo_cell(lambda t: ls._cell(t) + lb._cell(t)))
    rule = u.availability.pd.tseries.offsets.MonthEnd() if per in ('ME', 'default') else per
    lost = efp(tot).resample(rule).sum()
    r = m.resample(rule)
    first, last = r.first(), r.last()
    L = label()
    d = a.results
    ensure('periods', Iff(d.index._dom.mem(L), Or(lost._dom.mem(L), first._dom.mem(L))))
    nan = SF.of(float('nan'))
    lo = ite(lost._dom.mem(L), lost._cell(L), nan)
    ac = ite(first._dom.mem(L), last._cell(L) - first._cell(L), nan)
    ensure('columns', list(d.columns) == ['lost_production', 'actual_production', 'availability'])
    inside = d.index._dom.mem(L)
    ensure('lost', Implies(inside, same(d['lost_production']._cell(L), lo)))
    ensure('actual', Implies(inside, same(d['actual_production']._cell(L), ac)))
    ensure('availability', Implies(inside, same(d['availability']._cell(L), 1 - lo / (lo + ac))))
    unchanged()


@contract(P, 'lemma: availability lies between 0 and 1', [])
def _(u):
    lo, ac = sym_float('lost', lo=0), sym_float('actual', lo=0)
    assume(((lo + ac) > 0).b)
    v = 1 - lo / (lo + ac)
    ensure('between 0 and 1', And((v >= 0).b, (v <= 1).b))
