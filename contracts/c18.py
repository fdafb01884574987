from vc.api import *

P = 'C18'
ASSUME = ['pandas: row- and column-wise mean, median, sum, min, quantile are named functionals of the non-missing values (between '
          'their smallest and largest; sum of non-negative terms non-negative)']
NAN_ = float('nan')


def table(ix, cols):
    f = z3.Function(ctx().fresh('sub'), z3.IntSort(), z3.IntSort(), z3.RealSort())
    n = z3.Function(ctx().fresh('sub.nan'), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    return Wide(ix, cols, lambda t, s: SF(n(t, s), False, False, f(t, s)), owner='sub')


def build(u, thr, sizes, limit):
    ix = sym_index('ix', owner='system')
    cols = Dom.fresh('S', 'subsystems', nonempty=True)
    sub = table(ix, cols)
    ps = sym_series('system', ix)
    a = object.__new__(u.availability.AvailabilityAnalysis)
    a.power_system, a.power_subsystem = ps, sub
    low = None
    if thr == 'one':
        low = sym_float('low', lo=0)
    elif thr == 'per subsystem':
        low = Series._mk(Index(cols), cell_fun('low', nan=False, lo=0))
    rel = None
    if sizes == 'given':
        c = cell_fun('size', nan=False)
        rel = Series._mk(Index(cols), memo_cell(lambda s: c(s)))
        ctx().universal('S', lambda s: Implies(cols.mem(s), zr(c(s).r) > 0))
    lim = sym_float('limit', lo=0) if limit else None
    a._calc_loss_subsystem(low, rel, lim)
    return ix, cols, sub, ps, low, rel, lim, a


class Spec:
    def __init__(self, cols, ix, sub, ps, low, rel, lim):
        self.cols, self.ix, self.low = cols, ix, low
        zero = SF.of(0)
        p0 = self.p0 = lambda t, s: ite(isnan(sub.cell2(t, s)), zero, sub.cell2(t, s))
        if low is None:
            th = memo_cell(lambda s: reduce_(ix._dom, lambda t: p0(t, s), 'quantile', 0.99) / 1000)
        elif isinstance(low, SF):
            th = lambda s: low
        else:
            th = low._cell
        self.on = lambda t, s: (p0(t, s) > th(s)).b
        self.off = lambda t, s: (p0(t, s) <= th(s)).b
        self.rep = lambda t, s: ite(self.on(t, s), p0(t, s), SF.of(NAN_))
        if rel is None:
            mean = memo_cell(lambda t: reduce_(cols, lambda s: self.rep(t, s), 'mean'))
            size = memo_cell(lambda s: reduce_(ix._dom, lambda t: self.rep(t, s) / mean(t), 'median'))
        else:
            size = rel._cell
        self.size = size
        self.actual = lambda t: ite(And(Not(isnan(ps._cell(t))), (ps._cell(t) < zero).b), zero, ps._cell(t))
        self.full = memo_cell(lambda t: reduce_(cols, lambda s: self.rep(t, s) / size(s), 'mean') * SF.of(dom_card(cols)))
        tot = reduce_(cols, size, 'sum')
        self.frac = memo_cell(lambda s: size(s) / tot)
        self.share_on = memo_cell(lambda t: reduce_(cols, lambda s: SB(self.on(t, s)) * self.frac(s), 'sum'))
        small = memo_cell(lambda t: reduce_(cols, lambda s: ite(self.off(t, s), SF.of(1), SF.of(NAN_)) * self.frac(s), 'min'))
        self.smallest = lambda t: ite(isnan(small(t)), SF.of(1), small(t))
        ex = lambda t, pred: canon_ops('S', lambda s: And(cols.mem(s), pred(t, s)), 'some').first()[0]
        self.all_on = memo_cell(lambda t: SB(Not(ex(t, lambda t, s: Not(self.on(t, s))))))
        self.none_on = memo_cell(lambda t: SB(Not(ex(t, self.on))))
        self.lim = lim
        self.loss = memo_cell(self._loss)

    def ratio(self, t):
        f = self.actual(t) / self.full(t)
        lo, one = self.share_on(t), SF.of(1)
        f = ite(And(Not(f.nan), f._lt(lo)), lo, f)
        return ite(And(Not(f.nan), one._lt(f)), one, f)

    def _loss(self, t):
        zero = SF.of(0)
        f = self.ratio(t)
        p = self.actual(t)
        down = And((1 - p / self.full(t) > 0.75 * self.smallest(t)).b, Not(self.all_on(t).b))
        v = ite(down, (1 - f) / f * p, zero)
        if self.lim is not None:
            room = self.lim - p
            room = ite(And(Not(room.nan), (room < zero).b), zero, room)
            v = ite((v + p > self.lim).b, room, v)
        return ite(isnan(v), zero, v)


for THR in ('one', 'per subsystem', 'default'):
    for SIZES in ('given', 'derived'):
        @contract(P, f'_calc_loss_subsystem, threshold {THR}, sizes {SIZES}', ['availability.AvailabilityAnalysis._calc_loss_subsystem'],
                  assumptions=ASSUME, sum_facts=True)
        def _(u, THR=THR, SIZES=SIZES):
            ix, cols, sub, ps, low, rel, lim, a = build(u, THR, SIZES, fork('limit', False, True))
            unchanged()
            sp = Spec(cols, ix, sub, ps, low, rel, lim)
            t, s = label(), label('S')
            r = a.loss_subsystem
            same_index(r, ix, t, 'loss:index')
            m = a.reporting_mask
            inn = ix._dom.mem(t)
            ensure('online', Implies(And(inn, cols.mem(s)), Iff(m.cell2(t, s).b, sp.on(t, s))))
            v = SF.of(r._cell(t))
            ensure('loss:value', Implies(inn, same(v, sp.loss(t))))
            ensure('loss:never missing', Implies(inn, Not(v.nan)))
            ensure('loss:zero when all subsystems are online', Implies(And(inn, sp.all_on(t).b), v._eq(SF.of(0))))
            if SIZES == 'given':       # derived sizes: by the lemmas below
                ensure('loss:zero when no subsystem is online', Implies(And(inn, sp.none_on(t).b), v._eq(SF.of(0))))
                ensure('loss:not negative', Implies(inn, SF.of(0)._le(v)))


@contract(P, 'lemma: any sizes that are positive or missing give a non-negative loss', [], assumptions=ASSUME, sum_facts=True)
def _(u):
    """over the formula of the contracts above, for any thresholds >= 0 and sizes"""
    ix = sym_index('ix')
    cols = Dom.fresh('S', 'subsystems', nonempty=True)
    sub = table(ix, cols)
    ps = sym_series('system', ix)
    c = cell_fun('size')
    ctx().universal('S', lambda s: Implies(cols.mem(s), Or(c(s).nan, zr(c(s).r) > 0)))
    rel = Series._mk(Index(cols), c)
    low = Series._mk(Index(cols), cell_fun('low', nan=False, lo=0))
    sp = Spec(cols, ix, sub, ps, low, rel, fork('limit', None, sym_float('limit', lo=0)))
    t = label()
    v = sp.loss(t)
    ensure('never missing', Not(v.nan))
    ensure('zero when all subsystems are online', Implies(sp.all_on(t).b, v._eq(SF.of(0))))
    ensure('zero when no subsystem is online', Implies(sp.none_on(t).b, v._eq(SF.of(0))))
    ensure('not negative', SF.of(0)._le(v))


@contract(P, 'lemma: derived sizes are positive or missing', [], assumptions=ASSUME, sum_facts=True)
def _(u):
    ix = sym_index('ix')
    cols = Dom.fresh('S', 'subsystems', nonempty=True)
    sub = table(ix, cols)
    low = Series._mk(Index(cols), cell_fun('low', nan=False, lo=0))
    sp = Spec(cols, ix, sub, sym_series('system', ix), low, None, None)
    s = label('S')
    v = sp.size(s)
    ensure('positive or missing', Implies(cols.mem(s), Or(v.nan, SF.of(0)._lt(v))))


@contract(P, 'constructor rejects mismatched indexes', ['availability.AvailabilityAnalysis.__init__'], assumptions=ASSUME)
def _(u):
    A = u.availability.AvailabilityAnalysis
    ix = sym_index('a')
    other = sym_index('b')
    which = fork('which', 'subsystem', 'energy', 'expected', 'none')
    mk = lambda n: sym_series(n, other if n == which else ix)
    bad, r = raises(ValueError, lambda: A(mk('system'), mk('subsystem'), mk('energy'), mk('expected')))
    unchanged()
    if which == 'none':
        ensure('matching:accepted', not bad)
        return
    t = label()
    if not bad:
        ensure('accepted only with the same labels', Iff(ix._dom.mem(t), other._dom.mem(t)))
