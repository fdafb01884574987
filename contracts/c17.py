"""C17: combined degradation and soiling.

`iterative_signal_decomposition` is verified for any number of iterations: its while loop is cut at an invariant that says what
the last component of each kind is; the components come from the contracts of their fits (Kalman filter, STL + lowess +
`_force_periodicity`, year on year)."""
import itertools
from vc.api import *

P = 'C17'
NAN = float('nan')
G = {}


def one_series(name, ix, **kw):
    return sym_series(name, ix, **kw)


def kalman(self, zs_series, process_noise=1e-4, zs_std=.05, rate_std=.005, max_soiling_rates=.0005, pruning_iterations=1,
           clean_pruning_sensitivity=.6, renormalize_SR=None, perfect_cleaning=False, prescient_cleaning_events=None, clip_soiling=True,
           ffill=True):
    """contract: one row per day of the signal, soiling ratio a number of at most 1"""
    if clip_soiling is not True:
        raise Unsupported('filter without the bound on the soiling ratio')
    t = label()
    ensure('the filter gets one value per day', Iff(zs_series._dom.mem(t), G['pi']._dom.mem(t)))
    G['fits'] = G.get('fits', 0) + 1
    return soiling_fit(f'kdf{G["fits"]}'), None


def soiling_fit(name):
    ix = G['pi'].index
    sr = cell_fun(name + '.sr', nan=False, hi=1)
    rate = cell_fun(name + '.rate')
    ce = z3.Function(ctx().fresh(name + '.ce'), z3.IntSort(), z3.BoolSort())
    return DataFrame._mk(ix, {'soiling_ratio': sr, 'soiling_rates': rate, 'cleaning_events': memo_cell(lambda t: SB(ce(zi(t))))})


def periodic(name):
    """contract of _force_periodicity: one value per day of year, whatever the year"""
    f = ctx().fresh(name)
    v = z3.Function(f, z3.IntSort(), z3.RealSort())
    n = z3.Function(f + '.nan', z3.IntSort(), z3.BoolSort())
    return Series._mk(G['pi'].index, memo_cell(lambda t: SF(n(doy(t)), False, False, v(doy(t)))))


DOY = z3.Function('dayofyear', z3.IntSort(), z3.IntSort())


def doy(t):
    return DOY(zi(t))


def force_periodicity(in_signal, signal_index, out_index):
    if out_index is not G['pi'].index and not out_index.equals(G['pi'].index):
        raise Unsupported('seasonal component of other days')
    return periodic('season')


class Fit:
    """result of the library's STL: a seasonal and a trend series over the days of the signal"""
    def __init__(self, ix):
        self.seasonal, self.trend = sym_series('stl.seasonal', ix), sym_series('stl.trend', ix)


class STL:
    def __init__(self, endog, period=None, **kw):
        self.ix = endog.index

    def fit(self, *a, **k):
        return Fit(self.ix)


def yoy(energy_normalized, recenter=True, exceedance_prob=95, confidence_level=68.2, uncertainty_method='simple', block_length=30):
    if uncertainty_method is not None:
        raise Unsupported('year on year with uncertainty')
    return sym_float('yoy', nan=False)


def detection(x, y, ffill=True, rolling_window=9, tuner=1.5):
    return sym_bools('ce'), sym_series('rm9', G['pi'].index)


def sym_bools(name):
    f = z3.Function(ctx().fresh(name), z3.IntSort(), z3.BoolSort())
    return Series._mk(G['pi'].index, memo_cell(lambda t: SB(f(zi(t)))))


def collapse(inferred_ce_in, metric, f=4):
    return sym_bools('pce')


def adfuller(x, *a, **k):
    G['adf'] = (sym_float('adf'), sym_float('p'))
    return G['adf']


def trend(rate):
    """1 + day * rate / 100 / 365, days counted from the first"""
    pos = position(G['pi']._dom)
    return memo_cell(lambda t: 1 + SF.of(pos(t)) * SF.of(rate) / 100 / 365.0)


def number(x=0.0):
    if isinstance(x, CArr) and len(x) == 1:
        return x[0]
    return SF.of(x) if isinstance(x, (SF, SI)) else float(x)


def is_series(x):
    return isinstance(x, Series)


class Metric:
    """the error of an intermediate model: it only steers the iteration, whatever it is"""
    def __init__(self, of=None):
        self.of = of

    def _o(self, *a):
        return Metric()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __abs__ = __neg__ = _o

    def _c(self, o):
        return ctx().choose('metric compared')
    __lt__ = __gt__ = __le__ = __ge__ = _c

    def __format__(self, spec):
        return 'metric'


def rmse(y_true, y_pred):
    G['rmse'] = Metric((y_true, y_pred))
    return G['rmse']


class Component:
    """the component at a position of the order of fits"""
    def __init__(self, order, pos):
        self.order, self.pos = order, pos

    def __eq__(self, o):
        if not isinstance(o, str):
            raise Unsupported('component compared')
        return o in G['order'] and ctx().decide(self.order.f(self.pos) == G['order'].index(o))
    __hash__ = None

    def __format__(self, spec):
        return 'component'


class Order:
    """any order of the components that are fitted"""
    def __init__(self):
        self.f, self.n = z3.Function(ctx().fresh('component'), z3.IntSort(), z3.IntSort()), len(G['order'])

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        p = zi(i.v if isinstance(i, SI) else i)
        ctx().assume(And(self.f(p) >= 0, self.f(p) < self.n))
        return Component(self, p)

    def __contains__(self, c):
        return c in G['order']


def still_an_order(o, order0):
    if isinstance(o, Order):
        return True
    if isinstance(o, tuple) and len(o) == len(order0) and all(isinstance(c, Component) for c in o):
        if len({id(c.order) for c in o}) > 1:
            return False
        return And(*[And(c.pos >= 0, c.pos < len(o)) for c in o], z3.Distinct(*[c.pos for c in o]) if len(o) > 1 else True)
    return isinstance(o, tuple) and all(isinstance(c, str) for c in o) and sorted(o) == sorted(order0)


def last(xs):
    if not isinstance(xs, list) or not xs:
        raise Unsupported('components are not kept in a list')
    return xs[-1]


class Decomposition(LoopSpec):
    """what is known at every iteration about the latest component of each kind"""
    def __init__(self):
        pass

    def inv(self, v, e):
        out = []
        order, order0 = v.order, G['order']
        out.append(('the same components are fitted', still_an_order(order, order0)))
        mem = lambda t: G['pi']._dom.mem(t)
        sr, sc, rd, rate = last(v.soiling_ratio), last(v.seasonal_component), last(v.degradation_trend), last(v.yoy_save)
        if v.soiling_dfs:
            k = v.soiling_dfs[-1]
            out.append(('latest soiling ratio is that of the latest fit', Forall('T', lambda t: Implies(mem(t), same(
                SF.of(sr._cell(t)), SF.of(k.soiling_ratio._cell(t)))))))
            out.append(('soiling ratio is a number of at most 1', Forall('T', lambda t: Implies(mem(t), And(
                Not(SF.of(sr._cell(t)).nan), (SF.of(sr._cell(t)) <= 1).b)))))
            out.append(('one row per day', Forall('T', lambda t: Iff(mem(t), k._dom.mem(t)))))
        else:
            out.append(('no soiling ratio yet', not is_series(sr) and sr == 1))
        if is_series(sc):
            out.append(('seasonal component only if asked for', 'SC' in order0))
            out.append(('seasonal component per day', Forall('T', lambda t: Iff(mem(t), sc._dom.mem(t)))))
            out.append(('seasonal component repeats', repeats(sc, mem)))
        else:
            out.append(('no seasonal component yet', sc == 1))
        if G['method'] == 'YoY':
            if is_series(rd):
                want = trend(rate)
                out.append(('degradation only if asked for', 'Rd' in order0))
                out.append(('trend per day', Forall('T', lambda t: Iff(mem(t), rd._dom.mem(t)))))
                out.append(('trend is linear in the rate', Forall('T', lambda t: Implies(mem(t), same(SF.of(rd._cell(t)), want(t))))))
            else:
                out.append(('no degradation yet', rd == 1 and not isinstance(rate, SF) and rate == 0))
        elif is_series(rd):
            out.append(('trend only together with the season', 'SC' in order0))
            out.append(('trend per day', Forall('T', lambda t: Iff(mem(t), rd._dom.mem(t)))))
        return out

    def havoc_state(self, v):
        ix = G['pi'].index
        o = G['order']
        if G['fitted'] if G['fitted'] is not None else fork('soiling fitted', True, False):
            k = soiling_fit('latest')
            v.soiling_dfs[:] = [k]
            v.soiling_ratio[:] = [k.soiling_ratio]
        else:
            v.soiling_dfs[:] = []
            v.soiling_ratio[:] = [1]
        v.seasonal_component[:] = [periodic('latest.sc')] if 'SC' in o and fork('season fitted', True, False) else [1]
        v.degradation_trend[:], v.yoy_save[:] = [1], [0]
        if G['method'] == 'YoY':
            if 'Rd' in o and fork('degradation fitted', True, False):
                r = sym_float('latest.rate', nan=False)
                v.yoy_save[:] = [r]
                v.degradation_trend[:] = [Series._mk(ix, trend(r))]
        elif is_series(v.seasonal_component[-1]):
            v.yoy_save[:] = [sym_float('latest.rate')]
            v.degradation_trend[:] = [sym_series('latest.rd', ix)]
        v.convergence_metric[:] = [Metric() for i in range(8)]

    def havoc(self, name, old):
        ix = G['pi'].index
        if name in ('ic', 'change_point'):
            G[name] = SI(ctx().int(name))
            return G[name]
        if name == 'order':
            return Order()
        if name == 'residual_shift':
            return sym_float('shift')
        if name == 'residuals':
            return sym_series('res', ix)
        if name == 'perfect_cleaning':
            return SB(ctx().bool('perfect cleaning'))
        if name in ('cleaning_sensitivity', 'clean_pruning_sensitivity'):
            return sym_float(name)
        if name == 'pce':
            return sym_bools('pce')
        if name == 'ce':
            return sym_bools('ce')
        if name == 'rm9':
            return sym_series('rm9', ix)
        if old is None:
            return None
        raise Unsupported(f'loop variable {name}')

    mutates = ('soiling_dfs', 'soiling_ratio', 'seasonal_component', 'degradation_trend', 'yoy_save', 'convergence_metric')


def repeats(sc, mem):
    """any two days with the same day of year"""
    def f(t):
        w = z3.Int(ctx().fresh('other'))
        return z3.ForAll([w], z3.BoolVal(True))
    # stated for the day and a canonical other one
    o = G.setdefault('other', ctx().int('otherday'))
    ctx().note('T', o)
    return Forall('T', lambda t: Implies(And(mem(t), mem(o), doy(t) == doy(o)), same(SF.of(sc._cell(t)), SF.of(sc._cell(o)))))


OV = {'soiling.CODSAnalysis._Kalman_filter_for_SR': kalman, 'soiling._force_periodicity': force_periodicity, 'soiling.STL': STL,
      'soiling.lowess': lambda *a, **k: 'smoothed', 'soiling._rolling_median_ce_detection': detection,
      'soiling._collapse_cleaning_events': collapse, 'soiling.adfuller': adfuller, 'soiling._RMSE': rmse,
      'degradation.degradation_year_on_year': yoy}
LOOPS = {'soiling.CODSAnalysis.iterative_signal_decomposition': [Decomposition()]}
ASSUME = ['one fit of a component through its contract: the Kalman filter gives one row per day with a soiling ratio of at most 1, '
          '_force_periodicity one value per day of year, STL/lowess/adfuller/cleaning detection anything',
          'the series has a value on its first day']
SETS = [('SR',), ('SR', 'SC'), ('SR', 'Rd'), ('SR', 'SC', 'Rd')]     # the loop contract covers every order of them


def setup(u):
    ix = sym_index('ix', tz='TZA', owner='ix', nonempty=True)
    G.clear()
    G['pi'] = sym_series('pi', ix)
    s = object.__new__(u.soiling.CODSAnalysis)
    s.pm = G['pi']
    return s


for METHOD in ('YoY', 'STL'):
    # two contracts where there are many paths: loop states with and without a soiling fit
    for ORDER, FITTED in [(o, None) for o in SETS[:-1] if METHOD == 'YoY'] + [(SETS[-1], True), (SETS[-1], False)]:
        @contract(P, f'iterative_signal_decomposition, {METHOD}, {"-".join(ORDER)}' + {None: '', True: ' (1)', False: ' (2)'}[FITTED], ['soiling.CODSAnalysis.iterative_signal_decomposition'], overrides=OV, loops=LOOPS, builtin={'soiling.float': number}, assumptions=ASSUME)
        def _(u, METHOD=METHOD, ORDER=ORDER, FITTED=FITTED):
            s = setup(u)
            G['fitted'] = FITTED
            pi = G['pi']
            G['order'], G['method'] = tuple(o for o in ORDER if METHOD == 'YoY' or o != 'Rd'), METHOD
            sig = sym_float('significance')
            M = SI(ctx().int('max_iterations'))
            none, r = raises(IndexError, lambda: s.iterative_signal_decomposition(order=ORDER, degradation_method=METHOD, max_iterations=M,
                                                                                  soiling_significance=sig))
            if none:
                # fewer iterations than components: there is no soiling component to report
                if 'ic' not in G:
                    raise Unsupported('no loop with the variables of the loop contract')
                ensure('no result only if the iterations end before a soiling component was fitted', (G['ic'] >= M).b)
                return
            df, d = r
            t = label()
            mem = pi._dom.mem
            ensure('one row per day', Iff(df._dom.mem(t), mem(t)))
            ensure('columns', sorted(df.columns) == sorted(['soiling_ratio', 'soiling_rates', 'cleaning_events', 'seasonal_component',
                                                            'degradation_trend', 'total_model', 'residuals']))
            c = {k: memo_cell(lambda t, k=k: SF.of(df[k]._cell(t))) for k in ('soiling_ratio', 'seasonal_component', 'degradation_trend',
                                                                              'total_model', 'residuals')}
            sr, sc, rd = c['soiling_ratio'], c['seasonal_component'], c['degradation_trend']
            model = memo_cell(lambda t: sr(t) * sc(t) * rd(t))
            res = memo_cell(lambda t: SF.of(pi._cell(t)) / model(t))
            D = pi._dom
            rs = reduce_(D, res, 'mean')
            ensure('residuals are the input over the product of the components', Implies(mem(t), same(c['residuals'](t), res(t))))
            ensure('residual shift is the mean residual', same(SF.of(d['residual_shift']), rs))
            ensure('model is the product of the components and the shift', Implies(mem(t), same(c['total_model'](t), model(t) * rs)))
            ensure('soiling ratio is a number of at most 1', Implies(mem(t), And(Not(sr(t).nan), (sr(t) <= 1).b)))
            ensure('soiling loss is the mean of 1 - SR in percent', same(SF.of(d['soiling_loss']),
                                                                       reduce_(D, memo_cell(lambda t: 1 - sr(t)), 'mean') * 100))
            m = d['RMSE'].of if isinstance(d['RMSE'], Metric) else None
            ensure('error of the model is reported', m is not None and isinstance(m[0], Series) and isinstance(m[1], Series)
                   and And(Implies(mem(t), And(m[0]._dom.mem(t), m[1]._dom.mem(t), same(SF.of(m[0]._cell(t)), SF.of(pi._cell(t))),
                                               same(SF.of(m[1]._cell(t)), c['total_model'](t))))))
            ensure('adf test reported', d['adf_res'] is G['adf'])
            if 'SC' not in ORDER:
                ensure('season that is not fitted is 1', Implies(mem(t), same(sc(t), SF.of(1))))
            else:
                o = label()
                ensure('season repeats every year', Implies(And(mem(t), mem(o), doy(t) == doy(o)), same(sc(t), sc(o))))
            if METHOD == 'YoY':
                want = trend(d['degradation'])
                ensure('trend is linear in the reported rate', Implies(mem(t), same(rd(t), want(t))))
                if 'Rd' not in ORDER:
                    ensure('degradation that is not fitted is 0', same(SF.of(d['degradation']), SF.of(0)))
                    ensure('trend that is not fitted is 1', Implies(mem(t), same(rd(t), SF.of(1))))
            q = lambda cell, p: reduce_(D, cell, 'quantile', q=SF.of(p))
            strength = (q(sr, 0.9) - q(sr, 0.1)) / (q(res, 0.9) - q(res, 0.1))
            flag = d['small_soiling_signal']
            ensure('small signal flag', Iff(flag.b if isinstance(flag, SB) else bool(flag), (strength < sig).b))


@contract(P, 'an order without SR is rejected', ['soiling.CODSAnalysis.iterative_signal_decomposition'], overrides=OV, loops=LOOPS)
def _(u):
    s = setup(u)
    G['order'], G['method'] = (), 'YoY'
    o = fork('order', ('SC',), ('Rd',), ('SC', 'Rd'), ('Rd', 'SC'), ())
    m = fork('method', 'YoY', 'STL')
    bad, _ = raises(ValueError, lambda: s.iterative_signal_decomposition(order=o, degradation_method=m))
    ensure('ValueError', bad)


@contract(P, '_RMSE', ['soiling._RMSE'])
def _(u):
    ix = sym_index('ix', tz='TZA', owner='ix', nonempty=True)
    y, p = sym_series('y', ix), sym_series('p', ix)
    r = u.soiling._RMSE(y, p)
    D = Dom('T', lambda t: And(ix._dom.mem(t), Not(SF.of(p._cell(t)).nan)), name='modelled')
    sq = memo_cell(lambda t: (SF.of(p._cell(t)) - SF.of(y._cell(t))) ** 2)
    ensure('root of the mean squared error of the modelled days', same(SF.of(r), numpy_stub().sqrt(reduce_(D, sq, 'mean'))))


class Opt:
    """an option: nothing is known about it but its identity"""
    def __init__(self, name):
        self.name = name


class Made:
    """stand-in of CODSAnalysis for its caller"""
    def __init__(self, energy_normalized_daily):
        G['made'] = energy_normalized_daily
        self.result_df = Opt('table')

    def run_bootstrap(self, *a, **k):
        if a:
            raise Unsupported('options by position')
        G['ran'] = k
        self.degradation = [sym_float(f'deg{i}') for i in range(3)]
        self.soiling_loss = [sym_float(f'loss{i}') for i in range(3)]
        G['obj'] = self
        return self.result_df, self.degradation, self.soiling_loss


@contract(P, 'soiling_cods reports the bootstrap', ['soiling.soiling_cods'], overrides={'soiling.CODSAnalysis': Made},
          assumptions=['CODSAnalysis through its contracts'])
def _(u):
    G.clear()
    e = Opt('energy')
    opts = {k: Opt(k) for k in ('reps', 'confidence_level', 'degradation_method', 'process_noise', 'order_alternatives',
                                'cleaning_sensitivity_alternatives', 'clean_pruning_sensitivity_alternatives', 'forward_fill_alternatives',
                                'verbose', 'other')}
    sr, ci, deg, dci, df = u.soiling.soiling_cods(e, **opts)
    if 'obj' not in G:
        raise Unsupported('another way to run the analysis')
    o = G['obj']
    ensure('input', G['made'] is e)
    for k, v in opts.items():
        ensure(f'{k} reaches the analysis', G['ran'].get(k) is v)
    ensure('soiling ratio is 1 - loss', same(SF.of(sr), 1 - o.soiling_loss[0] / 100))
    ensure('bounds of the soiling ratio', And(*[same(SF.of(ci[i]), 1 - o.soiling_loss[i + 1] / 100) for i in range(2)]))
    ensure('degradation', And(same(SF.of(deg), o.degradation[0]), *[same(SF.of(dci[i]), o.degradation[i + 1]) for i in range(2)]))
    ensure('table', df is o.result_df)


@contract(P, 'CODSAnalysis takes daily series only', ['soiling.CODSAnalysis.__init__'])
def _(u):
    ix = sym_index('ix', tz='TZA', owner='ix', nonempty=True)
    ix.freq = fork('freq', 'D', None, 'h')
    pm = sym_series('pm', ix)
    s = object.__new__(u.soiling.CODSAnalysis)
    bad, _ = raises(ValueError, lambda: s.__init__(pm))
    if bad:
        ensure('rejected only if not daily', ix._freq != 'D')
        return
    t = label()
    ensure('daily', ix._freq == 'D')
    e, first = canon_ops('T', lambda t: And(ix._dom.mem(t), Not(pm._cell(t).nan)), 'known').first()
    ensure('from the first value on', Implies(e, Iff(s.pm._dom.mem(t), And(ix._dom.mem(t), t >= first))))
    ensure('values kept', Implies(s.pm._dom.mem(t), same(s.pm._cell(t), pm._cell(t))))
