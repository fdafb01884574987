from vc.api import *

P = 'C09'
DAY = 86400 * 10**9
SM = {'statsmodels': statsmodels_stub()}
ASSUME = ['statsmodels OLS is the least-squares line of the given endogenous values on a constant and one regressor over the '
          'rows kept (a named functional of those pairs): slope, intercept, standard errors, residual mean square',
          'pandas rolling(...).mean() is a named functional of series, window and centring']


def years(x):
    f = setops(x._dom).first()[1]
    return memo_cell(lambda t: SD(t - f) / SD(DAY) / 365.0)


def results(r, fit, name):
    rd, ci, info = r
    want = dict(slope=fit['slope'], intercept=fit['intercept'], slope_stderr=fit['slope_stderr'],
                intercept_stderr=fit['intercept_stderr'], rmse=sqrt(fit['mse']))
    for k, v in want.items():
        ensure(f'{name}:{k}', same(SF.of(info[k]), v))
    ensure(f'{name}:rate', same(SF.of(rd), 100.0 * fit['slope'] / fit['intercept']))


@contract(P, 'degradation_ols', ['degradation.degradation_ols'], assumptions=ASSUME, modules=SM)
def _(u):
    x = sym_series('x', nonempty=True)
    r = u.degradation.degradation_ols(x)
    results(r, ols_fit(x._dom, x._cell, years(x)), 'ols')
    unchanged()


def mk_stub(calls):
    def f(x, alpha=0.05):
        v = ('trend', len(calls))
        calls.append((x, alpha, v))
        return v, None, None, None
    return f


CALLS = []


@contract(P, 'degradation_classical_decomposition', ['degradation.degradation_classical_decomposition'],
          assumptions=ASSUME + ['_mk_test is used through its contract (C10)'], modules=SM,
          overrides={'degradation._mk_test': mk_stub(CALLS)})
def _(u):
    del CALLS[:]
    fr = fork('freq', Freq('F'), None)
    x = sym_series('x', nonempty=True, freq=fr)
    bad, r = raises(ValueError, lambda: u.degradation.degradation_classical_decomposition(x))
    unchanged()
    miss = canon_ops('T', lambda t: And(x._dom.mem(t), isnan(x._cell(t))), 'missing').first()[0]
    if fr is None:
        ensure('irregular:raises', bad)
        return
    ensure('raises-iff-missing', Iff(bad, miss))
    if bad:
        return
    ma = x.rolling('365d', center=True).mean()
    y = years(x)
    l = setops(x._dom).last()[1]
    half = SF.of(0.5)
    keep = lambda t: And((half <= y(t)).b, (y(t) <= y(l) - half).b)
    mac = memo_cell(lambda t: ite(keep(t), ma._cell(t), SF.of(float('nan'))))
    t = label()
    s = r[2]['series']
    ensure('moving-average:index', Iff(s._dom.mem(t), x._dom.mem(t)))
    ensure('moving-average:value', Implies(x._dom.mem(t), same(s._cell(t), mac(t))))
    ensure('trend-test:once', len(CALLS) == 1)
    tx, alpha, v = CALLS[0]
    ensure('trend-test:level', same(alpha, 0.05))
    ensure('trend-test:reported', r[2]['mk_test_trend'] is v)
    ensure('trend-test:index', Iff(tx._dom.mem(t), And(x._dom.mem(t), Not(isnan(mac(t))))))
    ensure('trend-test:value', Implies(And(x._dom.mem(t), Not(isnan(mac(t)))), same(tx._cell(t), mac(t))))
    results(r, ols_fit(x._dom, mac, y), 'classical')
