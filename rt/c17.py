from base import *
import io, contextlib
import rdtools.soiling as SO
CODS = SO.CODSAnalysis
COLS = ['soiling_ratio', 'soiling_rates', 'cleaning_events', 'seasonal_component', 'degradation_trend', 'total_model', 'residuals']


def signal(g, N, nanp=0.02, start=None):
    r = g.np
    ix = pd.date_range(start or pd.Timestamp(g.choice('2017-01-01', '2018-03-01', '2021-01-05'), tz=g.choice(None, 'UTC', 'Etc/GMT+7')),
                       periods=N, freq='D')
    prof = []
    while len(prof) < N:
        L = r.randint(20, 120)
        prof += list(1 - g.choice(0.0005, 0.001, 0.003) * np.arange(L))
    d = np.arange(N)
    s = np.array(prof[:N]) * (1 + g.choice(0, .01, .05) * np.sin(d * 2 * np.pi / 365)) * (1 - g.choice(0, .005, .02) * d / 365)
    s = s * (1 + g.choice(.005, .02) * r.randn(N)) * g.choice(1.0, 1.0, 0.9, 1.1)
    for _ in range(int(N * nanp)):
        s[r.randint(0, N)] = NAN
    if g.p(0.3):
        k = r.randint(50, N - 50)
        s[k:k + g.choice(3, 20)] = NAN
    if g.p(0.2):
        s[:g.int(1, 9)] = NAN
    return pd.Series(s, ix, name=g.name())


def decompose(s, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        st, v, w = attempt(lambda: CODS(s).iterative_signal_decomposition(**kw))
    if st != 'ok':
        # numerical libraries may reject a signal; the property only speaks about returned results
        if isinstance(v, (ValueError, np.linalg.LinAlgError, RuntimeError, ZeroDivisionError)):
            raise Skip()
        raise Fail(f'unexpected {type(v).__name__}: {v}\n' + ''.join(traceback.format_exception(v))[-1500:])
    return v


def product(df, rs, pi, what):
    sr, sc, rd = (df[c].values.astype(float) for c in ('soiling_ratio', 'seasonal_component', 'degradation_trend'))
    same_values(df['total_model'].values, sr * sc * rd * rs, what + ': total model = SR*SC*Rd*residual shift')
    same_values(df['residuals'].values, pi.values / (sr * sc * rd), what + ': residuals = PI / (SR*SC*Rd)')
    require(close(rs, np.nanmean(df['residuals'].values.astype(float))), what + ': residual shift is the mean residual', got=rs)


def rmse(df, pi):
    e = (df['total_model'].values.astype(float) - pi.values) ** 2
    return float(np.sqrt(np.nanmean(e)))


@check('C17', 20, 100)
def decomposition(g):
    N = g.choice(740, 760, 900)
    s = signal(g, N)
    kw = dict(max_iterations=g.choice(2, 3, 4, 6))
    order = None
    if g.p(0.6):
        order = kw['order'] = g.choice([('SR',), ('SR', 'Rd'), ('Rd', 'SR'), ('SC', 'SR'), ('SC', 'SR', 'Rd'), ('SR', 'SC', 'Rd'), ('SC', 'Rd', 'SR'),
                                      ('Rd', 'SC', 'SR')])
    order = order or ('SR', 'SC', 'Rd')
    kw['max_iterations'] = max(kw['max_iterations'], len(order))
    method = 'YoY'
    if g.p(0.2):
        method = kw['degradation_method'] = 'STL'
    sig = 0.75
    if g.p(0.4):
        sig = kw['soiling_significance'] = g.choice(0.1, 0.5, 3.0, 10.0)
    if g.p(0.3):
        kw['ffill'] = False
    if g.p(0.3):
        kw['renormalize_SR'] = g.choice(.5, .9)
    if g.p(0.3):
        kw['pruning_iterations'] = g.choice(1, 3)
    if g.p(0.3):
        kw['cleaning_sensitivity'] = g.choice(.1, 1.0)
    if g.p(0.2):
        kw['verbose'] = True
    snap = Snapshot(s=s)
    df, r = decompose(s, **kw)
    snap.verify('iterative_signal_decomposition')
    pi = s.loc[s.first_valid_index():]
    require(sorted(df.columns) == sorted(COLS), 'columns', got=list(df.columns))
    same_labels(df.index, pi.index, 'index')
    sr = df['soiling_ratio'].values.astype(float)
    require(bool(np.isfinite(sr).all()), 'soiling ratio is a number on every day', got=sr)
    require(bool((sr <= 1).all()), 'soiling ratio at most 1', got=sr.max())
    product(df, r['residual_shift'], pi, 'decomposition')
    require(close(r['soiling_loss'], (1 - sr).mean() * 100, 1e-7, 1e-9), 'soiling loss is the mean of 1 - SR in percent',
            got=r['soiling_loss'], want=(1 - sr).mean() * 100)
    require(close(r['RMSE'], rmse(df, pi)), 'RMSE of the total model', got=r['RMSE'], want=rmse(df, pi))
    if 'SC' not in order:
        require(bool((df['seasonal_component'] == 1).all()), 'component that is not fitted is 1: seasonal')
    if method == 'YoY':
        if 'Rd' in order:
            same_values(df['degradation_trend'].values, 1 + np.arange(len(pi)) * r['degradation'] / 100 / 365,
                        'linear degradation trend')
        else:
            require(bool((df['degradation_trend'] == 1).all()), 'component that is not fitted is 1: degradation')
            require(r['degradation'] == 0, 'no degradation fitted', got=r['degradation'])
    elif 'SC' in order:
        require(close(df['degradation_trend'].iloc[0], 1), 'STL trend starts at 1', got=df['degradation_trend'].iloc[0])
    if 'SC' in order:
        sc, doy = df['seasonal_component'], df.index.dayofyear
        for k, grp in sc.groupby(doy):
            v = grp.dropna()
            require(len(v) == 0 or float(v.max() - v.min()) < 1e-9, 'seasonal component repeats every year', day=k, got=v)
    q = lambda v, p: np.nanquantile(np.asarray(v, float), p)
    ratio = (q(sr, .9) - q(sr, .1)) / (q(df['residuals'], .9) - q(df['residuals'], .1))
    if ratio == ratio and abs(ratio - sig) > 1e-6:
        require(bool(r['small_soiling_signal']) == (ratio < sig), 'small soiling signal flag', got=r['small_soiling_signal'], ratio=ratio)
    ce = df['cleaning_events']
    require(bool(ce.isin([True, False]).all()), 'cleaning events are flags')
    rate = df['soiling_rates'].values.astype(float)
    flat = np.concatenate([[False], np.diff(sr) == 0])
    require(bool((rate[flat] == 0).all()), 'soiling rate is 0 where the soiling ratio does not change')
    # every day with data has a model, the 366th day of leap years apart (see known findings)
    ok = ~pi.isna().values & ~((pi.index.dayofyear == 366).astype(bool))
    require(bool(np.isfinite(df['total_model'].values.astype(float)[ok]).all()), 'the model is defined on every day with data',
            got=df['total_model'][ok][~np.isfinite(df['total_model'].values.astype(float)[ok])])


@check('C17', 1, 1)
def leap_year(g):
    s = signal(g, 1100, nanp=0, start='2019-06-01').ffill().bfill()
    df, r = decompose(s, max_iterations=3)
    bad = df.index[~np.isfinite(df['total_model'].values.astype(float))]
    other = [t for t in bad if t.dayofyear != 366]
    require(not other, 'the model is undefined on a day with data', days=other)
    require(len(bad) == 0, 'LEAP-DAY-366: seasonal component and model are NaN on 31 December of a leap year', days=list(bad))


@check('C17', 12, 60)
def rejected(g):
    s = signal(g, 120)
    k = g.int(0, 4)
    if k == 0:
        t = s.iloc[[i for i in range(120) if i != 40]]
        must_raise(ValueError, CODS, t)
        must_raise(ValueError, SO.soiling_cods, t)
    elif k == 1:
        t = pd.Series(s.values, pd.date_range('2019-01-01', periods=120, freq=g.choice('h', '2D', '12h', 'W')))
        must_raise(ValueError, CODS, t)
    elif k == 2:
        t = pd.Series(s.values, pd.DatetimeIndex(list(s.index)))
        must_raise(ValueError, CODS, t)
    else:
        c = must(CODS, s)
        must_raise(ValueError, c.iterative_signal_decomposition, order=g.choice(('SC', 'Rd'), ('Rd',), ('SC',)))


class Fake:
    """stands for iterative_signal_decomposition: returns arbitrary results that satisfy its contract"""
    def __init__(self, g, small, pass_prob=1.0, err=0.0):
        self.g, self.small, self.calls, self.pass_prob, self.err = g, small, [], pass_prob, err
        self.n1, self.inputs, self.seasonal, self.boot = 16, [], [], []

    def __call__(self, inst, order=('SR', 'SC', 'Rd'), **kw):
        g, pi = self.g, inst.pm
        stage1 = len(self.calls) < self.n1
        if not stage1 and g.p(self.err):
            self.calls.append(None)
            self.inputs.append(None)
            raise ValueError('no fit')
        n = len(pi)
        sr = np.minimum(1, 0.8 + 0.25 * g.np.rand(n))
        if g.p(0.3):
            sr[: n // 3] = 1.0
        sc = 1 + 0.05 * np.sin(np.arange(n) / 58.0 + g.np.rand()) if 'SC' in order else np.ones(n)
        sc = pd.Series(sc, pi.index).groupby(pi.index.dayofyear).transform('first').values
        deg = float(g.np.uniform(-2, 1))
        rd = 1 + np.arange(n) * deg / 100 / 365
        res = pi.values / (sr * sc * rd)
        rs = np.nanmean(res)
        df = pd.DataFrame(dict(soiling_ratio=sr, soiling_rates=-0.001 * g.np.rand(n), cleaning_events=g.np.rand(n) < 0.02,
                               seasonal_component=sc, degradation_trend=rd, total_model=sr * sc * rd * rs, residuals=res), index=pi.index)
        ok = stage1 or g.p(self.pass_prob)
        r = dict(degradation=deg, soiling_loss=float((1 - sr).mean() * 100), residual_shift=rs, RMSE=float(g.np.uniform(0.01, 0.05)),
                 small_soiling_signal=(len(self.calls) % 16) < self.small, adf_res=(-7.0 if ok else -1.0, 0.001 if ok else 0.5))
        self.calls.append((df.copy(), dict(r), dict(kw, order=order)))
        self.inputs.append(pi.copy())
        return df, r


@contextlib.contextmanager
def faked(fake):
    old = CODS.iterative_signal_decomposition

    def method(self, *a, **k):
        return fake(self, *a, **k)
    CODS.iterative_signal_decomposition = method
    spied = {}
    for name, log in (('_make_seasonal_samples', fake.seasonal), ('_make_time_series_bootstrap_samples', fake.boot)):
        real = SO.__dict__.get(name)
        if callable(real):
            def spy(*a, real=real, log=log, **k):
                v = real(*a, **k)
                log.append(v.copy())
                return v
            spied[name] = real
            setattr(SO, name, spy)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        CODS.iterative_signal_decomposition = old
        for name, real in spied.items():
            setattr(SO, name, real)


@check('C17', 24, 150)
def bootstrap(g):
    s = signal(g, g.choice(740, 800))
    small = g.choice(0, 0, 0, 3, 8, 9, 16)
    reps = g.choice(16, 16, 10, 20, 33)
    c = 68.2
    kw = {}
    if g.p(0.6):
        c = kw['confidence_level'] = g.choice(95, 50, 0, 90)
    if g.p(0.2):
        kw['degradation_method'] = 'STL'
    if g.p(0.3):
        kw['process_noise'] = g.choice(1e-5, 3e-4)
    fake = Fake(g, small, pass_prob=g.choice(1.0, 0.8), err=g.choice(0, 0.1))
    through = g.p(0.4)
    cods = must(CODS, s)
    snap = Snapshot(s=s)
    with faked(fake):
        if through:
            sr_, sr_ci, deg_, deg_ci, df = must(SO.soiling_cods, s, reps=reps, **kw)
        else:
            df, deg, loss = must(cods.run_bootstrap, reps=reps, **kw)
    snap.verify('bootstrap')
    if len(fake.calls) < 16:
        raise Skip()
    pi = s.loc[s.first_valid_index():]
    first = fake.calls[:16]
    w = np.array([1 / r['RMSE'] / (1 + (d.soiling_ratio == 1).mean()) for d, r, k in first])
    best, bestr, _ = first[int(np.argmax(w))]
    settings = sorted((k['order'], k.get('cleaning_sensitivity'), k.get('clean_pruning_sensitivity'), k.get('ffill')) for d, r, k in first)
    require(len(set(settings)) == 16, 'the initial fits cover all 16 combinations of settings', got=settings)
    if small > 8:
        require(len(fake.calls) == 16, 'no bootstrap for a small soiling signal', got=len(fake.calls))
        if through:
            require(sr_ == 1.0, 'no soiling reported for a small signal', got=sr_)
            loss_hi = (1 - sr_ci[1]) * 100
            require(close(sr_ci[0], 1.0), 'bound', got=sr_ci)
        else:
            require(loss[0] == 0 and loss[1] == 0, 'no soiling reported for a small signal', got=loss)
            loss_hi = loss[2]
            deg_, deg_ci = deg[0], deg[1:]
        y = SO.RdToolsDeg.degradation_year_on_year(pi)
        require(close(deg_, y[0]), 'year-on-year degradation for a small signal', got=deg_, want=y[0])
        require(deg_ci[0] <= deg_ci[1], 'order of bounds', got=deg_ci)
        require(close(loss_hi, (1 - best.soiling_ratio).mean() * 100, 1e-7, 1e-9), 'upper bound of the loss in percent',
                got=loss_hi, want=(1 - best.soiling_ratio).mean() * 100)
        same_values(df['soiling_ratio'].values, best['soiling_ratio'].values, 'fit with the greatest weight is returned')
        product(df, np.nanmean(df['residuals'].values.astype(float)) if through else cods.residual_shift, pi, 'small soiling signal')
        return
    boot = [x for x in fake.calls[16:]]
    want_reps = reps if reps % 16 == 0 else reps + 16 - reps % 16
    require(len(boot) == want_reps, 'number of bootstrap realisations is the next multiple of 16', got=len(boot), want=want_reps)
    method = kw.get('degradation_method', 'YoY')
    for d, r, k in [x for x in fake.calls if x is not None]:
        require(k.get('degradation_method', 'YoY') == method, 'degradation method of a fit', got=k.get('degradation_method'), want=method)
        require(k.get('clip_soiling', True) in (True, np.True_), 'soiling ratio of a fit is bounded')
    for d, r, k in [x for x in boot if x is not None]:
        o = tuple(k['order'])
        require('SR' in o and ('SC' in o if method == 'STL' else 'Rd' in o), 'components fitted in the bootstrap', got=o, method=method)
    kept = [b for b, x in enumerate(boot) if x is not None and x[1]['adf_res'][1] < 0.05]
    keep = [x for x in boot if x is not None and x[1]['adf_res'][1] < 0.05]
    if not keep:
        raise Skip()
    w = np.array([1 / r['RMSE'] / (1 + (d.soiling_ratio == 1).mean()) for d, r, k in keep])
    w = w / w.sum()
    lo, hi = (50 - c / 2) / 100, (50 + c / 2) / 100
    degs = [r['degradation'] for d, r, k in keep]
    losses = [r['soiling_loss'] for d, r, k in keep]
    wd = [np.dot(degs, w), np.quantile(degs, lo), np.quantile(degs, hi)]
    wl = [np.dot(losses, w), np.quantile(losses, lo), np.quantile(losses, hi)]
    if through:
        deg, loss = [deg_, *deg_ci], [(1 - sr_) * 100, *[(1 - x) * 100 for x in sr_ci]]
    same_values(deg, wd, 'degradation and its interval', 1e-7, 1e-9)
    same_values(loss, wl, 'soiling loss and its interval', 1e-7, 1e-7)
    sr = df['soiling_ratio'].values.astype(float)
    same_values(sr, best['soiling_ratio'].clip(0, 1).values, 'soiling ratio of the fit with the greatest weight, in [0, 1]')
    M = np.array([d.soiling_ratio.reindex(pi.index).values for d, r, k in keep])
    same_values(df['bt_soiling_ratio'].values, np.nansum(M.T * w, axis=1), 'bootstrapped soiling ratio', 1e-7)
    R0 = np.array([d.soiling_rates.reindex(pi.index).values for d, r, k in keep])
    same_values(df['bt_soiling_rates'].values, np.nansum(R0.T * w, axis=1), 'bootstrapped soiling rates', 1e-7)
    if len(fake.seasonal) == 1 and fake.seasonal[0].shape == (len(pi), want_reps):
        S = fake.seasonal[0].values[:, kept].astype(float)
        if np.isfinite(S).all():
            same_values(df['seasonal_component'].values, (S * w).sum(axis=1), 'seasonal component is the weighted mean of its samples', 1e-7)
            same_values(df['seasonal_low'].values, np.quantile(S, lo, axis=1), 'seasonal_low', 1e-7)
            same_values(df['seasonal_high'].values, np.quantile(S, hi, axis=1), 'seasonal_high', 1e-7)
            if len(fake.boot) == 16 and sum(x.shape[1] for x in fake.boot) == want_reps:
                B = np.concatenate([x.values for x in fake.boot], axis=1)
                for b in kept:
                    x = fake.inputs[16 + b].reindex(pi.index)
                    same_values(x.values, (B[:, b] / fake.seasonal[0].values[:, b]), 'input of a bootstrap realisation', 1e-7)
    for k, grp in df['seasonal_component'].groupby(df.index.dayofyear):
        v = grp.dropna()
        require(len(v) == 0 or float(v.max() - v.min()) < 1e-9, 'bootstrapped seasonal component repeats every year', day=k, got=v)
    R = np.array([d.soiling_rates.reindex(pi.index).values for d, r, k in keep])
    T = np.array([d.total_model.reindex(pi.index).values for d, r, k in keep])
    for a, b, X in (('SR_low', 'SR_high', M), ('rates_low', 'rates_high', R)):
        same_values(df[a].values, np.nanquantile(X, lo, axis=0), a, 1e-7)
        same_values(df[b].values, np.nanquantile(X, hi, axis=0), b, 1e-7)
    same_values(df['cleaning_events'].values, np.nansum((np.array([d.cleaning_events.reindex(pi.index).values.astype(float) for d, r, k in keep]).T * w), axis=1),
                'cleaning events are the weighted share of realisations', 1e-7)
    for a, b in (('SR_low', 'SR_high'), ('rates_low', 'rates_high'), ('seasonal_low', 'seasonal_high'), ('model_low', 'model_high')):
        x, y = df[a].values.astype(float), df[b].values.astype(float)
        require(bool((np.isnan(x) | np.isnan(y) | (x <= y + 1e-12)).all()), f'{a} <= {b}')
    ok = ~np.isnan(T).any(axis=0)
    same_values(df['model_low'].values[ok], np.nanquantile(T, lo, axis=0)[ok], 'model_low', 1e-7)
    same_values(df['model_high'].values[ok], np.nanquantile(T, hi, axis=0)[ok], 'model_high', 1e-7)
    same_values(df['degradation_trend'].values, 1 + np.arange(len(pi)) * deg[0] / 100 / 365, 'degradation trend', 1e-7)
    rate = df['soiling_rates'].values.astype(float)
    flat = np.concatenate([[False], np.diff(sr) == 0])
    require(bool((rate[flat] == 0).all()), 'soiling rate is 0 where the soiling ratio does not change')
    rs = np.nanmean(df['residuals'].values.astype(float)) if through else cods.residual_shift
    product(df, rs, pi, 'bootstrap')


@check('C17', 8, 40)
def not_decomposable(g):
    """fits whose residuals are not stationary: more than half of them means there is no result"""
    s = signal(g, 740)
    bad = g.choice(7, 8, 9, 10, 16)

    class Bad(Fake):
        def __call__(self, inst, **kw):
            df, r = Fake.__call__(self, inst, **kw)
            if 16 - bad < len(self.calls) <= 16:
                r['adf_res'] = (-1.0, 0.3)
            return df, r
    fake = Bad(g, g.choice(0, 16))
    with faked(fake):
        if bad > 8:
            must_raise(RuntimeError, CODS(s).run_bootstrap, reps=16)
        elif fake.small:
            must(CODS(s).run_bootstrap, reps=16)
