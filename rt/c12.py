from base import *
import rdtools.bootstrap as BS


def fn():
    return private(BS, '_make_time_series_bootstrap_samples')


@check('C12', 60)
def samples(g):
    f = fn()
    n = g.int(5, 60)
    ix = g.times(n, steps=('1D', '7D'))
    fit = pd.Series([1 + g.dyadic(-0.25, 1, 64) for _ in range(n)], ix, name='fit')
    # residual of each position identifies it
    res = [1 + i / 128 for i in range(n)]
    dec = g.choice('multiplicative', 'additive', None)
    mult = dec != 'additive'
    sig = pd.Series([a * r if mult else a + r for a, r in zip(fit.values, res)], ix, name=g.name())
    k = g.int(1, 12)
    L = g.int(1, n)
    seed = g.int(0, 10**6)
    kw = dict(sample_nr=k, block_length=L)
    if dec:
        kw['decomposition_type'] = dec
    snap = Snapshot(sig=sig, fit=fit)
    out = must(f, sig, fit, bootstrap_seed=seed, **kw)
    snap.verify('bootstrap samples')
    same_labels(out.index, ix, 'samples')
    require(list(out.columns) == list(range(k)), 'number of samples', got=list(out.columns), want=k)
    for c in out.columns:
        v = out[c].astype(float).values
        pos = []
        for a, x in zip(fit.values, v):
            r = x / a if mult else x - a
            p = (r - 1) * 128
            require(abs(p - round(p)) < 1e-6 and 0 <= round(p) < n, 'sample is not the model combined with a residual of the signal',
                    value=x, fit=a, residual=r)
            pos.append(round(p))
        for b in range(0, n, L):
            for i in range(b + 1, min(b + L, n)):
                require(pos[i] == (pos[i - 1] + 1) % n, f'residuals are not drawn in circular blocks of {L}', positions=pos)
    again = must(f, sig, fit, bootstrap_seed=seed, **kw)
    require(bool((again.astype(float).values == out.astype(float).values).all()), 'same seed gives different samples')
    if n > 20 and k > 3:
        other = must(f, sig, fit, bootstrap_seed=seed + 1, **kw)
        if L < n // 3:
            require(not bool((other.astype(float).values == out.astype(float).values).all()), 'seed has no effect')
            require(len({tuple(out[c].astype(float)) for c in out.columns}) > 1, 'all samples are identical')
    must_raise(ValueError, f, sig, fit, decomposition_type=g.choice('other', 'Additive', None))


@check('C12', 20)
def intervals(g):
    """_construct_confidence_intervals applies the fit to every sample"""
    f = private(BS, '_construct_confidence_intervals')
    n, k = g.int(3, 20), g.int(2, 30)
    df = pd.DataFrame({i: g.values(n, -5, 5, nan=0) for i in range(k)})
    e, c = g.choice(95, 50, 10, 99.5), g.choice(68.2, 95, 0, 100)
    ci, ex, m = must(f, df, lambda s, scale=1: float(s.mean()) * scale, exceedance_prob=e, confidence_level=c, scale=2)
    want = [2 * df[i].mean() for i in range(k)]
    same_values(list(m), want, 'metrics')
    same_values(list(ci), [np.quantile(want, (50 - c / 2) / 100), np.quantile(want, (50 + c / 2) / 100)], 'interval')
    require(close(ex, np.quantile(want, (100 - e) / 100)), 'exceedance level', got=ex)


@check('C12', 6)
def year_on_year_blocks(g):
    """the year-on-year estimator resamples the residuals of its own linear trend in blocks of the requested length"""
    import rdtools.degradation as DG
    try:
        from arch.bootstrap import CircularBlockBootstrap as C
    except ImportError:
        raise Skip()
    n = g.int(110, 160)
    ix = pd.date_range(g.choice('2015-01-01', '2016-02-28', '2011-07-04'), periods=n, freq='7D')
    s = pd.Series([0.9 - 0.0002 * i + g.r.uniform(-0.02, 0.02) for i in range(n)], ix)
    L = g.choice(1, 5, n // 3, 17, 29)
    rec = g.p(0.5)
    kw = {} if g.p(0.3) else dict(block_length=L)
    want = kw.get('block_length', 30)
    seen = []
    init = C.__init__

    def spy(self, block_size, *a, **k):
        seen.append((block_size, a))
        return init(self, block_size, *a, **k)
    C.__init__ = spy
    try:
        rd, ci, info = must(DG.degradation_year_on_year, s, recenter=rec, uncertainty_method='circular_block', **kw)
    finally:
        C.__init__ = init
    seen = [x for x in seen if len(x[1]) == 1 and len(x[1][0]) == n]
    if not seen:
        raise Skip()
    require(int(seen[0][0]) == want, 'block length of the bootstrap', got=seen[0][0], want=want)
    y = s / (info['renormalizing_factor'])
    days = (ix[-1] - ix[0]).days / n
    m = 1 + rd / 100 / 365.0 * np.arange(n) * days
    same_values(list(np.asarray(seen[0][1][0], float)), list(y.values / m), 'resampled residuals')
