from base import *
from rdtools.normalization import irradiance_rescale
import rdtools.normalization as NZ
ConvergenceError = NZ.ConvergenceError


def series(g, n):
    ix = g.times(n, steps=('15min', '1h'))
    sim = pd.Series(g.values(n, 150, 1000, nan=0), ix, name=g.name())
    true = g.choice(0.5, 0.9, 1.0, 1.07, 1.3, 2.0)
    levels = g.choice((1, 1, 1, 1.03125, 0.96875, 0.5, 0.25, 1.0, 1.09375), (1, 1, 1.03125, 1.23, 1.27, 1.0),
                      (1, 1, 0.77, 0.83, 1.15, 1.0, 1.22))
    noise = np.array([g.choice(*levels) for _ in range(n)])
    ir = pd.Series(sim.values * true * noise, ix, name='irr')
    if g.p(0.3):
        # measured irradiance just below, at and just above 200
        for j in range(0, n, 4):
            ir.iloc[j] = g.choice(200.0, 200.0, 199.5, 200.5)
            sim.iloc[j] = ir.iloc[j] / true / g.choice(1.125, 0.9375)
    ir[[g.p(0.1) for _ in range(n)]] = NAN
    if g.p(0.3):
        sim[[g.p(0.05) for _ in range(n)]] = NAN
    return ir, sim


def fixpoint(ir, sim, F, edge=1e-3):
    """least-squares factor over the points that are clear under F; None when a point sits on the filter boundary, NaN when no
    point is clear"""
    a = b = 0.0
    k = 0
    for x, s in zip(ir.values, sim.values):
        if x != x or s != s:
            continue
        c = x / (F * s)
        if min(abs(c - 0.8), abs(c - 1.2)) < edge:
            return None
        if 0.8 <= c <= 1.2 and x > 200:
            a += s * x
            b += s * s
            k += 1
    return a / b if k else NAN


def ratio(out, sim, what):
    same_labels(out.index, sim.index, what)
    r = [o / s for o, s in zip(out.values, sim.values) if s == s and s != 0]
    for o, s in zip(out.values, sim.values):
        require((o == o) == (s == s), what + ': NaN where the model is not (or the reverse)', got=out, model=sim)
    require(r and max(r) - min(r) <= 1e-9 * abs(max(r)), what + ': not one factor times the model', ratios=r[:20])
    return r[0]


@check('C26', 25)
def iterative(g):
    n = g.int(40, 160)
    ir, sim = series(g, n)
    snap = Snapshot(ir=ir, sim=sim)
    kw = g.choice({}, {}, dict(method='iterative'), dict(convergence_threshold=1e-4))
    st, out, _ = attempt(irradiance_rescale, ir, sim, **kw)
    snap.verify('irradiance_rescale')
    if st == 'exc':
        require(isinstance(out, ConvergenceError), 'only ConvergenceError may be raised', got=out)
        raise Skip()
    F = ratio(out, sim, 'rescaled irradiance')
    want = fixpoint(ir, sim, F)
    if want is None:
        raise Skip()
    if want != want:
        # no point is clear under the result: only where the iteration cannot find any
        f = np.percentile(ir.dropna(), 90) / np.percentile(sim.dropna(), 90)
        for _ in range(60):
            f = fixpoint(ir, sim, f)
            if f is None or f != f:
                raise Skip()
        require(False, 'no point is clear under the returned factor', factor=F, fixpoint=f, irrad=ir, sim=sim)
    require(abs(want - F) < 4e-4 * max(1, F), 'factor does not minimise the rms difference over the clear points',
            factor=F, least_squares=want, irrad=ir, sim=sim)


@check('C26', 12)
def convergence(g):
    ir, sim = series(g, 60)
    if abs(np.percentile(ir.dropna(), 90) / np.percentile(sim.dropna(), 90) - 1) < 1e-3:
        raise Skip()
    must_raise(ConvergenceError, irradiance_rescale, ir, sim, max_iterations=0)
    must_raise(ValueError, irradiance_rescale, ir, sim, method=g.choice('other', 'Iterative', None))


@check('C26', 12)
def iterate_count(g):
    """the optimiser is called at most max_iterations times, and a result within the threshold is returned as soon as two
    iterates agree"""
    real = getattr(NZ, 'minimize', None)
    if real is None:
        raise Skip()
    ir, sim = series(g, 60)
    seen = []

    def counting(fun, x0, *a, **k):
        r = real(fun, x0, *a, **k)
        seen.append((float(np.ravel(x0)[0]), float(np.ravel(r['x'])[0])))
        return r
    m = g.choice(0, 1, 2, 3, 5, 50)
    thr = g.choice(1e-6, 1e-3, 1e-2, 0.2)
    NZ.minimize = counting
    try:
        st, out, _ = attempt(irradiance_rescale, ir, sim, max_iterations=m, convergence_threshold=thr)
    finally:
        NZ.minimize = real
    if not seen and m > 0:
        raise Skip()
    for x0, x in seen:
        want = fixpoint(ir, sim, x0, 1e-9)
        if want is None or want != want:
            break
        require(abs(want - x) < 4e-4 * max(1, x), 'an iterate does not minimise the rms difference over the points that are '
                'clear under the previous one', previous=x0, iterate=x, least_squares=want, irrad=ir, sim=sim)
    require(len(seen) <= m, 'more iterations than allowed', calls=len(seen), max_iterations=m)
    if st == 'exc':
        require(isinstance(out, ConvergenceError), 'only ConvergenceError may be raised', got=out)
        require(len(seen) == m, 'ConvergenceError before the iterations were used up', calls=len(seen), max_iterations=m)
        return
    F = ratio(out, sim, 'rescaled irradiance')
    if seen:
        require(close(F, seen[-1][1]), 'result is not the last iterate', got=F, iterates=seen)
        require(abs(seen[-1][1] - seen[-1][0]) <= thr * (1 + 1e-9), 'returned although the last step exceeds the threshold',
                iterates=seen, threshold=thr)


@check('C26', 10)
def single(g):
    ir, sim = series(g, 80)
    snap = Snapshot(ir=ir, sim=sim)
    out = must(irradiance_rescale, ir, sim, method='single_opt')
    snap.verify('irradiance_rescale')
    ratio(out, sim, 'rescaled irradiance (single_opt)')
