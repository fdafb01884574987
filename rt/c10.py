from base import *
import rdtools.degradation as DG
from statistics import NormalDist


def mann_kendall(x, alpha):
    """(trend, z, too close to call)"""
    x = [float(v) for v in x]
    n = len(x)
    s = 0
    for i in range(n):
        for j in range(i + 1, n):
            s += (x[j] > x[i]) - (x[j] < x[i])
    ties = {}
    for v in x:
        ties[v] = ties.get(v, 0) + 1
    var = (n * (n - 1) * (2 * n + 5) - sum(t * (t - 1) * (2 * t + 5) for t in ties.values())) / 18
    z = 0.0 if s == 0 else (s - (1 if s > 0 else -1)) / math.sqrt(var)
    q = NormalDist().inv_cdf(1 - alpha / 2)
    edge = abs(abs(z) - q) < 1e-9
    h = abs(z) > q
    return ('no trend' if not h else 'increasing' if z > 0 else 'decreasing'), z, edge


def data(g):
    n = g.int(2, 40)
    kind = g.choice('random', 'ties', 'trend', 'trend-ties', 'constant', 'alternating')
    if kind == 'random':
        x = [g.dyadic(-5, 5, 1024) for _ in range(n)]
    elif kind == 'ties':
        x = [float(g.int(0, 3)) for _ in range(n)]
    elif kind == 'trend':
        d = g.choice(1, -1)
        x = [d * i * 0.5 + g.dyadic(-4, 4, 1024) for i in range(n)]
    elif kind == 'trend-ties':
        d = g.choice(1, -1)
        x = [float(d * (i // 3) + g.int(0, g.choice(1, 3))) for i in range(n)]
    elif kind == 'constant':
        x = [1.5] * n
    else:
        x = [float(i % 2) for i in range(n)]
    return x


@check('C10', 250)
def mk(g):
    f = private(DG, '_mk_test')
    x = data(g)
    alpha = g.choice(0.05, 0.05, 0.01, 0.2, 0.001)
    want, z, edge = mann_kendall(x, alpha)
    arg = g.choice(pd.Series, np.array)(x)
    r = must(f, arg) if alpha == 0.05 and g.p(0.5) else must(f, arg, alpha)
    try:
        trend, h, p, zz = r
    except Exception:
        raise Skip()
    require(close(zz, z), 'z', got=zz, want=z, x=x)
    require(close(p, 2 * (1 - NormalDist().cdf(abs(z))), 1e-6, 1e-9), 'p value', got=p, x=x)
    if edge:
        raise Skip()
    require(trend == want, 'trend', got=trend, want=want, x=x, alpha=alpha)
    require(bool(h) == (want != 'no trend'), 'significance flag', got=h, want=want, x=x)
    back = must(f, np.array(x[::-1]), alpha)[0]
    require(back == {'increasing': 'decreasing', 'decreasing': 'increasing', 'no trend': 'no trend'}[want],
            'reversing the series', got=back, want=want, x=x)
    up = must(f, np.array([4 * v * v * v + v + 3 for v in x]), alpha)[0]
    require(up == want, 'increasing transformation', got=up, want=want, x=x)


@check('C10', 4)
def reported(g):
    """the trend reported by classical decomposition is the test at 5% on the moving average"""
    ix = pd.date_range('2018-01-01', periods=g.int(120, 200), freq='7D')
    rd = g.choice(0.0, 0.0, -0.01, 0.01)
    v = 1 + rd * np.arange(len(ix)) / 52 + np.array([g.dyadic(-0.2, 0.2, 256) for _ in ix])
    r = must(DG.degradation_classical_decomposition, pd.Series(v, ix))
    ma = r[2]['series'].dropna().values
    want, z, edge = mann_kendall(list(ma), 0.05)
    if edge:
        raise Skip()
    require(r[2]['mk_test_trend'] == want, 'reported trend', got=r[2]['mk_test_trend'], want=want)
