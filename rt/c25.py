from base import *
from rdtools import utilities


def plainq(v, q):
    """linear-interpolation quantile of a list without NaN"""
    v = sorted(v)
    if not v:
        return NAN
    pos = q * (len(v) - 1)
    lo = int(math.floor(pos + 1e-12))
    hi = min(lo + 1, len(v) - 1)
    fr = max(pos - lo, 0.0)
    return v[lo] + (v[hi] - v[lo]) * fr if fr else v[lo]


def small_cut(values, q):
    z = [0.0 if x != x else float(x) for x in values]
    return plainq(z, q) / 1000


def keep(values, q):
    c = small_cut(values, q)
    return [x for x in values if x == x and x > c], c


def rquant(values, q):
    return plainq(keep(values, q)[0], q)


def gen(g):
    n = g.int(0, 20)
    scale = g.choice(1.0, 1000.0, 1 / 1024)
    v = g.values(n, 0, 8, nan=g.choice(0, 0.1, 0.5), special=(0.0, 0.0, 8.0, 1 / 128, 1 / 256, 8 / 1000, 4 / 1000 + 1e-6), pspecial=0.4) * scale
    if g.p(0.15) and n:
        v[:] = v[0]
    s = pd.Series(v, g.times(n) if g.p(0.7) else None, dtype=float, name=g.name())
    return s


def near(values, c):
    """values so close to the cutoff that rounding decides"""
    return any(x == x and x != c and abs(x - c) < 1e-12 * max(1e-9, abs(c)) for x in values)


def run(g, f, plain, hasq):
    s = gen(g)
    snap = Snapshot(s=s)
    default = hasq and g.p(0.4)
    q = 0.99 if default else g.choice(0.99, 0.5, 0.9, 1.0, 0.25, 0.0, 0.98, 0.075)
    got = must(f, s) if default else (must(f, s, q) if g.p(0.5) else must(f, s, q=q))
    kept, c = keep(s.values, q)
    if near(s.values, c):
        raise Skip
    want = plain(kept, q)
    require(close(got, want), f'{f.__name__}: got {got!r}, contract says {want!r}', q=q, series=s)
    snap.verify(f.__name__)


@check('C25', 150)
def quantile(g):
    run(g, utilities.robust_quantile, plainq, False)


@check('C25', 150)
def median(g):
    run(g, utilities.robust_median, lambda k, q: plainq(k, 0.5), True)


@check('C25', 150)
def mean(g):
    run(g, utilities.robust_mean, lambda k, q: (sum(k) / len(k)) if k else NAN, True)


@check('C25', 60)
def scaling(g):
    s = gen(g)
    q = g.choice(0.99, 0.5)
    k = g.choice(2.0, 0.25, 1024.0)
    for f in (utilities.robust_quantile, utilities.robust_median, utilities.robust_mean):
        a, b = must(f, s, q), must(f, s * k, q)
        require(close(a * k, b), f'{f.__name__} does not scale with the data', series=s, k=k)
    z = s.dropna()
    # appending missing entries equals appending zeros
    if len(s):
        t = s.fillna(0)
        for f in (utilities.robust_quantile, utilities.robust_median, utilities.robust_mean):
            require(close(must(f, s, q), must(f, t, q)), f'{f.__name__}: NaN is not ignored like zero', series=s)
