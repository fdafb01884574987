from vc.api import *
P = 'C25'


def spec_set(x, q):
    """values exceeding one thousandth of the q-quantile of x with NaN read as 0"""
    z = Series._mk(x.index, lambda t: ite(x._cell(t).nan, SF.of(0), x._cell(t)))
    cut = z.quantile(q) / 1000
    kept = Series._mk(x.index.like(x._dom.sub(lambda t: And(Not(x._cell(t).nan), (x._cell(t) > cut).b))), x._cell)
    return kept


def go(u, fname, red, default_q):
    x = sym_series('x')
    f = getattr(u.utilities, fname)
    if default_q is not None and fork('default', True, False):
        q = default_q
        got = f(x)
    else:
        q = sym_float('q', lo=0, hi=1)
        got = f(x, q)
    kept = spec_set(x, q)
    want = kept.quantile(q) if red == 'quantile' else getattr(kept, red)()
    ensure('equals-statistic-of-non-negligible-values', same(got, want))
    # missing entries never count: a series differing only in NaN-vs-zero entries gives the same result
    y = sym_series('y', x.index)
    ctx().universal('T', lambda t: same(ite(x._cell(t).nan, SF.of(0), x._cell(t)),
                                        ite(y._cell(t).nan, SF.of(0), y._cell(t))))
    ctx().universal('T', lambda t: And(Implies(Not(x._cell(t).nan), x._cell(t).r >= 0),
                                       Implies(Not(y._cell(t).nan), y._cell(t).r >= 0)))
    got2 = f(y, q)
    ensure('missing-values-read-as-zero', same(got, got2))
    unchanged()


@contract(P, 'robust_quantile', ['utilities.robust_quantile'])
def _(u):
    go(u, 'robust_quantile', 'quantile', None)


@contract(P, 'robust_median', ['utilities.robust_median'])
def _(u):
    go(u, 'robust_median', 'median', 0.99)


@contract(P, 'robust_mean', ['utilities.robust_mean'])
def _(u):
    go(u, 'robust_mean', 'mean', 0.99)
