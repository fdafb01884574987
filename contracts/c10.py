from vc.api import *

P = 'C10'
ASSUME = ['numpy: triu/outer/sign elementwise; np.sum a named functional of the terms (zero when all terms are zero); np.unique '
          'gives the distinct values, all occurring once when there are as many as data points',
          'scipy normal cdf and ppf are uninterpreted functions']


def ties(x):
    """number of data equal to each distinct value"""
    return np_unique(x, return_counts=True)[1]


def counts(v, k):
    """after k iterations, the first k entries are the sizes of the tie groups"""
    cnt = ties(v.x)
    return [('counted so far', Forall('U', lambda j: Implies(And(cnt._dom.mem(j), j < k), same(SF.of(v.tp._cell(j)), cnt._cell(j)))))]


for GIVEN in (False, True):
    @contract(P, '_mk_test, level ' + ('given' if GIVEN else 'default'), ['degradation._mk_test'], assumptions=ASSUME, modules={'scipy': scipy_stub()}, sum_facts=True,
              loops={'degradation._mk_test': [CountingLoop(counts, lambda v: [v.tp])]})
    def _(u, GIVEN=GIVEN):
        x = sym_series('x', nonempty=True, nan=False)
        if not GIVEN:
            alpha = SF.of(0.05)
            r = u.degradation._mk_test(x)
        else:
            alpha = sym_float('alpha')
            r = u.degradation._mk_test(x, alpha=alpha)
        unchanged()
        trend, h, p, z = r
        sgn = numpy_stub().sign
        s = reduce_(*pairs(x._dom, lambda i, j: ite(i < j, sgn(SF.of(x._cell(j)) - SF.of(x._cell(i))), SF.of(0))), 'sum', skipna=False)
        n = dom_card(x._dom)
        c = ties(x)
        grp = reduce_(c._dom, lambda i: c._cell(i) * (c._cell(i) - 1) * (2 * c._cell(i) + 5), 'sum', skipna=False)
        var = (SF.of(n * (n - 1) * (2 * n + 5)) - grp) / 18
        sd = sqrt(var)
        one, zero = SF.of(1), SF.of(0)
        want = ite((s > zero).b, (s - one) / sd, ite((s < zero).b, (s + one) / sd, zero))
        ensure('z', same(SF.of(z), want))
        ppf = lambda v: uf1('normppf', v)
        cdf = lambda v: uf1('normcdf', v, (0, 1))
        sig = (abs(SF.of(z)) > ppf(1 - alpha / 2)).b
        ensure('p', same(SF.of(p), 2 * (1 - cdf(abs(SF.of(z))))))
        ensure('h', Iff(h.b if isinstance(h, SB) else h, sig))
        z = SF.of(z)
        ensure('trend:label', trend in ('increasing', 'decreasing', 'no trend'))
        up, down = And(sig, (z > zero).b), And(sig, (z < zero).b)
        ensure('trend:increasing', Iff(trend == 'increasing', up))
        ensure('trend:decreasing', Iff(trend == 'decreasing', down))
