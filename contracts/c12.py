from vc.api import *
import contracts.c11    # noqa: F401  (the caller of the two functions below)

P = 'C12'
ASSUME = ['arch.CircularBlockBootstrap(L, data, seed).bootstrap(n) yields n resamplings of data, each a reordering (with repetition) of '
          'its rows in circular blocks of L, determined by the seed (the block structure itself is exercised by the executable contract)',
          'the model fit has the index of the signal']


class CBB:
    """contract of arch's circular block bootstrap: the k-th resampling takes, at each row t, the data of row draw(k, t)"""
    made = None

    def __init__(self, block_size, *args, random_state=None, seed=None, **kw):
        if len(args) != 1 or kw or random_state is not None:
            raise Unsupported('bootstrap of several arrays')
        CBB.made = self
        self.block, self.data, self.seed = block_size, args[0], seed
        self.draw = z3.Function(ctx().fresh('draw'), z3.IntSort(), z3.IntSort(), z3.IntSort())

    def row(self, k, t):
        s = self.draw(zi(k), zi(t))
        ctx().assume(self.data._dom.mem(s))
        ctx().note('T', s)
        return s

    def bootstrap(self, n):
        self.n = n
        if not isinstance(self.data, (Series, Arr)):
            raise Unsupported('bootstrap data')
        d = self.data
        mk = lambda cell: Series._mk(d.index, memo_cell(cell)) if isinstance(d, Series) else Arr(d._dom, cell)
        return SIter(zi(n.v) if isinstance(n, SI) else n,
                     lambda k: ((mk(lambda t: d._cell(self.row(k, t))),), {}))


ARCH = Stub('arch', {'bootstrap': Stub('arch.bootstrap', {'CircularBlockBootstrap': CBB})})
G = {}


def combined(v, k):
    """the first k samples are model (*|+) drawn residual"""
    dec = v.decomposition_type
    if CBB.made is None:
        return []
    m = G['fit']
    G['table'] = v.bootstrap_samples

    def at(b):
        t = G['t']
        r = SF.of(CBB.made.data._cell(CBB.made.row(b, t)))
        w = m._cell(t) + r if dec == 'additive' else m._cell(t) * r
        return same(SF.of(v.bootstrap_samples.cell2(t, b)), w)
    return [('combined so far', Forall('U', lambda b: Implies(And(zi(0) <= b, b < k, m._dom.mem(G['t'])), at(b))))]


for DEC in ('multiplicative', 'additive'):
    @contract(P, '_make_time_series_bootstrap_samples, ' + DEC, ['bootstrap._make_time_series_bootstrap_samples'], assumptions=ASSUME,
              modules={'arch': ARCH}, loops={'bootstrap._make_time_series_bootstrap_samples':
                                             [CountingLoop(combined, lambda v: [v.bootstrap_samples])]})
    def _(u, DEC=DEC):
        CBB.made = None
        ix = sym_index('ix', owner='signal')
        sig = sym_series('signal', ix)
        fit = sym_series('fit', ix)
        N, L, seed = SI(ctx().int('N')), SI(ctx().int('L')), SI(ctx().int('seed'))
        assume(N.v >= 0)
        assume(L.v >= 1)
        G['fit'] = fit
        G['t'] = t = label()
        default = DEC == 'multiplicative' and fork('default type', True, False)
        kw = {} if default else {'decomposition_type': DEC}
        out = u.bootstrap._make_time_series_bootstrap_samples(sig, fit, sample_nr=N, block_length=L, bootstrap_seed=seed, **kw)
        unchanged()
        bs = CBB.made
        ensure('residuals are resampled', bs is not None)
        ensure('block length', same(bs.block, L))
        ensure('seed', same(bs.seed, seed))
        ensure('as many resamplings as samples', same(bs.n, N))
        same_index(bs.data, ix, t, 'residuals:index')
        res = sig._cell(t) - fit._cell(t) if DEC == 'additive' else sig._cell(t) / fit._cell(t)
        ensure('residuals:value', Implies(ix._dom.mem(t), same(SF.of(bs.data._cell(t)), res)))
        same_index(out, ix, t, 'samples:index')
        ensure('samples:number', same(SI(out.n), N))
        b = ctx().int('b')
        ctx().note('U', b)
        r = SF.of(bs.data._cell(bs.row(b, t)))
        want = fit._cell(t) + r if DEC == 'additive' else fit._cell(t) * r
        ensure('samples:value', Implies(And(ix._dom.mem(t), zi(0) <= b, b < N.v), same(SF.of(out.cell2(t, b)), want)))


@contract(P, '_make_time_series_bootstrap_samples, unknown type', ['bootstrap._make_time_series_bootstrap_samples'], assumptions=ASSUME,
          modules={'arch': ARCH})
def _(u):
    ix = sym_index('ix')
    bad = fork('type', 'other', 'Multiplicative', 'add', '', None)
    r, e = raises(ValueError, lambda: u.bootstrap._make_time_series_bootstrap_samples(
        sym_series('signal', ix), sym_series('fit', ix), decomposition_type=bad))
    ensure('unknown decomposition type raises ValueError', r)


@contract(P, '_construct_confidence_intervals', ['bootstrap._construct_confidence_intervals'], assumptions=ASSUME, modules={'arch': ARCH})
def _(u):
    """the fit is applied to every sample, with the given keywords; percentiles of those metrics"""
    ix = sym_index('ix')
    N = ctx().int('N')
    assume(N >= 1)
    tab = ColFrame(ix, N)
    tab.havoc()
    keys = []

    def fit(s, **kw):
        keys.append(dict(kw))
        a = opaque_fun('fit', params=[kw.get('scale')], inputs=[('T', s._dom.mem, s._cell)], sorts=[z3.RealSort])
        return SF(False, False, False, a.outs[0](z3.IntVal(0)))
    level, prob, scale = sym_float('level', lo=0, hi=100), sym_float('prob', lo=0, hi=100), sym_float('scale')
    ci, ex, m = u.bootstrap._construct_confidence_intervals(tab, fit, exceedance_prob=prob, confidence_level=level, scale=scale)
    b = ctx().int('b')
    ctx().note('U', b)
    ensure('metrics:number', Iff(m._dom.mem(b), And(zi(0) <= b, b < N)))
    ensure('metrics:fit of each sample', same(SF.of(m._cell(b)), fit(tab.col(b), scale=scale)))
    ensure('keywords passed on', all(set(k) == {'scale'} for k in keys))
    pct = lambda q: reduce_(m._dom, m._cell, 'quantile', q / 100, skipna=False)
    ensure('interval:lower', same(SF.of(ci[0]), pct(50 - level / 2)))
    ensure('interval:upper', same(SF.of(ci[1]), pct(50 + level / 2)))
    ensure('interval:two bounds', len(ci) == 2)
    ensure('exceedance level', same(SF.of(ex), pct(100 - prob)))
