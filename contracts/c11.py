from vc.api import *

P = 'C11'
ASSUME = ['np.percentile / quantile of a fixed sample is monotone in the level and commutes with increasing affine maps',
          'random draws are uninterpreted arrays: every statement holds for every outcome of the draws']


def level():
    return sym_float('level', lo=0, hi=100)


def prob():
    return sym_float('prob', lo=0, hi=100)


def draws(kind):
    return [d for tag, d in [k for k in ctx().keep if isinstance(k, tuple) and k and k[0] == 'draw'] if d.kind == kind]


@contract(P, 'lemma: intervals are ordered and nested, exceedance levels decrease', [], assumptions=ASSUME)
def _(u):
    """for any distribution: what the percentiles of the contracts below imply"""
    x = OArr('distribution', rand=True)
    a, b, p, q = level(), level(), prob(), prob()
    pc = lambda v: percentile(x, v)
    la, ua, lb, ub = pc(50 - a / 2), pc(50 + a / 2), pc(50 - b / 2), pc(50 + b / 2)
    ensure('lower<=upper', Or(la.nan, rcmp('<=', la.r, ua.r)))
    ensure('nested', Implies(rcmp('<=', a.r, b.r), Or(la.nan, And(rcmp('<=', lb.r, la.r), rcmp('<=', ua.r, ub.r)))))
    lo, hi = percentile(x, 0), percentile(x, 100)
    ensure('within the range of the distribution', Or(la.nan, And(rcmp('<=', lo.r, la.r), rcmp('<=', ua.r, hi.r))))
    ep, eq = pc(100 - p), pc(100 - q)
    ensure('exceedance decreases', Implies(rcmp('<=', p.r, q.r), Or(ep.nan, rcmp('<=', eq.r, ep.r))))


class Results:
    def __init__(self):
        self.params, self.cov = OArr('params'), OArr('cov')

    def cov_params(self):
        return self.cov


@contract(P, '_degradation_CI', ['degradation._degradation_CI'], assumptions=ASSUME)
def _(u):
    r, c = Results(), level()
    ci = u.degradation._degradation_CI(r, c)
    d = draws('mvn')
    ensure('one sample of the fit parameters', len(d) == 1)
    ensure('parameters', d[0].mean is r.params)
    ensure('covariance', d[0].cov is r.cov)
    dist = d[0][:, 1] / d[0][:, 0]
    ensure('two bounds', len(ci) == 2)
    ensure('lower', same(SF.of(ci[0]), percentile(dist, 50 - c / 2) * 100))
    ensure('upper', same(SF.of(ci[1]), percentile(dist, 50 + c / 2) * 100))
    ensure('ordered', Or(SF.of(ci[0]).nan, rcmp('<=', ci[0].r, ci[1].r)))


CI = []


def ci_stub(results, confidence_level):
    v = CArr([SF.fresh('lo', nan=True), SF.fresh('hi', nan=True)])
    CI.append((results, confidence_level, v))
    return v


for FN in ('degradation_ols', 'degradation_classical_decomposition'):
    @contract(P, FN + ' reports the interval at its confidence level', ['degradation.' + FN], assumptions=ASSUME + [
        '_degradation_CI and _mk_test through their contracts'], modules={'statsmodels': statsmodels_stub()},
              overrides={'degradation._degradation_CI': ci_stub, 'degradation._mk_test': lambda x, alpha=0.05: ('t', None, None, None)})
    def _(u, FN=FN):
        del CI[:]
        c = level()
        x = sym_series('x', nonempty=True, freq=Freq('F'), nan=FN == 'degradation_ols')
        bad, r = raises(ValueError, lambda: getattr(u.degradation, FN)(x, confidence_level=c))
        if bad:
            return
        ensure('interval computed once', len(CI) == 1)
        res, lv, v = CI[0]
        ensure('confidence level', same(SF.of(lv), c))
        ensure('interval reported', r[1] is v)
        ensure('same fit as the reported rate', And(same(SF.of(r[2]['slope']), SF.of(res.params.iloc[1] if hasattr(res.params, 'iloc') else res.params[1]))
                                                    if not isinstance(res.params, Stub) else True))


@contract(P, 'degradation_year_on_year, simple', ['degradation.degradation_year_on_year'], assumptions=ASSUME)
def _(u):
    x = sym_series('x', nonempty=True)
    c, p = level(), prob()
    default = fork('defaults', False, True)
    kw = {}
    if default:
        c, p = 68.2, 95.0
    else:
        kw = dict(confidence_level=c, exceedance_prob=p)
    bad, r = raises(ValueError, lambda: u.degradation.degradation_year_on_year(x, recenter=False, uncertainty_method='simple', **kw))
    if bad:
        return
    rd, ci, info = r
    d = draws('choice')
    ensure('one bootstrap of the slopes', len(d) == 1)
    d = d[0]
    src, y = d.source, info['YoY_values']
    t = label()
    ensure('resampled:slopes', And(Iff(src._dom.mem(t), y._dom.mem(t)), Implies(y._dom.mem(t), same(src._cell(t), y._cell(t)))))
    ensure('resampled:with replacement, equal weights', d.replace is True and d.p is None)
    if not isinstance(d.size, tuple) or len(d.size) != 2:
        raise Unsupported('bootstrap layout')
    n = len_of(y)
    if isinstance(d.size[0], SI):
        ensure('resampled:as many as there are slopes', same(d.size[0], n))
        dist = np_median(d, axis=0)
    else:
        ensure('resampled:as many as there are slopes', same(d.size[1], n))
        dist = np_median(d, axis=1)
    ensure('two bounds', len(ci) == 2)
    ensure('lower', same(SF.of(ci[0]), percentile(dist, 50 - c / 2)))
    ensure('upper', same(SF.of(ci[1]), percentile(dist, 50 + c / 2)))
    ensure('exceedance', same(SF.of(info['exceedance_level']), percentile(dist, 100 - p)))


def len_of(s):
    return dom_card(s._dom)


REC = {}


def samples_stub(signal, model_fit, sample_nr=1000, block_length=90, decomposition_type='multiplicative', bootstrap_seed=None):
    REC.update(signal=signal, model=model_fit, n=sample_nr, block=block_length, dec=decomposition_type, samples=('samples',))
    return REC['samples']


def intervals_stub(bootstrap_samples, fitting_function, exceedance_prob=95, confidence_level=68.2, **kwargs):
    REC.update(used=bootstrap_samples, fit=fitting_function, prob=exceedance_prob, level=confidence_level, kw=kwargs,
               ci=CArr([SF.fresh('lo'), SF.fresh('hi')]), ex=SF.fresh('ex'), metrics=('metrics',))
    return REC['ci'], REC['ex'], REC['metrics']


@contract('C12', 'degradation_year_on_year, circular block', ['degradation.degradation_year_on_year'],
          assumptions=ASSUME + ['_make_time_series_bootstrap_samples and _construct_confidence_intervals through their contracts (C12)'],
          overrides={'degradation._make_time_series_bootstrap_samples': samples_stub,
                     'degradation._construct_confidence_intervals': intervals_stub})
@contract(P, 'degradation_year_on_year, circular block', ['degradation.degradation_year_on_year'],
          assumptions=ASSUME + ['_make_time_series_bootstrap_samples and _construct_confidence_intervals through their contracts (C12)'],
          overrides={'degradation._make_time_series_bootstrap_samples': samples_stub,
                     'degradation._construct_confidence_intervals': intervals_stub})
def _(u):
    REC.clear()
    x = sym_series('x', nonempty=True)
    c, p = level(), prob()
    L = SI(ctx().int('L'))
    bad, r = raises(ValueError, lambda: u.degradation.degradation_year_on_year(
        x, recenter=False, uncertainty_method='circular_block', confidence_level=c, exceedance_prob=p, block_length=L))
    if bad:
        return
    rd, ci, info = r
    ensure('bootstrap samples used', REC.get('used') is REC.get('samples') and REC.get('used') is not None)
    sig, mod = REC['signal'], REC['model']
    t = label()
    ensure('signal:index', Iff(sig._dom.mem(t), x._dom.mem(t)))
    ensure('signal:value', Implies(x._dom.mem(t), same(SF.of(sig._cell(t)), SF.of(x._cell(t)) / 1.0)))
    ensure('model:index', Iff(mod._dom.mem(t), x._dom.mem(t)))
    ensure('block length', same(REC['block'], L))
    ensure('multiplicative', REC['dec'] == 'multiplicative')
    if REC['fit'] is not u.degradation.degradation_year_on_year:
        raise Unsupported('fitting function is not the estimator itself')
    ensure('fit:plain rate of each sample', REC['kw'].get('uncertainty_method') == 'none' and REC['kw'].get('recenter') is False
           and set(REC['kw']) <= {'uncertainty_method', 'recenter', 'label'})
    ensure('level', same(SF.of(REC['level']), c))
    ensure('probability', same(SF.of(REC['prob']), p))
    ensure('interval reported', ci is REC['ci'])
    ensure('exceedance reported', info['exceedance_level'] is REC['ex'])


def srr_steps(tag):
    def step(self, *a, **kw):
        REC.setdefault('steps', []).append((tag, a, kw))
        if tag == 'result':
            ix = sym_index('intervals', axis='R')
            cols = ['start', 'end', 'run_slope', 'run_slope_low', 'run_slope_high', 'inferred_start_loss', 'inferred_end_loss',
                    'length', 'valid', 'other']
            self.result_df = DataFrame._mk(ix, {k: cell_fun(k, 'b' if k == 'valid' else 'f') for k in cols})
            jx = sym_index('days')
            self.analyzed_daily_df = DataFrame._mk(jx, {'valid': cell_fun('dvalid', 'b'), 'loss_perfect_clean': cell_fun('lpc')})
        if tag == 'daily':
            self.renorm_factor = SF.fresh('renorm')
        if tag == 'monte':
            self.monte_losses, self.random_profiles = OArr('losses', rand=True), ('profiles',)
    return step


SRR = {'soiling.SRRAnalysis._calc_daily_df': srr_steps('daily'), 'soiling.SRRAnalysis._calc_result_df': srr_steps('result'),
       'soiling.SRRAnalysis._calc_monte': srr_steps('monte')}


@contract(P, 'SRRAnalysis.run', ['soiling.SRRAnalysis.run'], assumptions=ASSUME + ['the analysis steps through their contracts'], overrides=SRR)
def _(u):
    REC.clear()
    c, p = level(), prob()
    S = u.soiling.SRRAnalysis
    s = object.__new__(S)
    default = fork('defaults', False, True)
    if default:
        c, p = 68.2, 95.0
        r = s.run()
    else:
        r = s.run(confidence_level=c, exceedance_prob=p)
    d = s.monte_losses
    ensure('P50', same(SF.of(r[0]), percentile(d, 50)))
    ensure('two bounds', len(r[1]) == 2)
    ensure('lower', same(SF.of(r[1][0]), percentile(d, 50 - c / 2)))
    ensure('upper', same(SF.of(r[1][1]), percentile(d, 50 + c / 2)))
    ensure('exceedance', same(SF.of(r[2]['exceedance_level']), percentile(d, 100 - p)))
    ensure('ordered', Or(SF.of(r[0]).nan, And(rcmp('<=', r[1][0].r, r[0].r), rcmp('<=', r[0].r, r[1][1].r))))
