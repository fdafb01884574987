from vc.api import *
P = 'C07'


def bins(s, rule):
    """periods of the frequency counted from the start of the first day"""
    return s.resample(rule, origin='start_day')


@contract(P, 'aggregation_insol', ['aggregation.aggregation_insol'],
          assumptions=['insolation and normalized energy share one index',
                       'resample bins are a function of the index, the rule and the options'])
def _(u):
    ix = sym_index('ix', tz=fork('tz', None, 'TZA'), nonempty=True, owner='ix')
    en = sym_series('energy_normalized', ix)
    ins = sym_series('insolation', ix)
    F = fork('frequency', 'default', Freq('F'))
    A = u.aggregation.aggregation_insol
    if F == 'default':
        out = A(en, ins)
        F = 'D'
    else:
        out = A(en, ins, F)
    prod = Series._mk(ix, memo_cell(lambda t: ins._cell(t) * en._cell(t)))
    a, b = bins(prod, F).sum(), bins(ins, F).sum()
    L = label()
    same_index(out, b._dom, L, 'one-value-per-period')
    ensure('weighted-mean', Implies(b._dom.mem(L), same(out._cell(L), a._cell(L) / b._cell(L))))
    unchanged()
