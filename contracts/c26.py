from vc.api import *
from vc.loops import LoopSpec
P = 'C26'
INPUT = {}


class OptResult(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise Unsupported(f'minimize result .{k}')


def subset(s, keep):
    return Series._mk(s.index.like(s._dom.sub(keep)), s._cell)


def objective(phi, irrad, sim, keep):
    """root mean square difference over the kept points when the model is scaled by phi"""
    d = Series._mk(irrad.index, memo_cell(lambda t: (phi * sim._cell(t) - irrad._cell(t)) ** 2.0))
    return subset(d, keep).mean()


def factor_of(guess):
    c = ctx()
    f = c.uf_minimizer if hasattr(c, 'uf_minimizer') else None
    if f is None:
        f = c.uf_minimizer = z3.Function('minimizer', z3.RealSort(), z3.RealSort())
    return SF(False, False, False, f(zr(SF.of(guess).r)))


def minimize(fun, x0, args=(), method=None, **kw):
    """assumed contract of scipy.optimize.minimize: a minimiser near x0 of the objective it is given"""
    if kw:
        raise Unsupported('minimize with options')
    if not isinstance(args, tuple):
        args = (args,)
    if not isinstance(x0, SF):
        raise Unsupported('minimize from ' + type(x0).__name__)
    ir, sim = INPUT['irrad'], INPUT['sim']
    phi = sym_float('phi')
    got = fun(phi, *args)
    csi = (lambda t: ir._cell(t) / (x0 * sim._cell(t))) if INPUT['iterative'] \
        else (lambda t: ir._cell(t) / (phi * sim._cell(t)))

    def keep(t):
        c = csi(t)
        b = And((c >= 0.8).b, (c <= 1.2).b)
        return And(b, (ir._cell(t) > 200).b) if INPUT['iterative'] else b
    want = np_sqrt(objective(phi, ir, sim, keep))
    ensure('objective: rms-difference-over-clear-points', same(got, want))
    INPUT['calls'] += 1
    return OptResult(x=[factor_of(x0)])


def np_sqrt(x):
    return numpy_stub().sqrt(x)


def inv(v, e):
    it0 = v.iteration
    F, prev, eF, eprev = (SF.of(x) for x in (v.factor, v.prev_factor, e.factor, e.prev_factor))
    first = And(zi(num_int(it0)) == 0, same(F, eF), same(prev, eprev))
    later = And(zi(num_int(it0)) >= 1, same(F, factor_of(prev)))
    return [('iterate-is-the-minimiser-from-the-previous-one', Or(first, later)),
            ('iterations-used-at-most-the-maximum', zi(num_int(it0)) <= max0(INPUT['max']))]


def max0(m):
    m = zi(num_int(m))
    return z3.If(m > 0, m, z3.IntVal(0))


def num_int(v):
    return v.v if isinstance(v, SI) else int(v)


def havoc(name, old):
    if name == 'iteration':
        INPUT[name] = SI(ctx().int('iteration'))
        return INPUT[name]
    if name in ('factor', 'prev_factor'):
        INPUT[name] = sym_float(name)
        return INPUT[name]
    if old is None:
        return None
    raise Unsupported(f'loop variable {name}')


LOOPS = {'normalization.irradiance_rescale': [LoopSpec(inv, havoc)]}


def inputs():
    ix = sym_index('ix', tz='TZA', owner='ix', nonempty=True)
    irrad, sim = sym_series('irrad', ix), sym_series('sim', ix, sname='sim')
    INPUT.clear()
    INPUT.update(irrad=irrad, sim=sim, calls=0, iterative=True)
    return ix, irrad, sim


@contract(P, 'irradiance_rescale: iterative', ['normalization.irradiance_rescale'], loops=LOOPS,
          overrides={'normalization.minimize': minimize},
          assumptions=['scipy minimize returns a minimiser of the objective it is given (the objective is checked)',
                       'both irradiance series are indexed alike; the initial guess is a finite number'])
def _(u):
    ix, irrad, sim = inputs()
    thr = sym_float('threshold')
    assume(thr.r > 0)
    M = SI(ctx().int('max_iterations'))
    INPUT['max'] = M
    kw = dict(method='iterative') if fork('method named', True, False) else {}
    R = u.normalization.irradiance_rescale
    exc = u.normalization.ConvergenceError
    r, out = raises(exc, lambda: R(irrad, sim, max_iterations=M, convergence_threshold=thr, **kw))
    if 'factor' not in INPUT:
        raise Unsupported('the iteration is not a loop with the variables of the loop contract')
    F, prev, it = INPUT['factor'], INPUT['prev_factor'], zi(INPUT['iteration'].v)
    moved = abs(F - prev)
    if r:
        ensure('ConvergenceError-only-after-all-iterations', And((moved > thr).b, it >= zi(M.v)))
        return
    t = label()
    same_index(out, ix, t, 'index')
    ensure('one-factor-times-the-model', Implies(ix._dom.mem(t), same(out._cell(t), F * sim._cell(t))))
    ensure('last-step-within-threshold', (moved <= thr).b)
    guess = numpy_stub().percentile(irrad.dropna(), 90) / numpy_stub().percentile(sim.dropna(), 90)
    ensure('factor-minimises-from-the-previous-iterate',
           Or(same(F, factor_of(prev)), And(same(F, guess), same(prev, SF.of(1)))))
    ensure('within-max-iterations', it <= max0(M))
    unchanged()


@contract(P, 'irradiance_rescale: single_opt and others', ['normalization.irradiance_rescale'],
          overrides={'normalization.minimize': minimize},
          assumptions=['scipy minimize returns a minimiser of the objective it is given (the objective is checked)'])
def _(u):
    ix, irrad, sim = inputs()
    INPUT['iterative'] = False
    R = u.normalization.irradiance_rescale
    if fork('unknown method', True, False):
        ensure('unknown-method-raises-ValueError', raises(ValueError, lambda: R(irrad, sim, method='other'))[0])
        return
    out = R(irrad, sim, method='single_opt')
    ensure('one-optimisation', INPUT['calls'] == 1)
    t = label()
    same_index(out, ix, t, 'index')
    guess = numpy_stub().percentile(irrad.dropna(), 90) / numpy_stub().percentile(sim.dropna(), 90)
    ensure('factor-times-model', Implies(ix._dom.mem(t), same(out._cell(t), factor_of(guess) * sim._cell(t))))
    unchanged()
