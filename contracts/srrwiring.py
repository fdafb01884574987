"""SRRAnalysis.run and soiling_srr: every option reaches the step it belongs to, and the steps' results are what is reported.
Registered for each property of the soiling analysis that a user reaches through these two functions."""
from vc.api import *
from contracts import c11

OPTIONS = dict(daily=('day_scale', 'clean_threshold', 'recenter', 'clean_criterion', 'precip_threshold', 'outlier_factor'),
               result=('trim', 'max_relative_slope_error', 'max_negative_step', 'min_interval_length'),
               monte=('monte', 'method'))
DEFAULT = dict(day_scale=13, clean_threshold='infer', recenter=True, clean_criterion='shift', precip_threshold=0.01, outlier_factor=1.5,
               trim=False, max_relative_slope_error=500.0, max_negative_step=0.05, min_interval_length=7, monte=1000,
               method='half_norm_clean')
POSITION = dict(daily=('day_scale', 'clean_threshold', 'recenter', 'clean_criterion', 'precip_threshold', 'outlier_factor'),
                result=('trim', 'max_relative_slope_error', 'max_negative_step', 'min_interval_length'), monte=('monte', 'method'))
STEPDEFAULT = dict(daily={k: DEFAULT[k] for k in OPTIONS['daily']}, result={k: DEFAULT[k] for k in OPTIONS['result']},
                   monte=dict(method='half_norm_clean'))
REC = c11.REC


class Opt:
    """the value of an option: nothing is known about it but its identity"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'


class Made:
    """stand-in of SRRAnalysis for its caller: records how it was made and run"""
    def __init__(self, energy_normalized_daily, insolation_daily, precipitation_daily=None):
        REC['made'] = (energy_normalized_daily, insolation_daily, precipitation_daily)

    def run(self, *a, **k):
        REC['run'] = (a, k)
        REC['out'] = (Opt('sr'), Opt('ci'), Opt('info'))
        return REC['out']


NAMES = ['reps', 'day_scale', 'clean_threshold', 'trim', 'method', 'clean_criterion', 'precip_threshold', 'min_interval_length',
         'exceedance_prob', 'confidence_level', 'recenter', 'max_relative_slope_error', 'max_negative_step', 'outlier_factor']


def same_opt(a, b):
    return a is b or (not isinstance(a, Opt) and not isinstance(b, Opt) and type(a) in (int, float, str, bool) and a == b)


def register(P, which):
    @contract(P, 'SRRAnalysis.run passes its options on', ['soiling.SRRAnalysis.run'],
              assumptions=['the steps of the analysis through their contracts'], overrides=c11.SRR)
    def _(u):
        REC.clear()
        s = object.__new__(u.soiling.SRRAnalysis)
        default = fork('defaults', False, True)
        opts = {k: Opt(k) for k in DEFAULT}
        if default:
            s.run()
            opts = DEFAULT
        else:
            s.run(**{('reps' if k == 'monte' else k): v for k, v in opts.items()})
        steps = REC.get('steps', [])
        if [t for t, a, k in steps] != ['daily', 'result', 'monte']:
            raise Unsupported('not the three steps in order')
        for tag, a, k in steps:
            got = dict(STEPDEFAULT[tag])
            got.update(dict(zip(POSITION[tag], a)))
            got.update(k)
            if not set(got) <= set(OPTIONS[tag]) or set(got) != set(OPTIONS[tag]):
                raise Unsupported('other options of a step')
            if tag == which:
                for o in OPTIONS[tag]:
                    ensure(f'{o} reaches the step', same_opt(got[o], opts[o]))

    @contract(P, 'soiling_srr passes its options on', ['soiling.soiling_srr'],
              assumptions=['SRRAnalysis through its contracts'], overrides={'soiling.SRRAnalysis': Made})
    def _(u):
        REC.clear()
        mine = OPTIONS[which]
        opts = {k: Opt(k) for k in NAMES}
        e, i, p = Opt('energy'), Opt('insolation'), Opt('precipitation')
        r = u.soiling.soiling_srr(e, i, precipitation_daily=p, **opts)
        if 'made' not in REC or 'run' not in REC:
            raise Unsupported('another way to run the analysis')
        ensure('inputs', REC['made'][0] is e and REC['made'][1] is i and REC['made'][2] is p)
        a, k = REC['run']
        got = dict(zip(NAMES, a))
        got.update(k)
        for o in mine:
            o = 'reps' if o == 'monte' else o
            ensure(f'{o} reaches the analysis', got.get(o) is opts[o])
        ensure('results returned', isinstance(r, tuple) and len(r) == 3 and all(x is y for x, y in zip(r, REC['out'])))


for P, w in (('C13', 'daily'), ('C14', 'result'), ('C15', 'monte')):
    register(P, w)
