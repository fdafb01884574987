from srr import *
import c14
TOL = 1e-9


def uniform(name, us):
    """us: draws scaled to [0, 1]"""
    if len(us) >= 30:
        m = sum(us) / len(us)
        require(abs(m - 0.5) < 6 * 0.2887 / math.sqrt(len(us)), f'{name} is not drawn uniformly (mean)', mean=m, n=len(us))
        sq = sum((u - 0.5) ** 2 for u in us) / len(us)
        require(abs(sq - 1 / 12) < 6 * 0.0746 / math.sqrt(len(us)), f'{name} is not drawn uniformly (variance)', variance=sq, n=len(us))


def check_profile(p, d, want, method, reclist, slopes, starts, levels):
    """p: values over the days of the intervals"""
    first = want[0]['i0']
    v = [float(x) for x in p.values]
    prev_end, out = None, []
    for w in want:
        a, b = w['i0'] - first, w['i1'] - first
        seg = v[a:b + 1]
        s0 = seg[0]
        require(all(x == x for x in seg), 'NaN in a profile', interval=w['start'])
        require(max(seg) <= 1 + TOL, 'profile above 1', interval=w['start'], values=seg)
        if len(seg) > 1:
            m = (seg[-1] - s0) / (len(seg) - 1)
            for k, x in enumerate(seg):
                require(abs(x - (s0 + k * m)) < 1e-8, 'profile is not linear inside an interval', interval=w['start'], values=seg)
            require(w['low'] - 1e-8 <= m <= w['high'] + 1e-8, 'slope outside its bounds', interval=w['start'], slope=m,
                    bounds=(w['low'], w['high']), valid=w['valid'])
            if w['high'] - w['low'] > 1e-6:
                slopes.append((m - w['low']) / (w['high'] - w['low']))
        out.append((s0, seg[-1]))
    if method == 'perfect_clean':
        for w, (s0, _) in zip(want, out):
            require(abs(s0 - 1) < TOL, 'perfect cleaning does not start at 1', interval=w['start'], start=s0)
        return
    val = [k for k, w in enumerate(want) if w['valid']]
    require(abs(out[val[0]][0] - 1) < TOL, 'the first valid interval does not start at 1', start=out[val[0]][0])
    for k, nx in zip(val, val[1:]):
        end, start = out[k][1], out[nx][0]
        if method == 'random_clean':
            require(end - 1e-8 <= start <= 1 + TOL, 'recovery outside [previous end, 1]', end=end, start=start)
            if 1 - end > 1e-4:
                starts.append((start - end) / (1 - end))
        else:
            rec = want[k]['recovery']
            x = min(max(end + (1.0 if rec != rec else rec), 0), 1)
            sig = (1 - x) / 3
            require(1 - start <= 7 * sig + 1e-8, 'recovery is not half-normal with the inferred recovery at three sigma',
                    end=end, start=start, sigma=sig)
            if sig > 1e-6:
                reclist.append((1 - start) / sig)
    # invalid intervals: one constant level between the neighbouring valid ones, shared by consecutive invalid intervals
    k = 0
    while k < len(want):
        if want[k]['valid']:
            k += 1
            continue
        j = k
        while j < len(want) and not want[j]['valid']:
            j += 1
        lo = out[k - 1][1] if k > 0 else 1.0
        hi = out[j][0] if j < len(want) else 1.0
        if abs(hi - lo) > 1e-4:
            levels.append((out[k][0] - lo) / (hi - lo))
        for q in range(k, j):
            s = out[q][0]
            require(min(lo, hi) - 1e-8 <= s <= max(lo, hi) + 1e-8, 'level of an invalid interval not between its neighbours',
                    interval=want[q]['start'], level=s, previous_end=lo, next_start=hi)
            require(abs(s - out[k][0]) < 1e-9, 'consecutive invalid intervals differ', levels=[x[0] for x in out[k:j]])
        k = j


@check('C15', 40)
def profiles(g):
    n = g.choice(120, 200, 300, 500)
    pm, ins, precip = inputs(g, n)
    o, q = options(g), c14.opts(g)
    if g.p(0.5):
        o['clean_criterion'] = 'precip'
    d = daily(pm, ins, precip, **o)
    want = intervals(d, **q)
    if not any(w['valid'] for w in want):
        raise Skip()
    method = g.choice('half_norm_clean', 'random_clean', 'perfect_clean', None)
    kw = {} if method is None else dict(method=method)
    method = method or 'half_norm_clean'
    reps = g.int(1, 8)
    c, e = g.choice(68.2, 95, 50), g.choice(95.0, 50, 10)
    levels_ = dict(confidence_level=c, exceedance_prob=e)
    if g.p(0.3):
        c, e, levels_ = 68.2, 95.0, {}
    np.random.seed(g.int(0, 10**6))
    snap = Snapshot(pm=pm, ins=ins, precip=precip)
    sr, ci, info = must(entry(g), pm, ins, reps=reps, precipitation_daily=precip, **levels_, **kw, **o, **q)
    snap.verify('soiling_srr')
    ps = info['stochastic_soiling_profiles']
    require(len(ps) == reps, 'number of profiles', got=len(ps), want=reps)
    a, b = want[0]['i0'], want[-1]['i1']
    means, rec, slopes, starts, levels = [], [], [], [], []
    for p in ps:
        same_labels(p.index, d['ix'][a:b + 1], 'profile days')
        check_profile(p, d, want, method, rec, slopes, starts, levels)
        w = d['insol'][a:b + 1]
        means.append(sum(x * y for x, y in zip(p.values, w)) / sum(w))
    uniform('the slope of an interval', slopes)
    uniform('a random recovery', starts)
    uniform('the level of an invalid interval', levels)
    if len(rec) >= 30:
        m = sum(rec) / len(rec)
        require(abs(m - math.sqrt(2 / math.pi)) < 6 * 0.603 / math.sqrt(len(rec)), 'half-normal recovery has the wrong scale',
                mean=m, n=len(rec))
    T = dict(rtol=1e-9)
    require(close(sr, np.quantile(means, 0.5), **T), 'soiling ratio is not the median over profiles', got=sr, want=means)
    same_values(ci, [np.quantile(means, 0.5 - c / 200), np.quantile(means, 0.5 + c / 200)], 'confidence interval', **T)
    require(close(info['exceedance_level'], np.quantile(means, 1 - e / 100), **T), 'exceedance level',
            got=info['exceedance_level'])
    require(close(info['renormalizing_factor'], d['renorm']), 'renormalizing factor')


@check('C15', 12)
def many_intervals(g):
    """long records with many valid and invalid intervals"""
    n = g.int(500, 1000)
    ix = pd.date_range('2017-01-01', periods=n, freq='D')
    v, pr, t = [], [], 0
    while len(v) < n:
        L = g.choice(20, 25, 30, 6, 5)
        r = 0.0 if L < 10 else g.choice(0.001, 0.002)
        v += [1 - r * i + g.dyadic(-1, 1, 512) * 0.001 for i in range(L)]
        pr += [1.0] + [0.0] * (L - 1)
    pm, precip = pd.Series(v[:n], ix), pd.Series(pr[:n], ix)
    ins = pd.Series(g.values(n, 1000, 2000, nan=0), ix)
    o = dict(clean_criterion='precip')
    d = daily(pm, ins, precip, **o)
    want = intervals(d, max_negative_step=1.0)
    if not any(w['valid'] for w in want):
        raise Skip()
    method = g.choice('half_norm_clean', 'random_clean')
    np.random.seed(g.int(0, 10**6))
    _, _, info = must(entry(g), pm, ins, reps=6, precipitation_daily=precip, method=method, max_negative_step=1.0, **o)
    slopes, starts, levels = [], [], []
    for p in info['stochastic_soiling_profiles']:
        check_profile(p, d, want, method, [], slopes, starts, levels)
    uniform('the slope of an interval', slopes)
    uniform('a random recovery', starts)
    uniform('the level of an invalid interval', levels)


@check('C15', 5)
def bad_method(g):
    pm, ins, precip = inputs(g, 120, clean=True)
    st, r, _ = attempt(entry(g), pm, ins, reps=1)
    if st == 'exc':
        raise Skip()
    must_raise(ValueError, SO.soiling_srr, pm, ins, reps=1, method=g.choice('other', 'perfect', 'Half_norm_clean'))
