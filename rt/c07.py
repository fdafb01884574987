from base import *
from rdtools.aggregation import aggregation_insol


def day_start(ts):
    return ts.normalize()


def periods(ix, f):
    """[(label, positions)]: periods counted from local midnight of the first day"""
    loc = ix.tz_localize(None) if ix.tz is not None else ix
    if f == 'MS':
        a = loc[0].to_period('M')
        b = loc[-1].to_period('M')
        out = []
        p = a
        while p <= b:
            out.append((p.to_timestamp(), [i for i, t in enumerate(loc) if t.to_period('M') == p]))
            p += 1
        return out
    d = pd.Timedelta(f)
    k0 = loc[0].normalize()
    first = (loc[0] - k0) // d
    last = (loc[-1] - k0) // d
    out = []
    for k in range(first, last + 1):
        lab = k0 + k * d
        out.append((lab, [i for i, t in enumerate(loc) if lab <= t < lab + d]))
    return out


@check('C07', 160)
def weighted_mean(g):
    # fixed offsets only: wall-clock periods of DST zones are pandas' business
    tz = g.choice(None, 'UTC', 'Etc/GMT+7', 'Asia/Kolkata')
    n = g.int(1, 40)
    ix = g.times(n, steps=('15min', '1h', '5h', '1D'), tz=tz)
    en = pd.Series(g.values(n, 0, 2, nan=g.choice(0, 0, 0.2)), ix, name='en')
    ins = pd.Series(g.values(n, 0, 900, nan=0, special=(0.0,)), ix, name='ins')
    if g.p(0.3):
        ins[en.isna()] = NAN
    f = g.choice('1D', '1D', '7D', '2D', '6h', '1h', 'MS', '5D')
    call = pd.tseries.frequencies.to_offset(f) if g.p(0.3) else f
    snap = Snapshot(en=en, ins=ins)
    out = must(aggregation_insol, en, ins) if f == '1D' and g.p(0.5) else must(aggregation_insol, en, ins, call)
    snap.verify('aggregation_insol')
    want = periods(ix, f)
    lab = pd.DatetimeIndex([w[0] for w in want])
    if tz is not None:
        lab = lab.tz_localize(tz)
    same_labels(out.index, lab, 'aggregation_insol periods', energy=en, frequency=f)
    vals = []
    for _, pos in want:
        num = sum(ins.values[i] * en.values[i] for i in pos if ins.values[i] * en.values[i] == ins.values[i] * en.values[i])
        den = sum(ins.values[i] for i in pos if ins.values[i] == ins.values[i])
        vals.append(NAN if den == 0 and num == 0 else (num / den if den else INF))
    same_values(out.values, vals, 'aggregation_insol', energy=en, insolation=ins, frequency=f)
    if not en.isna().any():
        for (_, pos), v in zip(want, out.values):
            e = [en.values[i] for i in pos if ins.values[i] > 0]
            if e:
                require(min(e) - 1e-9 <= v <= max(e) + 1e-9, 'outside the range of its period', got=v, values=e)
    c = g.choice(0.5, 4, 1000)
    same_values(must(aggregation_insol, en, ins * c, f).values, out.values, 'scaling the insolation')
