from base import *
import copy, pickle
from rdtools import TrendAnalysis
from rdtools import analysis_chains

POINT = ["normalized_filter", "poa_filter", "tcell_filter", "clip_filter", "hour_angle_filter", "clearsky_filter",
         "sensor_clearsky_filter", "ad_hoc_filter"]
AGG = ["two_way_window_filter", "insolation_filter", "hampel_filter", "directional_tukey_filter", "ad_hoc_filter"]
BAD = ['csi_filter', 'Poa_filter', '', 'pvlib_clearsky_filter', 'ad_hoc', None, 3, 'xgboost_clip_filter', 'poa_filter ']


def analysis():
    ix = pd.date_range('2020-01-01', periods=4, freq='1h', tz='UTC')
    return TrendAnalysis(pd.Series([1.0, 2, 3, 4], ix), power_dc_rated=1)


def keys(g, good, allow_bad=True):
    ks = [g.choice(good) for _ in range(g.int(0, 3))]
    if allow_bad and g.p(0.5):
        ks.insert(g.int(0, len(ks)), g.choice(BAD))
    return ks


def step(g, d, good, ta, attr):
    """one random operation; returns (operation, keys introduced, callable)"""
    k = g.int(0, 9)
    ks = keys(g, good)
    strs = all(isinstance(x, str) for x in ks)
    new = {x: {'v': i} for i, x in enumerate(ks)}
    if k == 0:
        x = g.choice(g.choice(good), g.choice(BAD))
        return 'setitem', {x: 1}, lambda: d.__setitem__(x, 1)
    if k == 1:
        x = g.choice(g.choice(good), g.choice(BAD))
        return 'setdefault', {x: 1}, lambda: d.setdefault(x, 1)
    if k == 2:
        return 'update mapping', new, lambda: d.update(new)
    if k == 3:
        return 'update pairs', new, lambda: d.update(list(new.items()))
    if k == 4:
        return 'update iterator', new, lambda: d.update(iter(list(new.items())))
    if k == 5 and strs:
        return 'update keywords', new, lambda: d.update(**new)
    if k == 6:
        def f():
            e = d
            e |= new
        return '|=', new, f
    if k == 7 and strs:
        a = dict(list(new.items())[:1])
        b = dict(list(new.items())[1:])
        return 'update both', new, lambda: d.update(a, **b)
    if k == 8 and ta is not None and g.p(0.4):
        # a configuration taken from elsewhere: another attribute, another analysis, other known names
        V = getattr(analysis_chains, 'ValidatedFilterDict', None)
        o = g.choice(lambda: ta.filter_params, lambda: ta.filter_params_aggregated, lambda: analysis().filter_params,
                     lambda: analysis().filter_params_aggregated, lambda: V(list(new), new) if V else new)()
        return 'replace', dict(o), lambda: setattr(ta, attr, o)
    if k == 8 and ta is not None:
        return 'replace', new, lambda: setattr(ta, attr, new)
    return 'update mapping', new, lambda: d.update(new)


@check('C22', 250)
def operations(g):
    which = g.choice('point', 'agg', 'class')
    ta = attr = None
    if which == 'class':
        V = getattr(analysis_chains, 'ValidatedFilterDict', None)
        if V is None:
            raise Skip
        good = ['k1', 'k2', 'k3']
        d = V(good, {'k1': 0})
    else:
        ta = analysis()
        attr = 'filter_params' if which == 'point' else 'filter_params_aggregated'
        good = POINT if which == 'point' else AGG
        d = getattr(ta, attr)
    require(set(d) <= set(good), 'initial configuration has unknown names', got=list(d))
    hist = []
    for _ in range(g.int(1, 8)):
        before = dict(d)
        name, new, f = step(g, d, good, ta, attr)
        hist.append((name, list(new)))
        st, v, w = attempt(f)
        if name == 'replace':
            d = getattr(ta, attr)
        bad = [x for x in new if x not in good]
        if bad:
            require(st == 'exc' and isinstance(v, KeyError), f'{name}: unknown filter name {bad} accepted (or wrong exception)', history=hist, got=v)
            require(dict(d) == before, f'{name}: previous entries changed by a rejected operation', history=hist, before=before, after=dict(d))
        else:
            require(st == 'ok', f'{name}: rejected known names: {v}', history=hist)
            want = dict(before)
            if name == 'setdefault':
                for x in new:
                    want.setdefault(x, new[x])
            elif name == 'replace':
                want = dict(new)
            else:
                want.update(new)
            require(dict(d) == want, f'{name}: wrong entries', history=hist, got=dict(d), want=want)
        require(all(x in good for x in d), f'{name}: configuration holds an unknown filter name', history=hist, keys=list(d))
        if g.p(0.15):
            c = g.choice(copy.deepcopy, copy.copy, lambda z: pickle.loads(pickle.dumps(z)))(d)
            require(dict(c) == dict(d), 'copy differs', history=hist)
            must_raise(KeyError, c.__setitem__, 'nonsense', 1)
            must_raise(KeyError, c.update, {'nonsense': 1})
        if g.p(0.2) and d:
            k = g.choice(list(d))
            if g.p(0.5):
                del d[k]
            else:
                d.pop(k)


@check('C22', 40)
def construction(g):
    V = getattr(analysis_chains, 'ValidatedFilterDict', None)
    if V is None:
        raise Skip
    good = POINT
    new = {x: 1 for x in keys(g, good)}
    how = g.choice('map', 'pairs', 'iter', 'kw')
    if how == 'kw' and not all(isinstance(x, str) for x in new):
        how = 'map'
    f = {'map': lambda: V(good, new), 'pairs': lambda: V(good, list(new.items())), 'iter': lambda: V(good, iter(list(new.items()))),
         'kw': lambda: V(good, **new)}[how]
    if all(x in good for x in new):
        require(dict(must(f)) == new, 'constructed entries differ')
    else:
        must_raise(KeyError, f)


@check('C22', 10)
def not_a_dict(g):
    ta = analysis()
    for attr in ('filter_params', 'filter_params_aggregated'):
        before = dict(getattr(ta, attr))
        must_raise(ValueError, setattr, ta, attr, g.choice([['poa_filter'], 'poa_filter', None, 3]))
        require(dict(getattr(ta, attr)) == before, 'changed by a rejected replacement')
    ta.filter_params_aggregated = {}
    require(dict(ta.filter_params_aggregated) == {}, 'empty replacement')


@check('C22', 10)
def exchanged(g):
    """the configuration of one stage is no configuration of the other"""
    ta, tb = analysis(), analysis()
    before = dict(ta.filter_params), dict(ta.filter_params_aggregated)
    src = g.choice(ta, tb)
    must_raise(KeyError, setattr, ta, 'filter_params_aggregated', src.filter_params)
    src.filter_params_aggregated = {'hampel_filter': {}}
    keep = dict(ta.filter_params_aggregated)
    must_raise(KeyError, setattr, ta, 'filter_params', src.filter_params_aggregated)
    require(dict(ta.filter_params) == before[0] and dict(ta.filter_params_aggregated) == keep, 'changed by a rejected replacement')
    # a configuration taken over from another analysis is checked from then on, and is not shared with it
    ta.filter_params = tb.filter_params
    must_raise(KeyError, ta.filter_params.__setitem__, 'nonsense', 1)
    if ta.filter_params is not tb.filter_params:
        ta.filter_params['hour_angle_filter'] = {}
