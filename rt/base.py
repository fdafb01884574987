"""Executable contracts on the real code: oracles, generators, runner helpers.

Each @check is called with a seeded Gen; it builds an input, calls the real
function from /repo and compares with an independent statement of the contract.
A violated contract raises Fail; the (check, case seed) pair replays it."""
import sys, os, math, hashlib, random, warnings, traceback, json
REPO = os.environ.get('VC_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
import numpy as np
import pandas as pd

NAN = float('nan')
INF = float('inf')
CHECKS = {}


class Fail(Exception):
    pass


class Skip(Exception):
    """the generated case is outside the precondition / numerically undecidable"""


def check(prop, n=20, thorough=None, name=None):
    def deco(f):
        CHECKS.setdefault(prop, []).append((name or f.__name__, f, n, thorough or n * 10))
        return f
    return deco


def require(cond, msg, **data):
    if not cond:
        raise Fail(msg + ('' if not data else ' :: ' + '; '.join(f'{k}={show(v)}' for k, v in data.items())))


def show(v):
    if isinstance(v, (pd.Series, pd.DataFrame)):
        s = v.to_string(max_rows=40) if hasattr(v, 'to_string') else repr(v)
        return '\n' + s
    return repr(v)[:1500]


INPUTS = {}      # digest of every distinct input given to the real code -> None, or the input written out (first few)
SAMPLES = []
CALLS = [0]


def note(f, a, k):
    name = getattr(f, '__name__', type(f).__name__)
    try:
        import pickle
        blob = pickle.dumps((name, a, k))
    except Exception:
        blob = repr((name, a, k)).encode()
    h = hashlib.sha256(blob).hexdigest()[:16]
    if h not in INPUTS:
        INPUTS[h] = None
        if len(SAMPLES) < 2:
            SAMPLES.append((name + '(' + ', '.join([brief_arg(x) for x in a] + [f'{n}={brief_arg(x)}' for n, x in k.items()]) + ')')[:900])


def brief_arg(v):
    if isinstance(v, pd.Series):
        ix = v.index
        return (f'Series(n={len(v)}, index {ix[0]}..{ix[-1]}, values {[x for x in v.values[:8]]}...)' if len(v) else 'Series(empty)')
    if isinstance(v, pd.DatetimeIndex):
        return f'DatetimeIndex(n={len(v)}, {list(map(str, v[:4]))}...)'
    return repr(v)[:120]


def attempt(f, *a, **k):
    """('ok', value) or ('exc', exception); AssertionError etc. included"""
    note(f, a, k)
    CALLS[0] += 1
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            v = f(*a, **k)
            return 'ok', v, w
        except Skip:
            raise
        except Exception as e:
            return 'exc', e, w


def must(f, *a, **k):
    """the call must not raise"""
    st, v, w = attempt(f, *a, **k)
    if st != 'ok':
        raise Fail(f'unexpected {type(v).__name__}: {v}\n' + ''.join(traceback.format_exception(v))[-1500:])
    return v


def private(module, name):
    """an internal function under contract; a check through it is skipped when it is gone or its signature changed"""
    import inspect
    f = getattr(module, name, None)
    if f is None:
        raise Skip()
    sig = inspect.signature(f)

    def call(*a, **k):
        try:
            sig.bind(*a, **k)
        except TypeError:
            raise Skip()
        return f(*a, **k)
    return call


def must_raise(exc, f, *a, **k):
    st, v, w = attempt(f, *a, **k)
    require(st == 'exc', f'expected {exc}, call returned', value=v)
    require(isinstance(v, exc), f'expected {exc}, got {type(v).__name__}: {v}')


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def same_values(got, want, msg, rtol=1e-9, atol=1e-12, **data):
    g = [float(x) for x in got]
    w = [float(x) for x in want]
    require(len(g) == len(w), msg + ': length', got=len(g), want=len(w), **data)
    for i, (x, y) in enumerate(zip(g, w)):
        if not close(x, y, rtol, atol):
            raise Fail(f'{msg}: position {i}: got {x!r}, contract says {y!r}' +
                       ''.join(f'; {k}={show(v)}' for k, v in data.items()))


def same_labels(got, want, msg, **data):
    require(len(got) == len(want), msg + ': index length', got=len(got), want=len(want), **data)
    if isinstance(want, pd.DatetimeIndex) and isinstance(got, pd.DatetimeIndex):
        ok = (got.tz is None) == (want.tz is None) and (got.asi8 == want.asi8).all()
        require(ok, msg + ': index differs', got=got, want=want, **data)
        if want.tz is not None:
            require(str(got.tz) == str(want.tz), msg + ': time zone', got=got.tz, want=want.tz)
    else:
        require(list(got) == list(want), msg + ': index differs', got=got, want=want, **data)


def is_bool_series(m, msg):
    require(isinstance(m, pd.Series), msg + ': not a Series', got=type(m))
    require(m.dtype == bool, msg + ': not boolean dtype', got=m.dtype)


def mask_is(m, index, want, msg, **data):
    """want: list of True/False/None(undecided)"""
    is_bool_series(m, msg)
    same_labels(m.index, index, msg)
    for i, (g, w) in enumerate(zip(m.values, want)):
        if w is None:
            continue
        if bool(g) != w:
            raise Fail(f'{msg}: point {i} ({index[i]}): got {bool(g)}, contract says {w}' +
                       ''.join(f'; {k}={show(v)}' for k, v in data.items()))


class Snapshot:
    """deep record of caller data, to check that it is not modified"""
    def __init__(self, **objs):
        self.objs = objs
        self.saved = {k: self._rec(v) for k, v in objs.items()}

    def _rec(self, v):
        if isinstance(v, pd.Series):
            return ('S', v.to_numpy(copy=True), str(v.dtype), v.name, self._rec(v.index))
        if isinstance(v, pd.DataFrame):
            return ('D', [(c, self._rec(v[c])) for c in v.columns], self._rec(v.index))
        if isinstance(v, pd.DatetimeIndex):
            return ('T', v.asi8.copy(), str(v.tz), v.name, str(v.freq))
        if isinstance(v, pd.Index):
            return ('I', list(v), v.name)
        if isinstance(v, np.ndarray):
            return ('A', v.copy())
        if isinstance(v, dict):
            return ('d', {k: self._rec(x) for k, x in v.items()})
        if isinstance(v, (list, tuple)):
            return ('l', [self._rec(x) for x in v])
        return ('o', repr(v))

    @staticmethod
    def _eq(a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, np.ndarray):
            if a.shape != b.shape or a.dtype != b.dtype:
                return False
            if a.dtype == object:
                return all((x is y) or x == y or (x != x and y != y) for x, y in zip(a.ravel(), b.ravel()))
            return bool(((a == b) | ((a != a) & (b != b))).all())
        if isinstance(a, (tuple, list)):
            return len(a) == len(b) and all(Snapshot._eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict):
            return list(a) == list(b) and all(Snapshot._eq(a[k], b[k]) for k in a)
        if isinstance(a, float) and a != a:
            return b != b
        return a == b

    def verify(self, what):
        for k, v in self.objs.items():
            now = self._rec(v)
            if not self._eq(self.saved[k], now):
                raise Fail(f"{what}: caller's object {k!r} was modified: before={str(self.saved[k])[:600]} after={str(now)[:600]}")


TZS = [None, 'UTC', 'Etc/GMT+7', 'America/Denver', 'Australia/Lord_Howe', 'Asia/Kolkata']


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.seed = seed
        self.np = np.random.RandomState(self.r.randrange(2**31))

    def choice(self, *xs):
        return self.r.choice(xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)

    def int(self, a, b):
        return self.r.randint(a, b)

    def p(self, prob):
        return self.r.random() < prob

    def dyadic(self, lo, hi, den=64):
        """exactly representable multiples of 1/den"""
        return self.r.randint(int(lo * den), int(hi * den)) / den

    def values(self, n, lo=0.0, hi=1000.0, nan=0.1, special=(), pspecial=0.15, den=64):
        out = []
        for _ in range(n):
            x = self.r.random()
            if x < nan:
                out.append(NAN)
            elif special and x < nan + pspecial:
                out.append(self.r.choice(list(special)))
            else:
                out.append(self.dyadic(lo, hi, den))
        return np.array(out, dtype=float)

    def tz(self):
        return self.choice(TZS)

    def start(self, tz='?'):
        tz = self.tz() if tz == '?' else tz
        day = self.choice('2019-01-01', '2020-02-27', '2021-03-13', '2021-11-06', '2018-12-30', '2022-06-30', '1999-12-31')
        return pd.Timestamp(day, tz=tz) + pd.Timedelta(minutes=self.choice(0, 0, 0, 7, 60, 719, 1439))

    def times(self, n, steps=('1min', '5min', '15min', '1h', '1D'), tz='?', regular=None):
        """sorted unique DatetimeIndex of n points"""
        try:
            return self._times(n, self.start(tz), steps, regular)
        except Exception:      # a clock change made a local time ambiguous
            return self._times(n, self.start('UTC'), steps, regular)

    def _times(self, n, st, steps, regular):
        step = pd.Timedelta(self.choice(list(steps)))
        if regular is None:
            regular = self.p(0.5)
        if regular:
            ix = pd.date_range(st, periods=n, freq=step)
        else:
            t, out = st, []
            for _ in range(n):
                out.append(t)
                t = t + step * self.choice(1, 1, 1, 2, 3, 5)
                if self.p(0.2):
                    t = t + pd.Timedelta(seconds=self.choice(1, 30, 61))
            ix = pd.DatetimeIndex(out)
        return ix

    def name(self):
        return self.choice(None, 'x', 'energy', 'value', 'dt', 3)
