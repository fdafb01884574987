"""No option of a library call is silently ignored: a stand-in that takes further arguments without using them accepts only
the ones listed here, which do not change the result (or are given their default), and stops with Unsupported on any other."""
import dis, functools, inspect, types
from .core import Unsupported

ANY = object()
NEUTRAL = dict(copy=ANY, axis=(0, 'index', None), skipna=(True,), limit=(None,), level=(None,), inplace=(False,), ascending=(True,),
               observed=ANY, group_keys=ANY, numeric_only=ANY, verbose=ANY, dtype=(None, float, 'float64', 'float'), freq=(None,),
               tolerance=(None,), errors=ANY, verify_integrity=ANY, sort=(True,), downcast=(None,), limit_area=(None,), na_position=('last',),
               method=(None,), how=('any',), thresh=(None,), fill_value=(None,), keepdims=(False,), out=(None,), min_count=(0,),
               lsuffix=ANY, rsuffix=ANY, on=(None,), append=(False,), kind=ANY, infer_datetime_format=ANY, equal_nan=(False,), ndmin=(0,))
SKIP = {'_NullCM', 'WarnStub', 'Absent'}
SKIPF = {('Series', 'to_numpy'), ('Index', 'tz_localize'), ('DataFrame', '__new__'), ('Elementwise', 'clip')}


def unused(f):
    c = f.__code__
    n = c.co_argcount + c.co_kwonlyargcount
    names = []
    if c.co_flags & inspect.CO_VARARGS:
        names.append(('a', c.co_varnames[n]))
        n += 1
    if c.co_flags & inspect.CO_VARKEYWORDS:
        names.append(('k', c.co_varnames[n]))
    used = set()
    for i in dis.get_instructions(f):
        if i.opname.startswith(('LOAD_', 'STORE_DEREF', 'MAKE_CELL')):
            used |= set(i.argval) if isinstance(i.argval, tuple) else {i.argval}
    return {k for k, v in names if v not in used}


def neutral(k, v):
    ok = NEUTRAL.get(k, ())
    if ok is ANY:
        return True
    try:
        return any(v is w or (type(v) is type(w) and v == w) for w in ok)
    except Exception:
        return False


def guard(f, where):
    u = unused(f)
    if not u:
        return f
    c = f.__code__
    npos = c.co_argcount
    named = set(c.co_varnames[:npos + c.co_kwonlyargcount])

    @functools.wraps(f)
    def g(*a, **k):
        if 'a' in u and len(a) > npos and any(x is not None for x in a[npos:]):
            raise Unsupported(f'{where} with further arguments')
        if 'k' in u:
            for x, v in k.items():
                if x not in named and not neutral(x, v):
                    raise Unsupported(f'{where}({x}=...)')
        return f(*a, **k)
    return g


def apply(mod):
    for n, o in list(vars(mod).items()):
        if isinstance(o, type) and o.__module__ == mod.__name__:
            if n in SKIP:
                continue
            for k, v in list(vars(o).items()):
                if (n, k) in SKIPF:
                    continue
                if isinstance(v, types.FunctionType):
                    w = guard(v, f'{n}.{k}')
                    if w is not v:
                        setattr(o, k, w)
                elif isinstance(v, (staticmethod, classmethod)):
                    w = guard(v.__func__, f'{n}.{k}')
                    if w is not v.__func__:
                        setattr(o, k, type(v)(w))
        elif isinstance(o, types.FunctionType) and o.__module__ == mod.__name__:
            setattr(mod, n, guard(o, n))
