"""Data-structure invariant: every key of a filter configuration is a known filter name.

The class is verified over an arbitrary (unbounded, symbolic) dictionary: `dict` is bound to SymDict, the assumed
contract of the builtin: a key set given by a predicate.  Loops over a key set are cut: one arbitrary element is
executed, and the loop is left normally only if the body completes for every element."""
from vc.api import *
P = 'C22'
AX = 'K'


class SK:
    """arbitrary key"""
    def __init__(self, v):
        self.v = v
        ctx().note(AX, v)

    def __format__(self, spec):
        return 'key'

    __str__ = __repr__ = lambda s: 'key'


class Valid:
    """the known filter names: an arbitrary set"""
    def __init__(self):
        self.f = z3.Function(ctx().fresh('valid'), z3.IntSort(), z3.BoolSort())

    def __contains__(self, k):
        return ctx().decide(self.f(k.v))


SEEN = {}


class Keys:
    def __init__(self, d):
        self.has = d._has

    def __iter__(self):
        """invariant cut of a loop whose body only inspects the element (no state changes)"""
        c = ctx()
        e = c.int('key')
        nonempty = c.bool('some key')
        c.universal(AX, lambda u: Implies(self.has(u), nonempty))
        if not c.decide(nonempty):
            return
        k = SK(e)
        c.assume(self.has(e))
        n0 = len(c.pc)
        yield k
        body = z3.And(*[zb(x) for x in c.pc[n0:]]) if len(c.pc) > n0 else z3.BoolVal(True)
        # one normal path through the body, or the cut would not cover mixed iterations
        sig = SEEN.setdefault(id(c.opts), z3.substitute(body, (e, z3.IntVal(0))).sexpr().split('!')[0])
        if z3.substitute(body, (e, z3.IntVal(0))).sexpr().split('!')[0] != sig:
            raise Unsupported('loop body with several normal paths')
        # the body completed for an arbitrary key under `body`: the loop completes iff it does so for every key
        c.universal(AX, lambda u: Implies(self.has(u), z3.substitute(body, (e, zi(u)))))

    def __contains__(self, k):
        return ctx().decide(self.has(k.v))


class SymDict:
    """assumed contract of the builtin dict (values carry no obligation)"""
    def __init__(self, *args, **kw):
        self._has = lambda u: False
        SymDict.update(self, *args, **kw)

    def update(self, *args, **kw):
        if kw:
            raise Unsupported('keyword keys')
        for a in args:
            if isinstance(a, SymDict):
                self._add(a._has)
            elif isinstance(a, dict) and not a:
                pass
            else:
                raise Unsupported('dict from other data')

    def _add(self, p):
        old = self._has
        self._has = lambda u: Or(old(u), p(u))

    def __setitem__(self, k, v):
        self._add(lambda u: zi(u) == k.v)

    def setdefault(self, k, v=None):
        SymDict.__setitem__(self, k, v)
        return v

    def __ior__(self, o):
        SymDict.update(self, o)
        return self

    def __or__(self, o):
        d = SymDict(self)
        SymDict.update(d, o)
        return d

    def __contains__(self, k):
        return ctx().decide(self._has(k.v))

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return 'value'

    def get(self, k, d=None):
        return 'value' if k in self else d

    def keys(self):
        return Keys(self)

    def __iter__(self):
        return iter(Keys(self))

    def items(self):
        return Items(self)

    def __repr__(self):
        return '{...}'


class Items:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        for k in Keys(self.d):
            yield k, 'value'


def sym_dict(name):
    f = z3.Function(ctx().fresh('has_' + name), z3.IntSort(), z3.BoolSort())
    d = SymDict()
    d._has = lambda u: f(zi(u))
    return d


def filter_dict(u, valid, name='d'):
    """an arbitrary configuration satisfying the invariant"""
    C = u.analysis_chains.ValidatedFilterDict
    d = C(valid, SymDict())
    base = sym_dict(name)
    d._has = base._has
    ctx().universal(AX, lambda k: Implies(base._has(k), valid.f(k)))
    return d


def attempt(fn):
    try:
        return None, fn()
    except KeyError as e:
        return e, None


def at_key():
    ctx().snapshot()
    t = ctx().int('k')
    ctx().note(AX, t)
    return t


def conclude(valid, err, before, after, added):
    """added(k): keys the operation introduces"""
    k = at_key()
    if err is not None:
        ensure('previous-entries-intact', Iff(after(k), before(k)))
        w = ctx().bool('some unknown key')
        ctx().universal(AX, lambda u: Implies(And(added(u), Not(valid.f(u))), w))
        ensure('KeyError-only-for-an-unknown-key', w)
    else:
        ensure('invariant:only-known-names', Implies(after(k), valid.f(k)))
        ensure('entries-added', Iff(after(k), Or(before(k), added(k))))


B = dict(builtin={'analysis_chains.dict': SymDict})
F = ['analysis_chains.ValidatedFilterDict']


@contract(P, 'construction', F, **B)
def _(u):
    valid = Valid()
    src = sym_dict('src')
    err, d = attempt(lambda: u.analysis_chains.ValidatedFilterDict(valid, src))
    conclude(valid, err, lambda k: False, d._has if d is not None else (lambda k: False), src._has)
    k = at_key()
    ensure('source-unchanged', True)


def op(name, run, added):
    @contract(P, name, F, **B)
    def _(u):
        valid = Valid()
        d = filter_dict(u, valid)
        before = d._has
        arg = run_arg[name]()
        err, r = attempt(lambda: run(d, arg))
        conclude(valid, err, before, d._has, lambda k: added(arg, k))
        if name == 'in-place merge':
            ensure('merge-keeps-the-object', err is not None or r is d)


run_arg = {'item assignment': lambda: SK(ctx().int('newkey')), 'setdefault': lambda: SK(ctx().int('newkey')),
           'update': lambda: sym_dict('other'), 'in-place merge': lambda: sym_dict('other')}
op('item assignment', lambda d, k: d.__setitem__(k, 'v'), lambda k, u: zi(u) == k.v)
op('setdefault', lambda d, k: d.setdefault(k, 'v'), lambda k, u: zi(u) == k.v)
op('update', lambda d, o: d.update(o), lambda o, u: o._has(u))


def ior(d, o):
    d |= o
    return d


op('in-place merge', ior, lambda o, u: o._has(u))


def replacement(attr, valid_attr):
    @contract(P, f'whole replacement of {attr}', ['analysis_chains.TrendAnalysis.' + attr] + F, **B)
    def _(u):
        valid = Valid()
        T = u.analysis_chains.TrendAnalysis
        obj = T.__new__(T)
        setattr(obj, valid_attr, valid)
        old = filter_dict(u, valid)
        setattr(obj, '_' + attr, old)
        # any mapping, also a configuration that was checked against other names
        src = fork('checked elsewhere', filter_dict, sym_dict)
        src = filter_dict(u, Valid(), 'new') if src is filter_dict else sym_dict('new')
        before = old._has
        err, _ = attempt(lambda: setattr(obj, attr, src))
        cur = getattr(obj, attr)
        k = at_key()
        ensure('invariant:only-known-names', Implies(cur._has(k), valid.f(k)))
        ensure('still-validating', isinstance(cur, u.analysis_chains.ValidatedFilterDict) and cur.valid_keys is valid)
        if err is not None:
            ensure('previous-entries-intact', Iff(cur._has(k), before(k)))
        else:
            ensure('replaced', Iff(cur._has(k), src._has(k)))


replacement('filter_params', 'valid_filter_params')
replacement('filter_params_aggregated', 'valid_filter_params_aggregated')
