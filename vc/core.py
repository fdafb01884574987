"""Core of the verification-condition generator.

The *real* functions of /repo/rdtools are executed by CPython on symbolic
values; every branch on a symbolic condition forks the path; every `ensure` of
a contract becomes an obligation  (path condition + library contracts) => goal
that is discharged by an SMT solver.  Nothing is unrolled or bounded: a Series
is a label set plus a cell function, both uninterpreted.
"""
import os, time, itertools
from fractions import Fraction
import z3


class Unsupported(BaseException):
    """the code uses something outside the modelled subset"""


class PathDone(BaseException):
    """the path ends here; what was recorded on it still has to be discharged"""


class PathAbort(BaseException):
    """this path is infeasible"""


class Crash(BaseException):
    pass


# ---------------------------------------------------------------- booleans
def isz(x):
    return isinstance(x, z3.ExprRef)


def And(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if not isz(x):
            raise TypeError(f'And of {x!r}')
        if z3.is_false(x):
            return False
        if z3.is_true(x):
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if not isz(x):
            raise TypeError(f'Or of {x!r}')
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    if a.eq(b):
        return True
    return a == b


def Xor(a, b):
    return Not(Iff(a, b))


# ---------------------------------------------------------------- numbers
def num(x):
    """python number -> exact Fraction (decimal reading of floats)"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))
    raise Unsupported(f'number {x!r}')


def zr(x):
    if isz(x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    x = num(x)
    return z3.RealVal(f'{x.numerator}/{x.denominator}')


def zi(x):
    if isz(x):
        return x
    return z3.IntVal(int(x))


def radd(a, b):
    if not isz(a) and not isz(b):
        return a + b
    if not isz(a) and a == 0:
        return b
    if not isz(b) and b == 0:
        return a
    return zr(a) + zr(b)


def rneg(a):
    return -a if not isz(a) else -zr(a)


def rsub(a, b):
    if isz(a) and isz(b) and a.eq(b):
        return Fraction(0)
    return radd(a, rneg(b))


_MUL = z3.Function('mul', z3.RealSort(), z3.RealSort(), z3.RealSort())
_INV = z3.Function('inv', z3.RealSort(), z3.RealSort())


def _coeff(e):
    """e == k * rest with k numeric"""
    if z3.is_app_of(e, z3.Z3_OP_MUL) and e.num_args() == 2 and z3.is_rational_value(e.arg(0)):
        k, r = _coeff(e.arg(1))
        return e.arg(0).as_fraction() * k, r
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        k, r = _coeff(e.arg(0))
        return -k, r
    if z3.is_rational_value(e):
        return e.as_fraction(), None
    return Fraction(1), e


def nlmul(a, b):
    """product of two symbolic reals: uninterpreted + sign facts; the definition is a lazy axiom"""
    ka, a = _coeff(zr(a))
    kb, b = _coeff(zr(b))
    k = Fraction(ka) * Fraction(kb)
    if a is None and b is None:
        return k
    if a is None or b is None:
        return rmul(k, a if b is None else b)
    c = ctx()
    m = _MUL(a, b)
    key = ('nlmul', a.get_id(), b.get_id())
    if key not in c.appkey:
        c.appkey[key] = (a, b)
        c.appkey[('nlmul', b.get_id(), a.get_id())] = (a, b)
        w = _MUL(b, a)
        if not a.eq(b):
            c.ax.append(m == w)
        c.ax.append(z3.Implies(z3.Or(a == 0, b == 0), m == 0))
        c.ax.append(z3.Implies(z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)), m > 0))
        c.ax.append(z3.Implies(z3.Or(z3.And(a > 0, b < 0), z3.And(a < 0, b > 0)), m < 0))
        c.ax.append(z3.Implies(a == 1, m == b))
        c.ax.append(z3.Implies(b == 1, m == a))
        c.lazy_axiom(m == a * b)
        # x * (1/x) == 1
        for u, v in ((a, b), (b, a)):
            if z3.is_app(v) and v.decl().eq(_INV):
                c.ax.append(z3.Implies(z3.And(u == v.arg(0), u != 0), m == 1))
    return rmul(k, m) if k != 1 else m


def rinv(b):
    k, r = _coeff(zr(b))
    if r is None:
        return Fraction(0) if k == 0 else Fraction(1) / Fraction(k)
    c = ctx()
    v = _INV(r)
    key = ('inv', r.get_id())
    if key not in c.appkey:
        c.appkey[key] = r
        c.ax.append(z3.Implies(r > 0, v > 0))
        c.ax.append(z3.Implies(r < 0, v < 0))
        c.ax.append(z3.Implies(r == 1, v == 1))
        c.lazy_axiom(z3.Implies(r != 0, v * r == 1))
    return rmul(Fraction(1) / Fraction(k), v)


def rmul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    for u, v in ((a, b), (b, a)):
        if not isz(u):
            if u == 0:
                return Fraction(0)
            if u == 1:
                return v
            k, r = _coeff(zr(v))
            k = Fraction(k) * Fraction(u)
            if r is None:
                return k
            return r if k == 1 else zr(k) * r
    return nlmul(a, b)


def factor(e):
    """e == k * rest, k a positive number: a common numeric factor of a term or of a sum/conditional of terms"""
    if not isz(e):
        e = Fraction(e)
        return (abs(e), Fraction(1 if e > 0 else -1)) if e else (None, e)
    if z3.is_app_of(e, z3.Z3_OP_ADD):
        fs = [factor(x) for x in e.children()]
        ks = {k for k, _ in fs if k is not None}
        if len(ks) == 1:
            k = ks.pop()
            if k != 1:
                out = Fraction(0)
                for _, r in fs:
                    out = radd(out, r)
                return k, out
        return Fraction(1), e
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        (k1, a), (k2, b) = factor(e.arg(1)), factor(e.arg(2))
        if k1 == k2 and k1 not in (None, 1):
            return k1, rite(e.arg(0), a, b)
        return Fraction(1), e
    if z3.is_rational_value(e):
        return factor(e.as_fraction())
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        k, r = factor(e.arg(0))
        return k, rneg(r)
    k, r = _coeff(e)
    k = Fraction(k)
    if r is not None and (k != 1 or z3.is_app_of(r, z3.Z3_OP_ADD)):
        k2, r2 = factor(r) if not r.eq(e) else (Fraction(1), r)
        if k2 is None:
            return Fraction(1), e
        return abs(k) * k2, (r2 if k > 0 else rneg(r2))
    return Fraction(1), e


def rdiv(a, b):
    """exact division, b known nonzero by guard; total via guard elsewhere"""
    if not isz(b):
        if b == 0:
            return Fraction(0)
        if not isz(a):
            return Fraction(a) / Fraction(b)
        return rmul(a, Fraction(1) / Fraction(b))
    return rmul(a, rinv(b))


def rcmp(op, a, b):
    if not isz(a) and not isz(b):
        return {'<': a < b, '<=': a <= b, '==': a == b}[op]
    a, b = (zr(a), zr(b)) if not (isz(a) and isz(b) and a.sort() == b.sort()) else (a, b)
    if a.eq(b):
        return op != '<'
    return {'<': a < b, '<=': a <= b, '==': a == b}[op]


def rite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if not isz(a) and not isz(b) and a == b:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return a
    return z3.If(c, zr(a), zr(b))


def iite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isz(a) and isz(b) and a.eq(b):
        return a
    return z3.If(c, zi(a), zi(b))


# ---------------------------------------------------------------- context
CTX = None


def ctx():
    if CTX is None:
        raise RuntimeError('no symbolic context')
    return CTX


class Rec:
    __slots__ = ('depth', 'items')

    def __init__(self, depth):
        self.depth, self.items = depth, []


class Ctx:
    def __init__(self, script, opts):
        self.cone = None
        self.rec = None
        self.probes, self.probing = {}, {}
        self.keepz = []
        self.opscache = {}
        self.lazy = []
        self.ufids = {}
        self.kinds = set()
        self.base = None
        self.focus = None
        self.lemmas_on = False
        self.lemma_facts = []
        self.lemma_tried = set()
        self.script = list(script)
        self.pos = 0
        self.pc = []
        self.pc_names = []
        self.ax = []
        self.universals = []        # (axis, fn)
        self.pool = {}              # axis -> {id: (term, depth)}
        self.depth = 0
        self.counter = itertools.count()
        self.apps = {}              # opaque applications by kind
        self.appkey = {}
        self.warnings = []
        self.mutations = []
        self.obls = []
        self.keep = []
        self.inst_done = set()
        self.cong_done = set()
        self.opts = opts
        self.forks = []
        self.tokens = {}
        self.trusted = set()
        self.touched = set()
        self.solver_time = 0.0

    def fresh(self, name):
        return f'{name}!{next(self.counter)}'

    def int(self, name='i'):
        return z3.Int(self.fresh(name))

    def real(self, name='r'):
        return z3.Real(self.fresh(name))

    def bool(self, name='b'):
        return z3.Bool(self.fresh(name))

    def assume(self, f):
        if isinstance(f, SB):
            f = f.b
        if f is True:
            return
        if f is False:
            raise PathAbort()
        self.ax.append(f)

    def ufid(self, k):
        return self.ufids.setdefault(k, len(self.ufids))

    def lazy_axiom(self, f):
        """a fact only used when a goal is not provable without it (non-linear definitions)"""
        self.lazy.append(f)

    def universal(self, axis, fn):
        u = [axis, fn, self.depth]
        self.universals.append(u)
        if self.focus is not None:
            self.focus.add(id(u))
        if self.rec is not None:
            self.rec.items.append(('u', u))

    def note(self, axis, t):
        """register a ground label term for instantiation"""
        d = self.pool.setdefault(axis, {})
        k = t.get_id()
        if k not in d or d[k][1] > self.depth:
            d[k] = (t, self.depth)
        if self.rec is not None:
            self.rec.items.append(('n', axis, t, self.depth))

    # ---- recording, so that a memoised value can be re-used at a lower depth
    def record(self, fn):
        old = self.rec
        r = self.rec = Rec(self.depth)
        try:
            v = fn()
        finally:
            self.rec = old
        if old is not None:
            old.items.append(('r', r))
        return v, r

    def reuse(self, r):
        if r is None:
            return
        if r.depth > self.depth:
            self._lower(r, self.depth)
        if self.focus is not None:
            self._refocus(r, set())
        if self.rec is not None:
            self.rec.items.append(('r', r))

    def _refocus(self, r, seen):
        if id(r) in seen:
            return
        seen.add(id(r))
        for it in r.items:
            if it[0] == 'u':
                self.focus.add(id(it[1]))
            elif it[0] == 'n':
                p = self.pool.setdefault(it[1], {})
                k = it[2].get_id()
                if k not in p:
                    p[k] = (it[2], max(self.depth, it[3]))
            else:
                self._refocus(it[1], seen)

    def snapshot(self):
        """remember what the code itself (not the obligations) put into the pool"""
        if self.base is None:
            self.base = ({a: {k: v for k, v in d.items() if v[1] == 0} for a, d in self.pool.items()},
                         {id(u) for u in self.universals if u[2] == 0}, len(self.ax))

    def lemma(self, a, b):
        """try to prove in isolation that two applications have extensionally equal inputs"""
        if self.base is None or self.focus is not None:
            return False
        bp, bu, bax = self.base
        saved = (self.pool, self.depth, self.rec)
        n0 = len(self.ax)
        self.pool = {ax: dict(d) for ax, d in bp.items()}
        self.focus = set(bu)
        self.depth, self.rec = 0, None
        t0 = time.time()
        try:
            check_time()
            prem = a.premise(b)
            if prem is False:
                return False
            if prem is True:
                return True
            for depth in (0, 1):
                self.instantiate(depth)
                asr = self.ax[:bax] + self.lemma_facts + self.ax[n0:] + self.pc + [Not(prem)]
                r, s = _solve([zb(x) for x in asr], 4)
                if r == z3.unsat:
                    return True
                if self.opts.get('trace'):
                    print('     lemma', a.kind, depth, r, {a: len(d) for a, d in self.pool.items()}, round(time.time() - t0, 1), [(str(t), d) for t, d in self.pool['T'].values()])
            return False
        except Unsupported:
            return False
        finally:
            self.solver_time += time.time() - t0
            for axis, d in self.pool.items():
                p = saved[0].setdefault(axis, {})
                for k, (t, dd) in d.items():
                    if k not in p:
                        p[k] = (t, dd + 1)
            self.pool, self.depth, self.rec = saved
            self.focus = None

    def _lower(self, r, nd):
        delta = r.depth - nd
        if delta <= 0:
            return
        r.depth = nd
        for i, it in enumerate(r.items):
            if it[0] == 'u':
                u = it[1]
                u[2] = max(nd, u[2] - delta)
            elif it[0] == 'n':
                _, axis, t, d = it
                d = max(nd, d - delta)
                r.items[i] = ('n', axis, t, d)
                p = self.pool.setdefault(axis, {})
                k = t.get_id()
                if k not in p or p[k][1] > d:
                    p[k] = (t, d)
            else:
                self._lower(it[1], max(nd, it[1].depth - delta))

    def probe(self, axis, level=0):
        p = self.probes.get((axis, level))
        if p is None:
            p = self.probes[axis, level] = z3.Int(f'probe!{axis}' + (f'!{level}' if level else ''))
        return p

    def at_probe(self, axis, fn, level=None):
        """evaluate fn at a generic label, without feeding the instantiation (nested evaluations use distinct labels)"""
        old, orec = self.depth, self.rec
        d = self.probing.get(axis, 0)
        self.depth, self.rec = max(50, old + 50), None
        self.probing[axis] = d + 1
        try:
            return fn(self.probe(axis, d if level is None else level))
        finally:
            self.depth, self.rec = old, orec
            self.probing[axis] = d

    def pkey(self, axis, fn):
        """structural key of a function of a label (independent of the nesting where it does not mention outer labels)"""
        d = self.probing.get(axis, 0)
        v = self.at_probe(axis, fn)
        if d == 0:
            return self.vkey(v)
        outer = {self.probe(axis, i).get_id() for i in range(d)}
        if _mentions(v, outer):
            return ('open', d, self.vkey(v))
        return self.vkey(self.at_probe(axis, fn, 0))

    def vkey(self, v):
        """structural key of a value (hash-consed terms)"""
        if isz(v):
            e = z3.simplify(v)
            self.keepz.append(e)
            return ('z', e.get_id())
        if isinstance(v, SF):
            return ('f',) + tuple(self.vkey(x) for x in (v.nan, v.pi, v.ni, v.r))
        if isinstance(v, SB):
            return ('b', self.vkey(v.b))
        if isinstance(v, SOB):
            return ('ob', self.vkey(v.nan), self.vkey(v.b))
        if isinstance(v, SI):
            return ('i', self.vkey(v.v))
        if isinstance(v, (ST, SD)):
            return (type(v).__name__, self.vkey(v.v), self.vkey(v.nat))
        if isinstance(v, (tuple, list)):
            return ('t',) + tuple(self.vkey(x) for x in v)
        if isinstance(v, (bool, str, int, Fraction, type(None))):
            return (type(v).__name__, v)
        if isinstance(v, float):
            return ('float', repr(v))
        if hasattr(v, '_vc_key'):
            return v._vc_key(self)
        self.keepz.append(v)
        return ('o', id(v))

    # ---- branching
    def decide(self, f):
        if isinstance(f, bool):
            return f
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            self.pc.append(f if v else Not(f))
            return v
        s = z3.Solver()
        s.set('timeout', 1500)
        self.instantiate(self.opts.get('decide_depth', 0))
        for a in self.ax:
            s.add(a)
        for a in self.pc:
            s.add(a)
        t0 = time.time()
        s.push()
        s.add(f)
        can_t = s.check() != z3.unsat
        s.pop()
        s.push()
        s.add(z3.Not(f))
        can_f = s.check() != z3.unsat
        s.pop()
        self.solver_time += time.time() - t0
        if can_t and can_f:
            if len(self.script) > self.opts.get('max_forks', 60):
                raise Unsupported('too many forks on one path')
            self.forks.append(list(self.script) + [False])
            v = True
        elif can_t:
            v = True
        elif can_f:
            v = False
        else:
            raise PathAbort()
        self.script.append(v)
        self.pos += 1
        self.pc.append(f if v else Not(f))
        return v

    def choose(self, name):
        """branch on a new boolean: both sides are possible whenever the path is"""
        f = self.bool(name)
        if self.pos >= len(self.script):
            if len(self.script) > self.opts.get('max_forks', 60):
                raise Unsupported('too many forks on one path')
            self.forks.append(list(self.script) + [False])
            self.script.append(True)
        v = self.script[self.pos]
        self.pos += 1
        self.pc.append(f if v else Not(f))
        return v

    # ---- instantiation of universals and congruence
    def instantiate(self, maxdepth):
        """Instantiate universals on pool terms up to maxdepth; bounded."""
        rounds = 0
        while True:
            rounds += 1
            new = False
            ui = 0
            while ui < len(self.universals):
                axis, fn, du = self.universals[ui]
                check_time()
                if du > maxdepth or (self.focus is not None and id(self.universals[ui]) not in self.focus):
                    ui += 1
                    continue
                for k, (t, d) in list(self.pool.get(axis, {}).items()):
                    if d + du > maxdepth or (ui, k) in self.inst_done:
                        continue
                    self.inst_done.add((ui, k))
                    old, orec = self.depth, self.rec
                    self.depth, self.rec = d + du + 1, None
                    try:
                        f = fn(t)
                    finally:
                        self.depth, self.rec = old, orec
                    if f is not None and f is not True:
                        self.ax.append(zb(f))
                        new = True
                ui += 1
                if len(self.inst_done) > self.opts.get('max_inst', 40000):
                    if self.opts.get('trace'):
                        import collections
                        for a, d in self.pool.items():
                            print('pool', a, collections.Counter((str(t).split('!')[0], dd) for t, dd in d.values()).most_common(40))
                        print('univ', collections.Counter((u[1].__qualname__, u[2]) for u in self.universals).most_common(20))
                    raise Unsupported('instantiation limit')
            if self.focus is None and self.congruence(maxdepth):
                new = True
            if not new or rounds > 12:
                return

    def app_names(self, a):
        """symbols of an application's results, and of its inputs at a generic label"""
        if getattr(a, '_names', None) is None:
            o, i = set(), set()
            for v in a.outs:
                _symbols(v, o)
            for v in list(a.args) + list(a.params):
                _symbols(v, i)
            try:
                for ax, m, cl in a.inputs:
                    _symbols(self.at_probe(ax, m), i)
                    if cl is not None:
                        _symbols(self.at_probe(ax, cl), i)
            except Unsupported:
                pass
            a._names = (o, i)
        return a._names

    def set_goal(self, goal):
        cone = set()
        _symbols(goal, cone)
        apps = [a for L in self.apps.values() for a in L]
        done = set()
        while True:
            new = False
            for a in apps:
                if id(a) in done:
                    continue
                o, i = self.app_names(a)
                if o & cone:
                    done.add(id(a))
                    cone |= i
                    new = True
            if not new:
                break
        self.cone = cone

    def in_cone(self, a, b):
        if self.cone is None:
            return True
        (oa, ia), (ob, ib) = self.app_names(a), self.app_names(b)
        return bool(oa & self.cone) and bool(ob & self.cone) and not (oa & ib) and not (ob & ia)

    def congruence(self, maxdepth, cong=True):
        new = False
        for kind in list(self.apps):
            L = self.apps[kind]
            for i in range(len(L)):
                for j in range(i):
                    if (kind, i, j) in self.cong_done and not (self.lemmas_on and (kind, i, j) not in self.lemma_tried):
                        continue
                    a, b = L[i], L[j]
                    if a.rec.depth + b.rec.depth > maxdepth + 1:
                        continue
                    if self.lemmas_on and a.inputs and a.rec.depth == 0 and b.rec.depth == 0 and \
                            (kind, i, j) not in self.lemma_tried and self.in_cone(a, b):
                        self.lemma_tried.add((kind, i, j))
                        if self.lemma(a, b):
                            self.cong_done.add((kind, i, j))
                            f = zb(a.conclude(b))
                            self.ax.append(f)
                            self.lemma_facts.append(f)
                            new = True
                            continue
                    if (kind, i, j) in self.cong_done or not cong:
                        continue
                    self.cong_done.add((kind, i, j))
                    old, orec = self.depth, self.rec
                    self.depth, self.rec = max(a.rec.depth, b.rec.depth), None
                    try:
                        f = a.congr(b)
                    finally:
                        self.depth, self.rec = old, orec
                    if f is not True:
                        self.ax.append(zb(f))
                        new = True
        return new

    # ---- obligations
    def ensure(self, name, f):
        self.snapshot()
        if isinstance(f, SB):
            f = f.b
        if isinstance(f, SOB):
            f = And(Not(f.nan), f.b)
        self.obls.append((name, f))


def assume(f):
    ctx().assume(f)


def ensure(name, f):
    ctx().ensure(name, f)


# ---------------------------------------------------------------- opaque
class App:
    """One application of an uninterpreted library functional.

    congruence: same kind, equal params, extensionally equal inputs and equal
    point arguments => equal outputs.  `inputs` is a list of
    (axis, mem(t)->B, cell(t)->tuple of comparable values or None)."""
    def __init__(self, kind, params, inputs, args, outs):
        self.kind, self.params, self.inputs, self.args, self.outs = kind, params, inputs, args, outs
        self.depth = ctx().depth

    def premise(self, o):
        """formula: same parameters, arguments and (at a fresh witness) inputs"""
        c = ctx()
        if len(self.inputs) != len(o.inputs) or len(self.args) != len(o.args) or \
                len(self.params) != len(o.params) or len(self.outs) != len(o.outs):
            return False
        conds = []
        for p, q in list(zip(self.params, o.params)) + list(zip(self.args, o.args)):
            e = same(p, q)
            if e is False:
                return False
            conds.append(e)
        for (ax1, m1, c1), (ax2, m2, c2) in zip(self.inputs, o.inputs):
            if m1 is m2 and c1 is c2:
                continue
            s = c.int('cg')
            c.note(ax1, s)
            e = Iff(m1(s), m2(s))
            if c1 is not None and c2 is not None:
                e = And(e, Implies(m1(s), same(c1(s), c2(s))))
            conds.append(e)
        return And(*conds)

    def conclude(self, o):
        return And(*[same(x, y) for x, y in zip(self.outs, o.outs)])

    def congr(self, o):
        p = self.premise(o)
        if p is False:
            return True
        return Implies(p, self.conclude(o))


def _symbols(v, out):
    """names of the uninterpreted symbols in a value"""
    if isz(v):
        stack, seen = [v], set()
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e):
                d = e.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(d.name())
                stack.extend(e.children())
    elif isinstance(v, z3.FuncDeclRef):
        out.add(v.name())
    elif isinstance(v, (tuple, list)):
        for x in v:
            _symbols(x, out)
    elif isinstance(v, SF):
        _symbols([v.nan, v.pi, v.ni, v.r], out)
    elif isinstance(v, (ST, SD)):
        _symbols([v.v, v.nat], out)
    elif isinstance(v, SI):
        _symbols(v.v, out)
    elif isinstance(v, SOB):
        _symbols([v.nan, v.b], out)
    elif isinstance(v, SB):
        _symbols(v.b, out)


def _flat(v):
    """z3 terms of a scalar value, or None"""
    if isinstance(v, SF):
        return [zb(v.nan), zb(v.pi), zb(v.ni), zr(v.r)]
    if isinstance(v, SB):
        return [zb(v.b)]
    if isinstance(v, SI):
        return [zi(v.v)]
    if isinstance(v, (ST, SD)):
        return [zb(v.nat), zi(v.v)]
    if isinstance(v, bool):
        return [zb(v)]
    if isinstance(v, int):
        return [zi(v)]
    if isinstance(v, (float, Fraction)):
        return _flat(SF.of(v))
    if isz(v):
        return [v]
    return None


def _mentions(v, ids):
    ts = _flat(v)
    if ts is None:
        return True
    seen, todo = set(), list(ts)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        todo.extend(e.children())
    return False


def _uf_congruence(c, a):
    """outputs of a point-wise library function are native uninterpreted functions of its arguments"""
    args, outs = [], []
    for x in a.args:
        f = _flat(x)
        if f is None:
            return False
        args += f
    for x in a.outs:
        f = _flat(x)
        if f is None:
            return False
        outs += f
    if not args:
        return False
    base = f'{a.kind}#{c.ufid((a.kind, tuple(c.vkey(p) for p in a.params), tuple(str(x.sort()) for x in args)))}'
    for i, o in enumerate(outs):
        F = z3.Function(f'{base}.{i}', *[x.sort() for x in args], o.sort())
        c.ax.append(o == F(*args))
    return True


def _equal_app(c, kind, params, inputs, args):
    """an earlier application whose inputs are provably equal at a generic label (no quantified facts needed)"""
    for b in reversed(c.apps.get(kind, [])[-6:]):
        if len(b.inputs) != len(inputs) or len(b.args) != len(args) or len(b.params) != len(params):
            continue
        conds = []
        for p, q in list(zip(params, b.params)) + list(zip(args, b.args)):
            if hasattr(p, '_vc_same') or hasattr(q, '_vc_same'):
                conds.append(p is q)
            else:
                conds.append(same(p, q))
        if any(x is False for x in conds):
            continue
        try:
            for (ax1, m1, c1), (ax2, m2, c2) in zip(inputs, b.inputs):
                if ax1 != ax2 or (c1 is None) != (c2 is None):
                    conds.append(False)
                    break
                M1, M2 = c.at_probe(ax1, m1), c.at_probe(ax2, m2)
                conds.append(Iff(M1, M2))
                if c1 is not None:
                    conds.append(Implies(M1, same(c.at_probe(ax1, c1), c.at_probe(ax2, c2))))
        except Unsupported:
            continue
        goal = And(*conds)
        if goal is True:
            return b
        if goal is False:
            continue
        s = z3.Solver()
        s.set('timeout', 150)
        s.set('rlimit', 400000)
        for f in c.pc:
            s.add(zb(f))
        s.add(zb(Not(goal)))
        if s.check() == z3.unsat:
            return b
    return None


def opaque(kind, params=(), inputs=(), args=(), mk=None, key=None):
    """apply; mk() builds the tuple of fresh outputs."""
    c = ctx()
    if key is not None:
        kk = (kind,) + key
    else:
        try:
            kk = (kind, tuple(c.vkey(p) for p in params), tuple(c.vkey(x) for x in args),
                  tuple((ax, c.pkey(ax, m), None if cl is None else c.pkey(ax, cl)) for ax, m, cl in inputs))
        except TypeError:
            kk = None
    if kk is not None and kk in c.appkey:
        a = c.appkey[kk]
        c.reuse(a.rec)
        return a
    if inputs and key is None:
        a = _equal_app(c, kind, params, inputs, args)
        if a is not None:
            if kk is not None:
                c.appkey[kk] = a
            c.reuse(a.rec)
            return a

    def build():
        outs = mk()
        if not isinstance(outs, tuple):
            outs = (outs,)
        return App(kind, list(params), list(inputs), list(args), outs)
    a, r = c.record(build)
    a.rec = r
    if not inputs and _uf_congruence(c, a):
        c.kinds.add(kind)
    else:
        c.apps.setdefault(kind, []).append(a)
    if kk is not None:
        c.appkey[kk] = a
    return a


class FunApp(App):
    """an uninterpreted library functional whose result is a function of a label"""
    def conclude(self, o):
        c = ctx()
        e = c.bool('feq')
        fs = list(zip(self.outs, o.outs))
        c.universal('T', lambda u: Implies(e, And(*[f(u) == g(u) for f, g in fs])))
        return e


def opaque_fun(kind, params=(), inputs=(), args=(), sorts=()):
    """like opaque, but the outputs are z3 functions of one label"""
    c = ctx()
    kk = ('fun.' + kind, tuple(c.vkey(p) for p in params), tuple(c.vkey(x) for x in args),
          tuple((ax, c.pkey(ax, m), None if cl is None else c.pkey(ax, cl))
                for ax, m, cl in inputs))
    a = c.appkey.get(kk)
    if a is None:
        fs = tuple(z3.Function(c.fresh(kind), z3.IntSort(), so()) for so in sorts)
        a = FunApp(kind, list(params), list(inputs), list(args), fs)
        a.rec = Rec(c.depth)
        c.apps.setdefault(kind, []).append(a)
        c.appkey[kk] = a
    c.reuse(a.rec)
    return a


def same(a, b):
    """extensional equality of two values, as a formula"""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return And(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, SF) or isinstance(b, SF):
        a, b = SF.of(a), SF.of(b)
        if a is None or b is None:
            return False
        return And(Iff(a.nan, b.nan), Iff(a.pi, b.pi), Iff(a.ni, b.ni),
                   Or(a.nan, a.pi, a.ni, rcmp('==', a.r, b.r)))
    if isinstance(a, SOB) or isinstance(b, SOB):
        a, b = SOB.of(a), SOB.of(b)
        return And(Iff(a.nan, b.nan), Or(a.nan, Iff(a.b, b.b)))
    if isinstance(a, SB) or isinstance(b, SB):
        a = a.b if isinstance(a, SB) else a
        b = b.b if isinstance(b, SB) else b
        if not isinstance(a, (bool, z3.BoolRef)) or not isinstance(b, (bool, z3.BoolRef)):
            return False
        return Iff(a, b)
    if isinstance(a, (ST, SD)) or isinstance(b, (ST, SD)):
        if type(a) is not type(b):
            return False
        return And(Iff(a.nat, b.nat), Or(a.nat, rcmp('==', a.v, b.v)))
    if isinstance(a, SI) or isinstance(b, SI):
        a = a.v if isinstance(a, SI) else a
        b = b.v if isinstance(b, SI) else b
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return False
        return rcmp('==', a, b)
    if isz(a) or isz(b):
        if isz(a) and isz(b):
            return a == b if not a.eq(b) else True
        if isinstance(a, bool) or isinstance(b, bool):
            return Iff(a, b)
        return rcmp('==', a, b)
    if hasattr(a, '_vc_same'):
        return a._vc_same(b)
    if hasattr(b, '_vc_same'):
        return b._vc_same(a)
    try:
        return bool(a == b)
    except Exception:
        return a is b


# ---------------------------------------------------------------- scalars
def _bool_of(x):
    if isinstance(x, SB):
        return x.b
    if isinstance(x, bool):
        return x
    return None


class SB:
    """symbolic bool"""
    __slots__ = ('b',)
    __array_ufunc__ = None

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ctx().decide(self.b)

    def _bin(self, o, f):
        if isinstance(o, SOB):
            return NotImplemented
        x = _bool_of(o)
        if x is None:
            if hasattr(o, '_vc_series'):
                return NotImplemented
            raise Unsupported(f'bool op with {type(o)}')
        return SB(f(self.b, x))

    def __and__(self, o):
        return self._bin(o, And)
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, Or)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, Xor)
    __rxor__ = __xor__

    def __invert__(self):
        return SB(Not(self.b))

    def __eq__(self, o):
        x = _bool_of(o)
        if x is None:
            return NotImplemented
        return SB(Iff(self.b, x))

    def __ne__(self, o):
        x = _bool_of(o)
        if x is None:
            return NotImplemented
        return SB(Xor(self.b, x))

    __hash__ = object.__hash__

    # arithmetic use of booleans
    def num(self):
        return SF(False, False, False, rite(self.b, Fraction(1), Fraction(0)))

    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return SF.of(o) - self.num()

    def __format__(self, s):
        return token(self)


class SOB:
    """object-dtype boolean that may be NaN (reindexed bool series)"""
    __slots__ = ('nan', 'b')

    def __init__(self, nan, b):
        self.nan, self.b = nan, b

    @staticmethod
    def of(x):
        if isinstance(x, SOB):
            return x
        if isinstance(x, SB):
            return SOB(False, x.b)
        if isinstance(x, bool):
            return SOB(False, x)
        if isinstance(x, SF) and x.nan is True:
            return SOB(True, False)
        if isinstance(x, SF) and x.const() and x.r in (0, 1):
            return SOB(False, x.r == 1)       # 0 and 1 among booleans (equal to False and True)
        raise Unsupported(f'object bool from {type(x)}')

    def __bool__(self):
        # bool(nan) is True
        return ctx().decide(Or(self.nan, self.b))


class SF:
    """extended real: nan, +inf, -inf or a real"""
    __slots__ = ('nan', 'pi', 'ni', 'r')
    __array_ufunc__ = None

    def __init__(self, nan, pi, ni, r):
        self.nan, self.pi, self.ni, self.r = nan, pi, ni, r

    # -- constructors
    @staticmethod
    def of(x):
        if isinstance(x, SF):
            return x
        if isinstance(x, bool):
            return SF(False, False, False, Fraction(int(x)))
        if isinstance(x, SB):
            return x.num()
        if isinstance(x, SI):
            return SF(False, False, False, x.v if not isz(x.v) else z3.ToReal(x.v))
        if isinstance(x, float):
            if x != x:
                return SF(True, False, False, Fraction(0))
            if x == float('inf'):
                return SF(False, True, False, Fraction(0))
            if x == -float('inf'):
                return SF(False, False, True, Fraction(0))
            return SF(False, False, False, num(x))
        if isinstance(x, (int, Fraction)):
            return SF(False, False, False, Fraction(x))
        if isz(x):
            return SF(False, False, False, zr(x))
        return None

    @staticmethod
    def fresh(name='x', nan=True, inf=False, lo=None, hi=None):
        c = ctx()
        n = c.bool(name + '.nan') if nan else False
        p = c.bool(name + '.pinf') if inf else False
        m = c.bool(name + '.ninf') if inf else False
        r = c.real(name)
        if inf:
            c.assume(Not(And(p, m)))
            c.assume(Implies(n, And(Not(p), Not(m))))
        if lo is not None:
            c.assume(r >= zr(lo))
        if hi is not None:
            c.assume(r <= zr(hi))
        return SF(n, p, m, r)

    @property
    def fin(self):
        return And(Not(self.nan), Not(self.pi), Not(self.ni))

    @property
    def noinf(self):
        return self.pi is False and self.ni is False

    def const(self):
        return self.nan is False and self.noinf and not isz(self.r)

    # -- arithmetic
    def __add__(self, o):
        o = SF.of(o)
        if o is None:
            return NotImplemented
        a, b = self, o
        if a.noinf and b.noinf:
            return SF(Or(a.nan, b.nan), False, False, radd(a.r, b.r))
        n = Or(a.nan, b.nan, And(a.pi, b.ni), And(a.ni, b.pi))
        return SF(n, And(Not(n), Or(a.pi, b.pi)), And(Not(n), Or(a.ni, b.ni)), radd(a.r, b.r))

    def __radd__(self, o):
        o = SF.of(o)
        return NotImplemented if o is None else o + self

    def __neg__(self):
        return SF(self.nan, self.ni, self.pi, rneg(self.r))

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = SF.of(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = SF.of(o)
        return NotImplemented if o is None else o + (-self)

    def pos(self):
        return And(Not(self.nan), Or(self.pi, And(Not(self.ni), rcmp('<', Fraction(0), self.r))))

    def neg(self):
        return And(Not(self.nan), Or(self.ni, And(Not(self.pi), rcmp('<', self.r, Fraction(0)))))

    def zero(self):
        return And(self.fin, rcmp('==', self.r, Fraction(0)))

    def __mul__(self, o):
        o = SF.of(o)
        if o is None:
            return NotImplemented
        a, b = self, o
        if a.noinf and b.noinf:
            return SF(Or(a.nan, b.nan), False, False, rmul(a.r, b.r))
        ai, bi = Or(a.pi, a.ni), Or(b.pi, b.ni)
        n = Or(a.nan, b.nan, And(ai, b.zero()), And(bi, a.zero()))
        anyinf = And(Not(n), Or(ai, bi))
        p = And(anyinf, Or(And(a.pos(), b.pos()), And(a.neg(), b.neg())))
        m = And(anyinf, Or(And(a.pos(), b.neg()), And(a.neg(), b.pos())))
        return SF(n, p, m, rmul(a.r, b.r))

    def __rmul__(self, o):
        o = SF.of(o)
        return NotImplemented if o is None else o * self

    def __truediv__(self, o):
        o = SF.of(o)
        if o is None:
            return NotImplemented
        a, b = self, o
        ai, bi = Or(a.pi, a.ni), Or(b.pi, b.ni)
        bz = b.zero()
        n = Or(a.nan, b.nan, And(ai, bi), And(a.zero(), bz))
        # zero divisors are taken as +0.0
        p = And(Not(n), Or(And(bz, a.pos()), And(Not(bz), ai, Or(And(a.pos(), b.pos()), And(a.neg(), b.neg())))))
        m = And(Not(n), Or(And(bz, a.neg()), And(Not(bz), ai, Or(And(a.pos(), b.neg()), And(a.neg(), b.pos())))))
        if b.noinf and a.noinf:
            r = rdiv(a.r, b.r) if bz is False else rite(bz, Fraction(0), rdiv(a.r, b.r))
        else:
            r = rite(Or(bi, bz), Fraction(0), rdiv(a.r, b.r))
        return SF(n, p, m, r)

    def __rtruediv__(self, o):
        o = SF.of(o)
        return NotImplemented if o is None else o / self

    def __pow__(self, o):
        if isinstance(o, SF) and o.const():
            o = o.r
        if isinstance(o, (int, float, Fraction)) and float(o) == int(o) and 0 <= int(o) <= 4:
            r = SF.of(1)
            for _ in range(int(o)):
                r = r * self
            return r
        if isinstance(o, (int, float)) and o == 0.5:
            return sqrt(self)
        if isinstance(o, (int, float)) and o == -1:
            return SF.of(1) / self
        raise Unsupported(f'pow {o!r}')

    def __rpow__(self, o):
        return uf1(f'pow{o}', self)

    def __mod__(self, o):
        o = SF.of(o)
        a = opaque('fmod', args=[self, o], mk=lambda: SF.fresh('fmod', nan=True))
        return a.outs[0]

    def __floordiv__(self, o):
        o = SF.of(o)
        a = opaque('ffloordiv', args=[self, o], mk=lambda: SF.fresh('ffloordiv', nan=True))
        return a.outs[0]

    def __abs__(self):
        return SF(self.nan, Or(self.pi, self.ni), False,
                  rite(rcmp('<', self.r, Fraction(0)), rneg(self.r), self.r))

    # -- comparisons
    def _lt(self, o):
        a, b = self, o
        return And(Not(a.nan), Not(b.nan),
                   Or(And(a.ni, Not(b.ni)), And(b.pi, Not(a.pi)),
                      And(Not(a.pi), Not(a.ni), Not(b.pi), Not(b.ni), rcmp('<', a.r, b.r))))

    def _eq(self, o):
        a, b = self, o
        return And(Not(a.nan), Not(b.nan), Iff(a.pi, b.pi), Iff(a.ni, b.ni),
                   Or(a.pi, a.ni, rcmp('==', a.r, b.r)))

    def _le(self, o):
        a, b = self, o
        return And(Not(a.nan), Not(b.nan),
                   Or(a.ni, b.pi,
                      And(Not(a.pi), Not(b.ni), rcmp('<=', a.r, b.r))))

    def __lt__(self, o):
        o = SF.of(o)
        return NotImplemented if o is None else SB(self._lt(o))

    def __le__(self, o):
        o = SF.of(o)
        return NotImplemented if o is None else SB(self._le(o))

    def __gt__(self, o):
        o = SF.of(o)
        return NotImplemented if o is None else SB(o._lt(self))

    def __ge__(self, o):
        o = SF.of(o)
        return NotImplemented if o is None else SB(o._le(self))

    def __eq__(self, o):
        o = SF.of(o)
        return NotImplemented if o is None else SB(self._eq(o))

    def __ne__(self, o):
        o = SF.of(o)
        return NotImplemented if o is None else SB(Not(self._eq(o)))

    __hash__ = object.__hash__

    def __bool__(self):
        return ctx().decide(Not(self.zero()))

    def __format__(self, spec):
        return token(self)

    def __str__(self):
        return token(self)

    def __round__(self, n=None):
        if n is None:
            c = ctx()
            k = c.int('round')
            c.assume(Implies(self.fin, And(z3.ToReal(k) - zr(self.r) <= zr(Fraction(1, 2)),
                                           zr(self.r) - z3.ToReal(k) <= zr(Fraction(1, 2)))))
            return SI(k)
        raise Unsupported('round(x, n)')

    def __float__(self):
        raise Unsupported('float() of symbolic')

    def __int__(self):
        raise Unsupported('int() of symbolic')

    def __index__(self):
        raise Unsupported('index of symbolic')

    # numpy-scalar style
    def item(self):
        return self

    def astype(self, t):
        return self

    def copy(self):
        return self

    @property
    def dtype(self):
        return 'float64'

    @property
    def shape(self):
        return ()

    def total_seconds(self):
        raise AttributeError('total_seconds')


def token(v):
    c = ctx()
    k = f'\x00{len(c.tokens)}\x01'
    c.tokens[k] = v
    return k


def uf1(name, x, bounds=None):
    x = SF.of(x)
    if x.const():
        pass
    def mk():
        r = ctx().real(name)
        if bounds:
            lo, hi = bounds
            if lo is not None:
                ctx().assume(r >= zr(lo))
            if hi is not None:
                ctx().assume(r <= zr(hi))
        return SF(Not(x.fin), False, False, r)
    return opaque('uf.' + name, args=[x], mk=mk).outs[0]


def sqrt(x):
    x = SF.of(x)
    def mk():
        c = ctx()
        r = c.real('sqrt')
        c.assume(Implies(And(x.fin, Not(x.neg())), And(r >= 0, r * r == zr(x.r))))
        return SF(Or(x.nan, x.neg()), x.pi, False, r)
    return opaque('uf.sqrt', args=[x], mk=mk).outs[0]


class SI:
    """symbolic mathematical integer"""
    __slots__ = ('v',)
    __array_ufunc__ = None

    def __init__(self, v):
        self.v = v

    def _o(self, o):
        if isinstance(o, SI):
            return o.v
        if isinstance(o, int) and not isinstance(o, bool):
            return o
        return None

    def _arith(self, o, f, ff):
        x = self._o(o)
        if x is not None:
            return SI(f(zi(self.v), zi(x)))
        y = SF.of(o)
        if y is None:
            return NotImplemented
        return ff(SF.of(self), y)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return SF.of(self) / o

    def __rtruediv__(self, o):
        return SF.of(o) / SF.of(self)

    def __floordiv__(self, o):
        x = self._o(o)
        if x is None or isz(x) or x <= 0:
            raise Unsupported('//')
        return SI(zi(self.v) / zi(x))

    def __mod__(self, o):
        x = self._o(o)
        if x is None or isz(x) or x <= 0:
            raise Unsupported('%')
        return SI(zi(self.v) % zi(x))

    def __neg__(self):
        return SI(-zi(self.v))

    def __abs__(self):
        return SI(z3.If(zi(self.v) < 0, -zi(self.v), zi(self.v)))

    def __pow__(self, o):
        return SF.of(self) ** o

    def _cmp(self, o, f, name):
        x = self._o(o)
        if x is not None:
            return SB(f(zi(self.v), zi(x)))
        y = SF.of(o)
        if y is None:
            return NotImplemented
        return getattr(SF.of(self), name)(y)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, '__lt__')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, '__le__')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, '__ge__')

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, '__eq__')

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, '__ne__')

    __hash__ = object.__hash__

    def __bool__(self):
        return ctx().decide(zi(self.v) != 0)

    def __format__(self, spec):
        return token(self)

    def __str__(self):
        return token(self)

    def __index__(self):
        # position in a short concrete sequence: one path per value
        for k in range(8):
            if ctx().decide(zi(self.v) == k):
                return k
        raise Unsupported('symbolic int used as index')

    def __int__(self):
        raise Unsupported('int() of symbolic')


class SD:
    """timedelta: integer nanoseconds, or NaT"""
    __slots__ = ('v', 'nat')
    __array_ufunc__ = None

    def __init__(self, v, nat=False):
        self.v, self.nat = v, nat

    def total_seconds(self):
        return SF(self.nat, False, False, rmul(zr(self.v) if isz(self.v) else Fraction(self.v), Fraction(1, 10**9)))

    @property
    def days(self):
        if not isz(self.v):
            return SI(int(self.v) // (86400 * 10**9))
        return SI(self.v / z3.IntVal(86400 * 10**9))

    @property
    def value(self):
        return SI(self.v)

    def _n(self):
        return SF(self.nat, False, False, zr(self.v) if isz(self.v) else Fraction(self.v))

    def __truediv__(self, o):
        if isinstance(o, SD):
            return self._n() / o._n()
        if isinstance(o, (int, float, SF, SI)):
            x = SF.of(o)
            if x.const() and not isz(self.v) and (Fraction(self.v) / x.r).denominator == 1:
                return SD(int(Fraction(self.v) / x.r))
            # resolution is 1 ns in pandas: model exact-division only via floor
            c = ctx()
            r = (self._n() / x)
            v = c.int('td')
            c.assume(Implies(r.fin, And(z3.ToReal(v) <= zr(r.r), zr(r.r) < z3.ToReal(v) + 1)))
            return SD(v, Or(self.nat, r.nan))
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, int):
            return SD(self.v * o, self.nat)
        if isinstance(o, SI):
            return SD(zi(self.v) * o.v, self.nat)
        if isinstance(o, float) and float(o).is_integer():
            return SD(self.v * int(o), self.nat)
        return NotImplemented
    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, SD):
            return SD(self.v + o.v, Or(self.nat, o.nat))
        if isinstance(o, ST):
            return o + self
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, SD):
            return SD(self.v - o.v, Or(self.nat, o.nat))
        return NotImplemented

    def __neg__(self):
        return SD(-self.v, self.nat)

    def __abs__(self):
        return SD(z3.If(self.v < 0, -self.v, self.v) if isz(self.v) else abs(self.v), self.nat)

    def _cmp(self, o, op):
        if not isinstance(o, SD):
            return NotImplemented
        return SB(And(Not(self.nat), Not(o.nat), op(self.v, o.v)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: rcmp('<', a, b))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: rcmp('<=', a, b))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: rcmp('<', b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: rcmp('<=', b, a))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: rcmp('==', a, b))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SB(Not(r.b))

    __hash__ = object.__hash__

    def __format__(self, spec):
        return token(self)

    def __str__(self):
        return token(self)


class ST:
    """timestamp: integer ns label, or NaT"""
    __slots__ = ('v', 'nat', 'tz')
    __array_ufunc__ = None

    def __init__(self, v, nat=False, tz=None):
        self.v, self.nat, self.tz = v, nat, tz

    @property
    def tzinfo(self):
        return self.tz

    @property
    def value(self):
        return SI(self.v)

    def __sub__(self, o):
        if isinstance(o, ST):
            return SD(zi(self.v) - zi(o.v), Or(self.nat, o.nat))
        if isinstance(o, SD):
            return ST(zi(self.v) - zi(o.v), Or(self.nat, o.nat), self.tz)
        if hasattr(o, '_vc_offset'):
            return o._vc_sub(self)
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, SD):
            return ST(zi(self.v) + zi(o.v), Or(self.nat, o.nat), self.tz)
        if hasattr(o, '_vc_offset'):
            return o._vc_add(self)
        return NotImplemented
    __radd__ = __add__

    def _cmp(self, o, op):
        if not isinstance(o, ST):
            return NotImplemented
        return SB(And(Not(self.nat), Not(o.nat), op(self.v, o.v)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: rcmp('<', a, b))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: rcmp('<=', a, b))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: rcmp('<', b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: rcmp('<=', b, a))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: rcmp('==', a, b))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SB(Not(r.b))

    __hash__ = object.__hash__

    def __getattr__(self, k):
        if k in ('year', 'month', 'day', 'hour', 'minute', 'second', 'dayofyear'):
            a = opaque_fun('ts.' + k, params=[self.tz], sorts=[z3.IntSort])
            return SI(a.outs[0](zi(self.v)))
            return a.outs[0]
        raise AttributeError(k)


def ite(c, a, b):
    """value-level if-then-else"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (SOB,)) or isinstance(b, (SOB,)):
        a, b = SOB.of(a), SOB.of(b)
        return SOB(bite(c, a.nan, b.nan), bite(c, a.b, b.b))
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        return SB(bite(c, _bool_of(a), _bool_of(b)))
    if isinstance(a, (SB, bool)) and isinstance(b, (SF, float)) and SF.of(b).nan is True:
        return SOB(Not(c), _bool_of(a))
    if isinstance(b, (SB, bool)) and isinstance(a, (SF, float)) and SF.of(a).nan is True:
        return SOB(c, _bool_of(b))
    if isinstance(a, (ST, SD)) and isinstance(b, type(a)) and (a.nat is True) != (b.nat is True):
        t, cc = (b, Not(c)) if a.nat is True else (a, c)
        return ST(t.v, Or(Not(cc), t.nat), a.tz) if isinstance(a, ST) else SD(t.v, Or(Not(cc), t.nat))
    if isinstance(a, ST) and isinstance(b, ST):
        return ST(iite(c, a.v, b.v), bite(c, a.nat, b.nat), a.tz)
    if isinstance(a, ST) or isinstance(b, ST):
        t, f = (a, b) if isinstance(a, ST) else (b, a)
        if isinstance(f, (SF, float)) and SF.of(f).nan is True:
            cc = c if t is a else Not(c)
            return ST(t.v, Or(Not(cc), t.nat), t.tz)
    if isinstance(a, SD) and isinstance(b, SD):
        return SD(iite(c, a.v, b.v), bite(c, a.nat, b.nat))
    if isinstance(a, SD) or isinstance(b, SD):
        t, f = (a, b) if isinstance(a, SD) else (b, a)
        if isinstance(f, (SF, float)) and SF.of(f).nan is True:
            cc = c if t is a else Not(c)
            return SD(t.v, Or(Not(cc), t.nat))
    if isinstance(a, SI) and isinstance(b, SI):
        return SI(iite(c, a.v, b.v))
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        if a == b:
            return a
        return SU(c, a, b)
    if isinstance(a, SU) or isinstance(b, SU):
        return SU(c, a, b)
    x, y = SF.of(a), SF.of(b)
    if x is None or y is None:
        raise Unsupported(f'ite of {type(a)} / {type(b)}')
    # the number part of a missing value is irrelevant
    if y.nan is True and x.nan is not True:
        return SF(Or(Not(c), x.nan), And(c, x.pi), And(c, x.ni), x.r)
    if x.nan is True and y.nan is not True:
        return SF(Or(c, y.nan), And(Not(c), y.pi), And(Not(c), y.ni), y.r)
    return SF(bite(c, x.nan, y.nan), bite(c, x.pi, y.pi), bite(c, x.ni, y.ni), rite(c, x.r, y.r))


class SU:
    """symbolic choice between python constants (e.g. strings)"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def _vc_same(self, o):
        if isinstance(o, SU):
            return Or(And(self.c, same(self.a, o)), And(Not(self.c), same(self.b, o)))
        return Or(And(self.c, same(self.a, o)), And(Not(self.c), same(self.b, o)))

    def __eq__(self, o):
        return SB(self._vc_same(o))

    def __ne__(self, o):
        return SB(Not(self._vc_same(o)))

    __hash__ = object.__hash__


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else Not(c)
    if isz(a) and isz(b) and a.eq(b):
        return a
    return Or(And(c, a), And(Not(c), b))


def isnan(x):
    """null test of a cell value -> B"""
    if isinstance(x, SF):
        return x.nan
    if isinstance(x, (ST, SD)):
        return x.nat
    if isinstance(x, SOB):
        return x.nan
    if isinstance(x, float):
        return x != x
    if x is None:
        return True
    return False


# ---------------------------------------------------------------- driver
class Result:
    def __init__(self):
        self.paths = 0
        self.obligations = []       # dict(name, path, status, model, time, backend)
        self.unsupported = []
        self.errors = []
        self.solver_time = 0.0
        self.trusted = set()
        self.kinds = set()
        self.touched = set()


def _solve(assertions, timeout, want_model=True):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for a in assertions:
        s.add(a)
    r = s.check()
    return r, s


def discharge(c, goal, opts):
    """returns (status, backend, time, model-string)"""
    goal = zb(goal) if not isinstance(goal, z3.BoolRef) else goal
    t0 = time.time()
    last = None
    c.set_goal(goal)
    for depth in opts.get('depths', ('none', 'lemmas', 0, 1, 2)):
        tmo = opts.get('timeout', 8)
        if depth == 'none':
            tmo = 2
        check_time()
        if depth == 'lemmas':
            c.lemmas_on = True
            if not c.congruence(0, cong=False):
                continue
            tmo = 2
        elif depth != 'none':
            c.instantiate(depth)
        asr = [zb(a) for a in c.ax] + [zb(a) for a in c.pc] + [z3.Not(goal)]
        r, s = _solve(asr, tmo)
        if r == z3.unsat:
            return 'discharged', f'z3-{z3.get_version_string()}', time.time() - t0, None, asr
        last = (r, s)
        if opts.get('trace'):
            print('   depth', depth, r, 'pool', {a: len(d) for a, d in c.pool.items()}, 'univ', len(c.universals), 'ax',
                  len(c.ax), round(time.time() - t0, 1))
    if c.lazy:
        asr = [zb(a) for a in c.lazy] + asr
        r, s = _solve(asr, opts.get('timeout', 8))
        if r == z3.unsat:
            return 'discharged', f'z3-{z3.get_version_string()}', time.time() - t0, None, asr
        last = (r, s)
    r, s = last
    if r == z3.sat:
        return 'refuted', 'z3', time.time() - t0, s.model(), asr
    # unknown: the goal may be false on its own, whatever the assertions it shares no symbol with say (these hold
    # together on a reachable path)
    sl = slice_(asr, opts.get('slice_time', 25))
    if sl is not None and len(sl) < len(asr):
        r, s2 = _solve(sl, opts.get('timeout', 8))
        if r == z3.sat:
            return 'refuted', 'z3', time.time() - t0, s2.model(), asr
    # portfolio
    st = portfolio(s.to_smt2(), opts.get('timeout2', 10))
    if st == 'unsat':
        return 'discharged', 'cvc5', time.time() - t0, None, asr
    if st == 'sat':
        return 'refuted', 'cvc5', time.time() - t0, None, asr
    return 'unknown', 'z3+cvc5', time.time() - t0, None, asr


def slice_(asr, limit):
    """the assertions connected to the last one (the negated goal) by shared uninterpreted symbols; None when out of time"""
    t0 = time.time()
    memo = {}

    def syms(e):
        st, out, seen = [e], set(), set()
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                if x.num_args() == 0:
                    k = memo.get(i)
                    if k is None:
                        d = x.decl()
                        k = memo[i] = d.get_id() if d.kind() == z3.Z3_OP_UNINTERPRETED else 0
                    if k:
                        out.add(k)
                else:
                    d = x.decl()
                    if d.kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(d.get_id())
                    st.extend(x.children())
            elif z3.is_quantifier(x):
                st.append(x.body())
        return out
    by, S = {}, []
    for n, a in enumerate(asr):
        if n % 256 == 0 and time.time() - t0 > limit:
            return None
        z = syms(a)
        S.append(z)
        for k in z:
            by.setdefault(k, []).append(n)
    comp, todo, done = {len(asr) - 1}, list(S[-1]), set(S[-1])
    while todo:
        for n in by[todo.pop()]:
            if n not in comp:
                comp.add(n)
                for k in S[n] - done:
                    done.add(k)
                    todo.append(k)
    return [asr[n] for n in sorted(comp)]


def portfolio(smt2, timeout):
    import subprocess, tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
        name = f.name
    try:
        for cmd in (['cvc5', f'--tlimit={int(timeout*1000)}', name],
                    ['z3-new', f'-T:{int(timeout)}', name]):
            try:
                o = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout + 5).stdout
            except Exception:
                continue
            w = o.split('\n', 1)[0].strip()
            if w in ('sat', 'unsat'):
                return w
    finally:
        os.unlink(name)
    return 'unknown'


DEADLINE = [None]


def check_time():
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        raise Unsupported('time limit')


def run_contract(fn, opts=None, deadline=None, progress=None):
    """explore all paths of a contract body, discharge every ensure."""
    global CTX
    opts = dict(opts or {})
    res = Result()
    work = [[]]
    DEADLINE[0] = deadline + 20 if deadline else None
    while work:
        script = work.pop()
        if res.paths > opts.get('max_paths', 400):
            res.unsupported.append('path limit')
            break
        if deadline and time.time() > deadline:
            res.unsupported.append('time limit')
            break
        if sum(o['status'] != 'discharged' for o in res.obligations) + len(res.unsupported) >= opts.get('max_open', 3):
            res.unsupported.append('stopped after the first open obligations')
            break
        c = Ctx(script, opts)
        CTX = c
        try:
            try:
                try:
                    fn()
                except PathDone:
                    pass
            except PathAbort:
                work.extend(c.forks)
                continue
            except Unsupported as e:
                import traceback
                res.unsupported.append(f'{e} @ {_where(e)}')
                work.extend(c.forks)
                res.trusted |= c.trusted
                continue
            except Exception as e:
                if _engine_limit(e):
                    res.unsupported.append(f'{type(e).__name__}: {e} @ {_where(e)}')
                    work.extend(c.forks)
                    res.trusted |= c.trusted
                    continue
                # an exception escaping the contract body: obligation "no exception"
                c.obls.append(('no-unexpected-exception', False))
                c.exc = f'{type(e).__name__}: {e} @ {_where(e)}'
            work.extend(c.forks)
            res.paths += 1
            if opts.get('frame_only'):
                c.obls = [('frame:inputs-not-modified', len(c.mutations) == 0)]
            for name, goal in c.obls:
                if deadline and time.time() > deadline + 30:
                    res.unsupported.append(f'{name}: time limit')
                    continue
                ob = dict(name=name, path=''.join('T' if b else 'F' for b in c.script))
                if name == 'no-unexpected-exception':
                    ob['exception'] = c.exc
                if goal is True:
                    ob.update(status='discharged', backend='structural', time=0.0)
                else:
                    try:
                        st, be, tm, model, asr = discharge(c, goal, opts)
                    except Unsupported as e:
                        res.unsupported.append(f'{name}: {e}')
                        continue
                    ob.update(status=st, backend=be, time=round(tm, 3))
                    res.solver_time += tm
                    if st == 'discharged' and opts.get('cross') and asr is not None:
                        s = z3.Solver()
                        for a in asr:
                            s.add(a)
                        ob['cvc5'] = portfolio_cvc5(s.to_smt2(), opts.get('timeout2', 10))
                    if st == 'refuted':
                        ob['model'] = model_text(model)
                res.obligations.append(ob)
                if progress and ob['status'] != 'discharged':
                    progress(res)
            # vacuity: the path condition must be satisfiable
            if c.obls and not opts.get('no_vacuity'):
                s = z3.Solver()
                s.set('timeout', 1500)
                for a in c.ax + c.pc:
                    s.add(zb(a))
                r = s.check()
                res.obligations[-1]['reachable'] = str(r) if res.obligations else ''
                if r == z3.unsat and not any(o['name'] == 'no-unexpected-exception' for o in res.obligations):
                    # infeasible path: drop its obligations from the count
                    n = len(c.obls)
                    del res.obligations[-n:]
                    res.paths -= 1
            res.solver_time += c.solver_time
            res.trusted |= c.trusted
            res.kinds |= set(c.apps) | c.kinds
            res.touched |= c.touched
        finally:
            CTX = None
    return res


def portfolio_cvc5(smt2, timeout):
    import subprocess, tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
        name = f.name
    try:
        o = subprocess.run(['cvc5', f'--tlimit={int(timeout*1000)}', name], capture_output=True, text=True,
                           timeout=timeout + 5).stdout
        return o.split('\n', 1)[0].strip() or 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(name)


def _engine_limit(e):
    """exceptions that say the modelled library is too small, not that the code is wrong"""
    import traceback
    if 'RecursionError' in str(e):
        return True
    if isinstance(e, (AttributeError, TypeError, NotImplementedError, RecursionError, z3.Z3Exception, AssertionError,
                      ImportError)):
        return True
    tb = traceback.extract_tb(e.__traceback__)
    inner = tb[-1] if tb else None
    if isinstance(e, (IndexError, KeyError, NameError, StopIteration)) and inner is not None \
            and "/rdtools/" not in (inner.filename or ""):
        # `raise KeyError(...)` in the pandas contracts is modelled behaviour, any other is a hole of the engine
        return not (isinstance(e, KeyError) and (inner.line or "").lstrip().startswith("raise KeyError"))
    return False


def _where(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/rdtools/' in (f.filename or '')]
    f = (fr or tb)[-1]
    return f'{os.path.basename(f.filename)}:{f.lineno} in {f.name}'


def model_text(m):
    if m is None:
        return ''
    out = []
    for d in sorted(m.decls(), key=lambda d: d.name()):
        if d.arity() == 0:
            out.append(f'{d.name()}={m[d]}')
    return ', '.join(out[:200])
