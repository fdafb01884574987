"""Loop contracts: a loop named in a contract is replaced, mechanically, by its invariant cut

    while C: B      ->   assert inv; havoc(assigned variables); assume inv
                         if C: B; assert inv; stop this path
    (after the loop: inv and not C)

    for x in it: B  ->   assert inv (nothing iterated); havoc; assume inv;
                         if another element: x = arbitrary element; B; assert inv; stop

Only loops without break/continue/return in their own body are cut (a `raise` is fine); others are left as they are."""
import ast
from .core import *


class LoopSpec:
    """inv(v, entry) -> list of (name, formula); v: variables at the cut, entry: variables when the loop was reached;
    havoc(name, old) -> fresh value for an assigned variable (None: keep unassigned)"""
    def __init__(self, inv, havoc, element=None):
        self.inv, self.havoc, self.element = inv, havoc, element


def assigned(body):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for b in body:
        V().visit(b)
    return out


def cuttable(body):
    class V(ast.NodeVisitor):
        ok = True
        depth = 0

        def visit_Break(self, n):
            if self.depth == 0:
                self.ok = False

        visit_Continue = visit_Break

        def visit_Return(self, n):
            self.ok = False

        def visit_For(self, n):
            self.depth += 1
            self.generic_visit(n)
            self.depth -= 1
        visit_While = visit_For

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass
    v = V()
    for b in body:
        v.visit(b)
    return v.ok


def transform(tree, mod, loops):
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            for key, specs in loops.items():
                m, fn = key.split('.', 1)
                if m == mod and fn.split('.')[-1] == node.name:
                    _cut(node, key, len(specs))
    ast.fix_missing_locations(tree)
    return tree


def _cut(fn, key, n):
    count = [0]

    class T(ast.NodeTransformer):
        def visit_FunctionDef(self, node):
            return node if node is not fn else self.generic_visit(node)

        def loop(self, node):
            i = count[0]
            count[0] += 1
            if i >= n or not cuttable(node.body):
                return self.generic_visit(node)
            isfor = isinstance(node, ast.For)
            names = assigned(node.body + ([ast.Assign([node.target], node.iter)] if isfor else []))
            k = ast.Tuple([ast.Constant(key), ast.Constant(i)], ast.Load())
            src = ''
            it = f'__vc_it{i}'
            pre = []
            if isfor:
                pre += [ast.Assign([ast.Name(it, ast.Store())], node.iter)]
            code = f'__vc_l{i} = __vc_loop__({key!r}, {i}, locals())\n'
            code += f'__vc_h{i} = __vc_l{i}.havoc({names!r}, locals())\n'
            for nm in names:
                code += f'if {nm!r} in __vc_h{i}: {nm} = __vc_h{i}[{nm!r}]\n'
            code += f'__vc_l{i}.assume(locals())\n'
            stmts = pre + ast.parse(code).body
            if isfor:
                test = ast.parse(f'__vc_l{i}.more({it})', mode='eval').body
                head = [ast.Assign([node.target], ast.parse(f'__vc_l{i}.element({it})', mode='eval').body)]
            else:
                test, head = node.test, []
            tail = ast.parse(f'__vc_l{i}.preserved(locals())').body
            stmts.append(ast.If(test, head + node.body + tail, list(node.orelse)))
            return stmts
        visit_While = visit_For = loop
    T().visit(fn)


class Runtime:
    def __init__(self, specs):
        self.specs = specs

    def __call__(self, key, i, loc):
        return Cut(self.specs[key][i], f'{key}#loop{i}', dict(loc))


class Forall:
    """quantified invariant clause: for every label of an axis"""
    def __init__(self, axis, fn):
        self.axis, self.fn = axis, fn


class Cut:
    def __init__(self, spec, name, entry):
        self.spec, self.name, self.entry = spec, name, entry
        if hasattr(spec, 'begin'):
            spec.begin(Vars(entry))
        self.check(entry, 'entry')

    def check(self, loc, when):
        for n, f in self.spec.inv(Vars(loc), Vars(self.entry)):
            if isinstance(f, Forall):
                ctx().snapshot()
                j = ctx().int('j')
                ctx().note(f.axis, j)
                f = f.fn(j)
            ctx().ensure(f'invariant[{self.name}] {when}: {n}', f)

    def havoc(self, names, loc):
        out = {}
        if hasattr(self.spec, 'havoc_state'):
            self.spec.havoc_state(Vars(loc))
        for n in names:
            v = self.spec.havoc(n, loc.get(n))
            if v is not None:
                out[n] = v
        return out

    def assume(self, loc):
        for n, f in self.spec.inv(Vars(loc), Vars(self.entry)):
            if isinstance(f, Forall):
                ctx().universal(f.axis, f.fn)
            else:
                ctx().assume(f)

    def more(self, it):
        self.el = self.spec.element(it)
        if hasattr(self.spec, 'more'):
            return ctx().decide(self.spec.more(it))
        return ctx().decide(ctx().bool('another element'))

    def element(self, it):
        return self.el

    def preserved(self, loc):
        if hasattr(self.spec, 'step'):
            self.spec.step()
        self.check(loc, 'preserved')
        raise PathDone()


class Vars:
    def __init__(self, d):
        self.__dict__['_d'] = d

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k not in self._d:
            raise Unsupported(f'loop contract: no variable {k}')
        return self._d[k]


class CountingLoop(LoopSpec):
    """for i in range(n): with ghost k = number of iterations done; clauses(v, k) -> [(name, formula | Forall)];
    arrays(v) -> arrays the body writes into (their contents are forgotten at the cut)"""
    def __init__(self, clauses, arrays=lambda v: []):
        self.clauses, self.arrays, self.k = clauses, arrays, None
        self.n = None

    def begin(self, v):
        self.k = z3.IntVal(0)

    def havoc_state(self, v):
        self.k = ctx().int('k')
        ctx().assume(self.k >= 0)
        for a in self.arrays(v):
            if hasattr(a, 'havoc'):
                a.havoc()
                continue
            f = z3.Function(ctx().fresh('arr'), z3.IntSort(), z3.RealSort())
            n = z3.Function(ctx().fresh('arr.nan'), z3.IntSort(), z3.BoolSort())
            a._cell = lambda t, f=f, n=n: SF(n(t), False, False, f(t))

    def havoc(self, name, old):
        return None

    def inv(self, v, entry):
        return self.clauses(v, self.k)

    def element(self, it):
        if not hasattr(it, 'n'):
            raise Unsupported('loop contract expects range(n)')
        ctx().assume(self.k <= zi(it.n))
        return it.item(self.k) if hasattr(it, 'item') else SI(self.k)

    def more(self, it):
        return self.k < zi(it.n)

    def step(self):
        self.k = self.k + 1
