"""Loads the real source of /repo/rdtools for symbolic execution.

What the extraction does, mechanically, on every run: reads each module file,
parses it, re-binds `import`ed third-party modules to the contract stubs and a
few builtins (len, min, max, sum, any, all, isinstance, float, int, range, enumerate) to
symbolic-aware versions, and executes the unchanged function bodies.  The only
AST rewriting is of loops named in a loop contract (see loops.py): the loop is
replaced by its invariant cut.  Nothing else is dropped."""
import ast, builtins, importlib, os, types
from .core import *
from . import stubs
from .stubs import *

REPO = os.environ.get('VC_REPO', '/repo')
REAL = {'functools', 'itertools', 'inspect', 'abc', 'os', 'copy', 'collections', 'textwrap', 'types', 'typing',
        'contextlib', 'numbers', 'operator', 're', 'math', 'datetime', 'time', 'string', 'enum', 'dataclasses',
        'calendar', '__future__'}
_cache = {}


class Universe:
    """one loaded copy of the package"""
    def __init__(self, overrides=None, modules=None, loops=None, builtin=None):
        self.mods = {}
        self.overrides = overrides or {}
        self.stubs = {'pandas': pandas_stub(), 'numpy': numpy_stub(), 'warnings': WarnStub()}
        self.stubs.update(modules or {})
        self.loops = loops or {}
        self.extra = builtin or {}
        self.pkg = types.SimpleNamespace()
        self.pkgproxy = _Pkg(self)

    def mod(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, 'rdtools', name + '.py')
        if not os.path.exists(path):
            raise ModuleNotFoundError(name)
        src = open(path).read()
        m = types.ModuleType('rdtools.' + name)
        self.mods[name] = m
        ns = m.__dict__
        ns['__file__'] = path
        ns['__builtins__'] = self.builtins(name)
        key = (path, src)
        tree = ast.parse(src, path)
        if self.loops:
            from .loops import transform, Runtime
            ns['__vc_loop__'] = Runtime(self.loops)
            tree = transform(tree, name, self.loops)
        code = compile(tree, path, 'exec')
        exec(code, ns)
        for k, v in self.overrides.items():
            mn, fn = k.split('.', 1)
            if mn == name:
                if '.' in fn:
                    cn, mt = fn.split('.')
                    if cn in ns:
                        setattr(ns[cn], mt, v)
                elif fn in ns:
                    ns[fn] = v
        return m

    def __getattr__(self, k):
        if k.startswith('_') and not k.startswith('_deprec'):
            raise AttributeError(k)
        return self.mod(k)

    def builtins(self, mod=None):
        d = dict(builtins.__dict__)
        d.update(len=vc_len, min=vc_min, max=vc_max, all=vc_all, any=vc_any, sum=vc_sum, float=vc_float, int=vc_int,
                 isinstance=vc_isinstance, range=vc_range, enumerate=vc_enumerate, __import__=self.imp, print=lambda *a, **k: None)
        for k, v in self.extra.items():
            if k.split('.')[0] == mod:
                d[k.split('.')[1]] = v
        return d

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        top = name.split('.')[0]
        if level > 0 or top == 'rdtools':
            if level > 0:
                name = 'rdtools.' + name if name else 'rdtools'
            parts = name.split('.')
            if not fromlist:
                if len(parts) > 1:
                    self.mod(parts[1])
                return self.pkgproxy
            if len(parts) == 1:
                return self.pkgproxy
            return _ModProxy(self, parts[1])
        if name in self.stubs:
            return self.stubs[name]
        if top in self.stubs:
            o = self.stubs[top]
            if fromlist:
                for p in name.split('.')[1:]:
                    o = getattr(o, p)
            return o
        if top in REAL:
            return builtins.__import__(name, globals, locals, fromlist, level)
        o = Absent(top)
        if fromlist:
            for p in name.split('.')[1:]:
                o = getattr(o, p)
        return o


class _Pkg:
    def __init__(self, u):
        self.__dict__['_u'] = u

    def __getattr__(self, k):
        if k.startswith('__') and k != '__version__':
            raise AttributeError(k)
        if os.path.exists(os.path.join(REPO, 'rdtools', k + '.py')):
            return self._u.mod(k)
        # names re-exported by the package
        for m in ('normalization', 'filtering', 'degradation', 'aggregation', 'clearsky_temperature', 'soiling',
                  'availability', 'analysis_chains', 'utilities', 'bootstrap'):
            mm = self._u.mod(m)
            if k in mm.__dict__:
                return getattr(mm, k)
        return Absent('rdtools.' + k)


class _ModProxy:
    def __init__(self, u, name):
        self.__dict__['_m'] = u.mod(name)

    def __getattr__(self, k):
        return getattr(self._m, k)
