"""Load CommDspy from /repo's working tree with the numeric libraries replaced by the symbolic layer."""
import ast
import builtins
import hashlib
import os
import sys
import types
import numpy as np
from . import sym as S
from .sym import Sym, FLOAT, INT, cast, wrap_scalar
from . import sarr as A
from .sarr import SArr, apply_uf
from . import guards as G
from . import libmodels

REPO = os.environ.get('VT_REPO', '/repo')


# ------------------------------------------------------------------ builtins seen by the package
def _one(x):
    if isinstance(x, SArr):
        return wrap_scalar(x._one(), x.dt)
    return x


def b_int(*a, **k):
    if len(a) == 1 and not k:
        x = _one(a[0])
        if isinstance(x, Sym):
            if x.dt.kind in 'iu':
                return x
            return wrap_scalar(cast(x, x.dt, INT), INT)
        return int(x)
    return int(*a, **k)


def b_float(*a):
    if len(a) == 1:
        x = _one(a[0])
        if isinstance(x, Sym):
            return wrap_scalar(cast(x, x.dt, FLOAT), FLOAT)
        return float(x)
    return float(*a)


def b_type(*a):
    if len(a) == 1:
        if isinstance(a[0], Sym):
            return a[0].dt.type
    return type(*a)


def b_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        for q in ts:
            if isinstance(q, tuple):
                if b_isinstance(x, q):
                    return True
            elif q is SArr:
                continue
            elif isinstance(q, type) and (issubclass(x.dt.type, q) or q is Sym):
                return True
            else:
                try:
                    if isinstance(x.dt.type(1), q):
                        return True
                except TypeError:
                    pass
        return False
    return isinstance(x, t)


def _ext(name, pyf, mn):
    def f(*a, key=None, **k):
        if key is not None or k:
            return pyf(*a, **({'key': key} if key is not None else {}), **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any(isinstance(x, Sym) or isinstance(x, SArr) and x.size == 1 and isinstance(x._one(), Sym) for x in xs) or not xs:
            return pyf(xs)
        r = _one(xs[0])
        for x in xs[1:]:
            r = apply_uf(np.minimum if mn else np.maximum, r, _one(x))
        return r
    return f


def b_any(it):
    acc = []
    for x in it:
        if isinstance(x, Sym):
            acc.append(x.guard())
        elif bool(x):
            return True
    r = S.mkbool(G.or_all(acc)) if acc else False
    return r if isinstance(r, Sym) else bool(r)


def b_all(it):
    acc = []
    for x in it:
        if isinstance(x, Sym):
            acc.append(x.guard() ^ 1)
        elif not bool(x):
            return False
    r = S.mkbool(G.or_all(acc) ^ 1) if acc else True
    return r if isinstance(r, Sym) else bool(r)


def b_round(x, n=None):
    x = _one(x)
    if isinstance(x, Sym):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def b_sum(it, start=0):
    r = start
    first = True
    for x in it:
        r = r + x
    return r


SHIMS = {'int': b_int, 'float': b_float, 'type': b_type, 'isinstance': b_isinstance, 'min': _ext('min', min, True),
         'max': _ext('max', max, False), 'any': b_any, 'all': b_all, 'round': b_round, 'sum': b_sum}


class Rewrite(ast.NodeTransformer):
    """calls of a few builtins go to shims; comparisons chained over symbolic values keep python semantics"""
    def __init__(self, shadowed):
        self.sh = shadowed

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SHIMS and node.func.id not in self.sh:
            node.func = ast.copy_location(ast.Name('__vt_' + node.func.id + '__', ast.Load()), node.func)
        return node


def _bound_names(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split('.')[0])
    return out


class Package:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.shims = libmodels.build()
        self.mods = {}
        self.codes = {}
        self.sources = {}
        self.builtins = dict(vars(builtins))
        self.builtins['__import__'] = self._import
        self.builtins['print'] = lambda *a, **k: None
        for n, f in SHIMS.items():
            self.builtins['__vt_' + n + '__'] = f
        self.np = self.shims['numpy']

    def fresh(self, name='CommDspy'):
        """the package executed anew (no state left over from an earlier path)"""
        self.mods = {}
        return self.load(name)

    # -- import machinery private to the package under test
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            parts = pkg.split('.')
            parts = parts[:len(parts) - (level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        top = name.split('.')[0]
        if name in self.shims or top in ('numpy', 'scipy', 'sklearn', 'matplotlib'):
            m = self.shims.get(name)
            if m is None:
                m = libmodels._mod(name, name, {})
                self.shims[name] = m
            if fromlist:
                return m
            return self.shims[top]
        if top == 'CommDspy' or os.path.exists(os.path.join(self.repo, top)) and top not in sys.builtin_module_names and top in ('example_simulation',):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + '.' + f))
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(top)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def path(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            return (init if os.path.exists(init) else None), True, base
        if os.path.exists(base + '.py'):
            return base + '.py', False, base
        raise ModuleNotFoundError('No module named %r' % name, name=name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        p, ispkg, base = self.path(name)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__file__ = p
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [base]
        self.mods[name] = m
        if name in self.codes:
            if self.codes[name] is not None:
                exec(self.codes[name], m.__dict__)
        elif p is not None:
            src = open(p, encoding='utf-8').read()
            self.sources[name] = hashlib.sha256(src.encode()).hexdigest()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src, p)
            tree = Rewrite(_bound_names(tree) & set(SHIMS)).visit(tree)
            ast.fix_missing_locations(tree)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                code = compile(tree, p, 'exec')
            self.codes[name] = code
            try:
                exec(code, m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        if '.' in name:
            parent, _, child = name.rpartition('.')
            setattr(self.mods[parent], child, m)
        return m
