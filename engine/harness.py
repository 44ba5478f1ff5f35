"""What a property harness sees.  The same harness function runs in two worlds:

* SymH (explore.py): inputs are symbolic, the package is the symbolically loaded source of /repo,
  checks become proof obligations for the solver;
* ConH (below, used by replay.py under the interpreter the repository itself uses): inputs come from a
  solver model, the package is the ordinary import of /repo, checks are evaluated on the spot.
"""
import math


class PathEnd(BaseException):
    """the current path is outside the assumptions"""


class Inputs:
    """named inputs, defined through three primitives: _leaf(name), _var(name, lo, hi), decide(x)"""

    # -- booleans / bits / finite sets
    def bits(self, name, shape, dtype=None):
        return self._array(name, shape, lambda n: self._bit(n), dtype or int)

    def bit(self, name):
        return self._scalar(self._bit(name), int)

    def ints(self, name, shape, lo, hi, dtype=None):
        """integers lo..hi inclusive"""
        return self._array(name, shape, lambda n: self._int(n, lo, hi), dtype or int)

    def int_(self, name, lo, hi):
        return self._scalar(self._int(name, lo, hi), int)

    def choice(self, name, shape, values, dtype=float):
        """each entry one of the given values"""
        return self._array(name, shape, lambda n: self._pick(n, list(values)), dtype)

    def reals(self, name, shape, lo, hi, hint=None):
        if hint is not None:
            self._hint({'%s[%d]' % (name, i): v for i, v in enumerate(hint)})
        return self._array(name, shape, lambda n: self._var(n, lo, hi), float)

    def real(self, name, lo, hi):
        return self._scalar(self._var(name, lo, hi), float)

    def flag(self, name):
        """a plain python bool, one path per value"""
        return self.decide(self._leaf(name))

    def pick(self, name, values):
        """a plain python value, one path per value"""
        values = list(values)
        for i, v in enumerate(values[:-1]):
            if self.decide(self._leaf('%s=%d' % (name, i))):
                return v
        return values[-1]

    def _idx(self, name, shape):
        if isinstance(shape, int):
            shape = (shape,)
        n = 1
        for s in shape:
            n *= s
        return shape, ['%s[%d]' % (name, i) for i in range(n)]


# ====================================================================== concrete world
class ConH(Inputs):
    concrete = True

    def __init__(self, cd, np, asg):
        self.cd, self.np, self.asg = cd, np, asg
        self.fails, self.obs = [], []
        self.nz = 0
        self.drawn, self.reseeded = [], False
        self.nchecks = 0
        self.pkg = None

    # -- primitives
    def _hint(self, d):
        pass

    def _leaf(self, name):
        return bool(self.asg.get(name) or False)

    def _bit(self, name):
        return int(self._leaf(name))

    def _pick(self, name, values):
        n = max(1, (len(values) - 1).bit_length())
        code = sum(self._bit('%s.%d' % (name, i)) << i for i in range(n))
        return values[code if code < len(values) else code - len(values)]

    def _int(self, name, lo, hi):
        n = hi - lo + 1
        k = max(0, (n - 1).bit_length())
        code = sum(self._bit('%s.%d' % (name, i)) << i for i in range(k))
        return lo + (code if code < n else code - n)

    def _var(self, name, lo, hi):
        v = self.asg.get(name)
        if v is None:
            v = 0 if (lo is None or lo <= 0) and (hi is None or hi >= 0) else (lo if lo is not None else hi)
        return float(v)

    def _array(self, name, shape, f, dtype):
        shape, names = self._idx(name, shape)
        return self.np.array([f(n) for n in names], dtype=dtype).reshape(shape)

    def _scalar(self, v, dtype):
        return self.np.dtype(dtype).type(v)

    def decide(self, x):
        return bool(x)

    def noise(self, size, kind='n'):
        """unit draws in call order (patched into np.random by replay.py)"""
        np = self.np
        if size is None:
            n, shape = 1, ()
        else:
            shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
            n = int(np.prod(shape)) if shape else 1
        v = [self._var('noise[%d]' % (self.nz + i), -4, 4) for i in range(n)]
        self.nz += n
        self.drawn += [(kind, x) for x in v]
        a = np.array(v, dtype=float).reshape(shape)
        return a if size is not None else float(a)

    # -- specification
    def assume(self, c, quick=False):
        if not self.np.all(c):
            raise PathEnd()

    def check(self, c, msg):
        self.nchecks += 1
        if not bool(self.np.all(c)):
            self.fails.append(msg)

    def observe(self, x):
        self.obs.append(_plain(x, self.np))

    def eq(self, a, b, msg, tol=0):
        """same shape, elementwise equal (|a-b| <= tol); a is the value produced by the code"""
        np = self.np
        self.nchecks += 1
        if a is None:
            self.fails.append(msg + ': got None')
            return
        try:
            a = np.asarray(a)
            b = np.asarray(b)
        except Exception as e:
            self.fails.append('%s: %s' % (msg, e))
            return
        self.observe(a)
        if a.shape != b.shape:
            self.fails.append('%s: shape %s instead of %s' % (msg, a.shape, b.shape))
            return
        if a.dtype == object:
            try:
                a = a.astype(float)
            except Exception:
                self.fails.append('%s: not numeric' % msg)
                return
        with np.errstate(all='ignore'):
            ok = (a == b) if tol == 0 else (np.abs(a.astype(float) - b.astype(float)) <= tol)
        if not ok.all():
            i = tuple(int(k) for k in np.argwhere(~ok)[0]) if ok.ndim else ()
            self.fails.append('%s: [%s] is %r, expected %r' % (msg, ','.join(map(str, i)), a[i].item(), b[i].item()))

    def raises(self, fn, *a, **k):
        try:
            fn(*a, **k)
        except Exception as e:
            self.obs.append('raise')
            return True
        self.obs.append('noraise')
        return False

    def and_(self, *xs):
        r = True
        for x in xs:
            r = self.np.logical_and(r, x)
        return r

    def or_(self, *xs):
        r = False
        for x in xs:
            r = self.np.logical_or(r, x)
        return r

    def not_(self, x):
        return self.np.logical_not(x)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def env_set(self, name, fn):
        pass

    def snapshot(self, x):
        return self.np.array(x, copy=True)

    def fresh(self):
        """the package imported anew: no state left by earlier calls"""
        import importlib
        import sys
        for k in list(sys.modules):
            if k.split('.')[0] == 'CommDspy':
                del sys.modules[k]
        self.cd = importlib.import_module('CommDspy')
        return self.cd

    def module(self, name):
        import importlib
        return importlib.import_module(name)

    def rejects(self, fn, *a, **k):
        """True when the call raises ValueError, False when it returns; other exceptions are failures"""
        try:
            fn(*a, **k)
        except ValueError:
            self.obs.append('reject')
            return True
        self.obs.append('accept')
        return False

    def is_finite(self, x):
        return bool(self.np.all(self.np.isfinite(self.np.asarray(x, dtype=float))))


def _plain(x, np):
    if x is None:
        return None
    a = np.asarray(x)
    if a.dtype.kind == 'c':
        return ['complex', a.shape, [[float(v.real), float(v.imag)] for v in a.reshape(-1)]]
    if a.dtype.kind not in 'biuf':
        return ['other', list(a.shape), []]
    return [a.dtype.kind, list(a.shape), [float(v) for v in a.reshape(-1)]]
