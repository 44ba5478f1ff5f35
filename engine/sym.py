"""Symbolic scalars: value summaries over guards and polynomials over real atoms."""
from fractions import Fraction
import math
import numpy as np
from . import guards as G

BOOL, INT, FLOAT = np.dtype(bool), np.dtype(np.int64), np.dtype(np.float64)
VS_CROSS = 600          # cross-product limit for eager value summaries
VS_MAX = 5000           # limit when materialising from a linear form


class Unsupported(Exception):
    """The engine cannot encode this operation (never an alarm)."""


class TooBig(Unsupported):
    pass


# ------------------------------------------------------------------ atoms
atoms = []              # (kind, payload, lo, hi)
_atom_idx = {}


def reset():
    G.reset()
    del atoms[:]
    _atom_idx.clear()
    monoinv.clear()
    _opcache.clear()


def new_atom(kind, key, payload=None, lo=None, hi=None):
    k = (kind, key)
    i = _atom_idx.get(k)
    if i is None:
        i = _atom_idx[k] = len(atoms)
        atoms.append((kind, payload if payload is not None else key, lo, hi))
    return i


# ------------------------------------------------------------------ polynomials
def fr(c):
    """exact rational of a python/numpy number"""
    if isinstance(c, int):
        return c
    if isinstance(c, Fraction):
        return int(c) if c.denominator == 1 else c
    if isinstance(c, (np.integer, np.bool_)):
        return int(c)
    c = float(c)
    if c != c or c in (math.inf, -math.inf):
        raise Unsupported('non-finite constant in arithmetic term')
    if c == int(c):
        return int(c)
    return Fraction(c)


ONE = (0, ())


class Poly:
    __slots__ = ('t', '_k', '_exact')

    def __init__(self, t):
        self.t = t
        self._k = None
        self._exact = None

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items(), key=lambda kv: kv[0]))
        return self._k

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and ONE in self.t:
            return self.t[ONE]
        return None

    def exact(self):
        """integer combination of guards, small enough to be exact in float64 as well"""
        if self._exact is None:
            s = 0
            ok = True
            for (n, at), c in self.t.items():
                if at or not isinstance(c, int):
                    ok = False
                    break
                s += abs(c)
            self._exact = ok and s < 2 ** 53
        return self._exact

    def ind_only(self):
        return all(not at for (_, at) in self.t)

    def bounds(self):
        lo = hi = 0
        for (n, at), c in self.t.items():
            l, h = (1, 1)
            for a in at:
                al, ah = atoms[a][2], atoms[a][3]
                if al is None or ah is None:
                    return None, None
                ps = (l * al, l * ah, h * al, h * ah)
                l, h = min(ps), max(ps)
            if n:
                l, h = min(l, 0), max(h, 0)
            if c < 0:
                l, h = h, l
            lo += c * l
            hi += c * h
        return lo, hi


def pconst(c):
    c = fr(c)
    return Poly({ONE: c} if c else {})


def pvar(a):
    return Poly({(0, (a,)): 1})


def pind(lit):
    n = lit >> 1
    if n == 0:
        return pconst(lit & 1)
    if lit & 1:
        return Poly({ONE: 1, (n, ()): -1})
    return Poly({(n, ()): 1})


def padd(p, q, s=1):
    if len(q.t) > len(p.t) and s == 1:
        p, q = q, p
    t = dict(p.t)
    for m, c in q.t.items():
        v = t.get(m, 0) + (c if s == 1 else s * c)
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return Poly(t)


def pscale(p, c):
    c = fr(c)
    if c == 0:
        return Poly({})
    if c == 1:
        return p
    return Poly({m: _norm(v * c) for m, v in p.t.items()})


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def _mul_atoms(a, b):
    """product of two atom tuples; returns list of (coef, ind-free poly)"""
    return tuple(sorted(a + b))


def pmul(p, q):
    if len(p.t) * len(q.t) > 200000:
        raise TooBig('polynomial product too large')
    acc = {}

    def put(m, c):
        v = acc.get(m, 0) + c
        if v:
            acc[m] = _norm(v)
        else:
            acc.pop(m, None)
    extra = []
    for (n1, a1), c1 in p.t.items():
        for (n2, a2), c2 in q.t.items():
            c = c1 * c2
            at = _mul_atoms(a1, a2) if a1 and a2 else (a1 or a2)
            if monoinv and a1 and a2:
                at = _cancel_inv(at)
            if n1 == 0 or n2 == 0 or n1 == n2:
                l = 2 * (n1 or n2)
                if l == 0:
                    l = 1
            else:
                l = G.and_(2 * n1, 2 * n2)
            sq = _find_sqrt(at)
            if sq is not None:
                rest = list(at)
                rest.remove(sq); rest.remove(sq)
                base = Poly({(0, tuple(rest)): c})
                r = pmul(base, atoms[sq][1])
                if l != 1:
                    r = pmul(r, pind(l))
                extra.append(r)
                continue
            if l == 0:
                continue
            if l == 1:
                put((0, at), c)
            elif l & 1:
                put((0, at), c)
                put((l >> 1, at), -c)
            else:
                put((l >> 1, at), c)
    r = Poly(acc)
    for e in extra:
        r = padd(r, e)
    return r


monoinv = {}        # inv atom -> atoms of its single-monomial denominator


def _cancel_inv(at):
    for i in at:
        m = monoinv.get(i)
        if m is not None:
            l = list(at)
            l.remove(i)
            try:
                for x in m:
                    l.remove(x)
            except ValueError:
                continue
            return _cancel_inv(tuple(l))
    return at


def _find_sqrt(at):
    for i in range(len(at) - 1):
        if at[i] == at[i + 1] and atoms[at[i]][0] == 'sqrt':
            return at[i]
    return None


# ------------------------------------------------------------------ explorer hook
class _NoCtx:
    def decide(self, lit):
        raise Unsupported('no active exploration context')


ctx = [_NoCtx()]


# ------------------------------------------------------------------ Sym
class Sym:
    """A symbolic numpy scalar of logical dtype dt."""
    __slots__ = ('dt', '_p', '_vs', 'g')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, dt, p=None, vs=None, g=None):
        self.dt = dt
        self._p = p
        self._vs = vs
        self.g = g

    # -- representations
    @property
    def poly(self):
        if self._p is None:
            if self.g is not None:
                self._p = pind(self.g)
            else:
                items = list(self._vs.items())
                # drop the largest guard: v0 + sum (v-v0)*[g]
                items.sort(key=lambda kv: -G.size[kv[1] >> 1])
                v0 = fr(items[0][0])
                p = pconst(v0)
                for v, g in items[1:]:
                    p = padd(p, pscale(pind(g), fr(v) - v0))
                self._p = p
        return self._p

    def has_poly(self):
        return self._p is not None or self.g is not None

    def quick_vs(self):
        """value summary if already there or trivially small, else None"""
        if self._vs is not None:
            return self._vs
        if self.g is not None:
            self._vs = {False: self.g ^ 1, True: self.g}
            return self._vs
        p = self._p
        n = len(p.t)
        if n <= 2 and p.ind_only():
            ind = [(m, c) for m, c in p.t.items() if m[0]]
            if len(ind) == 1:
                c0 = p.t.get(ONE, 0)
                (m, c) = ind[0]
                self._vs = {self._pv(c0): 2 * m[0] + 1, self._pv(c0 + c): 2 * m[0]}
                return self._vs
        return None

    def _pv(self, c):
        if self.dt.kind == 'b':
            return bool(c)
        if self.dt.kind in 'iu':
            if not isinstance(c, int):
                c = int(c)
            return c
        return float(c)

    def vs(self, limit=VS_MAX):
        v = self.quick_vs()
        if v is not None:
            return v
        p = self._p
        if not p.ind_only():
            raise Unsupported('value of a continuous term is needed')
        cur = {p.t.get(ONE, 0): 1}
        terms = sorted(((m[0], c) for m, c in p.t.items() if m[0]))
        for n, c in terms:
            nxt = {}
            for v, g in cur.items():
                for vv, gg in ((v, G.and_(g, 2 * n + 1)), (v + c, G.and_(g, 2 * n))):
                    if gg:
                        nxt[vv] = G.or_(nxt.get(vv, 0), gg)
            cur = nxt
            if len(cur) > limit:
                raise TooBig('value summary with more than %d values' % limit)
        out = {}
        for v, g in cur.items():
            k = self._pv(v)
            out[k] = G.or_(out.get(k, 0), g)
        self._vs = _tidy(out)
        return self._vs

    def vs_mod(self, m):
        """value summary of an exact integer linear form modulo m"""
        p = self.poly
        if m == 2:
            l = 1 if p.t.get(ONE, 0) % 2 else 0
            for (n, _), c in p.t.items():
                if n and c % 2:
                    l = G.xor_(l, 2 * n)
            return {0: l ^ 1, 1: l}
        cur = {p.t.get(ONE, 0) % m: 1}
        for n, c in sorted(((mm[0], c) for mm, c in p.t.items() if mm[0])):
            c %= m
            if c == 0:
                continue
            nxt = {}
            for v, g in cur.items():
                for vv, gg in ((v, G.and_(g, 2 * n + 1)), ((v + c) % m, G.and_(g, 2 * n))):
                    if gg:
                        nxt[vv] = G.or_(nxt.get(vv, 0), gg)
            cur = nxt
            if len(cur) >= 3:
                G.partition(list(cur.values()))
        return _tidy(cur)

    def guard(self):
        """literal for truthiness"""
        if self.g is not None:
            return self.g
        r = cmp_el('ne', self, 0)
        return r.g if isinstance(r, Sym) else int(bool(r))

    # -- python protocol
    def __bool__(self):
        return ctx[0].decide(self.guard())

    def concretize(self):
        if self.g is not None:
            return ctx[0].decide(self.g)
        if self._vs is None and not self._p.ind_only():
            raise Unsupported('concretisation of a continuous value')
        return ctx[0].choose(self.vs())

    def __index__(self):
        if self.dt.kind == 'f':
            raise TypeError("'numpy.float64' object cannot be interpreted as an integer")
        return int(self.concretize())

    def __int__(self):
        return int(self.concretize())

    def __float__(self):
        return float(self.concretize())

    def __hash__(self):
        return hash(self.concretize())

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return '<Sym %s>' % self.dt

    def __iter__(self):
        raise TypeError('iteration over a 0-d value')

    # -- numpy scalar look-alike
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return self.dt

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return wrap_scalar(0, self.dt)

    def conj(self):
        return self
    conjugate = conj

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, t, **kw):
        from .sarr import norm_dtype
        d = norm_dtype(t)
        return wrap_scalar(cast(self, self.dt, d), d)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        from .sarr import SArr
        a = np.empty((), dtype=object)
        a[()] = self
        return getattr(SArr(a, self.dt), name)

    def __getitem__(self, k):
        from .sarr import SArr
        a = np.empty((), dtype=object)
        a[()] = self
        return SArr(a, self.dt)[k]


def wrap_scalar(v, dt):
    """element -> what numpy would hand to python code"""
    if isinstance(v, Sym):
        if v.dt != dt:
            v = cast(v, v.dt, dt)
            if not isinstance(v, Sym):
                return dt.type(v)
        return v
    return dt.type(v)


def _tidy(vs):
    """drop impossible values, normalise two-valued summaries to g / not g"""
    vs = {v: g for v, g in vs.items() if g != 0}
    if len(vs) == 2:
        (v1, g1), (v2, g2) = vs.items()
        if g1 != g2 ^ 1:
            if G.size[g1 >> 1] <= G.size[g2 >> 1]:
                vs = {v1: g1, v2: g1 ^ 1}
            else:
                vs = {v1: g2 ^ 1, v2: g2}
    elif len(vs) == 1:
        vs = {v: 1 for v in vs}
    else:
        G.partition(list(vs.values()))
    return vs


def mkvs(dt, vs):
    vs = _tidy(vs)
    if len(vs) == 1:
        return next(iter(vs))
    if not vs:
        raise Unsupported('empty value summary')
    if dt.kind == 'b':
        return mkbool(vs.get(True, 0))
    return Sym(dt, vs=vs)


def mkbool(g):
    if g == 0:
        return False
    if g == 1:
        return True
    return Sym(BOOL, g=g)


def mkpoly(dt, p):
    c = p.const()
    if c is not None:
        if dt.kind in 'iu':
            return int(c)
        if dt.kind == 'b':
            return bool(c)
        return float(c)
    return Sym(dt, p=p)


def nan_key(v):
    return v


_NAN = float('nan')


def canon(v, dt):
    """python value of a numpy scalar, usable as a dict key"""
    k = dt.kind
    if k == 'b':
        return bool(v)
    if k in 'iu':
        return int(v)
    if k == 'f':
        v = float(v)
        return _NAN if v != v else v
    if k == 'c':
        return complex(v)
    return v


# ------------------------------------------------------------------ casting
def is_plain_int(dt):
    return dt.kind in 'iu' and dt.itemsize == 8


def cast(x, src, dst):
    if src is dst or src == dst:
        return x
    if not isinstance(x, Sym):
        if dst.kind == 'O':
            return x
        if dst.kind == 'f' and dst.itemsize == 8 and not isinstance(x, complex):
            return float(x)
        with np.errstate(all='ignore'):
            return canon(np.asarray(x, dtype=src if src.kind != 'O' else None).astype(dst)[()], dst)
    if dst.kind == 'O':
        return x
    if dst.kind == 'c':
        return _vs_map(x, lambda v: complex(v), dst)
    if dst.kind == 'b':
        return mkbool(x.guard())
    if x.dt.kind == 'b':
        if dst.kind in 'iuf':
            return Sym(dst, p=pind(x.g))
        raise Unsupported('cast %s' % dst)
    if dst.kind == 'f':
        if x._p is not None and dst.itemsize == 8:
            vs = x._vs
            return Sym(dst, p=x._p, vs=None if vs is None else {float(v): g for v, g in vs.items()})
        if x._vs is None and not x._p.ind_only():
            return Sym(dst, p=x._p)             # reduced-precision floats are treated as reals
        return _vs_map(x, lambda v: canon(np.asarray(v, dtype=x.dt).astype(dst)[()], dst), dst)
    # to integers
    if x.dt.kind in 'iu':
        if is_plain_int(dst):
            return Sym(dst, p=x._p, vs=x._vs)
        return _vs_map(x, lambda v: canon(np.asarray(v, dtype=x.dt).astype(dst)[()], dst), dst)
    if x._vs is None and not x._p.ind_only():
        if not is_plain_int(dst):
            raise Unsupported('narrow integer cast of a continuous value')
        return opaque(dst, 'trunc', x._p)
    if x._p is not None and x._p.exact() and is_plain_int(dst):
        vs = x._vs
        return Sym(dst, p=x._p, vs=None if vs is None else {int(v): g for v, g in vs.items()})

    def conv(v):
        with np.errstate(all='ignore'):
            return canon(np.asarray(v, dtype=x.dt).astype(dst)[()], dst)
    return _vs_map(x, conv, dst)


def _vs_map(x, f, dst):
    out = {}
    for v, g in x.vs().items():
        k = f(v)
        out[k] = G.or_(out.get(k, 0), g)
    return mkvs(dst, out)


# ------------------------------------------------------------------ opaque real functions
def opaque(dt, kind, p, lo=None, hi=None, q=None):
    key = (p.key, q.key if q is not None else None)
    a = new_atom(kind, key, p if q is None else (p, q), lo, hi)
    return Sym(dt, p=pvar(a))


def to_poly(x):
    if isinstance(x, Sym):
        return x.poly
    return pconst(x)


def continuous(x):
    return isinstance(x, Sym) and x._vs is None and x.g is None and not x._p.ind_only()


# ------------------------------------------------------------------ element operations
_opcache = {}


def _qvs(x):
    if isinstance(x, Sym):
        return x.quick_vs()
    return {x: 1}


def _exact(x):
    if isinstance(x, Sym):
        return x.has_poly() and x.poly.exact()
    try:
        return float(x) == int(x) and abs(x) < 2 ** 52
    except (OverflowError, ValueError):
        return False


def _cross(fn, x, y, dt):
    """cross product of two value summaries through a concrete function"""
    vx, vy = x if isinstance(x, dict) else _qvs(x), y if isinstance(y, dict) else _qvs(y)
    if len(vx) == 2 and len(vy) == 2:
        (a0, ga0), (a1, ga1) = vx.items()
        (b0, gb0), (b1, gb1) = vy.items()
        ga, gb = ga1, gb1
        r = (fn(a0, b0), fn(a0, b1), fn(a1, b0), fn(a1, b1))
        out = {}
        for v in r:
            if v in out:
                continue
            tt = tuple(q == v or (q != q and v != v) for q in r)
            out[v] = _tt2(tt, ga, gb)
        return mkvs(dt, out)
    acc = {}
    for a, g1 in vx.items():
        for b, g2 in vy.items():
            g = G.and_(g1, g2)
            if g:
                acc.setdefault(fn(a, b), []).append(g)
    return mkvs(dt, {v: G.or_all(gs) for v, gs in acc.items()})


def _tt2(tt, a, b):
    """truth table over (a,b) in order 00,01,10,11"""
    n = sum(tt)
    if n == 4:
        return 1
    if n == 0:
        return 0
    na, nb = a ^ 1, b ^ 1
    mins = (G.and_(na, nb), G.and_(na, b), G.and_(a, nb), G.and_(a, b))
    if n == 1:
        return mins[tt.index(True)]
    if n == 3:
        return mins[tt.index(False)] ^ 1
    if tt[0] and tt[1]:
        return na
    if tt[2] and tt[3]:
        return a
    if tt[0] and tt[2]:
        return nb
    if tt[1] and tt[3]:
        return b
    if tt[1] and tt[2]:
        return G.xor_(a, b)
    return G.xor_(a, b) ^ 1


def npfn(uf, xdt, ydt, odt):
    """concrete function on python values through the real ufunc (exact numpy semantics)"""
    def f(a, b):
        k = (uf, xdt, ydt, a, b, type(a), type(b))
        r = _opcache.get(k)
        if r is None:
            with np.errstate(all='ignore'):
                r = canon(uf(xdt.type(a), ydt.type(b)), odt)
            _opcache[k] = r
        return r
    return f


def npfn1(uf, xdt, odt):
    def f(a):
        with np.errstate(all='ignore'):
            return canon(uf(xdt.type(a)), odt)
    return f


def add_el(x, y, dt, sub=False):
    """x, y already of dtype dt (int64 / float64)"""
    sx, sy = isinstance(x, Sym), isinstance(y, Sym)
    if not sx and not sy:
        return x - y if sub else x + y
    if not sy and y == 0:
        return x
    if not sx and x == 0 and not sub:
        return y
    if dt.kind in 'iu' and not is_plain_int(dt):
        uf = np.subtract if sub else np.add
        return gen2(uf, x, y, dt, dt, dt)
    if _exact(x) and _exact(y):
        return mkpoly(dt, padd(to_poly(x), to_poly(y), -1 if sub else 1))
    vx, vy = _qvs(x), _qvs(y)
    if vx is not None and vy is not None and len(vx) * len(vy) <= VS_CROSS:
        return _cross((lambda a, b: a - b) if sub else (lambda a, b: a + b), vx, vy, dt)
    if not sx and x != x or not sy and y != y:
        return _NAN
    return mkpoly(dt, padd(to_poly(x), to_poly(y), -1 if sub else 1))


def mul_el(x, y, dt):
    sx, sy = isinstance(x, Sym), isinstance(y, Sym)
    if not sx and not sy:
        return x * y
    if sx and not sy:
        x, y, sx, sy = y, x, sy, sx
    if not sx:
        if x == 1:
            return y
        if x == 0:
            return 0 if dt.kind in 'iu' else 0.0
        if dt.kind in 'iu' and not is_plain_int(dt):
            return gen2(np.multiply, x, y, dt, dt, dt)
        if _exact(x) and _exact(y):
            return mkpoly(dt, pscale(y.poly, int(x)))
        vy = y.quick_vs()
        if vy is not None and len(vy) <= VS_CROSS:
            return _cross(lambda a, b: a * b, {x: 1}, vy, dt)
        if x != x:
            return _NAN
        return mkpoly(dt, pscale(y.poly, x))
    if dt.kind in 'iu' and not is_plain_int(dt):
        return gen2(np.multiply, x, y, dt, dt, dt)
    vx, vy = x.quick_vs(), y.quick_vs()
    if vx is not None and vy is not None and len(vx) * len(vy) <= VS_CROSS:
        r = _cross(lambda a, b: a * b, vx, vy, dt)
        return r
    return mkpoly(dt, pmul(x.poly, y.poly))


def gen2(uf, x, y, xdt, ydt, odt):
    """generic binary operation on value summaries through the real ufunc"""
    vx = x.vs() if isinstance(x, Sym) else {x: 1}
    vy = y.vs() if isinstance(y, Sym) else {y: 1}
    if len(vx) * len(vy) > 40000:
        raise TooBig('value summary cross product')
    return _cross(npfn(uf, xdt, ydt, odt), vx, vy, odt)


def gen1(uf, x, xdt, odt):
    f = npfn1(uf, xdt, odt)
    if not isinstance(x, Sym):
        return f(x)
    return _vs_map(x, f, odt)


_CMP = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b,
        'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}


def cmp_el(op, x, y):
    sx, sy = isinstance(x, Sym), isinstance(y, Sym)
    f = _CMP[op]
    if not sx and not sy:
        return bool(f(x, y))
    if sx and sy and x is y:
        return bool(f(0, 0))
    vx, vy = _qvs(x), _qvs(y)
    if vx is not None and vy is not None and len(vx) * len(vy) <= 4096:
        return _cross(lambda a, b: bool(f(a, b)), vx, vy, BOOL)
    for v in (x, y):
        if not isinstance(v, Sym):
            if v != v:
                return op == 'ne'
            if v in (math.inf, -math.inf):
                other_big = (v > 0) == (v is y)       # x < +inf or -inf < y
                return {'lt': other_big, 'le': other_big, 'gt': not other_big, 'ge': not other_big,
                        'eq': False, 'ne': True}[op]
    d = padd(to_poly(x), to_poly(y), -1)
    c = d.const()
    if c is not None:
        return bool(f(c, 0))
    return mkbool(cmp_poly(op, d))


def cmp_poly(op, d):
    """literal for d op 0"""
    lo, hi = d.bounds()
    if lo is not None:
        if op == 'lt':
            if hi < 0: return 1
            if lo >= 0: return 0
        elif op == 'le':
            if hi <= 0: return 1
            if lo > 0: return 0
        elif op == 'gt':
            if lo > 0: return 1
            if hi <= 0: return 0
        elif op == 'ge':
            if lo >= 0: return 1
            if hi < 0: return 0
        elif lo > 0 or hi < 0:
            return 0 if op == 'eq' else 1
    if d.ind_only() and len(d.t) <= 400:
        try:
            s = Sym(FLOAT, p=d)
            # exact rational comparison of the summary values
            cur = _poly_values(d, 3000)
            return G.or_all([g for v, g in cur.items() if _CMP[op](v, 0)])
        except TooBig:
            pass
    if op == 'gt':
        return cmp_poly('lt', pscale(d, -1))
    if op == 'ge':
        return cmp_poly('lt', d) ^ 1
    if op == 'le':
        return cmp_poly('lt', pscale(d, -1)) ^ 1
    if op == 'ne':
        return cmp_poly('eq', d) ^ 1
    # a common factor 1/q only contributes its sign
    cf = _common_inv(d)
    if cf is not None:
        q = atoms[cf][1]
        rest = {}
        for (n, at), c in d.t.items():
            l = list(at)
            l.remove(cf)
            rest[(n, tuple(l))] = c
        rest = Poly(rest)
        if op == 'eq':
            return cmp_poly('eq', rest)
        pos = cmp_poly('gt', q)
        return G.or_(G.and_(pos, cmp_poly('lt', rest)), G.and_(pos ^ 1, cmp_poly('gt', rest)))
    # canonical scaling
    k = d.key
    lead = k[-1][1]
    if op == 'eq':
        d = pscale(d, Fraction(1) / lead)
    else:
        d = pscale(d, Fraction(1) / abs(lead))
    return G.atom((op, d.key), (op, d))


def _common_inv(d):
    it = iter(d.t)
    first = next(it, None)
    if first is None or not first[1]:
        return None
    cand = [a for a in set(first[1]) if atoms[a][0] == 'inv']
    for (n, at) in it:
        if not cand:
            return None
        cand = [a for a in cand if a in at]
    return min(cand) if cand else None


def _poly_values(p, limit):
    cur = {p.t.get(ONE, 0): 1}
    for n, c in sorted(((m[0], c) for m, c in p.t.items() if m[0])):
        nxt = {}
        for v, g in cur.items():
            for vv, gg in ((v, G.and_(g, 2 * n + 1)), (v + c, G.and_(g, 2 * n))):
                if gg:
                    nxt[vv] = G.or_(nxt.get(vv, 0), gg)
        cur = nxt
        if len(cur) > limit:
            raise TooBig('value summary')
    return _tidy(cur)


def ite_el(g, a, b, dt):
    """if literal g then a else b (elements of dtype dt)"""
    if g == 1:
        return a
    if g == 0:
        return b
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if not sa and not sb:
        if a == b or (a != a and b != b):
            return a
        if dt.kind == 'b':
            return mkbool(g if a else g ^ 1)
        return mkvs(dt, {a: g, b: g ^ 1})
    if a is b:
        return a
    if dt.kind == 'b':
        return mkbool(G.ite_(g, a.g if sa else int(a), b.g if sb else int(b)))
    va, vb = _qvs(a), _qvs(b)
    if va is not None and vb is not None:
        out = {}
        for v in list(va) + [v for v in vb if v not in va]:
            out[v] = G.ite_(g, va.get(v, 0), vb.get(v, 0))
        return mkvs(dt, out)
    pa, pb = to_poly(a), to_poly(b)
    return mkpoly(dt, padd(pb, pmul(pind(g), padd(pa, pb, -1))))


def merge_el(pairs, dt):
    """pairs [(guard, element)] with guards a partition"""
    pairs = [(g, v) for g, v in pairs if g]
    if len(pairs) == 1:
        return pairs[0][1]
    if all(not isinstance(v, Sym) for _, v in pairs):
        acc = {}
        for g, v in pairs:
            acc.setdefault(v, []).append(g)
        return mkvs(dt, {v: G.or_all(gs) for v, gs in acc.items()})
    r = pairs[-1][1]
    for g, v in reversed(pairs[:-1]):
        r = ite_el(g, v, r, dt)
    return r


def mod_el(x, y, xdt, ydt, dt):
    if isinstance(x, Sym) and not isinstance(y, Sym) and _exact(x) and _exact(y) and y > 0 \
            and (is_plain_int(dt) or dt.kind == 'f'):
        m = int(y)
        vs = x.vs_mod(m)
        if m == 2:
            r = mkpoly(dt, pind(vs[1]))
            return r
        return mkvs(dt, {(int(v) if dt.kind in 'iu' else float(v)): g for v, g in vs.items()})
    if continuous(x) and not isinstance(y, Sym) and y != 0:
        # x - y*floor(x/y)
        q = floor_el(div_el(x, y), 'floor')
        return add_el(x, mul_el(fl(y), q, FLOAT), FLOAT, sub=True)
    return gen2(np.remainder, x, y, xdt, ydt, dt)


def fl(x):
    return x if isinstance(x, Sym) else float(x)


def div_el(x, y):
    """true division, float64 elements"""
    sx, sy = isinstance(x, Sym), isinstance(y, Sym)
    if not sx and not sy:
        with np.errstate(all='ignore'):
            return canon(np.float64(x) / np.float64(y), FLOAT)
    if not sy:
        vx = _qvs(x)
        if vx is not None:
            return _cross(npfn(np.true_divide, FLOAT, FLOAT, FLOAT), vx, {y: 1}, FLOAT)
        if y == 0 or y != y or y in (math.inf, -math.inf):
            raise Unsupported('division of a term by %r' % y)
        return mkpoly(FLOAT, pscale(x.poly, Fraction(1) / fr(y)))
    vx, vy = _qvs(x), _qvs(y)
    if vx is not None and vy is not None and len(vx) * len(vy) <= 4096:
        return _cross(npfn(np.true_divide, FLOAT, FLOAT, FLOAT), vx, vy, FLOAT)
    if vy is not None and len(vy) <= 16:
        parts = [(g, div_el(x, v)) for v, g in vy.items()]
        return merge_el(parts, FLOAT)
    if not sx and x == 0:
        return 0.0
    z = cmp_el('eq', y, 0)
    if z is True or (isinstance(z, Sym) and ctx[0].decide(z.g)):
        n = cmp_el('eq', x, 0)
        if n is True or (isinstance(n, Sym) and ctx[0].decide(n.g)):
            return _NAN
        pos = cmp_el('gt', x, 0)
        if pos is True or (isinstance(pos, Sym) and ctx[0].decide(pos.g)):
            return math.inf
        return -math.inf
    py = y.poly
    px = to_poly(x)
    # normalise the denominator so that proportional denominators share an atom
    lead = fr(py.key[-1][1])
    py1 = pscale(py, Fraction(1) / lead)
    px1 = pscale(px, Fraction(1) / lead)
    r = _proportional(px1, py1)
    if r is not None:
        return mkpoly(FLOAT, pconst(r))
    # x/y = x * (1/y)
    a = new_atom('inv', py1.key, py1, *_inv_bounds(py1))
    if len(py1.t) == 1:
        (n0, at0), c0 = next(iter(py1.t.items()))
        if n0 == 0 and c0 == 1:
            monoinv[a] = at0
    return mkpoly(FLOAT, _inv_reduce(pmul(px1, pvar(a)), a, py1))


def _inv_bounds(p):
    lo, hi = p.bounds()
    if lo is not None and (lo > 0 or hi < 0):
        return Fraction(1) / Fraction(hi), Fraction(1) / Fraction(lo)
    return None, None


def _inv_reduce(p, a, den):
    return p


def _proportional(p, q):
    if len(p.t) != len(q.t) or not p.t:
        return None
    r = None
    for m, c in p.t.items():
        d = q.t.get(m)
        if d is None:
            return None
        if r is None:
            r = Fraction(c) / Fraction(d)
        elif Fraction(c) != r * Fraction(d):
            return None
    return r


def abs_el(x, dt):
    if not isinstance(x, Sym):
        return abs(x)
    if not continuous(x):
        if x.quick_vs() is None and len(x._p.t) > 60:
            g = cmp_el('ge', x, 0)
            if g is True:
                return x
            if g is False:
                return neg_el(x, dt)
        return _vs_map(x, abs, dt)
    p = x._p
    lo, hi = p.bounds()
    if lo is not None and lo >= 0:
        return x
    if hi is not None and hi <= 0:
        return neg_el(x, dt)
    if p.key[-1][1] < 0:
        p = pscale(p, -1)
    m = None if lo is None else max(abs(lo), abs(hi))
    return opaque(dt, 'abs', p, 0 if m is not None else None, m)


def neg_el(x, dt):
    if not isinstance(x, Sym):
        return -x
    if dt.kind in 'iu' and not is_plain_int(dt):
        return gen1(np.negative, x, dt, dt)
    if x._vs is not None:
        return Sym(dt, p=None if x._p is None else pscale(x._p, -1), vs={-v: g for v, g in x._vs.items()})
    return mkpoly(dt, pscale(x.poly, -1))


def sign_el(x, dt):
    if not isinstance(x, Sym):
        return canon(np.sign(dt.type(x)), dt)
    if not continuous(x):
        return _vs_map(x, lambda v: canon(np.sign(dt.type(v)), dt), dt)
    lt = cmp_poly('lt', x._p)
    gt = cmp_poly('gt', x._p)
    one = 1 if dt.kind in 'iu' else 1.0
    return mkvs(dt, {-one: lt, one: G.and_(gt, lt ^ 1), 0 * one: G.and_(lt ^ 1, gt ^ 1)})


def floor_el(x, kind):
    f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(kind)
    if not isinstance(x, Sym):
        if kind == 'rint':
            return float(np.rint(x))
        return float(f(x)) if x == x and abs(x) != math.inf else x
    if not continuous(x):
        if x.has_poly() and x.poly.exact():
            return x
        return _vs_map(x, lambda v: floor_el(v, kind), FLOAT)
    lo, hi = x._p.bounds()
    if lo is not None:
        lo, hi = math.floor(lo), math.ceil(hi)
    if kind == 'trunc':
        return opaque(FLOAT, 'trunc', x._p, lo, hi)
    return opaque(FLOAT, kind, x._p, lo, hi)


def sqrt_el(x):
    if not isinstance(x, Sym):
        with np.errstate(all='ignore'):
            return canon(np.sqrt(np.float64(x)), FLOAT)
    if not continuous(x):
        try:
            neg = G.or_all([g for v, g in x.vs().items() if v < 0])
            if neg and ctx[0].decide(neg):
                return _NAN
            return _vs_map(x, lambda v: canon(math.sqrt(v), FLOAT) if v >= 0 else (v if v != v else 0.0), FLOAT)
        except TooBig:
            pass
    lo, hi = x.poly.bounds()
    neg = cmp_el('lt', x, 0)
    if neg is True or (isinstance(neg, Sym) and ctx[0].decide(neg.g)):
        return _NAN
    # pull out a rational square so that equal radicands up to scale share an atom
    p = x.poly
    lead = Fraction(p.key[-1][1])
    if lead > 0:
        s = math.sqrt(lead.numerator) / math.sqrt(lead.denominator)
        a = new_atom('sqrt', pscale(p, 1 / lead).key, pscale(p, 1 / lead), 0, None)
        rs = Fraction(math.isqrt(lead.numerator)) / math.isqrt(lead.denominator) if lead.denominator else None
        if rs * rs == lead:
            return mkpoly(FLOAT, pscale(pvar(a), rs))
        return mkpoly(FLOAT, pscale(pvar(a), Fraction(s)))
    a = new_atom('sqrt', p.key, p, 0, None)
    return Sym(FLOAT, p=pvar(a))


def _quiet(f, *a):
    with np.errstate(all='ignore'):
        return f(*a)


def fn_el(name, uf, x):
    """transcendental function of a continuous term: uninterpreted"""
    if name in ('log', 'log10', 'log2', 'log1p') and name != 'log1p':
        lo, _ = x.poly.bounds()
        if lo is None or lo <= 0:
            neg = cmp_el('le', x, 0)
            if neg is True or (isinstance(neg, Sym) and ctx[0].decide(neg.g)):
                return float('nan')           # minus infinity or not a number: never a valid finite result
        c = Fraction(x.poly.key[-1][1])
        if c > 0 and c != 1:                   # log(c q) = log(q) + log(c): proportional arguments share an atom
            k = {'log': math.log, 'log10': math.log10, 'log2': math.log2}[name](c)
            return add_el(fn_el(name, uf, mkpoly(FLOAT, pscale(x.poly, 1 / c))), k, FLOAT)
    rng = {'sin': (-1, 1), 'cos': (-1, 1), 'exp': (0, None), 'sinc': (-1, 1), 'tanh': (-1, 1)}.get(name, (None, None))
    return opaque(FLOAT, 'fn_' + name, x.poly, *mono_bounds(uf, x.poly, rng))


MONO = (np.exp, np.exp2, np.expm1, np.tanh, np.arctan, np.log, np.log10, np.log2, np.log1p)


def mono_bounds(uf, p, rng):
    """range of an increasing function over the range of its argument (widened by rounding)"""
    if uf not in MONO and not callable(uf):
        return rng
    if uf in MONO or getattr(uf, 'increasing', False):
        lo, hi = p.bounds()
        if lo is None:
            return rng
        with np.errstate(all='ignore'):
            l, h = float(uf(float(lo))), float(uf(float(hi)))
        if l == l and h == h and abs(l) < 1e300 and abs(h) < 1e300:
            w = lambda v, sgn: Fraction(v) + sgn * (abs(Fraction(v)) / 10 ** 9)
            return w(l, -1), w(h, 1)
    return rng


def max_el(x, y, dt, mn=False):
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        if x != x or y != y:
            return _NAN
        return min(x, y) if mn else max(x, y)
    if dt.kind == 'b':
        gx = x.g if isinstance(x, Sym) else int(x)
        gy = y.g if isinstance(y, Sym) else int(y)
        return mkbool(G.and_(gx, gy) if mn else G.or_(gx, gy))
    vx, vy = _qvs(x), _qvs(y)
    if vx is not None and vy is not None and len(vx) * len(vy) <= 4096:
        return _cross(min if mn else max, vx, vy, dt)
    c = cmp_el('le' if mn else 'ge', x, y)
    if c is True:
        return x
    if c is False:
        return y
    return ite_el(c.g, x, y, dt)
