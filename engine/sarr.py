"""Symbolic arrays: object-dtype storage (real numpy does all data movement) + a logical dtype."""
import itertools
import math
import numpy as np
from . import guards as G
from . import sym as S
from .sym import Sym, Unsupported, BOOL, INT, FLOAT, canon, cast, wrap_scalar

PYNUM = (int, float, bool, complex)


def norm_dtype(t):
    if isinstance(t, np.dtype):
        return t
    if isinstance(t, Sym):
        return t.dt
    if hasattr(t, '_vt_dtype'):
        return np.dtype(t._vt_dtype)
    return np.dtype(t)


def obj(x):
    """python/numpy data -> object ndarray of canonical elements, from native ndarray"""
    out = np.empty(x.shape, dtype=object)
    if x.dtype.kind == 'f':
        flat = [S._NAN if v != v else v for v in x.astype(float).ravel().tolist()]
    else:
        flat = x.ravel().tolist()
    of = out.reshape(-1) if out.flags['C_CONTIGUOUS'] else out.ravel()
    for i, v in enumerate(flat):
        of[i] = v
    return out


def from_native(x):
    x = np.asarray(x)
    if x.dtype.kind == 'O':
        return make(x)
    return SArr(obj(x), x.dtype)


def is_sym_arr(a):
    for v in a.flat:
        if type(v) is Sym:
            return True
    return False


def native(s):
    """SArr (fully concrete) -> native ndarray, or None when symbolic"""
    a = s.a
    if s.dt.kind == 'O':
        return None if is_sym_arr(a) else a
    try:
        for v in a.flat:
            if type(v) is Sym:
                return None
        return a.astype(s.dt)
    except (TypeError, ValueError):
        return None


def make(x, dtype=None):
    """anything array-like -> (new) SArr"""
    if isinstance(x, SArr):
        r = SArr(x.a.copy(), x.dt)
        return r.astype(dtype) if dtype is not None else r
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        r = SArr(a, x.dt)
        return r.astype(dtype) if dtype is not None else r
    if isinstance(x, np.ndarray) and x.dtype.kind != 'O':
        r = from_native(x)
        return r.astype(dtype) if dtype is not None else r
    if isinstance(x, (int, float, bool, complex, np.generic, str)) or x is None:
        r = from_native(np.array(x)) if not isinstance(x, str) and x is not None else SArr(np.array(x, dtype=object), np.dtype(object))
        return r.astype(dtype) if dtype is not None else r
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if not isinstance(x, (list, tuple)):
        try:
            x = list(x)
        except TypeError:
            return SArr(np.array(x, dtype=object), np.dtype(object))
    leaves = []
    shape = _shape(x)

    def walk(v, depth):
        if depth == len(shape):
            leaves.append(v)
            return
        if isinstance(v, (SArr, np.ndarray)):
            for w in v:
                walk(w, depth + 1)
            return
        v = list(v)
        for w in v:
            walk(w, depth + 1)
    walk(x, 0)
    dts = set()
    els = []
    for v in leaves:
        if isinstance(v, SArr):          # 0-d
            dts.add(v.dt); els.append(v.a[()])
        elif isinstance(v, Sym):
            dts.add(v.dt); els.append(v)
        elif isinstance(v, np.generic):
            dts.add(v.dtype); els.append(canon(v, v.dtype))
        elif isinstance(v, np.ndarray):
            dts.add(v.dtype); els.append(canon(v[()], v.dtype))
        elif isinstance(v, bool):
            dts.add(BOOL); els.append(v)
        elif isinstance(v, int):
            dts.add(INT); els.append(v)
        elif isinstance(v, float):
            dts.add(FLOAT); els.append(S._NAN if v != v else v)
        elif isinstance(v, complex):
            dts.add(np.dtype(complex)); els.append(v)
        else:
            dts.add(np.dtype(object)); els.append(v)
    dt = np.result_type(*dts) if dts else FLOAT
    a = np.empty(len(els), dtype=object)
    for i, v in enumerate(els):
        src = v.dt if isinstance(v, Sym) else (BOOL if isinstance(v, bool) else INT if isinstance(v, int) else FLOAT if isinstance(v, float) else dt)
        a[i] = cast(v, src, dt) if src != dt else v
    r = SArr(a.reshape(shape), dt)
    return r.astype(dtype) if dtype is not None else r


def _shape(x):
    if isinstance(x, (SArr, np.ndarray)):
        return x.shape
    if isinstance(x, (list, tuple)) or (hasattr(x, '__len__') and hasattr(x, '__iter__') and not isinstance(x, (str, dict, Sym))):
        x = list(x)
        if not x:
            return (0,)
        subs = [_shape(v) for v in x]
        if any(s != subs[0] for s in subs):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        return (len(x),) + subs[0]
    return ()


def asS(x):
    return x if isinstance(x, SArr) else make(x)


def ret(a, dt):
    """numpy convention: 0-d results become scalars"""
    if a.ndim == 0:
        return wrap_scalar(a[()], dt)
    return SArr(a, dt)


# ------------------------------------------------------------------ ufuncs
_dtcache = {}


def _dummy(x):
    """(native stand-in for dtype resolution, key)"""
    if isinstance(x, SArr):
        return np.ones((1,), x.dt), ('a', x.dt)
    if isinstance(x, Sym):
        return x.dt.type(1), ('s', x.dt)
    if isinstance(x, np.generic):
        return x.dtype.type(1), ('s', x.dtype)
    if isinstance(x, bool):
        return x, ('p', bool)
    if isinstance(x, int):
        return (1 if abs(x) < 2 ** 31 and x >= 0 else x), ('p', int, 1 if abs(x) < 2 ** 31 and x >= 0 else x)
    if isinstance(x, float):
        return 1.0, ('p', float)
    return x, None


def uf_dtype(uf, args, kw=()):
    ds, ks = zip(*[_dummy(x) for x in args])
    key = (uf,) + ks if None not in ks else None
    if key is not None and key in _dtcache:
        return _dtcache[key]
    with np.errstate(all='ignore'):
        r = uf(*ds)
    d = r.dtype if not isinstance(r, tuple) else tuple(q.dtype for q in r)
    if key is not None:
        _dtcache[key] = d
    return d


CMPU = {np.less: 'lt', np.less_equal: 'le', np.greater: 'gt', np.greater_equal: 'ge',
        np.equal: 'eq', np.not_equal: 'ne'}
FNS = {np.sin: 'sin', np.cos: 'cos', np.tan: 'tan', np.exp: 'exp', np.log: 'log', np.log10: 'log10',
       np.log2: 'log2', np.log1p: 'log1p', np.expm1: 'expm1', np.tanh: 'tanh', np.arctan: 'arctan', np.exp2: 'exp2'}
ISNAN = {np.isnan, np.isinf}


def el_dtype(x, dt):
    return x.dt if isinstance(x, Sym) else dt


def uf_elem(uf, xs, dts, odt):
    """one element through ufunc uf; xs elements with dtypes dts; odt output dtype"""
    if odt.kind == 'c' or any(d.kind == 'c' for d in dts):
        # complex data: finite value sets only, through the real ufunc
        r = S.gen1(uf, xs[0], dts[0], odt) if len(xs) == 1 else S.gen2(uf, xs[0], xs[1], dts[0], dts[1], odt)
        if odt.kind == 'b' and isinstance(r, Sym) and r._vs is not None:
            return S.mkbool(r._vs.get(True, 0))
        return r
    if uf in CMPU:
        return S.cmp_el(CMPU[uf], xs[0], xs[1])
    if uf is np.add or uf is np.subtract or uf is np.multiply:
        if odt.kind == 'b':
            gx, gy = [(x.g if isinstance(x, Sym) else int(x)) for x in xs]
            return S.mkbool(G.or_(gx, gy) if uf is np.add else G.and_(gx, gy))
        if odt.kind not in 'iuf':
            raise Unsupported('symbolic arithmetic in %s' % odt)
        x, y = cast(xs[0], dts[0], odt), cast(xs[1], dts[1], odt)
        if uf is np.multiply:
            return S.mul_el(x, y, odt)
        return S.add_el(x, y, odt, sub=uf is np.subtract)
    if uf is np.true_divide:
        if odt.kind != 'f':
            raise Unsupported('division in %s' % odt)
        return S.div_el(cast(xs[0], dts[0], FLOAT), cast(xs[1], dts[1], FLOAT))
    if uf in (np.bitwise_and, np.bitwise_or, np.bitwise_xor) and odt.kind == 'b' or uf in (np.logical_and, np.logical_or, np.logical_xor):
        gs = []
        for x, d in zip(xs, dts):
            if isinstance(x, Sym):
                gs.append(x.guard())
            else:
                gs.append(int(bool(x)))
        op = {np.bitwise_and: G.and_, np.logical_and: G.and_, np.bitwise_or: G.or_, np.logical_or: G.or_}.get(uf, G.xor_)
        return S.mkbool(op(*gs))
    if uf is np.logical_not or (uf is np.invert and odt.kind == 'b'):
        x = xs[0]
        return S.mkbool(x.guard() ^ 1) if isinstance(x, Sym) else (not x)
    if uf is np.remainder:
        return S.mod_el(cast(xs[0], dts[0], odt), cast(xs[1], dts[1], odt), odt, odt, odt)
    if uf is np.bitwise_and:
        x, y = xs
        if not isinstance(x, Sym):
            x, y = y, x
        if isinstance(x, Sym) and not isinstance(y, Sym) and S.is_plain_int(x.dt) and y > 0 and (y & (y - 1)) == 0 \
                and x.has_poly() and x.poly.exact():
            r = _bit(x, y)
            if r is not None:
                return S.mkpoly(odt, S.pscale(S.pind(r), y))
    if uf is np.negative:
        return S.neg_el(cast(xs[0], dts[0], odt), odt)
    if uf is np.positive or uf is np.conjugate:
        return xs[0]
    if uf is np.absolute or uf is np.fabs:
        return S.abs_el(cast(xs[0], dts[0], odt), odt)
    if uf is np.sign:
        return S.sign_el(xs[0], odt)
    if uf is np.maximum or uf is np.minimum or uf is np.fmax or uf is np.fmin:
        return S.max_el(cast(xs[0], dts[0], odt), cast(xs[1], dts[1], odt), odt, mn=uf in (np.minimum, np.fmin))
    if uf is np.square:
        x = cast(xs[0], dts[0], odt)
        return S.mul_el(x, x, odt)
    if uf is np.power or uf is np.float_power:
        x, y = xs
        if isinstance(x, Sym) and not isinstance(y, Sym):
            if float(y) == int(y) and 0 <= y <= 8 and S.continuous(x):
                b = cast(x, dts[0], odt)
                r = 1 if odt.kind in 'iu' else 1.0
                for _ in range(int(y)):
                    r = S.mul_el(r, b, odt)
                return r
            if float(y) == int(y) and -8 <= y < 0 and S.continuous(x):
                b = cast(x, dts[0], odt)
                r = 1.0
                for _ in range(-int(y)):
                    r = S.mul_el(r, b, odt)
                return S.div_el(1.0, r)
            if y == 0.5 and S.continuous(x):
                return S.sqrt_el(cast(x, dts[0], FLOAT))
        if S.continuous(y) and not isinstance(x, Sym) and x > 0:
            rng = (0, None)
            if x > 1:
                f = lambda v, b=float(x): b ** v
                f.increasing = True
                rng = S.mono_bounds(f, y.poly, rng)
            return S.opaque(FLOAT, 'fn_pow%r' % float(x), y.poly, *rng)
        return S.gen2(uf, x, y, dts[0], dts[1], odt)
    if uf is np.sqrt:
        return S.sqrt_el(cast(xs[0], dts[0], odt))
    if uf in (np.floor, np.ceil, np.trunc, np.rint):
        if odt.kind in 'iu':
            return xs[0]
        return S.floor_el(cast(xs[0], dts[0], odt), uf.__name__)
    if uf is np.reciprocal and odt.kind == 'f':
        return S.div_el(1.0, xs[0])
    if uf is np.isfinite:
        x = xs[0]
        if S.continuous(x):
            return True
    if uf in ISNAN and S.continuous(xs[0]):
        return False
    if uf is np.floor_divide and odt.kind == 'f' and (S.continuous(xs[0]) or S.continuous(xs[1])):
        return S.floor_el(S.div_el(cast(xs[0], dts[0], FLOAT), cast(xs[1], dts[1], FLOAT)), 'floor')
    if uf in FNS and S.continuous(xs[0]):
        return S.fn_el(FNS[uf], uf, xs[0])
    if len(xs) == 1:
        return S.gen1(uf, xs[0], dts[0], odt)
    if len(xs) == 2:
        return S.gen2(uf, xs[0], xs[1], dts[0], dts[1], odt)
    raise Unsupported('ufunc %s' % uf)


def _bit(x, y):
    """literal of bit y (a power of two) of a non-negative sum of distinct-power guards"""
    cs = {}
    for (n, _), c in x.poly.t.items():
        if n == 0 or c <= 0 or c & (c - 1) or c in cs:
            return None
        cs[c] = 2 * n
    return cs.get(y, 0)


def apply_uf(uf, *args, out=None, where=True, dtype=None, casting=None, **kw):
    args = [asS(x) if isinstance(x, (list, tuple, np.ndarray)) or (hasattr(x, '__iter__') and not isinstance(x, (SArr, Sym, np.generic))) else x for x in args]
    if kw:
        raise Unsupported('ufunc keywords %r' % kw)
    if uf.nout != 1:
        if uf is np.divmod:
            return apply_uf(np.floor_divide, *args), apply_uf(np.remainder, *args)
        r = _all_native(args)
        if r is None:
            raise Unsupported(uf.__name__)
        return tuple(_wrapn(v) for v in uf(*r))
    if where is not True:
        base = apply_uf(uf, *args)
        if out is None:
            raise Unsupported('ufunc where without out')
        o = out
        o[where] = asS(base)[where] if isinstance(base, SArr) else base
        return o
    symbolic = any(isinstance(x, Sym) or (isinstance(x, SArr) and is_sym_arr(x.a)) for x in args)
    if not symbolic:
        nat = []
        for x in args:
            nat.append(x.a.astype(x.dt) if isinstance(x, SArr) else x)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = uf(*nat) if dtype is None else uf(*nat, dtype=norm_dtype(dtype))
        r = _wrapn(r)
    else:
        odt = uf_dtype(uf, args) if dtype is None else norm_dtype(dtype)
        if dtype is not None and odt.kind in 'iuf':
            args = [x.astype(odt) if isinstance(x, SArr) else wrap_scalar(cast(x, x.dt, odt), odt) if isinstance(x, Sym) else x for x in args]
        dts = []
        arrs = []
        for x in args:
            if isinstance(x, SArr):
                dts.append(x.dt); arrs.append(x.a)
            elif isinstance(x, Sym):
                dts.append(x.dt); arrs.append(x)
            elif isinstance(x, np.generic):
                dts.append(x.dtype); arrs.append(canon(x, x.dtype))
            else:
                # python scalars are weak: take the dtype of the partner when it can hold them
                d = BOOL if isinstance(x, bool) else INT if isinstance(x, int) else np.dtype(complex) if isinstance(x, complex) else FLOAT
                if d is INT and odt.kind in 'f' or d is INT and odt.kind in 'iu':
                    others = [y.dt if isinstance(y, (SArr, Sym)) else y.dtype for y in args if isinstance(y, (SArr, Sym, np.generic))]
                    d = others[0] if others and others[0].kind in 'iuf' else d
                    if d.kind == 'f':
                        x = float(x)
                dts.append(d); arrs.append(x)
        if len(arrs) == 1:
            if not isinstance(arrs[0], np.ndarray):
                r = wrap_scalar(uf_elem(uf, arrs, dts, odt), odt)
            else:
                o = np.empty(arrs[0].shape, dtype=object)
                src = arrs[0]
                for idx in np.ndindex(*src.shape):
                    o[idx] = uf_elem1(uf, src[idx], dts[0], odt)
                r = ret(o, odt)
        else:
            shapes = [x.shape if isinstance(x, np.ndarray) else () for x in arrs]
            shp = np.broadcast_shapes(*shapes)
            bs = []
            for x in arrs:
                if isinstance(x, np.ndarray):
                    bs.append(np.broadcast_to(x, shp))
                else:
                    t = np.empty((), dtype=object)
                    t[()] = x
                    bs.append(np.broadcast_to(t, shp))
            o = np.empty(shp, dtype=object)
            for idx in np.ndindex(*shp):
                o[idx] = uf_elem2(uf, [b[idx] for b in bs], dts, odt)
            r = ret(o, odt)
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        out[...] = r
        return out
    return r


def uf_elem1(uf, x, dt, odt):
    if type(x) is not Sym:
        with np.errstate(all='ignore'):
            return canon(uf(dt.type(x)), odt)
    return uf_elem(uf, [x], [dt], odt)


_c2 = {}


def uf_elem2(uf, xs, dts, odt):
    if type(xs[0]) is not Sym and type(xs[1]) is not Sym:
        with np.errstate(all='ignore'):
            return canon(uf(dts[0].type(xs[0]), dts[1].type(xs[1])), odt)
    return uf_elem(uf, xs, dts, odt)


def _all_native(args):
    out = []
    for x in args:
        if isinstance(x, Sym):
            return None
        if isinstance(x, SArr):
            n = native(x)
            if n is None:
                return None
            out.append(n)
        else:
            out.append(x)
    return out


def _wrapn(r):
    """wrap native result"""
    if isinstance(r, np.ndarray):
        if r.dtype.kind in 'OUSV':
            return r if r.dtype.kind != 'O' else make(r)
        if r.dtype.kind == 'c':
            return SArr(obj(r), r.dtype)
        return from_native(r)
    if isinstance(r, tuple):
        if hasattr(r, '_fields'):
            return type(r)(*[_wrapn(v) for v in r])
        return tuple(_wrapn(v) for v in r)
    if isinstance(r, list):
        return [_wrapn(v) for v in r]
    return r


# ------------------------------------------------------------------ the array class
class SArr:
    __slots__ = ('a', 'dt', '__weakref__')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, a, dt):
        self.a = a
        self.dt = dt

    def __array__(self, dtype=None, copy=None):
        n = native(self)
        if n is None:
            raise Unsupported('symbolic array reached native numpy')
        return n.astype(dtype) if dtype is not None else n

    # -- attributes
    @property
    def dtype(self): return self.dt
    @property
    def shape(self): return self.a.shape
    @shape.setter
    def shape(self, s): self.a.shape = s
    @property
    def ndim(self): return self.a.ndim
    @property
    def size(self): return self.a.size
    @property
    def T(self): return SArr(self.a.T, self.dt)
    @property
    def mT(self): return SArr(self.a.mT, self.dt)
    @property
    def real(self):
        if self.dt.kind == 'c':
            return _wrapn(native(self).real)
        return SArr(self.a, self.dt)
    @property
    def imag(self):
        if self.dt.kind == 'c':
            return _wrapn(native(self).imag)
        return from_native(np.zeros(self.shape, self.dt))
    @property
    def flat(self): return _Flat(self)
    @property
    def itemsize(self): return self.dt.itemsize
    @property
    def nbytes(self): return self.dt.itemsize * self.size
    @property
    def flags(self): return self.a.flags
    @property
    def strides(self): return self.a.strides

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError('len() of unsized object')
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self.a)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(wrap_scalar(self.a.reshape(-1)[0], self.dt))
        if self.size == 0:
            raise ValueError('The truth value of an empty array is ambiguous.')
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def _one(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return self.a.reshape(-1)[0]

    def __int__(self): return int(self._one())
    def __float__(self): return float(self._one())
    def __index__(self):
        if self.ndim == 0 and self.dt.kind in 'iu':
            v = self._one()
            return v.__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')
    def __format__(self, spec): return '<sarr>'
    def __repr__(self): return 'SArr(%s, %s)' % (self.a.tolist(), self.dt)
    def __hash__(self): raise TypeError("unhashable type: 'numpy.ndarray'")

    def __contains__(self, v):
        r = apply_uf(np.equal, self, v)
        return bool(reduce_any(r))

    # -- indexing
    def __getitem__(self, key):
        key, symk = _prep_key(key, self)
        if not symk:
            r = self.a[key]
            if isinstance(r, np.ndarray):
                # full indexing of an object cell returns the element, never an ndarray
                return SArr(r, self.dt) if not _scalar_key(key, self.a) else wrap_scalar(r, self.dt)
            return wrap_scalar(r, self.dt)
        return _sym_get(self, key)

    def __setitem__(self, key, val):
        _setitem(self, key, val)

    # -- methods
    def astype(self, t, copy=True, **kw):
        d = norm_dtype(t)
        if d == self.dt:
            return self if copy is False else SArr(self.a.copy(), d)
        n = native(self)
        if n is not None and d.kind != 'O':
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return from_native(n.astype(d))
        o = np.empty(self.a.shape, dtype=object)
        for i in np.ndindex(*self.a.shape):
            o[i] = cast(self.a[i], self.dt, d)
        return SArr(o, d)

    def copy(self, order='C'): return SArr(self.a.copy(), self.dt)
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()
    def view(self, *a):
        if not a:
            return SArr(self.a.view(), self.dt)
        n = native(self)
        if n is None:
            raise Unsupported('view cast')
        return from_native(n.view(*a))
    def reshape(self, *s, order='C'):
        s = _clean_shape(s)
        return SArr(self.a.reshape(*s, order=order), self.dt)
    def flatten(self, order='C'): return SArr(self.a.flatten(order), self.dt)
    def ravel(self, order='C'): return SArr(self.a.ravel(order), self.dt)
    def transpose(self, *ax): return SArr(self.a.transpose(*ax), self.dt)
    def swapaxes(self, x, y): return SArr(self.a.swapaxes(x, y), self.dt)
    def squeeze(self, axis=None): return SArr(self.a.squeeze(axis), self.dt)
    def repeat(self, n, axis=None): return SArr(self.a.repeat(_nat(n), axis), self.dt)
    def diagonal(self, *k): return SArr(self.a.diagonal(*k).copy(), self.dt)
    def fill(self, v): self[...] = v
    def tolist(self):
        def conv(x):
            if isinstance(x, list):
                return [conv(y) for y in x]
            return x
        return conv(self.a.tolist()) if self.ndim else self.a[()]
    def item(self, *i):
        if not i:
            return self._one()
        return self.a.item(*i)
    def conj(self): return apply_uf(np.conjugate, self)
    conjugate = conj
    def dot(self, o, out=None): return dot(self, o)
    def sum(self, axis=None, dtype=None, keepdims=False, **k): return reduce_sum(self, axis, keepdims, dtype)
    def prod(self, axis=None, dtype=None, keepdims=False, **k): return reduce_prod(self, axis, keepdims, dtype)
    def mean(self, axis=None, dtype=None, keepdims=False, **k): return mean(self if dtype is None else self.astype(dtype), axis, keepdims)
    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False): return var(self, axis, ddof, keepdims)
    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False): return apply_uf(np.sqrt, var(self, axis, ddof, keepdims))
    def max(self, axis=None, keepdims=False, **k): return reduce_max(self, axis, keepdims)
    def min(self, axis=None, keepdims=False, **k): return reduce_max(self, axis, keepdims, mn=True)
    def argmax(self, axis=None, **k): return argext(self, axis, False)
    def argmin(self, axis=None, **k): return argext(self, axis, True)
    def any(self, axis=None, keepdims=False, **k): return reduce_any(self, axis, keepdims)
    def all(self, axis=None, keepdims=False, **k): return reduce_all(self, axis, keepdims)
    def cumsum(self, axis=None, dtype=None, **k): return accumulate(np.add, self, axis, dtype)
    def cumprod(self, axis=None, dtype=None, **k): return accumulate(np.multiply, self, axis, dtype)
    def round(self, decimals=0, **k): return round_(self, decimals)
    def clip(self, lo=None, hi=None, **k): return clip(self, lo, hi)
    def nonzero(self): return nonzero(self)
    def sort(self, axis=-1, **k): self[...] = sort(self, axis)
    def argsort(self, axis=-1, **k): return argsort(self, axis, **k)
    def take(self, idx, axis=None, **k):
        if axis is None:
            return self.ravel()[idx]
        key = [slice(None)] * self.ndim
        key[axis] = idx
        return self[tuple(key)]
    def tobytes(self, *a): return self._nat_or_fork().tobytes(*a)
    def ptp(self, axis=None): return apply_uf(np.subtract, self.max(axis), self.min(axis))
    def trace(self, *k): return reduce_sum(self.diagonal(*k))
    def put(self, idx, v): self.ravel()[idx] = v
    def compress(self, cond, axis=None): return self.take(asS(cond).nonzero()[0], axis)
    def searchsorted(self, v, side='left', sorter=None):
        from .npshim import searchsorted
        return searchsorted(self, v, side)

    def _nat_or_fork(self):
        n = native(self)
        if n is None:
            n = concretize_arr(self)
        return n


class _Flat:
    def __init__(self, s): self.s = s
    def __iter__(self):
        for v in self.s.a.flat:
            yield wrap_scalar(v, self.s.dt)
    def __getitem__(self, k): return SArr(self.s.a.reshape(-1), self.s.dt)[k]
    def __setitem__(self, k, v):
        if self.s.a.flags['C_CONTIGUOUS']:
            SArr(self.s.a.reshape(-1), self.s.dt)[k] = v
        else:
            t = SArr(self.s.a.reshape(-1), self.s.dt); t[k] = v
            self.s.a[...] = t.a.reshape(self.s.a.shape)
    def __len__(self): return self.s.size


def concretize_arr(s):
    """fork until every element is concrete; native array"""
    o = np.empty(s.a.shape, dtype=object)
    for i in np.ndindex(*s.a.shape):
        v = s.a[i]
        o[i] = v.concretize() if isinstance(v, Sym) else v
    return o.astype(s.dt) if s.dt.kind != 'O' else o


def _nat(x):
    if isinstance(x, SArr):
        return x._nat_or_fork()
    if isinstance(x, Sym):
        return x.concretize()
    if isinstance(x, tuple):
        return tuple(_nat(v) for v in x)
    if isinstance(x, list):
        return [_nat(v) for v in x]
    return x


def _clean_shape(s):
    if len(s) == 1 and isinstance(s[0], (list, tuple, SArr, np.ndarray)):
        s = list(s[0])
    return (tuple(int(v) for v in s),)


# ------------------------------------------------------------------ keys
def _scalar_key(key, a):
    k = key if isinstance(key, tuple) else (key,)
    return len(k) == a.ndim and all(isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)) for x in k)


def _prep_key(key, s):
    """native key, or (tuple, True) when some index is symbolic"""
    k = key if isinstance(key, tuple) else (key,)
    out = []
    symk = False
    for x in k:
        if isinstance(x, SArr):
            if x.dt.kind == 'f' and x.size:
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            if x.dt.kind == 'f':
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            n = native(x)
            if n is None:
                if x.dt.kind == 'b':
                    n = concretize_arr(x)       # selection with a symbolic mask: case split
                    out.append(n)
                else:
                    symk = True
                    out.append(x)
            else:
                out.append(n)
        elif isinstance(x, Sym):
            if x.dt.kind == 'f':
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
            if x.dt.kind == 'b':
                out.append(bool(x))
            else:
                symk = True
                out.append(x)
        elif isinstance(x, slice):
            f = lambda v: v.__index__() if isinstance(v, (Sym, SArr)) else v
            out.append(slice(f(x.start), f(x.stop), f(x.step)))
        elif isinstance(x, (list, tuple, range)):
            m = make(list(x))
            if m.size == 0:
                out.append(np.zeros(m.shape, dtype=int))
                continue
            if m.dt.kind == 'f':
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            n = native(m)
            if n is None:
                if m.dt.kind == 'b':
                    n = concretize_arr(m)
                else:
                    symk = True
                    out.append(m)
                    continue
            out.append(n)
        elif isinstance(x, (float, np.floating)):
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
        else:
            out.append(x)
    if symk:
        return tuple(out), True
    return (tuple(out) if isinstance(key, tuple) else out[0]), False


def _expand(key, ndim):
    """expand Ellipsis, boolean masks and missing axes; returns list aligned with axes and newaxis positions"""
    k = []
    for x in key:
        if isinstance(x, np.ndarray) and x.dtype.kind == 'b':
            k.extend(np.nonzero(x))
        else:
            k.append(x)
    n = sum(1 for x in k if x is not None and x is not Ellipsis)
    out = []
    seen = False
    for x in k:
        if x is Ellipsis:
            out.extend([slice(None)] * (ndim - n))
            seen = True
        else:
            out.append(x)
    if not seen:
        out.extend([slice(None)] * (ndim - n))
    if sum(1 for x in out if x is not None) != ndim:
        raise IndexError('too many indices for array')
    return out


def _adv_view(s, key):
    """(view with advanced axes first, broadcast index arrays, B shape, final transpose info)"""
    key = _expand(key, s.a.ndim)
    # newaxis: apply them as slices on an expanded view
    a = s.a
    ex = []
    ax = 0
    for x in key:
        if x is None:
            a = np.expand_dims(a, ax)
            ex.append(slice(None))
        else:
            ex.append(x)
        ax += 1
    key = ex
    adv = [i for i, x in enumerate(key) if not isinstance(x, slice)]
    v = a[tuple(x if isinstance(x, slice) else slice(None) for x in key)]
    idx = []
    for i in adv:
        x = key[i]
        if isinstance(x, SArr):
            idx.append(x.a)
        elif isinstance(x, Sym):
            t = np.empty((), dtype=object); t[()] = x
            idx.append(t)
        else:
            n = np.asarray(x)
            idx.append(obj(n) if n.ndim else _zero_d(int(n)))
    B = np.broadcast_shapes(*[i.shape for i in idx])
    idx = [np.broadcast_to(i, B) for i in idx]
    rest = [i for i in range(v.ndim) if i not in adv]
    adjacent = adv == list(range(adv[0], adv[-1] + 1))
    pos = sum(1 for i in rest if i < adv[0]) if adjacent else 0
    v = v.transpose(adv + rest)
    return v, idx, B, pos, len(adv)


def _zero_d(v):
    t = np.empty((), dtype=object)
    t[()] = v
    return t


def _combos(els, lens):
    """[(guard, concrete index tuple)]; forks when an index may be out of range"""
    out = [(1, ())]
    for e, L in zip(els, lens):
        nxt = []
        if isinstance(e, Sym):
            vs = e.vs()
            bad = G.or_all([g for v, g in vs.items() if not -L <= v < L])
            if bad and S.ctx[0].decide(bad):
                raise IndexError('index out of bounds for axis of size %d' % L)
            opts = [(v, g) for v, g in vs.items() if -L <= v < L]
        else:
            if not -L <= e < L:
                raise IndexError('index %d is out of bounds for axis with size %d' % (e, L))
            opts = [(e, 1)]
        for g0, t in out:
            for v, g in opts:
                gg = G.and_(g0, g)
                if gg:
                    nxt.append((gg, t + (v,)))
        out = nxt
    return out


def _sym_get(s, key):
    v, idx, B, pos, k = _adv_view(s, key)
    rest = v.shape[k:]
    o = np.empty(B + rest, dtype=object)
    lens = v.shape[:k]
    for b in np.ndindex(*B):
        cs = _combos([i[b] for i in idx], lens)
        for r in np.ndindex(*rest):
            o[b + r] = S.merge_el([(g, v[t + r]) for g, t in cs], s.dt)
    nb = len(B)
    # move the B axes to their numpy position
    order = list(range(nb, nb + pos)) + list(range(nb)) + list(range(nb + pos, o.ndim))
    o = o.transpose(order)
    return ret(o, s.dt)


def _setitem(s, key, val):
    # boolean mask with symbolic entries and a scalar right-hand side: per-element if-then-else
    k = key if isinstance(key, tuple) else (key,)
    if not isinstance(val, (SArr, Sym)) and (isinstance(val, (list, tuple, np.ndarray)) or hasattr(val, '__iter__') and not isinstance(val, (np.generic, str))):
        val = make(val)
    if len(k) == 1 and isinstance(k[0], SArr) and k[0].dt.kind == 'b' and native(k[0]) is None:
        m = k[0]
        sv = val
        if isinstance(val, SArr) and val.size == 1 and val.ndim <= s.ndim - m.ndim + 1 and m.size != 1:
            sv = wrap_scalar(val.a.reshape(-1)[0], val.dt)
        if not isinstance(sv, SArr) and m.shape == s.shape[:m.ndim]:
            src = _el_dt(sv)
            x = cast(_el(sv), src, s.dt)
            for i in np.ndindex(*m.shape):
                g = m.a[i]
                g = g.g if isinstance(g, Sym) else int(bool(g))
                if not g:
                    continue
                for r in np.ndindex(*s.shape[m.ndim:]):
                    s.a[i + r] = S.ite_el(g, x, s.a[i + r], s.dt)
            return
    key, symk = _prep_key(key, s)
    if isinstance(val, SArr):
        vv = val if val.dt == s.dt else val.astype(s.dt)
        va = vv.a
        if val is s or np.shares_memory(va, s.a):
            va = va.copy()
    else:
        va = cast(_el(val), _el_dt(val), s.dt)
    if not symk:
        if isinstance(va, np.ndarray):
            if _scalar_key(key, s.a):
                if va.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                s.a[key] = va.reshape(-1)[0]
            else:
                s.a[key] = va
        else:
            t = np.empty((), dtype=object)
            t[()] = va
            if _scalar_key(key, s.a):
                s.a[key] = va
            else:
                s.a[key] = t
        return
    v, idx, B, pos, kk = _adv_view(s, key)
    if not np.shares_memory(v, s.a) and s.a.size:
        raise Unsupported('symbolic scatter through a copy')
    rest = v.shape[kk:]
    lens = v.shape[:kk]
    nb = len(B)
    full = rest[:pos] + B + rest[pos:]
    if isinstance(va, np.ndarray):
        vb = np.broadcast_to(va, full)
    else:
        vb = np.broadcast_to(_zero_d(va), full)
    order = list(range(pos, pos + nb)) + list(range(pos)) + list(range(pos + nb, len(full)))
    vb = vb.transpose(order)
    for b in np.ndindex(*B):
        for g, t in _combos([i[b] for i in idx], lens):
            for r in np.ndindex(*rest):
                v[t + r] = S.ite_el(g, vb[b + r], v[t + r], s.dt)


def _el(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, np.generic):
        return canon(x, x.dtype)
    return x


def _el_dt(x):
    if isinstance(x, Sym):
        return x.dt
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, bool):
        return BOOL
    if isinstance(x, int):
        return INT
    if isinstance(x, float):
        return FLOAT
    if isinstance(x, complex):
        return np.dtype(complex)
    return np.dtype(object)


# ------------------------------------------------------------------ reductions
def _lanes(a, axis):
    """(list of 1-D object arrays, output shape)"""
    if axis is None:
        return [a.reshape(-1)], ()
    if isinstance(axis, tuple):
        axis = tuple(x % a.ndim for x in axis)
        rest = [i for i in range(a.ndim) if i not in axis]
        a = a.transpose(rest + list(axis)).reshape([a.shape[i] for i in rest] + [-1])
        axis = a.ndim - 1
    axis = int(axis)
    if not -a.ndim <= axis < a.ndim:
        raise np.exceptions.AxisError(axis, a.ndim)
    m = np.moveaxis(a, axis, -1)
    shp = m.shape[:-1]
    return [m[i] for i in np.ndindex(*shp)], shp


def _keep(s, axis, keepdims, r):
    if not keepdims:
        return r
    axes = range(s.ndim) if axis is None else [x % s.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
    shp = [1 if i in axes else n for i, n in enumerate(s.shape)]
    return asS(r).reshape(shp)


def _red(s, axis, keepdims, fn, odt, natfn=None):
    if axis is not None and not isinstance(axis, tuple):
        axis = int(axis)
    n = native(s)
    if n is not None and natfn is not None:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = natfn(n, axis=axis)
        return _keep(s, axis, keepdims, _wrapn(r))
    lanes, shp = _lanes(s.a, axis)
    o = np.empty(len(lanes), dtype=object)
    for i, l in enumerate(lanes):
        o[i] = fn(l)
    return _keep(s, axis, keepdims, ret(o.reshape(shp), odt))


def _sum_dt(dt):
    return np.add.reduce(np.ones(1, dt)).dtype


def sum_els(els, src, odt):
    els = [cast(x, src, odt) for x in els]
    zero = 0 if odt.kind in 'iu' else 0.0
    # linear forms with integer coefficients: add as one polynomial
    if len(els) > 2 and all(S._exact(x) for x in els) and (S.is_plain_int(odt) or odt.kind == 'f'):
        t = {}
        for x in els:
            if isinstance(x, Sym):
                for m, c in x.poly.t.items():
                    t[m] = t.get(m, 0) + c
            else:
                t[S.ONE] = t.get(S.ONE, 0) + int(x)
        return S.mkpoly(odt, S.Poly({m: c for m, c in t.items() if c}))
    r = zero
    first = True
    for x in els:
        r = x if first else S.gen2(np.add, r, x, odt, odt, odt) if odt.kind == 'c' else S.add_el(r, x, odt)
        first = False
    return r


def reduce_sum(s, axis=None, keepdims=False, dtype=None):
    s = asS(s)
    if s.dt.kind == 'O':
        raise Unsupported('object sum')
    odt = norm_dtype(dtype) if dtype is not None else _sum_dt(s.dt)
    return _red(s, axis, keepdims, lambda l: sum_els(list(l), s.dt, odt), odt,
                lambda n, axis: np.add.reduce(n, axis=axis, dtype=odt) if axis is not None else np.sum(n, dtype=odt))


def reduce_prod(s, axis=None, keepdims=False, dtype=None):
    s = asS(s)
    odt = norm_dtype(dtype) if dtype is not None else np.multiply.reduce(np.ones(1, s.dt)).dtype

    def f(l):
        r = 1 if odt.kind in 'iu' else 1.0
        for x in l:
            r = S.mul_el(r, cast(x, s.dt, odt), odt)
        return r
    return _red(s, axis, keepdims, f, odt, lambda n, axis: np.prod(n, axis=axis, dtype=odt))


def _count(s, axis):
    if axis is None:
        return s.size
    axes = axis if isinstance(axis, tuple) else (axis,)
    return int(np.prod([s.shape[a] for a in axes]))


def mean(s, axis=None, keepdims=False):
    s = asS(s)
    n = native(s)
    if n is not None:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return _wrapn(np.mean(n, axis=axis, keepdims=keepdims))
    if s.dt.kind in 'biu':
        s = s.astype(float)
    return apply_uf(np.true_divide, reduce_sum(s, axis, keepdims), _count(s, axis))


def var(s, axis=None, ddof=0, keepdims=False):
    s = asS(s)
    n = native(s)
    if n is not None:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return _wrapn(np.var(n, axis=axis, ddof=ddof, keepdims=keepdims))
    m = mean(s, axis, True)
    d = apply_uf(np.subtract, s, m)
    return apply_uf(np.true_divide, reduce_sum(apply_uf(np.multiply, d, d), axis, keepdims), max(_count(s, axis) - ddof, 0))


def reduce_max(s, axis=None, keepdims=False, mn=False):
    s = asS(s)
    if s.size == 0 and (axis is None or (not isinstance(axis, tuple) and s.shape[axis] == 0)):
        raise ValueError('zero-size array to reduction operation which has no identity')

    def f(l):
        r = l[0]
        for x in l[1:]:
            r = S.max_el(r, x, s.dt, mn)
        return r
    return _red(s, axis, keepdims, f, s.dt, lambda n, axis: (np.min if mn else np.max)(n, axis=axis))


def _glit(x):
    return x.guard() if isinstance(x, Sym) else int(bool(x))


def reduce_any(s, axis=None, keepdims=False):
    s = asS(s)
    return _red(s, axis, keepdims, lambda l: S.mkbool(G.or_all([_glit(x) for x in l])), BOOL, lambda n, axis: np.any(n, axis=axis))


def reduce_all(s, axis=None, keepdims=False):
    s = asS(s)
    return _red(s, axis, keepdims, lambda l: S.mkbool(G.or_all([_glit(x) ^ 1 for x in l]) ^ 1), BOOL, lambda n, axis: np.all(n, axis=axis))


def arg_els(els, mn):
    """first index of the extreme element, as an element of dtype int64"""
    n = len(els)
    if all(not isinstance(x, Sym) or x.quick_vs() is not None or x._p.ind_only() for x in els):
        vss = [x.vs() if isinstance(x, Sym) else {x: 1} for x in els]
        tot = len(set(v for d in vss for v in d))
        if tot <= 1500:
            # extreme value as a summary, then first position attaining it
            vals = sorted(set(v for d in vss for v in d), reverse=not mn)
            found = 0
            acc = [0] * n
            for v in vals:
                # extreme == v  iff nothing better was found and some element equals v
                here = []
                for i, d in enumerate(vss):
                    g = d.get(v, 0)
                    here.append(g)
                if not any(here):
                    continue
                prev = found
                for i, g in enumerate(here):
                    if g:
                        t = G.and_(g, prev ^ 1)
                        if t:
                            acc[i] = G.or_(acc[i], t)
                        prev = G.or_(prev, g)
                found = prev
                if found == 1:
                    break
            return S.mkvs(INT, {i: g for i, g in enumerate(acc)})
    acc = {}
    for i in range(n):
        g = 1
        for j in range(n):
            if j == i:
                continue
            op = ('lt' if mn else 'gt') if j < i else ('le' if mn else 'ge')
            c = S.cmp_el(op, els[i], els[j])
            g = G.and_(g, c.g if isinstance(c, Sym) else int(c))
            if g == 0:
                break
        acc[i] = g
    if n == 2:
        acc[1] = acc[0] ^ 1
    return S.mkvs(INT, acc)


def argext(s, axis=None, mn=True):
    s = asS(s)
    if s.size == 0 and (axis is None or s.shape[axis] == 0):
        raise ValueError('attempt to get argmin of an empty sequence')
    return _red(s, axis, False, lambda l: arg_els(list(l), mn), INT, lambda n, axis: (np.argmin if mn else np.argmax)(n, axis=axis))


def accumulate(uf, s, axis=None, dtype=None):
    s = asS(s)
    n = native(s)
    if axis is None:
        s = s.ravel()
        axis = 0
    if n is not None:
        return _wrapn(uf.accumulate(n.reshape(s.shape), axis=axis, dtype=None if dtype is None else norm_dtype(dtype)))
    if dtype is not None:
        odt = norm_dtype(dtype)
    elif uf in (np.add, np.multiply) and s.dt.kind in 'biu':
        odt = uf.accumulate(np.ones(1, s.dt)).dtype     # small integers accumulate in the platform integer
    else:
        odt = uf_dtype(uf, [s, s])
    m = np.moveaxis(s.a, axis, -1)
    o = np.empty(m.shape, dtype=object)
    for i in np.ndindex(*m.shape[:-1]):
        r = None
        for j in range(m.shape[-1]):
            x = cast(m[i + (j,)], s.dt, odt)
            r = x if r is None else uf_elem2(uf, [r, x], [odt, odt], odt)
            o[i + (j,)] = r
    return SArr(np.moveaxis(o, -1, axis), odt)


def dot_els(xs, ys, xdt, ydt, odt):
    prods = []
    if odt.kind == 'b':
        return S.mkbool(G.or_all([G.and_(_glit(x), _glit(y)) for x, y in zip(xs, ys)]))
    for x, y in zip(xs, ys):
        if (type(x) is not Sym and x == 0) or (type(y) is not Sym and y == 0):
            continue
        prods.append(S.mul_el(cast(x, xdt, odt), cast(y, ydt, odt), odt))
    if not prods:
        return 0 if odt.kind in 'iu' else 0.0
    return sum_els(prods, odt, odt)


def dot(x, y):
    x, y = asS(x), asS(y)
    nx, ny = native(x), native(y)
    if nx is not None and ny is not None:
        return _wrapn(np.dot(nx, ny))
    if x.ndim == 0 or y.ndim == 0:
        return apply_uf(np.multiply, x, y)
    odt = np.result_type(x.dt, y.dt)
    if y.ndim == 1:
        if x.shape[-1] != y.shape[0]:
            raise ValueError('shapes %s and %s not aligned' % (x.shape, y.shape))
        o = np.empty(x.shape[:-1], dtype=object)
        for i in np.ndindex(*x.shape[:-1]):
            o[i] = dot_els(x.a[i], y.a, x.dt, y.dt, odt)
        return ret(o, odt)
    if x.shape[-1] != y.shape[-2]:
        raise ValueError('shapes %s and %s not aligned' % (x.shape, y.shape))
    shp = x.shape[:-1] + y.shape[:-2] + y.shape[-1:]
    o = np.empty(shp, dtype=object)
    for i in np.ndindex(*x.shape[:-1]):
        for j in np.ndindex(*y.shape[:-2]):
            for k in range(y.shape[-1]):
                o[i + j + (k,)] = dot_els(x.a[i], y.a[j + (slice(None), k)], x.dt, y.dt, odt)
    return ret(o, odt)


def matmul(x, y):
    x, y = asS(x), asS(y)
    nx, ny = native(x), native(y)
    if nx is not None and ny is not None:
        return _wrapn(np.matmul(nx, ny))
    if x.ndim == 0 or y.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if x.ndim <= 2 and y.ndim <= 2:
        return dot(x, y)
    shp = np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
    xb = np.broadcast_to(x.a, shp + x.shape[-2:])
    yb = np.broadcast_to(y.a, shp + y.shape[-2:])
    o = np.empty(shp + (x.shape[-2], y.shape[-1]), dtype=object)
    odt = None
    for i in np.ndindex(*shp):
        r = dot(SArr(xb[i], x.dt), SArr(yb[i], y.dt))
        o[i] = r.a
        odt = r.dt
    return SArr(o, odt)


def round_(s, decimals=0):
    if isinstance(s, (list, tuple)):
        s = make(s)
    if isinstance(s, SArr) and native(s) is not None:
        return _wrapn(np.round(native(s), decimals))
    if isinstance(s, (np.generic, int, float)):
        return np.round(s, decimals)
    if s.dt.kind in 'iu' and decimals >= 0:
        return s
    if decimals == 0:
        return apply_uf(np.rint, s)
    f = lambda v: canon(np.round(np.float64(v), decimals), FLOAT)

    def one(x):
        if not isinstance(x, Sym):
            return f(x)
        if not S.continuous(x):
            return S._vs_map(x, f, FLOAT)
        sc = 10.0 ** decimals
        return S.div_el(S.floor_el(S.mul_el(sc, x, FLOAT), 'rint'), sc)
    if isinstance(s, Sym):
        return wrap_scalar(one(s), FLOAT)
    o = np.empty(s.shape, dtype=object)
    for i in np.ndindex(*s.shape):
        o[i] = one(s.a[i])
    return SArr(o, FLOAT)


def clip(s, lo, hi):
    if lo is not None:
        s = apply_uf(np.maximum, s, lo)
    if hi is not None:
        s = apply_uf(np.minimum, s, hi)
    return s


def nonzero(s):
    s = asS(s)
    n = native(s)
    if n is None:
        m = np.empty(s.shape, dtype=bool)
        for i in np.ndindex(*s.shape):
            v = s.a[i]
            m[i] = bool(v) if isinstance(v, Sym) else bool(v)
        n = m
    return tuple(from_native(v) for v in np.nonzero(n))


def sort(s, axis=-1):
    s = asS(s)
    n = native(s)
    if n is not None:
        return _wrapn(np.sort(n, axis=axis))
    if axis is None:
        s = s.ravel()
        axis = -1
    m = np.moveaxis(s.a.copy(), axis, -1)
    for i in np.ndindex(*m.shape[:-1]):
        row = m[i]
        k = len(row)
        for p in range(k):
            for q in range(k - 1 - p):
                lo = S.max_el(row[q], row[q + 1], s.dt, True)
                hi = S.max_el(row[q], row[q + 1], s.dt, False)
                row[q], row[q + 1] = lo, hi
    return SArr(np.moveaxis(m, -1, axis), s.dt)


def argsort(s, axis=-1, **kw):
    s = asS(s)
    n = native(s)
    if n is not None:
        return _wrapn(np.argsort(n, axis=axis, **{k: v for k, v in kw.items() if k in ('kind', 'stable')}))
    if s.ndim != 1:
        raise Unsupported('argsort of a symbolic matrix')
    import functools

    def c(i, j):
        if bool(wrap_scalar(S.cmp_el('lt', s.a[i], s.a[j]), BOOL)):
            return -1
        if bool(wrap_scalar(S.cmp_el('lt', s.a[j], s.a[i]), BOOL)):
            return 1
        return i - j
    return make(sorted(range(len(s)), key=functools.cmp_to_key(c)))


# ------------------------------------------------------------------ operators
def _binop(uf):
    def f(self, o):
        if isinstance(o, (str, dict, type(None))):
            if uf is np.equal:
                return False
            if uf is np.not_equal:
                return True
            return NotImplemented
        if uf in (np.equal, np.not_equal) and isinstance(o, (list, tuple, SArr, np.ndarray)) and isinstance(self, SArr):
            try:
                np.broadcast_shapes(self.shape, asS(o).shape)
            except ValueError:
                raise ValueError('operands could not be broadcast together')
        return apply_uf(uf, self, o)

    def r(self, o):
        return apply_uf(uf, o, self)
    return f, r


def _inplace(uf):
    def f(self, o):
        if isinstance(self, Sym):
            return apply_uf(uf, self, o)
        res = apply_uf(uf, self, o)
        rdt = res.dt if isinstance(res, (SArr, Sym)) else res.dtype
        if not np.can_cast(rdt, self.dt, 'same_kind'):
            raise np._core._exceptions._UFuncOutputCastingError(uf, 'same_kind', rdt, self.dt, 0)
        res = asS(res)
        if res.shape != self.shape:
            if np.broadcast_shapes(res.shape, self.shape) != self.shape:
                raise ValueError('non-broadcastable output operand')
        self[...] = res
        return self
    return f


_OPS = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'truediv': np.true_divide,
        'floordiv': np.floor_divide, 'mod': np.remainder, 'pow': np.power, 'and': np.bitwise_and,
        'or': np.bitwise_or, 'xor': np.bitwise_xor, 'lshift': np.left_shift, 'rshift': np.right_shift}
for _n, _u in _OPS.items():
    _f, _r = _binop(_u)
    for _c in (SArr, Sym):
        setattr(_c, '__%s__' % _n, _f)
        setattr(_c, '__r%s__' % _n, _r)
    setattr(SArr, '__i%s__' % _n, _inplace(_u))
for _n, _u in {'lt': np.less, 'le': np.less_equal, 'gt': np.greater, 'ge': np.greater_equal, 'eq': np.equal, 'ne': np.not_equal}.items():
    _f, _ = _binop(_u)
    for _c in (SArr, Sym):
        setattr(_c, '__%s__' % _n, _f)
for _c in (SArr, Sym):
    _c.__neg__ = lambda self: apply_uf(np.negative, self)
    _c.__pos__ = lambda self: apply_uf(np.positive, self)
    _c.__abs__ = lambda self: apply_uf(np.absolute, self)
    _c.__invert__ = lambda self: apply_uf(np.invert, self)
    _c.__matmul__ = lambda self, o: matmul(self, o)
    _c.__rmatmul__ = lambda self, o: matmul(o, self)
    _c.__divmod__ = lambda self, o: (self // o, self % o)
    _c.__rdivmod__ = lambda self, o: (o // self, o % self)
    _c.__round__ = lambda self, n=None: round_(self, n or 0) if n is not None else round_(self, 0).astype(int)
    _c.__floor__ = lambda self: apply_uf(np.floor, self).astype(int)
    _c.__ceil__ = lambda self: apply_uf(np.ceil, self).astype(int)
    _c.__trunc__ = lambda self: apply_uf(np.trunc, self).astype(int)
Sym.__hash__ = lambda self: hash(self.concretize())
