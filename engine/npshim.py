"""The `numpy` seen by the code under test during symbolic execution."""
import functools
import math
import types
import numpy as np
from . import guards as G
from . import sym as S
from .sym import Sym, Unsupported, BOOL, INT, FLOAT, canon, cast, wrap_scalar
from . import sarr as A
from .sarr import (SArr, asS, make, native, apply_uf, ret, from_native, _wrapn, _nat, norm_dtype,
                   concretize_arr, is_sym_arr)

used_fallbacks = set()       # names of library functions that were executed natively after a case split
used_models = set()          # names of modelled library functions


def any_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SArr):
        return is_sym_arr(x.a)
    if isinstance(x, (list, tuple)) or type(x).__name__ == 'deque':
        return any(any_sym(v) for v in x)
    if isinstance(x, dict):
        return any(any_sym(v) for v in x.values())
    return False


def to_native(x):
    """concrete native value of x (forking when symbolic)"""
    if isinstance(x, SArr):
        n = native(x)
        return n if n is not None else concretize_arr(x)
    if isinstance(x, Sym):
        return x.dt.type(x.concretize())
    if type(x) is tuple:
        return tuple(to_native(v) for v in x)
    if type(x) is list:
        return [to_native(v) for v in x]
    if type(x).__name__ == 'deque':
        return [to_native(v) for v in x]
    if type(x) is dict:
        return {k: to_native(v) for k, v in x.items()}
    if x is SArr:
        return np.ndarray
    if isinstance(x, UF):
        return x.uf
    return x


def fallback(name, fn):
    @functools.wraps(fn, updated=())
    def f(*a, **k):
        if any_sym(list(a)) or any_sym(k):
            used_fallbacks.add(name)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = fn(*[to_native(v) for v in a], **{q: to_native(v) for q, v in k.items()})
        return _wrapn(r)
    return f


class UF:
    """ufunc object"""
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__
        self.nin, self.nout = uf.nin, uf.nout

    def __call__(self, *a, **k):
        n = self.uf.nin
        args, extra = a[:n], a[n:]
        if extra:
            k['out'] = extra[0]
        return apply_uf(self.uf, *args, **k)

    def reduce(self, x, axis=0, dtype=None, keepdims=False, **kw):
        x = asS(x)
        if self.uf is np.add:
            return A.reduce_sum(x, axis, keepdims)
        if self.uf is np.multiply:
            return A.reduce_prod(x, axis, keepdims)
        if self.uf in (np.logical_and,):
            return A.reduce_all(x, axis, keepdims)
        if self.uf in (np.logical_or,):
            return A.reduce_any(x, axis, keepdims)
        if self.uf in (np.maximum, np.minimum):
            return A.reduce_max(x, axis, keepdims, self.uf is np.minimum)
        odt = A.uf_dtype(self.uf, [x, x])

        def f(l):
            if len(l) == 0:
                return canon(odt.type(self.uf.identity), odt)
            r = cast(l[0], x.dt, odt)
            for v in l[1:]:
                r = A.uf_elem2(self.uf, [r, cast(v, x.dt, odt)], [odt, odt], odt)
            return r
        return A._red(x, axis, keepdims, f, odt, lambda n, axis: self.uf.reduce(n, axis=axis))

    def accumulate(self, x, axis=0, dtype=None, **k):
        return A.accumulate(self.uf, asS(x), axis, dtype)

    def outer(self, x, y, **k):
        x, y = asS(x), asS(y)
        return apply_uf(self.uf, x.reshape(x.shape + (1,) * y.ndim), y)

    def at(self, a, idx, b=None):
        idx = asS(idx)
        bb = None if b is None else np.broadcast_to(asS(b).a, idx.shape)
        for i in np.ndindex(*idx.shape):
            k = wrap_scalar(idx.a[i], idx.dt)
            a[k] = apply_uf(self.uf, a[k]) if bb is None else apply_uf(self.uf, a[k], wrap_scalar(bb[i], asS(b).dt))


# ------------------------------------------------------------------ structural functions
def _dts(args):
    out = []
    for x in args:
        if isinstance(x, SArr):
            out.append(x.dt)
        elif isinstance(x, Sym):
            out.append(x.dt)
        elif isinstance(x, (list, tuple)):
            out.append(make(x).dt)
        elif isinstance(x, np.generic):
            out.append(x.dtype)
        elif isinstance(x, (np.ndarray,)):
            out.append(x.dtype)
        elif isinstance(x, bool):
            out.append(BOOL)
        elif isinstance(x, int):
            out.append(INT)
        elif isinstance(x, float):
            out.append(FLOAT)
    return out


def struct1(fn):
    """data movement on the first argument"""
    @functools.wraps(fn)
    def f(x, *a, **k):
        s = asS(x)
        r = fn(s.a, *[_sh(v) for v in a], **{q: _sh(v) for q, v in k.items()})
        if isinstance(r, np.ndarray):
            return SArr(r, s.dt)
        if isinstance(r, list):
            return [SArr(v, s.dt) for v in r]
        if isinstance(r, tuple):
            return tuple(SArr(v, s.dt) for v in r)
        return wrap_scalar(r, s.dt)
    return f


def _sh(v):
    """shape/axis-like argument"""
    if isinstance(v, SArr):
        return to_native(v)
    if isinstance(v, Sym):
        return v.concretize()
    if isinstance(v, (list, tuple)):
        return type(v)(_sh(q) for q in v)
    return v


def structn(fn):
    """data movement over a sequence of arrays (first argument)"""
    @functools.wraps(fn)
    def f(seq, *a, dtype=None, **k):
        if isinstance(seq, SArr):
            seq = list(seq) if seq.ndim > 0 else seq
        arrs = [asS(x) for x in seq]
        dt = np.result_type(*[x.dt for x in arrs]) if arrs else FLOAT
        if dtype is not None:
            dt = norm_dtype(dtype)
        r = fn([x.astype(dt).a if x.dt != dt else x.a for x in arrs], *[_sh(v) for v in a], **{q: _sh(v) for q, v in k.items()})
        return SArr(r, dt)
    return f


def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    r = make(x, dtype)
    if ndmin > r.ndim:
        r = SArr(np.array(r.a, ndmin=ndmin, copy=False), r.dt)
    return r


def np_asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or norm_dtype(dtype) == x.dt):
        return x
    return make(x, dtype)


def create(fn):
    def f(*a, dtype=None, **k):
        kw = dict(k)
        if dtype is not None:
            kw['dtype'] = norm_dtype(dtype)
        a = [to_native(v) if not (isinstance(v, type) and v not in (float, int, bool)) else v for v in a]
        return from_native(fn(*a, **{q: to_native(v) for q, v in kw.items()}))
    return f


def full(shape, v, dtype=None, **k):
    shape = _sh(shape)
    dt = norm_dtype(dtype) if dtype is not None else make(v).dt
    r = from_native(np.zeros(shape, dt if dt.kind != 'O' else float))
    r[...] = v
    return r


def full_like(x, v, dtype=None, shape=None, **k):
    x = asS(x)
    return full(x.shape if shape is None else shape, v, dtype or x.dt)


def zeros_like(x, dtype=None, shape=None, **k):
    x = asS(x)
    return full(x.shape if shape is None else shape, 0, norm_dtype(dtype) if dtype is not None else x.dt)


def ones_like(x, dtype=None, shape=None, **k):
    x = asS(x)
    return full(x.shape if shape is None else shape, 1, norm_dtype(dtype) if dtype is not None else x.dt)


def np_arange(*a, dtype=None, **k):
    if any(S.continuous(v) for v in a):
        raise Unsupported('arange over a continuous bound')
    a = [to_native(v) for v in a]
    return from_native(np.arange(*a, dtype=None if dtype is None else norm_dtype(dtype), **k))


def np_linspace(start, stop, num=50, endpoint=True, dtype=None, **k):
    num = int(_sh(num))
    if not any_sym(start) and not any_sym(stop):
        r = np.linspace(to_native(start), to_native(stop), num, endpoint=endpoint, dtype=None if dtype is None else norm_dtype(dtype), **k)
        return _wrapn(r)
    div = (num - 1) if endpoint else num
    out = []
    for i in range(num):
        out.append(start + (stop - start) * (i / div if div else 0.0))
    return make(out)


def where(c, x=None, y=None):
    if x is None:
        return A.nonzero(c)
    c, x0, y0 = asS(c), x, y
    weak = [v for v in (x, y)]
    dt = A.uf_dtype(np.add, weak) if not (isinstance(x, (bool, np.bool_)) and isinstance(y, (bool, np.bool_))) else BOOL
    xs, ys = asS(x), asS(y)
    if xs.dt.kind == 'b' and ys.dt.kind == 'b':
        dt = BOOL
    shp = np.broadcast_shapes(c.shape, xs.shape, ys.shape)
    ca, xa, ya = (np.broadcast_to(v.a, shp) for v in (c, xs, ys))
    o = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        g = A._glit(ca[i])
        o[i] = S.ite_el(g, cast(xa[i], xs.dt, dt), cast(ya[i], ys.dt, dt), dt) if g not in (0, 1) else (cast(xa[i], xs.dt, dt) if g else cast(ya[i], ys.dt, dt))
    return ret(o, dt) if shp == () else SArr(o, dt)


def diff(x, n=1, axis=-1, prepend=None, append=None):
    x = asS(x)
    parts = []
    for p in (prepend, None, append):
        if p is None:
            continue
    def shaped(p):
        p = asS(p)
        if p.ndim == 0:
            shp = list(x.shape); shp[axis] = 1
            p = SArr(np.broadcast_to(p.a, shp).copy(), p.dt)
        return p
    seq = ([shaped(prepend)] if prepend is not None else []) + [x] + ([shaped(append)] if append is not None else [])
    if len(seq) > 1:
        x = concatenate(seq, axis)
    for _ in range(n):
        hi = [slice(None)] * x.ndim
        lo = [slice(None)] * x.ndim
        hi[axis] = slice(1, None)
        lo[axis] = slice(None, -1)
        x = apply_uf(np.not_equal if x.dt.kind == 'b' else np.subtract, x[tuple(hi)], x[tuple(lo)])
    return x


concatenate = structn(np.concatenate)


def append(x, v, axis=None):
    if axis is None:
        return concatenate([asS(x).ravel(), asS(v).ravel()])
    return concatenate([x, v], axis)


def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    x = asS(x)
    n = native(x)
    if n is not None:
        return _wrapn(np.unique(n, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis))
    if return_index or return_inverse or axis is not None:
        return fallback('np.unique', np.unique)(x, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
    used_models.add('np.unique')
    vals = {}
    for v in x.a.flat:
        if isinstance(v, Sym):
            if S.continuous(v):
                raise Unsupported('unique of continuous values')
            for q, g in v.vs().items():
                vals.setdefault(q, []).append(g)
        else:
            vals.setdefault(v, []).append(1)
    out = []
    for q in sorted(vals):
        if S.ctx[0].decide(G.or_all(vals[q])):
            out.append(q)
    r = make(out).astype(x.dt) if out else SArr(np.empty(0, object), x.dt)
    if return_counts:
        cnt = []
        for q in out:
            cnt.append(S.mkpoly(INT, functools.reduce(S.padd, [S.pind(g) for g in vals[q]])))
        return r, make(cnt)
    return r


def count_nonzero(x, axis=None, keepdims=False):
    return A.reduce_sum(apply_uf(np.not_equal, asS(x), 0), axis, keepdims)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = apply_uf(np.absolute, apply_uf(np.subtract, asS(a).astype(float) if not isinstance(a, (Sym, np.generic, float, int)) else a, b))
    lim = apply_uf(np.add, atol, apply_uf(np.multiply, rtol, apply_uf(np.absolute, b)))
    r = apply_uf(np.less_equal, d, lim)
    return r


def isclose_w(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not any_sym(a) and not any_sym(b):
        r = np.isclose(to_native(a), to_native(b), rtol, atol, equal_nan)
        return _wrapn(r)
    return isclose(a, b, rtol, atol)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(A.reduce_all(asS(isclose_w(a, b, rtol, atol, equal_nan))))


def array_equal(a, b, **k):
    a, b = asS(a), asS(b)
    if a.shape != b.shape:
        return False
    return bool(A.reduce_all(asS(apply_uf(np.equal, a, b))))


def convolve(a, v, mode='full'):
    a, v = asS(a), asS(v)
    if a.ndim != 1 or v.ndim != 1:
        a, v = a.ravel(), v.ravel()
    if len(a) == 0 or len(v) == 0:
        raise ValueError('v cannot be empty')
    na, nv = native(a), native(v)
    if na is not None and nv is not None:
        return _wrapn(np.convolve(na, nv, mode))
    used_models.add('convolve')
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    odt = np.result_type(a.dt, v.dt)
    o = np.empty(n + m - 1, dtype=object)
    for k in range(n + m - 1):
        xs, ys = [], []
        for j in range(max(0, k - n + 1), min(m, k + 1)):
            xs.append(a.a[k - j]); ys.append(v.a[j])
        o[k] = A.dot_els(xs, ys, a.dt, v.dt, odt)
    if mode == 'full':
        pass
    elif mode == 'same':
        st = (m - 1) // 2
        o = o[st:st + n]
    elif mode == 'valid':
        o = o[m - 1:n]
    else:
        raise ValueError('mode')
    return SArr(o, odt)


def correlate(a, v, mode='valid'):
    return convolve(a, asS(v)[::-1], mode) if len(asS(a)) >= len(asS(v)) else convolve(asS(v)[::-1], a, mode)


def outer(a, b, **k):
    return apply_uf(np.multiply, asS(a).ravel()[:, None], asS(b).ravel())


def inner(a, b):
    a, b = asS(a), asS(b)
    if a.ndim == 1 and b.ndim == 1:
        return A.dot(a, b)
    return A.dot(a, b.swapaxes(-1, -2) if b.ndim > 1 else b)


def vdot(a, b):
    return A.dot(asS(a).ravel(), asS(b).ravel())


def einsum(spec, *ops, **k):
    if not any_sym(list(ops)):
        return _wrapn(np.einsum(spec, *[to_native(o) for o in ops], **k))
    ops = [asS(o) for o in ops]
    spec = spec.replace(' ', '')
    if '.' in spec or not isinstance(spec, str):
        raise Unsupported('einsum')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        out = ''.join(sorted(c for c in set(ins) - {','} if ins.count(c) == 1))
    ins = ins.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dims[c] = d
    summed = [c for c in dims if c not in out]
    r = None
    odt = np.result_type(*[o.dt for o in ops])
    res = np.empty([dims[c] for c in out], dtype=object)
    for i in np.ndindex(*res.shape):
        env = dict(zip(out, i))
        terms = []
        for j in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, j))
            t = 1 if odt.kind in 'iu' else 1.0
            for s, o in zip(ins, ops):
                t = S.mul_el(t, cast(o.a[tuple(env[c] for c in s)], o.dt, odt), odt)
            terms.append(t)
        res[i] = A.sum_els(terms, odt, odt)
    return ret(res, odt)


def tensordot(a, b, axes=2):
    if not any_sym(a) and not any_sym(b):
        return _wrapn(np.tensordot(to_native(a), to_native(b), axes))
    a, b = asS(a), asS(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    ra = [i for i in range(a.ndim) if i not in [x % a.ndim for x in ax]]
    rb = [i for i in range(b.ndim) if i not in [x % b.ndim for x in bx]]
    at = a.transpose(ra + ax).reshape([int(np.prod([a.shape[i] for i in ra]))] + [-1])
    bt = b.transpose(bx + rb).reshape([at.shape[1], -1])
    return A.dot(at, bt).reshape([a.shape[i] for i in ra] + [b.shape[i] for i in rb])


def searchsorted(a, v, side='left', sorter=None):
    a = asS(a)
    if not any_sym(a) and not any_sym(v):
        return _wrapn(np.searchsorted(native(a), to_native(v), side))
    op = np.less if side == 'left' else np.less_equal
    sc = not isinstance(v, SArr) and not isinstance(v, (list, tuple))
    vv = asS(v)
    r = A.reduce_sum(apply_uf(op, a, vv.reshape(vv.shape + (1,))), -1)
    return r if not sc else (wrap_scalar(asS(r).a.reshape(-1)[0], INT))


def digitize(x, bins, right=False):
    b = asS(bins)
    nb = native(b)
    if nb is not None and len(nb) > 1 and nb[0] > nb[-1]:
        raise Unsupported('digitize with decreasing bins')
    return searchsorted(b, x, 'left' if right else 'right')


def histogram(x, bins=10, range=None, density=None, weights=None):
    x = asS(x)
    n = native(x)
    if n is not None and not any_sym(range) and not any_sym(bins):
        h, e = np.histogram(n, bins=to_native(bins), range=None if range is None else tuple(to_native(list(range))), density=density, weights=to_native(weights))
        return _wrapn(h), _wrapn(e)
    if density or weights is not None:
        raise Unsupported('weighted histogram')
    used_models.add('np.histogram')
    if isinstance(bins, (int, np.integer)):
        if range is None:
            lo, hi = x.min(), x.max()
        else:
            lo, hi = list(range)
        edges = np_linspace(lo * 1.0, hi * 1.0, int(bins) + 1)
    else:
        edges = asS(bins)
    k = len(edges) - 1
    out = []
    flat = x.ravel()
    for i in np.arange(k):
        lo_ok = apply_uf(np.greater_equal, flat, edges[i])
        hi_ok = apply_uf(np.less_equal if i == k - 1 else np.less, flat, edges[i + 1])
        out.append(A.reduce_sum(apply_uf(np.logical_and, lo_ok, hi_ok)))
    return make(out), edges


def bincount(x, weights=None, minlength=0):
    x = asS(x)
    if native(x) is not None and not any_sym(weights):
        return _wrapn(np.bincount(native(x), to_native(weights), minlength))
    mx = 0
    for v in x.a.flat:
        mx = max([mx] + list(v.vs() if isinstance(v, Sym) else [v]))
    # length depends on the largest value present
    used_models.add('np.bincount')
    L = int(_sh(A.reduce_max(x))) + 1 if mx + 1 > minlength else minlength
    L = max(L, minlength)
    out = []
    w = None if weights is None else asS(weights)
    for q in range(L):
        m = apply_uf(np.equal, x, q)
        out.append(A.reduce_sum(m) if w is None else A.reduce_sum(apply_uf(np.multiply, m, w)))
    return make(out)


def cumsum(x, axis=None, dtype=None, **k):
    return asS(x).cumsum(axis, dtype)


def sinc(x):
    if not any_sym(x):
        return _wrapn(np.sinc(to_native(x)))
    x = asS(x) if not isinstance(x, Sym) else x
    if isinstance(x, Sym):
        return wrap_scalar(_sinc_el(cast(x, x.dt, FLOAT)), FLOAT)
    o = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        o[i] = _sinc_el(cast(x.a[i], x.dt, FLOAT))
    return SArr(o, FLOAT)


def _sinc_el(v):
    if not isinstance(v, Sym):
        return canon(np.sinc(np.float64(v)), FLOAT)
    if not S.continuous(v):
        return S._vs_map(v, lambda q: canon(np.sinc(np.float64(q)), FLOAT), FLOAT)
    p = v.poly
    if p.key[-1][1] < 0:
        p = S.pscale(p, -1)                 # sinc is even
    return S.opaque(FLOAT, 'fn_sinc', p, -1, 1)


def isin(x, vals, **k):
    x = asS(x)
    vals = asS(vals).ravel()
    return A.reduce_any(apply_uf(np.equal, x.reshape(x.shape + (1,)), vals), -1)


def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def choose(a, choices, **k):
    a = asS(a)
    ch = np.stack([np.broadcast_to(asS(c).a, a.shape) for c in choices])
    dt = np.result_type(*[asS(c).dt for c in choices])
    o = np.empty(a.shape, dtype=object)
    col = SArr(ch, dt)
    for i in np.ndindex(*a.shape):
        o[i] = A._el(col[(wrap_scalar(a.a[i], a.dt),) + i])
    return SArr(o, dt)


def np_pad(x, width, mode='constant', **k):
    s = asS(x)
    cv = k.get('constant_values', 0)
    kw = {}
    if mode == 'constant':
        kw['constant_values'] = _sh(cv)
    return SArr(np.pad(s.a, _sh(width), mode=mode, **kw), s.dt)


def median(x, axis=None, **k):
    s = A.sort(asS(x), axis if axis is not None else None)
    if axis is None:
        n = s.size
        return s[n // 2] * 1.0 if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    raise Unsupported('median')


def trapz(y, x=None, dx=1.0, axis=-1):
    y = asS(y)
    return A.reduce_sum(apply_uf(np.multiply, apply_uf(np.add, y[1:], y[:-1]), dx / 2 if x is None else diff(x) / 2))


def average(x, axis=None, weights=None):
    if weights is None:
        return A.mean(x, axis)
    w = asS(weights)
    return A.reduce_sum(apply_uf(np.multiply, asS(x), w), axis) / A.reduce_sum(w)


def interp(x, xp, fp, **k):
    if any_sym(xp) or any_sym(x):
        raise Unsupported('np.interp')
    if not any_sym(fp):
        return _wrapn(np.interp(to_native(x), to_native(xp), to_native(fp)))
    xn, xpn, fp = np.atleast_1d(to_native(x)), to_native(xp), asS(fp)
    out = []
    for v in xn:
        w = np.array([np.interp(v, xpn, np.eye(len(xpn))[i]) for i in range(len(xpn))])
        out.append(A.dot(from_native(w), fp))
    return make(out)


def vectorize(f, otypes=None, **k):
    def g(*args):
        arrs = [asS(x) for x in args]
        shp = np.broadcast_shapes(*[x.shape for x in arrs])
        bs = [np.broadcast_to(x.a, shp) for x in arrs]
        o = [f(*[wrap_scalar(b[i], x.dt) for b, x in zip(bs, arrs)]) for i in np.ndindex(*shp)]
        return make(o).reshape(shp)
    return g


def apply_along_axis(f, axis, x, *a, **k):
    x = asS(x)
    m = np.moveaxis(x.a, axis, -1)
    rs = [f(SArr(m[i], x.dt), *a, **k) for i in np.ndindex(*m.shape[:-1])]
    st = make(rs)
    st = st.reshape(tuple(m.shape[:-1]) + st.shape[1:])
    if st.ndim > len(m.shape[:-1]):
        st = SArr(np.moveaxis(st.a, -1, axis), st.dt)
    return st


def np_round(x, decimals=0, **k):
    return A.round_(x, decimals)


def broadcast_arrays(*a):
    arrs = [asS(x) for x in a]
    shp = np.broadcast_shapes(*[x.shape for x in arrs])
    return tuple(SArr(np.broadcast_to(x.a, shp), x.dt) for x in arrs)


def meshgrid(*a, **k):
    arrs = [asS(x) for x in a]
    return [SArr(v, x.dt) for v, x in zip(np.meshgrid(*[x.a for x in arrs], **k), arrs)]


def roll(x, shift, axis=None):
    s = asS(x)
    return SArr(np.roll(s.a, _sh(shift), axis), s.dt)


def insert(x, idx, v, axis=None):
    s = asS(x)
    v = asS(v)
    dt = s.dt
    v = v.astype(dt)
    va = v.a if v.ndim else A._zero_d(v.a[()])
    return SArr(np.insert(s.a, _sh(idx), va, axis), dt)


def triu_tril(fn):
    def f(x, k=0):
        s = asS(x)
        m = fn(np.ones(s.shape), k).astype(bool)
        return where(from_native(m), s, 0)
    return f


def diag(x, k=0):
    s = asS(x)
    if s.ndim == 2:
        return SArr(np.diag(s.a, k).copy(), s.dt)
    n = len(s) + abs(k)
    r = full((n, n), 0, s.dt)
    for i in range(len(s)):
        r.a[(i - min(k, 0), i + max(k, 0))] = s.a[i]
    return r


def cov_like(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


def copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        for_ = asS(where)
        dst[for_] = src if not isinstance(src, SArr) or src.ndim == 0 else src[for_]


def put(a, idx, v, **k):
    a.put(idx, v)


def take(x, idx, axis=None, **k):
    return asS(x).take(idx, axis)


def take_along_axis(x, idx, axis):
    x, idx = asS(x), asS(idx)
    key = []
    for d in range(x.ndim):
        if d == axis % x.ndim:
            key.append(idx)
        else:
            shp = [1] * x.ndim
            shp[d] = x.shape[d]
            key.append(from_native(np.arange(x.shape[d]).reshape(shp)))
    return x[tuple(key)]


def np_min(x, axis=None, keepdims=False, **k): return A.reduce_max(asS(x), axis, keepdims, True)
def np_max(x, axis=None, keepdims=False, **k): return A.reduce_max(asS(x), axis, keepdims)
def np_sum(x, axis=None, dtype=None, keepdims=False, **k):
    if not isinstance(x, (SArr, Sym, list, tuple, np.ndarray, np.generic, int, float)):
        x = list(x)
    return A.reduce_sum(asS(x), axis, keepdims, dtype)
def np_prod(x, axis=None, dtype=None, keepdims=False, **k): return A.reduce_prod(asS(x), axis, keepdims, dtype)
def np_mean(x, axis=None, dtype=None, keepdims=False, **k): return A.mean(x if dtype is None else asS(x).astype(dtype), axis, keepdims)
def np_var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k): return A.var(x, axis, ddof, keepdims)
def np_std(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k): return apply_uf(np.sqrt, A.var(x, axis, ddof, keepdims))
def np_any(x, axis=None, keepdims=False, **k): return A.reduce_any(asS(x), axis, keepdims)
def np_all(x, axis=None, keepdims=False, **k): return A.reduce_all(asS(x), axis, keepdims)
def np_argmin(x, axis=None, **k): return A.argext(asS(x), axis, True)
def np_argmax(x, axis=None, **k): return A.argext(asS(x), axis, False)


def argwhere(x):
    t = A.nonzero(asS(x))
    return SArr(np.stack([v.a for v in t], axis=-1), INT)


def isreal(x):
    x = asS(x)
    return full(x.shape, x.dt.kind != 'c', bool)


def isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def extract(c, x):
    return asS(x).ravel()[asS(c).ravel()]


def kron(a, b):
    a, b = asS(a), asS(b)
    if a.ndim == 1 and b.ndim == 1:
        return apply_uf(np.multiply, a[:, None], b).reshape(-1)
    if a.ndim == 2 and b.ndim == 2:
        return apply_uf(np.multiply, a[:, None, :, None], b[None, :, None, :]).reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])
    raise Unsupported('kron')


def polyval(p, x):
    r = 0.0
    for c in asS(p):
        r = r * x + c
    return r


def resize(x, shape):
    s = asS(x)
    return SArr(np.resize(s.a, _sh(shape)), s.dt)


def ravel_multi_index(t, dims, **k):
    r = 0
    for v, d in zip(t, dims):
        r = r * d + v
    return r


def trim_zeros(x, trim='fb'):
    x = asS(x)
    lo, hi = 0, len(x)
    if 'f' in trim.lower():
        while lo < hi and bool(x[lo] == 0):
            lo += 1
    if 'b' in trim.lower():
        while hi > lo and bool(x[hi - 1] == 0):
            hi -= 1
    return x[lo:hi]


def ndim(x): return asS(x).ndim
def shape(x): return asS(x).shape
def size(x, axis=None): return asS(x).size if axis is None else asS(x).shape[axis]
def np_real(x): return x.real if isinstance(x, (SArr, Sym)) else np.real(x)
def np_imag(x): return x.imag if isinstance(x, (SArr, Sym)) else np.imag(x)


def packbits_w(name, fn):
    return fallback(name, fn)


# ------------------------------------------------------------------ linalg
def lin_norm(x, ord=None, axis=None, keepdims=False):
    x = asS(x)
    if native(x) is not None:
        return _wrapn(np.linalg.norm(native(x), ord, axis, keepdims))
    if ord in (None, 2) and (x.ndim == 1 or axis is not None):
        return apply_uf(np.sqrt, A.reduce_sum(apply_uf(np.multiply, x, x), axis, keepdims))
    if ord == 1:
        return A.reduce_sum(apply_uf(np.absolute, x), axis, keepdims)
    raise Unsupported('norm')


def lstsq(a, b, rcond=None):
    """contract model: a solution of the normal equations (least squares optimality)"""
    if not any_sym(a) and not any_sym(b):
        return tuple(_wrapn(v) for v in np.linalg.lstsq(to_native(a), to_native(b), rcond=rcond))
    a, b = asS(a), asS(b)
    used_models.add('np.linalg.lstsq')
    na = native(a)
    if na is None:
        return S.ctx[0].env('lstsq')(a, b)
    # constant matrix: x = pinv(A) b is linear in b
    n = na.shape[1]
    rank = np.linalg.matrix_rank(na)
    x = A.dot(from_native(np.linalg.pinv(na)), b)
    if rank == n and na.shape[0] > n:
        r = apply_uf(np.subtract, A.dot(a, x), b)
        res = A.reduce_sum(apply_uf(np.multiply, r, r), 0)
        res = make([res]) if b.ndim == 1 else res
    else:
        res = from_native(np.zeros(0))
    sv = np.linalg.svd(na, compute_uv=False)
    return x, res, int(rank), from_native(sv)


def lin_inv(a):
    a = asS(a)
    n = native(a)
    if n is not None:
        return _wrapn(np.linalg.inv(n))
    raise Unsupported('inverse of a symbolic matrix')


def lin_pinv(a, *k, **kw):
    a = asS(a)
    n = native(a)
    if n is not None:
        return _wrapn(np.linalg.pinv(n))
    raise Unsupported('pseudo-inverse of a symbolic matrix')


def lin_solve(a, b):
    a = asS(a)
    n = native(a)
    if n is not None:
        if not any_sym(b):
            return _wrapn(np.linalg.solve(n, to_native(b)))
        return A.dot(from_native(np.linalg.inv(n)), b)
    return S.ctx[0].env('solve')(a, asS(b))


# ------------------------------------------------------------------ random: fresh unit symbols
class Rand:
    """every draw is a fresh symbol supplied by the exploration context"""
    def _unit(self, size, kind='n'):
        return S.ctx[0].fresh_noise(size, kind)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            sh = np.broadcast_shapes(asS(loc).shape, asS(scale).shape)
            size = sh if sh else None
        u = self._unit(_sh(size))
        if any_sym(scale):
            neg = apply_uf(np.less, scale, 0)
            if bool(A.reduce_any(asS(neg))):
                raise ValueError('scale < 0')
        elif np.any(np.asarray(to_native(scale)) < 0):
            raise ValueError('scale < 0')
        return apply_uf(np.add, loc, apply_uf(np.multiply, scale, u))

    def standard_normal(self, size=None, **k):
        return self._unit(_sh(size))

    def randn(self, *s):
        return self._unit(_sh(s) if s else None)

    def default_rng(self, *a, **k):
        if [x for x in list(a) + list(k.values()) if x is not None]:
            S.ctx[0].reseeded = True
        return Rand()

    RandomState = default_rng

    def seed(self, *a):
        S.ctx[0].reseeded = True
        return None

    def _unif(self, low, high, size):
        if size is None:
            sh = np.broadcast_shapes(asS(low).shape, asS(high).shape)
            size = sh if sh else None
        u = self._unit(_sh(size), 'u')
        w = apply_uf(np.subtract, high, low)
        return apply_uf(np.add, low, apply_uf(np.multiply, apply_uf(np.multiply, w, 0.125), apply_uf(np.add, u, 4.0)))

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._unif(low, high, size)

    def random(self, size=None, **k):
        return self._unif(0.0, 1.0, size)

    random_sample = ranf = sample = random

    def rand(self, *s):
        return self._unif(0.0, 1.0, s if s else None)

    def _other(self, loc, scale, size):
        if size is None:
            sh = np.broadcast_shapes(asS(loc).shape, asS(scale).shape)
            size = sh if sh else None
        return apply_uf(np.add, loc, apply_uf(np.multiply, scale, self._unit(_sh(size), 'o')))

    def laplace(self, loc=0.0, scale=1.0, size=None):
        return self._other(loc, scale, size)

    logistic = gumbel = laplace

    Generator = None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        def f(*a, **k):
            raise Unsupported('np.random.' + name)
        return f


# ------------------------------------------------------------------ assembly
STRUCT1 = ['reshape', 'tile', 'repeat', 'flip', 'fliplr', 'flipud', 'transpose', 'swapaxes', 'moveaxis', 'squeeze',
           'expand_dims', 'ravel', 'split', 'array_split', 'hsplit', 'vsplit', 'broadcast_to', 'rot90', 'delete',
           'rollaxis', 'diagonal', 'copy', 'permute_dims', 'matrix_transpose']
STRUCTN = ['vstack', 'hstack', 'dstack', 'column_stack', 'stack', 'concatenate', 'concat', 'row_stack']

def _dtarg(x):
    """stand-in with the same dtype behaviour"""
    if isinstance(x, SArr):
        return x.dt if x.ndim else np.zeros((), x.dt)
    if isinstance(x, Sym):
        return np.zeros((), x.dt)
    if isinstance(x, (list, tuple)) and any_sym(x):
        return asS(x).dt
    if isinstance(x, type) or callable(x):
        try:
            return norm_dtype(x)
        except TypeError:
            return x
    return x


EXPL = dict(
    result_type=lambda *xs: np.result_type(*[_dtarg(x) for x in xs]), promote_types=lambda a, b: np.promote_types(_dtarg(a), _dtarg(b)),
    can_cast=lambda a, b, casting='safe': np.can_cast(_dtarg(a), _dtarg(b), casting), issubdtype=lambda a, b: np.issubdtype(norm_dtype(a) if not isinstance(a, type) else a, b),
    min_scalar_type=lambda x: np.min_scalar_type(_dtarg(x)),
    array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray, asfarray=lambda x, **k: make(x, float),
    atleast_1d=lambda x: SArr(np.atleast_1d(asS(x).a), asS(x).dt), atleast_2d=lambda x: SArr(np.atleast_2d(asS(x).a), asS(x).dt),
    zeros=create(np.zeros), ones=create(np.ones), empty=create(np.zeros), eye=create(np.eye), identity=create(np.identity),
    full=full, full_like=full_like, zeros_like=zeros_like, ones_like=ones_like, empty_like=zeros_like, arange=np_arange, linspace=np_linspace,
    logspace=fallback('logspace', np.logspace), where=where, diff=diff, append=append, unique=unique, count_nonzero=count_nonzero,
    isclose=isclose_w, allclose=allclose, array_equal=array_equal, convolve=convolve, correlate=correlate, outer=outer, inner=inner,
    vdot=vdot, dot=lambda a, b, out=None: A.dot(a, b), matmul=lambda a, b, **k: A.matmul(a, b), einsum=einsum, tensordot=tensordot,
    searchsorted=searchsorted, digitize=digitize, histogram=histogram, bincount=bincount, cumsum=cumsum,
    cumprod=lambda x, axis=None, dtype=None, **k: asS(x).cumprod(axis, dtype), sinc=sinc, isin=isin, in1d=isin, select=select, choose=choose, pad=np_pad, median=median,
    trapz=trapz, trapezoid=trapz, average=average, interp=interp, vectorize=vectorize, apply_along_axis=apply_along_axis,
    round=np_round, around=np_round, round_=np_round, fix=lambda x: apply_uf(np.trunc, x), broadcast_arrays=broadcast_arrays, meshgrid=meshgrid,
    roll=roll, insert=insert, triu=triu_tril(np.triu), tril=triu_tril(np.tril), diag=diag, copyto=copyto, put=put, take=take, take_along_axis=take_along_axis,
    min=np_min, max=np_max, amin=np_min, amax=np_max, nanmin=np_min, nanmax=np_max, sum=np_sum, nansum=np_sum, prod=np_prod, mean=np_mean, nanmean=np_mean, var=np_var, std=np_std,
    any=np_any, all=np_all, sometrue=np_any, alltrue=np_all, argmin=np_argmin, argmax=np_argmax, nanargmin=np_argmin, nanargmax=np_argmax, ptp=lambda x, axis=None: asS(x).ptp(axis),
    nonzero=lambda x: A.nonzero(x), flatnonzero=lambda x: A.nonzero(asS(x).ravel())[0], argwhere=argwhere, sort=lambda x, axis=-1, **k: A.sort(x, axis),
    argsort=lambda x, axis=-1, **k: A.argsort(x, axis, **k), clip=lambda x, a_min=None, a_max=None, **k: A.clip(x, k.get('min', a_min), k.get('max', a_max)),
    isreal=isreal, isrealobj=lambda x: asS(x).dt.kind != 'c', iscomplexobj=lambda x: asS(x).dt.kind == 'c', isscalar=isscalar, extract=extract, compress=lambda c, x, axis=None: asS(x).compress(c, axis),
    kron=kron, polyval=polyval, resize=resize, ravel_multi_index=ravel_multi_index, trim_zeros=trim_zeros, ndim=ndim, shape=shape, size=size,
    real=np_real, imag=np_imag, conj=UF(np.conjugate), trace=lambda x, *k: asS(x).trace(*k), abs=UF(np.absolute), real_if_close=lambda x, *k: x,
    nan_to_num=lambda x, **k: x if any_sym(x) else _wrapn(np.nan_to_num(to_native(x), **k)),
    ndarray=SArr, iterable=np.iterable, errstate=np.errstate, seterr=np.seterr, shares_memory=lambda a, b, *k: np.shares_memory(a.a, b.a), may_share_memory=lambda a, b, *k: np.shares_memory(a.a, b.a),
)


class NpModule(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__['random'] = Rand()
        lin = types.ModuleType('numpy.linalg')
        lin.lstsq, lin.norm, lin.inv, lin.pinv, lin.solve = lstsq, lin_norm, lin_inv, lin_pinv, lin_solve
        lin.LinAlgError = np.linalg.LinAlgError
        lin.__getattr__ = lambda n: fallback('np.linalg.' + n, getattr(np.linalg, n))
        self.__dict__['linalg'] = lin
        for n in STRUCT1:
            if hasattr(np, n):
                self.__dict__[n] = struct1(getattr(np, n))
        self.__dict__['repeat'] = lambda x, r, axis=None: SArr(np.repeat(asS(x).a, _sh(r), axis), asS(x).dt)
        self.__dict__['tile'] = lambda x, r: SArr(np.tile(asS(x).a, _sh(r)), asS(x).dt)
        self.__dict__['reshape'] = lambda x, shape=None, order='C', newshape=None, **k: SArr(np.reshape(asS(x).a, _shp(shape if shape is not None else newshape), order=order), asS(x).dt)
        for n in STRUCTN:
            if hasattr(np, n):
                self.__dict__[n] = structn(getattr(np, n))
        self.__dict__.update(EXPL)
        st = types.ModuleType('numpy.lib.stride_tricks')
        st.sliding_window_view = struct1(np.lib.stride_tricks.sliding_window_view)
        st.as_strided = _as_strided
        lib = types.ModuleType('numpy.lib')
        lib.stride_tricks = st
        self.__dict__['lib'] = lib
        poly = types.ModuleType('numpy.polynomial')
        from .libmodels import SPolynomial
        poly.Polynomial = SPolynomial
        pp = types.ModuleType('numpy.polynomial.polynomial')
        pp.Polynomial = SPolynomial
        from . import libmodels as L
        pp.polyfromroots = L.polyfromroots
        pp.polyval = lambda x, c: L.SPolynomial(c)(x)
        poly.polynomial = pp
        self.__dict__['polynomial'] = poly
        self.__dict__['poly'] = lambda r: L.polyfromroots(r)[::-1]
        fft = types.ModuleType('numpy.fft')
        fft.__getattr__ = lambda n: fallback('np.fft.' + n, getattr(np.fft, n))
        self.__dict__['fft'] = fft
        self.__dict__['r_'] = _RC(0)
        self.__dict__['c_'] = _RC(1)
        self.__dict__['s_'] = np.s_
        self.__dict__['index_exp'] = np.index_exp
        self.__dict__['newaxis'] = None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            r = UF(v)
        elif isinstance(v, type) or isinstance(v, (int, float, str, np.dtype)) or v is None:
            r = v
        elif isinstance(v, types.ModuleType):
            r = v
        elif callable(v):
            r = fallback('np.' + name, v)
        else:
            r = v
        self.__dict__[name] = r
        return r


def _shp(s):
    s = _sh(s)
    if isinstance(s, np.ndarray):
        return tuple(int(v) for v in s.reshape(-1)) if s.ndim else int(s)
    if isinstance(s, (list, tuple)):
        return tuple(int(v) for v in s)
    return int(s)


def _as_strided(x, shape=None, strides=None, **k):
    s = asS(x)
    if s.dt.itemsize != s.a.itemsize:
        raise Unsupported('as_strided on %s' % s.dt)
    return SArr(np.lib.stride_tricks.as_strided(s.a, shape, strides), s.dt)


class _RC:
    def __init__(self, ax): self.ax = ax
    def __getitem__(self, key):
        k = key if isinstance(key, tuple) else (key,)
        parts = []
        for x in k:
            if isinstance(x, slice):
                step = x.step
                if isinstance(step, complex):
                    parts.append(np_linspace(x.start or 0, x.stop, int(abs(step))))
                else:
                    parts.append(np_arange(x.start or 0, x.stop, step or 1))
            else:
                p = asS(x)
                parts.append(p if p.ndim else p.reshape(1))
        if self.ax == 0:
            return concatenate(parts)
        return structn(np.column_stack)(parts)
