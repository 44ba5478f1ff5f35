"""Models of the scipy / sklearn / matplotlib / math entry points the package uses.

Each model is validated on every run: every path of every case is replayed with a solver-produced input on the
real libraries and all observed values are compared (a difference is reported as an engine fault, never as a pass)."""
import math
import types
from math import comb
import numpy as np
from . import sym as S
from .sym import Sym, Unsupported, INT, FLOAT, cast, wrap_scalar
from . import sarr as A
from .sarr import SArr, asS, make, native, apply_uf, from_native, _wrapn


def _np():
    from . import npshim
    return npshim


# ------------------------------------------------------------------ polynomials
def polyfromroots(roots):
    roots = asS(roots)
    if len(roots) == 0:
        return from_native(np.ones(1))
    n = native(roots)
    if n is not None:
        return _wrapn(np.polynomial.polynomial.polyfromroots(n))
    c = [1.0]
    for r in roots.astype(float).a:
        nxt = [0.0] * (len(c) + 1)
        for i, v in enumerate(c):
            nxt[i + 1] = S.add_el(nxt[i + 1], v, FLOAT)
            nxt[i] = S.add_el(nxt[i], S.mul_el(S.neg_el(r, FLOAT), v, FLOAT), FLOAT)
        c = nxt
    return make([wrap_scalar(v, FLOAT) for v in c])


class SPolynomial:
    def __init__(self, coef, *a, **k):
        self.coef = asS(coef)
        if self.coef.dt.kind in 'biu':
            self.coef = self.coef.astype(float)

    @classmethod
    def fromroots(cls, roots, **k):
        if np.size(np.asarray(asS(roots).shape)) and asS(roots).shape[0] == 0:
            raise ValueError('Coefficient array is empty')
        return cls(polyfromroots(roots))

    def __call__(self, x):
        r = 0.0
        for c in list(self.coef)[::-1]:
            r = r * x + c
        return r

    def degree(self):
        return len(self.coef) - 1

    def __len__(self):
        return len(self.coef)

    def __mul__(self, o):
        if isinstance(o, SPolynomial):
            return SPolynomial(_np().convolve(self.coef, o.coef))
        return SPolynomial(self.coef * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return SPolynomial(self.coef / o)

    def __getattr__(self, name):
        raise Unsupported('Polynomial.' + name)


# ------------------------------------------------------------------ scipy.signal
def lfilter(b, a, x, axis=-1, zi=None):
    N = _np()
    N.used_models.add('scipy.signal.lfilter')
    b, a, x = asS(b), asS(a), asS(x)
    b = b if b.ndim else b.reshape(1)
    a = a if a.ndim else a.reshape(1)
    if b.ndim != 1 and a.ndim != 1:
        raise ValueError('object of too small depth for desired array')
    if x.ndim == 0:
        raise ValueError('x must be at least 1-D')
    args = [b, a, x]
    if zi is not None:
        zi = asS(zi)
        args.append(zi)
    dt = np.result_type(*[v.dt for v in args])
    if dt.char not in 'fdgFDGO':
        raise NotImplementedError("input type '%s' not supported" % dt)
    if dt.kind != 'f':
        if not any(N.any_sym(v) for v in args):
            from scipy import signal
            r = signal.lfilter(native(b), native(a), native(x), axis, None if zi is None else native(zi))
            return _wrapn(r)
        raise Unsupported('lfilter on %s' % dt)
    if not any(N.any_sym(v) for v in args):
        from scipy import signal
        r = signal.lfilter(native(b), native(a), native(x), axis, None if zi is None else native(zi))
        return _wrapn(r)
    bl = [cast(v, b.dt, FLOAT) for v in b.a]
    al = [cast(v, a.dt, FLOAT) for v in a.a]
    # normalise by a[0]
    z = S.cmp_el('eq', al[0], 0.0)
    if z is True or (isinstance(z, Sym) and bool(z)):
        raise ValueError('a[0] is zero')
    if not (not isinstance(al[0], Sym) and al[0] == 1.0):
        a0 = al[0]
        bl = [S.div_el(v, a0) for v in bl]
        al = [1.0] + [S.div_el(v, a0) for v in al[1:]]
    fir = len(al) == 1
    K = max(len(al), len(bl))
    bl += [0.0] * (K - len(bl))
    al += [0.0] * (K - len(al))
    m = np.moveaxis(x.a, axis, -1)
    zs = None
    if zi is not None:
        if zi.ndim != x.ndim:
            raise ValueError('object of too small depth for desired array')
        exp = list(x.shape)
        exp[axis] = K - 1
        if list(zi.shape) != exp:
            ok = all(p == q or p == 1 for i, (p, q) in enumerate(zip(zi.shape, exp)) if i != axis % x.ndim) and zi.shape[axis] == K - 1
            if not ok:
                raise ValueError('Unexpected shape for zi: expected %s, found %s.' % (tuple(exp), zi.shape))
        zs = np.moveaxis(np.broadcast_to(zi.a, exp), axis, -1)
    out = np.empty(m.shape, dtype=object)
    zf = np.empty(m.shape[:-1] + (K - 1,), dtype=object)
    add, mul = S.add_el, S.mul_el
    for i in np.ndindex(*m.shape[:-1]):
        st = [0.0] * (K - 1) if zs is None else [cast(v, zi.dt, FLOAT) for v in zs[i]]
        for n in range(m.shape[-1]):
            v = cast(m[i + (n,)], x.dt, FLOAT)
            y = mul(bl[0], v, FLOAT) if not _is0(bl[0]) else 0.0
            if K > 1:
                y = add(y, st[0], FLOAT)
            out[i + (n,)] = y
            new = []
            for k in range(1, K):
                t = st[k] if k < K - 1 else 0.0
                if not _is0(bl[k]):
                    t = add(t, mul(bl[k], v, FLOAT), FLOAT)
                if not _is0(al[k]):
                    t = add(t, mul(al[k], y, FLOAT), FLOAT, sub=True)
                new.append(t)
            st = new
        for k in range(K - 1):
            zf[i + (k,)] = st[k]
    o = SArr(np.moveaxis(out, -1, axis), FLOAT)
    if zi is None:
        return o
    return o, SArr(np.moveaxis(zf, -1, axis), FLOAT)


def _is0(v):
    return not isinstance(v, Sym) and v == 0


def sig_convolve(in1, in2, mode='full', method='auto'):
    N = _np()
    a, b = asS(in1), asS(in2)
    if not N.any_sym(a) and not N.any_sym(b):
        from scipy import signal
        return _wrapn(signal.convolve(native(a), native(b), mode, method))
    if a.ndim == b.ndim == 0:
        return a * b
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported('convolve of matrices')
    if a.size == 0 or b.size == 0:
        return from_native(np.array([]))
    full = N.convolve(a, b, 'full')
    n, m = len(a), len(b)
    if mode == 'full':
        return full
    if mode == 'valid':
        lo = min(n, m)
        return full[lo - 1:max(n, m)]
    if mode == 'same':                       # centred, size of in1
        st = (len(full) - n) // 2
        return full[st:st + n]
    raise ValueError("Acceptable mode flags are 'valid', 'same', or 'full'.")


def sig_correlate(in1, in2, mode='full', method='auto'):
    N = _np()
    a, b = asS(in1), asS(in2)
    if not N.any_sym(a) and not N.any_sym(b):
        from scipy import signal
        return _wrapn(signal.correlate(native(a), native(b), mode, method))
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported('correlate of matrices')
    return sig_convolve(a, b[::-1], mode)


def bilinear(b, a, fs=1.0):
    N = _np()
    b, a = asS(b), asS(a)
    if not N.any_sym(a) and not N.any_sym(b) and not N.any_sym(fs):
        from scipy import signal
        return _wrapn(signal.bilinear(native(b), native(a), fs=float(fs)))
    N.used_models.add('scipy.signal.bilinear')
    al = [cast(v, a.dt, FLOAT) for v in a.a]
    bl = [cast(v, b.dt, FLOAT) for v in b.a]
    fs2 = (fs * 2.0)
    fe = A._el(fs2) if not isinstance(fs2, Sym) else fs2
    D, Nn = len(al) - 1, len(bl) - 1
    M = max(D, Nn)
    pw = [1.0]
    for _ in range(M):
        pw.append(S.mul_el(pw[-1], fe, FLOAT))

    def side(c, deg):
        out = []
        for j in range(M + 1):
            val = 0.0
            for i in range(deg + 1):
                w = 0
                for k in range(i + 1):
                    l = j - k
                    if 0 <= l <= M - i:
                        w += comb(i, k) * comb(M - i, l) * (-1) ** k
                if w:
                    val = S.add_el(val, S.mul_el(float(w), S.mul_el(c[deg - i], pw[i], FLOAT), FLOAT), FLOAT)
            out.append(val)
        return out
    bp, ap = side(bl, Nn), side(al, D)
    z = S.cmp_el('eq', ap[0], 0.0)
    if z is True or (isinstance(z, Sym) and bool(z)):
        raise Unsupported('bilinear: zero leading denominator')
    bp = [S.div_el(v, ap[0]) for v in bp]
    ap = [1.0] + [S.div_el(v, ap[0]) for v in ap[1:]]
    # scipy.signal.normalize drops leading numerator zeros
    while len(bp) > 1 and not isinstance(bp[0], Sym) and abs(bp[0]) <= 1e-14:
        bp.pop(0)
    return make([wrap_scalar(v, FLOAT) for v in bp]), make([wrap_scalar(v, FLOAT) for v in ap])


def welch(x, fs=1.0, window='hann', nperseg=None, noverlap=None, nfft=None, detrend='constant', return_onesided=True, scaling='density', axis=-1, average='mean'):
    """averaged modified periodogram of a real symbolic vector: one quadratic form per frequency"""
    N = _np()
    from scipy import signal
    x = asS(x)
    conv = lambda v: N.to_native(v)
    if not N.any_sym(x) and not N.any_sym(fs):
        return _wrapn(signal.welch(native(x), conv(fs), conv(window), conv(nperseg), conv(noverlap), conv(nfft), conv(detrend), conv(return_onesided), scaling, axis, average))
    N.used_models.add('scipy.signal.welch')
    if x.ndim != 1 or x.dt.kind == 'c' or N.any_sym(fs) or average != 'mean' or not return_onesided or detrend not in ('constant', False, None) or N.any_sym(window):
        raise Unsupported('welch with these arguments')
    fs = float(conv(fs))
    n = x.shape[0]
    if isinstance(window, (str, tuple)):
        nperseg = 256 if nperseg is None else int(nperseg)
        nperseg = min(nperseg, n)
        win = signal.get_window(window, nperseg)
    else:
        win = np.asarray(conv(window), dtype=float)
        nperseg = len(win)
    if nperseg > n:
        raise ValueError('window is longer than the signal')
    nfft = nperseg if nfft is None else int(conv(nfft))
    if nfft < nperseg:
        raise ValueError('nfft must be greater than or equal to nperseg.')
    noverlap = nperseg // 2 if noverlap is None else int(conv(noverlap))
    if noverlap >= nperseg:
        raise ValueError('noverlap must be less than nperseg.')
    m = np.diag(win)
    if detrend == 'constant':
        m = win[:, None] * (np.eye(nperseg) - 1.0 / nperseg)
    X = np.fft.rfft(m, nfft, axis=0)
    sc = 1.0 / (fs * (win * win).sum()) if scaling == 'density' else 1.0 / win.sum() ** 2
    f = np.fft.rfftfreq(nfft, 1 / fs)
    el = [cast(v, x.dt, FLOAT) for v in x.a]
    starts = range(0, n - nperseg + 1, nperseg - noverlap)

    def lin(c, st):
        v = 0.0
        for i, w in enumerate(c):
            if abs(w) > 1e-14:
                v = S.add_el(v, S.mul_el(float(w), el[st + i], FLOAT), FLOAT)
        return v
    out = []
    for k in range(len(f)):
        w = sc / len(starts) * (1.0 if k == 0 or (nfft % 2 == 0 and k == len(f) - 1) else 2.0)
        tot = 0.0
        for st in starts:
            for c in (X[k].real, X[k].imag):
                v = lin(c, st)
                tot = S.add_el(tot, S.mul_el(v, v, FLOAT), FLOAT)
        out.append(wrap_scalar(S.mul_el(w, tot, FLOAT), FLOAT))
    return _wrapn(f), make(out)


def periodogram(x, fs=1.0, window='boxcar', nfft=None, detrend='constant', return_onesided=True, scaling='density', axis=-1):
    x = asS(x)
    if isinstance(window, (str, tuple)):
        from scipy import signal
        window = signal.get_window(window, x.shape[-1])
    return welch(x, fs, window, None, 0, nfft, detrend, return_onesided, scaling, axis)


def lfiltic(b, a, y, x=None):
    b, a, y = asS(b), asS(a), asS(y)
    n_, m_ = len(a) - 1, len(b) - 1
    K = max(n_, m_)
    y = list(asS(y).astype(float)) + [0.0] * K
    x = ([] if x is None else list(asS(x).astype(float))) + [0.0] * K
    a0 = a[0]
    zi = []
    for m in range(K):
        v = 0.0
        for k in range(m_ - m):
            v = v + (b[m + 1 + k] / a0) * x[k]
        for k in range(n_ - m):
            v = v - (a[m + 1 + k] / a0) * y[k]
        zi.append(v)
    return make(zi)


# ------------------------------------------------------------------ scipy.linalg
def hankel(c, r=None):
    c = asS(c).ravel()
    if r is None:
        r = _np().zeros_like(c)
    else:
        r = asS(r).ravel()
    dt = np.result_type(c.dt, r.dt)
    vals = np.concatenate([c.astype(dt).a, r.astype(dt).a[1:]])
    n, m = len(c), len(r)
    o = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            o[i, j] = vals[i + j]
    return SArr(o, dt)


def toeplitz(c, r=None):
    c = asS(c).ravel()
    r = c if r is None else asS(r).ravel()
    dt = np.result_type(c.dt, r.dt)
    cv, rv = c.astype(dt).a, r.astype(dt).a
    o = np.empty((len(cv), len(rv)), dtype=object)
    for i in range(len(cv)):
        for j in range(len(rv)):
            o[i, j] = cv[i - j] if i >= j else rv[j - i]
    return SArr(o, dt)


# ------------------------------------------------------------------ scipy.interpolate
def _pp(x, kind, bc='not-a-knot'):
    """coefficients [power, interval, sample] of the interpolating spline through unit samples at the knots x"""
    from scipy import interpolate
    e = np.eye(len(x))
    if kind == 'linear':
        c = np.zeros((2, len(x) - 1, len(x)))
        for j in range(len(x) - 1):
            c[1, j, j] = 1.0
            c[0, j, j], c[0, j, j + 1] = -1.0 / (x[j + 1] - x[j]), 1.0 / (x[j + 1] - x[j])
        return c
    if kind == 'cubic':
        return interpolate.CubicSpline(x, e, axis=0, bc_type=bc).c
    raise Unsupported('interpolation of kind %r' % (kind,))


def _spline_eval(x, y, kind, t, bc='not-a-knot', inside=None):
    """exact piecewise polynomial through (x, y) evaluated at t; x constant, y and t may be symbolic"""
    N = _np()
    N.used_models.add('scipy.interpolate spline')
    xn = native(x)
    if xn is None or xn.ndim != 1 or not (np.diff(xn) > 0).all():
        raise Unsupported('interpolation over symbolic or unsorted knots')
    if y.ndim != 1:
        raise Unsupported('interpolation of matrices')
    xn = xn.astype(float)
    c = _pp(xn, kind, bc)
    c = np.where(np.abs(c) < 1e-13 * np.abs(c).max(), 0.0, c)
    yl = [cast(v, y.dt, FLOAT) for v in y.a]
    m = c.shape[1]
    pieces = {}

    def piece(j):
        if j not in pieces:
            r = []
            for k in range(c.shape[0]):
                v = 0.0
                for i, w in enumerate(c[k, j]):
                    if w:
                        v = S.add_el(v, S.mul_el(float(w), yl[i], FLOAT), FLOAT)
                r.append(v)
            pieces[j] = r
        return pieces[j]
    ts = asS(t)

    def one(v):
        v = cast(v, ts.dt, FLOAT)
        if inside is not None:
            out = S.cmp_el('lt', v, float(xn[0])), S.cmp_el('gt', v, float(xn[-1]))
            if any(g is True or (isinstance(g, Sym) and bool(g)) for g in out):
                return inside()
        if not isinstance(v, Sym):
            lo = hi = int(min(max(np.searchsorted(xn, v, 'right') - 1, 0), m - 1))
        else:
            lo, hi = 0, m - 1
            while lo < hi and S.cmp_el('ge', v, float(xn[lo + 1])) is True:
                lo += 1
            while hi > lo and S.cmp_el('lt', v, float(xn[hi])) is True:
                hi -= 1
        r = None
        for j in range(lo, hi + 1):
            d = S.add_el(v, float(xn[j]), FLOAT, sub=True)
            q = 0.0
            for k in piece(j):
                q = S.add_el(S.mul_el(q, d, FLOAT), k, FLOAT)
            if r is None:
                r = q
            else:
                g = S.cmp_el('ge', v, float(xn[j]))
                r = S.ite_el(g.guard() if isinstance(g, Sym) else g, q, r, FLOAT)
        return r
    if ts.ndim == 0:
        return wrap_scalar(one(ts.a[()]), FLOAT)
    o = np.empty(ts.shape, dtype=object)
    for i in np.ndindex(*ts.shape):
        o[i] = one(ts.a[i])
    return SArr(o, FLOAT)


class interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        self.x, self.y, self.kind, self.fill, self.be = asS(x), asS(y), kind, fill_value, bounds_error
        if self.kind == 3:
            self.kind = 'cubic'

    def __call__(self, t):
        N = _np()
        if not N.any_sym(self.x) and not N.any_sym(self.y) and not N.any_sym(t):
            from scipy import interpolate
            f = interpolate.interp1d(native(self.x), native(self.y), kind=self.kind, fill_value=self.fill if self.fill is not None else np.nan, bounds_error=self.be)
            return _wrapn(f(N.to_native(t)))
        if self.fill == 'extrapolate':
            inside = None
        elif self.be or (self.be is None and self.fill is None):
            def inside():
                raise ValueError('A value in x_new is outside the interpolation range.')
        else:
            fv = float('nan') if self.fill is None else self.fill
            if not isinstance(fv, (int, float)):
                raise Unsupported('interp1d fill value')
            inside = lambda: float(fv)
        return _spline_eval(self.x, self.y, self.kind, t, inside=inside)


class SCubicSpline:
    def __init__(self, x, y, axis=0, bc_type='not-a-knot', extrapolate=None):
        self.x, self.y, self.bc, self.ex = asS(x), asS(y), bc_type, extrapolate

    def __call__(self, t, nu=0, extrapolate=None):
        if nu or extrapolate is not None or self.ex not in (None, True):
            raise Unsupported('CubicSpline options')
        return _spline_eval(self.x, self.y, 'cubic', t, bc=self.bc)


def make_interp_spline(x, y, k=3, t=None, bc_type=None, axis=0, check_finite=True):
    if k not in (1, 3) or t is not None or bc_type is not None:
        raise Unsupported('make_interp_spline options')
    x, y = asS(x), asS(y)
    return lambda u: _spline_eval(x, y, 'cubic' if k == 3 else 'linear', u)


# ------------------------------------------------------------------ modules
def _mod(name, native_mod, entries):
    m = types.ModuleType(name)
    m.__dict__.update(entries)

    def ga(n):
        if n.startswith('__'):
            raise AttributeError(n)
        import importlib
        base = importlib.import_module(native_mod)
        v = getattr(base, n)
        if isinstance(v, types.ModuleType) or isinstance(v, type) or not callable(v):
            return v
        return _np().fallback(native_mod + '.' + n, v)
    m.__getattr__ = ga
    return m


def _stub(name):
    class Stub:
        def __init__(self, *a, **k):
            pass

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            raise Unsupported('%s.%s' % (name, n))
    Stub.__name__ = name
    return Stub


def _uf1(uf, native_f):
    def f(x, *a):
        if isinstance(x, (Sym, SArr)) and not a:
            v = x._one() if isinstance(x, SArr) else x
            if isinstance(v, Sym):
                return apply_uf(uf, v)
            return native_f(v)
        return native_f(x, *a)
    return f


def math_module():
    m = types.ModuleType('math')
    for n in dir(math):
        if n.startswith('__'):
            continue
        m.__dict__[n] = getattr(math, n)
    for n, uf in dict(sqrt=np.sqrt, sin=np.sin, cos=np.cos, tan=np.tan, exp=np.exp, log10=np.log10, log2=np.log2, fabs=np.fabs, isnan=np.isnan, isinf=np.isinf, isfinite=np.isfinite).items():
        m.__dict__[n] = _uf1(uf, getattr(math, n))
    m.log = _uf1(np.log, math.log)

    def ceil(x):
        return x.__ceil__() if isinstance(x, (Sym, SArr)) else math.ceil(x)

    def floor(x):
        return x.__floor__() if isinstance(x, (Sym, SArr)) else math.floor(x)
    m.ceil, m.floor = ceil, floor
    m.trunc = lambda x: x.__trunc__() if isinstance(x, (Sym, SArr)) else math.trunc(x)
    m.pow = lambda x, y: apply_uf(np.power, x * 1.0, y) if isinstance(x, Sym) or isinstance(y, Sym) else math.pow(x, y)

    def prod(xs, *, start=1):
        for x in xs:
            start = start * x
        return start
    m.prod = prod
    m.fsum = lambda xs: sum(xs, 0.0)
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)) if isinstance(a, Sym) or isinstance(b, Sym) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    return m


class SRidge:
    def __init__(self, alpha=1.0, fit_intercept=True, **k):
        self.alpha, self.fi = alpha, fit_intercept

    def fit(self, a, b):
        from . import npshim as N
        a, b = N.asS(a), N.asS(b)
        na = N.native(a)
        if na is None:
            self.coef_ = S.ctx[0].env('ridge')(a, b, self.alpha, self.fi)
            return self
        # constant matrix: the solution of the (centred) regularised normal equations is linear in b
        N.used_models.add('sklearn.linear_model.Ridge')
        na = na.astype(float)
        ac = na - na.mean(axis=0) if self.fi else na
        al = float(N.to_native(self.alpha))
        g = np.linalg.solve(ac.T @ ac + al * np.eye(na.shape[1]), ac.T)
        self.coef_ = N.A.dot(N.from_native(g), b)
        mean_b = N.A.dot(N.from_native(np.full(na.shape[0], 1 / na.shape[0])), b)
        self.intercept_ = N.apply_uf(np.subtract, mean_b, N.A.dot(N.from_native(na.mean(axis=0)), self.coef_)) if self.fi else 0.0
        return self

    def predict(self, a):
        from . import npshim as N
        return N.apply_uf(np.add, N.A.dot(N.asS(a), self.coef_), self.intercept_)


def build():
    """shim modules keyed by the name the package imports"""
    from .npshim import NpModule
    npm = NpModule()
    sig = _mod('scipy.signal', 'scipy.signal', dict(lfilter=lfilter, convolve=sig_convolve, correlate=sig_correlate, fftconvolve=lambda a, b, mode='full', axes=None: sig_convolve(a, b, mode), oaconvolve=lambda a, b, mode='full', axes=None: sig_convolve(a, b, mode),
                                                    bilinear=bilinear, lfiltic=lfiltic, welch=welch, periodogram=periodogram))
    lin = _mod('scipy.linalg', 'scipy.linalg', dict(hankel=hankel, toeplitz=toeplitz, lstsq=lambda a, b, *k, **kw: npm.linalg.lstsq(a, b), solve=lambda a, b, *k, **kw: npm.linalg.solve(a, b), inv=npm.linalg.inv, pinv=npm.linalg.pinv, norm=npm.linalg.norm))
    itp = _mod('scipy.interpolate', 'scipy.interpolate', dict(interp1d=interp1d, CubicSpline=SCubicSpline, make_interp_spline=make_interp_spline))
    sp = types.ModuleType('scipy')
    sp.signal, sp.linalg, sp.interpolate = sig, lin, itp
    sub = {'scipy.signal': sig, 'scipy.linalg': lin, 'scipy.interpolate': itp}
    for n in ('special', 'fft', 'stats', 'ndimage', 'optimize', 'spatial', 'integrate'):
        sub['scipy.' + n] = _mod('scipy.' + n, 'scipy.' + n, {})
        setattr(sp, n, sub['scipy.' + n])
    mods = {'numpy': npm, 'scipy': sp, 'math': math_module()}
    mods.update(sub)
    mods['numpy.linalg'] = npm.linalg
    mods['numpy.random'] = npm.random
    mods['numpy.lib'] = npm.lib
    mods['numpy.lib.stride_tricks'] = npm.lib.stride_tricks
    mods['numpy.polynomial'] = npm.polynomial
    mods['numpy.polynomial.polynomial'] = npm.polynomial.polynomial
    mods['numpy.fft'] = npm.fft
    sk = types.ModuleType('sklearn')
    skl = types.ModuleType('sklearn.linear_model')
    skl.Ridge, skl.Lasso = SRidge, _stub('Lasso')
    skl.__getattr__ = lambda n: _stub(n)
    sk.linear_model = skl
    mods['sklearn'], mods['sklearn.linear_model'] = sk, skl
    mp = types.ModuleType('matplotlib')
    mpp, mpc = types.ModuleType('matplotlib.pyplot'), types.ModuleType('matplotlib.colors')
    mpp.__getattr__ = lambda n: _stub(n)
    mpc.LinearSegmentedColormap = _stub('LinearSegmentedColormap')
    mpc.__getattr__ = lambda n: _stub(n)
    mp.pyplot, mp.colors = mpp, mpc
    mods['matplotlib'], mods['matplotlib.pyplot'], mods['matplotlib.colors'] = mp, mpp, mpc
    return mods
