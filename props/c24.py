"""C24 digital delay and oversampling"""
import math
from .common import case, sparse

BOUNDS = 'any fractional delay in [0, 1] for coefficient orders 0 to 6 (8 thorough), both symbol conventions, any roll-off in [0, 1]; oversampling ratios 1 to 8, orders 0 to 5, any signal in [-3000, 3000] up to 10 samples and any polynomial signal of the interpolation order; signals of 70 to 260 samples with 4 free ones'
OUTSIDE = 'longer signals, higher orders, floating-point rounding beyond the tolerances'


def _sinc(t):
    return 1.0 if t == 0 else math.sin(math.pi * t) / (math.pi * t)


def _dd(h):
    return h.module('CommDspy.digital_delay')


def _idx(n, forward):
    """tap positions relative to the zero-delay tap (documented convention)"""
    if n % 2 == 0:
        return list(range(-(n // 2), n // 2 + 1))
    return list(range(-(n // 2), n // 2 + 2)) if forward else list(range(-(n // 2) - 1, n // 2 + 1))


def _rc(t, beta):
    d = 1 - (2 * beta * t) ** 2
    return math.pi / 4 * _sinc(t) if abs(d) < 1e-7 else _sinc(t) * math.cos(math.pi * beta * t) / d


def _lag(idx, al):
    out = []
    for i in idx:
        v = 1
        for j in idx:
            if j != i:
                v = v * (al - j) / (i - j)
        out.append(v)
    return out


def _coef(method, idx, al, beta):
    if method == 'lagrange':
        return _lag(idx, al)
    return [_sinc(i - al) if method == 'sinc' else _rc(i - al, beta) for i in idx]


def lagrange(h, n, forward):
    al = h.real('alpha', 0, 1)
    c = _dd(h).dig_delay_lagrange_coeffs(n, al, forward)
    ix = _idx(n, forward)
    h.eq(h.np.shape(c), [n + 1], 'one coefficient per point')
    for k in range(n + 1):
        s, r = 0, 1
        for q, i in enumerate(ix):
            s = s + c[q] * i ** k
        for _ in range(k):
            r = r * al
        h.eq(s, r, 'monomial of degree %d is reproduced at every delay' % k, tol=1e-6)


def lag_points(h, n, forward):
    """high orders: any signal value at every point, delays from a set, exact basis polynomials"""
    al = h.pick('al', [0.25, 0.5, 0.75, 0.125, 0.9375])
    x = h.reals('x', n + 1, -1, 1)
    c = _dd(h).dig_delay_lagrange_coeffs(n, al, forward)
    h.eq(h.np.shape(c), [n + 1], 'one coefficient per point')
    ref = _lag(_idx(n, forward), al)
    s = 0
    for q in range(n + 1):
        s = s + (c[q] - ref[q]) * x[q]
    h.eq(s, 0, 'interpolation of any samples', tol=1e-6)


def zero_delay(h, n, forward, method):
    z = h.pick('zero', [0, 0.0])
    f = {'lagrange': _dd(h).dig_delay_lagrange_coeffs, 'sinc': _dd(h).dig_delay_sinc_coeffs, 'rcos': _dd(h).dig_delay_rcos_coeffs}[method]
    ix = _idx(n, forward)
    ref = h.np.array([1.0 if i == 0 else 0.0 for i in ix])
    if method == 'rcos':
        for b in (0, 0.25, 0.5, 0.3, 1):
            h.eq(f(n, z, forward, beta=b), ref, 'identity at zero delay (roll-off %s)' % b, tol=1e-9)
        h.eq(f(n, z, forward), ref, 'identity at zero delay', tol=1e-9)
    else:
        h.eq(f(n, z, forward), ref, 'identity at zero delay', tol=1e-9)
        if forward:
            h.eq(f(n, z), ref, 'forward is the default', tol=1e-9)


def sinc(h, n, forward):
    al = h.real('alpha', 0, 1)
    c = _dd(h).dig_delay_sinc_coeffs(n, al, forward)
    ix = _idx(n, forward)
    h.eq(h.np.shape(c), [n + 1], 'one coefficient per point')
    for q, i in enumerate(ix):
        h.check(h.is_finite(c[q]), 'finite')
        h.eq(c[q], h.np.sinc(i - al), 'sinc at the distance to the point', tol=1e-9)


def rcos(h, n, forward, beta):
    al = h.real('alpha', 0, 1)
    b = h.real('beta', 0, 1) if beta == 'any' else beta
    c = _dd(h).dig_delay_rcos_coeffs(n, al, forward, beta=b)
    np = h.np
    ix = _idx(n, forward)
    h.eq(np.shape(c), [n + 1], 'one coefficient per point')
    h.observe(c)
    for q, i in enumerate(ix):
        t = i - al
        d = 1 - (2 * b * t) ** 2
        h.check(h.is_finite(c[q]), 'finite')
        h.check(h.or_(np.abs(d) < 0.001, np.abs(c[q] * d - np.sinc(t) * np.cos(math.pi * b * t)) < 1e-6), 'raised cosine away from the singular points')


def rcos_points(h, n, forward):
    """concrete delays and roll-offs, including those that hit a singular point"""
    al, b = h.pick('ab', [(0.5, 1.0), (0.5, 0.5), (0.0, 0.5), (0.25, 0.4), (0.25, 2 / 3), (0.75, 2.0 / 7), (1 / 3, 0.3), (0.7, 0.35), (0.5, 1 / 3), (0.2, 0.625), (0.875, 0)])
    c = _dd(h).dig_delay_rcos_coeffs(n, al, forward, beta=b)
    h.eq(c, h.np.array([_rc(i - al, b) for i in _idx(n, forward)]), 'raised cosine at the distance to the point', tol=1e-6)


def over(h, method, osr, order, n, beta=0.0, kind='real'):
    x = h.reals('x', n, -3000, 3000) if kind == 'real' else h.choice('x', n, [-1, 2], dtype=int)
    kw = dict(beta=beta) if method == 'rcos' and beta is not None else {}
    y, t2, t1 = h.cd.digital_oversample(x, osr, order, method, **kw)
    pre, post = order // 2, order // 2 + order % 2
    m = n - pre - post
    h.eq(h.np.shape(y), [m * osr], 'number of samples')
    h.eq(h.np.shape(t2), [m * osr], 'one instant per sample')
    ix = _idx(order, True)
    ref = []
    for k in range(m):
        for p in range(osr):
            if p == 0:
                ref.append(x[k + pre])
            else:
                c = _coef(method, ix, p / osr, beta or 0)
                s = 0
                for q, i in enumerate(ix):
                    s = s + c[q] * x[k + pre + i]
                ref.append(s)
    h.eq(y[::osr], x[pre:pre + m], 'the original samples are kept', tol=1e-9)
    h.eq(y, h.np.array(ref, dtype=float), 'every sample interpolates at its delay', tol=1e-6)
    h.eq(t2, h.np.array([i / osr for i in range(m * osr)]), 'time axis', tol=1e-9)
    h.eq(t1[:m], h.np.array([float(i) for i in range(m)]), 'old time axis', tol=1e-9)


def poly(h, osr, order, n):
    """a polynomial of the interpolation order is continued exactly on the returned time axis"""
    co = h.reals('c', order + 1, -1, 1)

    def val(t):
        r = 0
        for k in range(order + 1):
            r = r + co[k] * t ** k
        return r
    x = h.np.array([val(float(i - n // 2)) for i in range(n)], dtype=float)
    y, t2, t1 = h.cd.digital_oversample(x, osr, order, 'lagrange')
    pre = order // 2
    for i in range((n - order) * osr):
        h.eq(y[i], val(float(t2[i]) + pre - n // 2), 'polynomial at the returned instant', tol=1e-5)


def unknown(h, osr):
    x = h.reals('x', 6, -3000, 3000)
    m = h.pick('m', ['cubic', '', 'Sinc', 'lagrange', 'sinc', 'rcos'])
    h.check(h.raises(lambda: h.cd.digital_oversample(x, osr, 2, m)) == (m in ('cubic', '', 'Sinc')), 'unknown methods are rejected')


big = sparse(globals())


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for n in range(0, 9 if th else 7):
        for fw in (True, False):
            cs.append(case('lagrange n=%d forward=%s' % (n, fw), 'lagrange', n=n, forward=fw))
            cs.append(case('sinc n=%d forward=%s' % (n, fw), 'sinc', n=n, forward=fw))
            for m in ('lagrange', 'sinc', 'rcos'):
                cs.append(case('%s zero delay n=%d forward=%s' % (m, n, fw), 'zero_delay', n=n, forward=fw, method=m))
            cs.append(case('rcos points n=%d forward=%s' % (n, fw), 'rcos_points', n=n, forward=fw))
            if n <= (6 if th else 3):
                for be in [0.5, 1.0, 0.0] + ([0.3] if n <= 2 or th else []):
                    cs.append(case('rcos n=%d forward=%s beta=%s' % (n, fw, be), 'rcos', n=n, forward=fw, beta=be))
            if n <= (3 if th else 2):
                cs.append(case('rcos n=%d forward=%s any roll-off' % (n, fw), 'rcos', n=n, forward=fw, beta='any'))
    for n in (8, 9, 10, 12) + ((11, 14, 16) if th else ()):
        for fw in (True, False):
            cs.append(case('lagrange sum n=%d forward=%s' % (n, fw), 'lag_points', n=n, forward=fw))
            cs.append(case('lagrange zero delay n=%d forward=%s' % (n, fw), 'zero_delay', n=n, forward=fw, method='lagrange'))
    for osr, order, n in [(o, k, k + 2) for o in (1, 2, 3, 4, 5, 7, 8) for k in range(0, 8) if (o, k) not in ((4, 0), (2, 3))] + [(1, 2, 5), (2, 1, 6), (2, 2, 6), (3, 2, 6), (4, 3, 7), (2, 4, 8), (4, 0, 3), (8, 1, 4), (3, 5, 8), (2, 3, 4), (2, 10, 14), (16, 2, 4), (3, 9, 11)] + ([(5, 4, 9), (8, 3, 8), (2, 6, 10), (3, 8, 12)] if th else []):
        for m in ('lagrange', 'sinc', 'rcos'):
            if order == 0 and m == 'lagrange':
                pass
            for be in ([0.0, 0.5, None, 0.25, 1.0] if m == 'rcos' else [None]):
                cs.append(case('oversample %s x%d order %d beta=%s' % (m, osr, order, be), 'over', method=m, osr=osr, order=order, n=n, beta=be))
        if order:
            cs.append(case('polynomial x%d order %d' % (osr, order), 'poly', osr=osr, order=order, n=n))
    cs.append(case('oversample integers', 'over', method='lagrange', osr=2, order=2, n=4, kind='int'))
    for osr in (2, 4):
        cs.append(case('unknown method x%d' % osr, 'unknown', osr=osr))
    for osr, order, n in [(2, 3, 150), (3, 2, 260), (4, 4, 70)]:
        for m in ('lagrange', 'sinc', 'rcos'):
            cs.append(case('long oversample %s x%d order %d n=%d' % (m, osr, order, n), 'big', what='over', method=m, osr=osr, order=order, n=n, beta=0.5 if m == 'rcos' else None))
    return cs
