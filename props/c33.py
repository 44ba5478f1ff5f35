"""C33 random jitter"""
from .common import case

BOUNDS = 'any jitter draws within 4 standard deviations, any jitter of 0.02 to 0.2 UI (fixed values from 1e-6 to 1 UI for longer signals), rectangular, sinc, raised-cosine, root-raised-cosine and impulse shaping at oversampling 1 to 8 of any 3 to 6 symbols (fixed symbols for up to 20), any carried memory'
OUTSIDE = 'more symbols; displacements beyond 0.8 UI; rounding of the interpolation'
ASSUMPTIONS = 'scipy.interpolate.interp1d(kind=cubic) is the not-a-knot cubic spline, extrapolated by its end pieces; the spline coefficients are taken from scipy'
SYM = [1.0, -3.0, 3.0, -1.0, 1.0, 1.0, -1.0, 3.0, -3.0, 1.0, 3.0, -1.0, -1.0, 1.0, -3.0, 3.0, 1.0, -1.0, 3.0, -3.0]


def _wave(h, y, osr, t, lo, hi):
    """cubic spline through the samples y at k/osr, at the instant t known to lie in [lo, hi]"""
    import numpy
    from scipy.interpolate import CubicSpline
    n = len(y)
    c = CubicSpline(numpy.arange(n) / osr, numpy.eye(n), axis=0).c
    c[abs(c) < 1e-12 * abs(c).max()] = 0
    js = range(max(min(int((lo * osr) // 1), n - 2), 0), max(min(int((hi * osr) // 1), n - 2), 0) + 1)
    r = None
    for j in js:
        d = t - j / osr
        v = 0
        for k in range(4):
            v = v * d + sum((float(w) * y[i] for i, w in enumerate(c[k, j]) if w), 0)
        r = v if r is None else h.ite(t >= j / osr, v, r)
    return r


def jitter(h, pulse, osr, span, n, sigma, beta, free, mem):
    np = h.np
    if free:
        s = h.reals('s', n, -3000, 3000)
    else:
        s = np.array(SYM[:n])
    zi = h.reals('z', osr * span * 2 - 1, -1, 1) if mem else None
    f = h.module('CommDspy.channel.pulse_shaping').pulse_shape
    y, zo = f(s, osr=osr, span=span, pulse=pulse, beta=beta, zi=zi)
    h.check(len(h.drawn) == 0, 'no jitter, no draws')
    if sigma is None:
        sg = h.real('sigma', 0.02, 0.2)
        top = 0.8
    else:
        sg = sigma
        top = 4 * sigma
    yj, zj = f(s, osr=osr, span=span, pulse=pulse, beta=beta, rj_sigma=sg, zi=zi)
    h.check(len(h.drawn) == n, 'one draw per symbol')
    h.check(all(k == 'n' for k, _ in h.drawn), 'Gaussian draws')
    h.check(not h.reseeded, 'the generator is not re-seeded')
    if len(h.drawn) != n:
        return
    g = [v for _, v in h.drawn]
    h.eq(np.shape(yj), [n * osr], 'one output per up-sampled instant')
    h.eq(np.shape(zj), [osr * span * 2 - 1], 'memory of the pulse')
    for i in range(osr * span * 2 - 1):
        h.eq(zj[i], zo[i], 'jitter leaves the memory alone: %d' % i, tol=1e-9)
    yl = [y[i] for i in range(n * osr)]
    for k in range(n * osr):
        t = k / osr + sg * g[k // osr]
        h.eq(yj[k], _wave(h, yl, osr, t, k / osr - top, k / osr + top), 'sample %d is the waveform at its displaced instant' % k, tol=1e-5)


def still(h, pulse, osr, n, sigma):
    """without jitter, and with draws of zero, nothing moves"""
    np = h.np
    s = h.reals('s', n, -3000, 3000)
    f = h.module('CommDspy.channel.pulse_shaping').pulse_shape
    y, _ = f(s, osr=osr, span=2, pulse=pulse)
    y0, _ = f(s, osr=osr, span=2, pulse=pulse, rj_sigma=0.0)
    h.check(len(h.drawn) == 0, 'no jitter, no draws')
    yj, _ = f(s, osr=osr, span=2, pulse=pulse, rj_sigma=sigma)
    for _, v in h.drawn:
        h.assume(v == 0)
    for k in range(n * osr):
        h.eq(y0[k], y[k], 'no jitter at zero sigma: sample %d' % k)
        h.eq(yj[k], y[k], 'zero draws leave sample %d in place' % k, tol=1e-7)


def cases(tier):
    th = tier == 'thorough'
    cs = []

    def add(pulse, osr, span, n, sigma, beta=0.5, free=False, mem=False):
        cs.append(case('jit-%s-o%d-s%d-n%d-%s-b%s%s%s' % (pulse, osr, span, n, sigma, beta, '-free' if free else '', '-mem' if mem else ''), 'jitter', pulse=pulse, osr=osr, span=span, n=n, sigma=sigma, beta=beta, free=free, mem=mem))

    for pulse in ('rect', 'sinc', 'rcos', 'rrc', 'imp'):
        add(pulse, 4, 2, 4, 0.05)
        add(pulse, 2, 1, 5, 0.1)
        add(pulse, 8, 1, 3, 0.03)
        add(pulse, 2, 1, 4, 0.05, free=True)
    add('rect', 1, 2, 6, 0.1)
    add('rcos', 1, 3, 5, 0.2)
    add('sinc', 4, 2, 4, None)
    add('rect', 3, 1, 4, None)
    add('rcos', 3, 2, 4, 0.1, beta=0.25)
    add('rcos', 4, 2, 4, 0.1, beta=1.0)
    add('rcos', 2, 2, 3, 0.1, free=True, mem=True)
    add('rect', 3, 1, 3, 0.05, free=True, mem=True)
    add('rect', 2, 1, 20, 0.05)
    add('sinc', 4, 4, 12, 0.02)
    for sg in (1e-6, 1e-4, 1e-3, 0.005, 0.01, 0.3, 0.5, 1.0):
        add('sinc', 2, 1, 4, sg)
        add('rect', 4, 1, 3, sg)
    if th:
        add('rcos', 4, 4, 20, 0.05)
        add('rrc', 8, 2, 8, 0.1)
        add('rcos', 4, 1, 6, 0.05, free=True)
        add('sinc', 2, 2, 5, None, free=True)
    for pulse in ('rect', 'rcos'):
        for osr, n, sg in [(2, 4, 0.1), (4, 3, 0.5)]:
            cs.append(case('still-%s-%d-%d-%s' % (pulse, osr, n, sg), 'still', pulse=pulse, osr=osr, n=n, sigma=sg))
    return cs
