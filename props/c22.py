"""C22 pulse shaping"""
import math
from .common import case, sparse

BOUNDS = 'any signal in [-3000, 3000] (also integers; [-8, 8] for the pulse sweeps and the zero-ISI claim) up to 8 symbols, any initial memory, oversampling 1-8, span 1-4 (two symbols and the full pulse: oversampling 1-16 and 32, spans 1-10), roll-off from a set including 0, 1 and values that put a sample on a singular point, and any roll-off in [0, 1] for the pulses themselves and the zero-ISI claim; the listed splits into chunks, down to single symbols; signals of 70 to 260 symbols with 4 free ones'
OUTSIDE = 'longer signals, other spans and oversampling ratios, random jitter (C33), floating-point rounding beyond the tolerances'


def _sinc(t):
    return 1.0 if t == 0 else math.sin(math.pi * t) / (math.pi * t)


def _ref(pulse, osr, span, beta):
    """documented pulse on the grid -span .. span (exclusive), written independently; limits by series at the singular points"""
    out = []
    for k in range(-osr * span, osr * span):
        t = k / osr
        if pulse == 'rect':
            out.append(1.0 if -osr <= 2 * k < osr else 0.0)
        elif pulse == 'sinc':
            out.append(_sinc(t))
        elif pulse == 'rcos':
            d = 1 - (2 * beta * t) ** 2
            out.append(math.pi / 4 * _sinc(t) if abs(d) < 1e-7 else _sinc(t) * math.cos(math.pi * beta * t) / d)
        elif pulse == 'rrc':
            if k == 0:
                out.append(1 + beta * (4 / math.pi - 1))
                continue
            d = 1 - (4 * beta * t) ** 2
            if abs(d) < 1e-7:
                q = math.pi / (4 * beta)
                out.append(beta / math.sqrt(2) * ((1 + 2 / math.pi) * math.sin(q) + (1 - 2 / math.pi) * math.cos(q)))
            else:
                out.append((math.sin(math.pi * t * (1 - beta)) + 4 * beta * t * math.cos(math.pi * t * (1 + beta))) / (math.pi * t * d))
        else:
            out.append(1.0 if k == -osr * span else 0.0)
    return out


def _conv(x, p, osr, z):
    """superposition of one pulse per symbol plus what the memory still holds"""
    out = []
    for m in range(len(x) * osr):
        s = z[m] if m < len(z) else 0
        for k in range(len(x)):
            j = m - k * osr
            if 0 <= j < len(p) and p[j] != 0:
                s = s + x[k] * p[j]
        out.append(s)
    return out


def _lst(v):
    return [v[i] for i in range(v.shape[0])]


def _kw(pulse, beta):
    return dict(pulse=pulse, beta=beta) if pulse in ('rcos', 'rrc') else dict(pulse=pulse)


def superpose(h, pulse, osr, span, n, beta=0.5, zi=False, kind='real'):
    x = h.reals('x', n, -3000, 3000) if kind == 'real' else h.ints('x', n, -3, 3)
    L = osr * span * 2 - 1
    z = h.reals('z', L, -8, 8) if zi else None
    y, zo = h.cd.channel.pulse_shape(x, osr=osr, span=span, zi=z, **_kw(pulse, beta))
    p = _ref(pulse, osr, span, beta)
    ref = _conv(_lst(x), p, osr, _lst(z) if zi else [])
    h.eq(h.np.shape(y), [n * osr], 'osr samples per symbol')
    h.eq(y, h.np.array(ref, dtype=float), 'superposition of one pulse per symbol', tol=1e-6)
    h.eq(h.np.shape(zo), [L], 'length of the returned memory')


def sweep(h, pulse, beta, grid):
    """the whole pulse of any first symbol, for a list of oversampling ratios and spans"""
    s = h.reals('x', 2, -8, 8)
    for osr, span in grid:
        x = h.np.concatenate([s, h.np.zeros(2 * span - 1)])
        y, zo = h.cd.channel.pulse_shape(x, osr=osr, span=span, **_kw(pulse, beta))
        p = _ref(pulse, osr, span, beta)
        ref = []
        for m in range((2 * span + 1) * osr):
            ref.append((p[m] * s[0] if m < len(p) else 0) + (p[m - osr] * s[1] if 0 <= m - osr < len(p) else 0))
        h.eq(y, h.np.array(ref, dtype=float), 'every symbol appears as one copy of the pulse (osr=%d, span=%d)' % (osr, span), tol=1e-6)
        h.eq(zo, h.np.zeros(osr * span * 2 - 1), 'nothing is left in the memory (osr=%d, span=%d)' % (osr, span), tol=1e-6)


def chunks(h, pulse, osr, span, n, cuts, beta=0.5):
    x = h.reals('x', n, -3000, 3000)
    kw = _kw(pulse, beta)
    whole, zw = h.cd.channel.pulse_shape(x, osr=osr, span=span, **kw)
    z, parts = None, []
    for lo, hi in zip([0] + cuts, cuts + [n]):
        y, z = h.cd.channel.pulse_shape(x[lo:hi], osr=osr, span=span, zi=z, **kw)
        parts.append(y)
    h.eq(h.np.concatenate(parts), whole, 'chunks join without a seam', tol=1e-7)
    h.eq(z, zw, 'same memory at the end', tol=1e-7)


def no_isi(h, pulse, osr, span, n, beta):
    """symbol-rate samples after the delay of the pulse are the symbols"""
    x = h.reals('x', n, -8, 8)
    full = h.np.concatenate([x, h.np.zeros(span)])
    b = h.real('beta', 0, 1) if beta == 'any' else beta
    y, zo = h.cd.channel.pulse_shape(full, osr=osr, span=span, **_kw(pulse, b))
    h.eq(y[osr * span::osr], x, 'sampling at the symbol instants recovers the symbols', tol=1e-5)


def hold(h, osr, span, n):
    x = h.reals('x', n, -3000, 3000)
    full = h.np.concatenate([x, h.np.zeros(span)])
    y, zo = h.cd.channel.pulse_shape(full, osr=osr, span=span, pulse='rect')
    s = osr * span - osr // 2
    for k in range(n):
        for j in range(osr):
            h.eq(y[s + k * osr + j], x[k], 'symbol %d is held for one symbol period' % k, tol=1e-9)
    h.eq(h.cd.channel.pulse_shape(full, osr=osr, span=span)[0], y, 'the rectangular pulse is the default', tol=1e-9)


def impulse(h, osr, span, n):
    x = h.reals('x', n, -3000, 3000)
    y, zo = h.cd.channel.pulse_shape(x, osr=osr, span=span, pulse='imp')
    ref = []
    for k in range(n):
        ref += [x[k]] + [0] * (osr - 1)
    h.eq(y, h.np.array(ref, dtype=float), 'only up-sampled', tol=1e-9)


def shape_any_beta(h, pulse, osr, span):
    """the pulse itself, any roll-off"""
    b = h.real('beta', 0, 1)
    f = h.cd.channel.rcos_pulse if pulse == 'rcos' else h.cd.channel.rrc_pulse
    p = f(osr, span, b)
    np = h.np
    h.eq(np.shape(p), [2 * osr * span], 'pulse length')
    h.observe(p)
    for i in range(2 * osr * span):
        k = i - osr * span
        t = k / osr
        h.check(h.is_finite(p[i]), 'finite at every sample')
        if pulse == 'rcos':
            if k == 0:
                h.eq(p[i], 1, 'one at the centre', tol=1e-9)
            elif k % osr == 0:
                h.eq(p[i], 0, 'zero at the other symbol instants', tol=1e-6)
            else:
                d = 1 - (2 * b * t) ** 2
                h.check(h.or_(np.abs(d) < 0.001, np.abs(p[i] * d - _sinc(t) * np.cos(math.pi * t * b)) < 1e-6), 'raised cosine away from the singular points')
        else:
            if k == 0:
                h.eq(p[i], 1 + b * (4 / math.pi - 1), 'centre', tol=1e-9)
            else:
                d = (1 - (4 * b * t) ** 2) * math.pi * t
                num = np.sin(math.pi * t * (1 - b)) + 4 * b * t * np.cos(math.pi * t * (1 + b))
                h.check(h.or_(np.abs(d) < 0.003, np.abs(p[i] * d - num) < 1e-6), 'root raised cosine away from the singular points')


def beta_zero_one(h, pulse, osr, span, beta):
    """pulse functions with a given roll-off, and with the grid handed in"""
    b = h.pick('beta', [beta, float(beta)])
    ref = _ref(pulse, osr, span, beta)
    t = h.np.array([k / osr for k in range(-osr * span, osr * span)])
    for p in ([h.cd.channel.rcos_pulse(osr, span, b), h.cd.channel.rcos_pulse(osr, span, b, t)] if pulse == 'rcos' else
              [h.cd.channel.rrc_pulse(osr, span, b), h.cd.channel.rrc_pulse(osr, span, b, t)]):
        h.eq(p, h.np.array(ref), 'documented pulse', tol=1e-6)


def memory_pulse(h, pulse, osr, span):
    k = h.pick('d', [-2, -1, 0, 1, 2])
    x = h.reals('x', 2, -8, 8)
    L = osr * span * 2 - 1 + k
    if L < 0:
        return
    h.check(h.rejects(lambda: h.cd.channel.pulse_shape(x, osr=osr, span=span, pulse=pulse, zi=h.np.zeros(L))) == (k != 0), 'memory of the wrong length is rejected')


def unknown(h):
    x = h.reals('x', 2, -8, 8)
    nm = h.pick('pulse', ['gauss', 'Rect', '', 'rect'])
    h.check(h.rejects(lambda: h.cd.channel.pulse_shape(x, osr=2, span=1, pulse=nm)) == (nm != 'rect'), 'unknown pulses are rejected')


PULSES = ['rect', 'sinc', 'rcos', 'rrc', 'imp']


big = sparse(globals())


def cases(tier):
    th = tier == 'thorough'
    cs = []
    grid = [(1, 1), (2, 1), (2, 2), (3, 2), (4, 2), (8, 1), (1, 4)] + ([(4, 4), (8, 2), (5, 3), (7, 4), (16, 2)] if th else [])
    for pu in PULSES:
        for osr, span in grid:
            for be in ([0.5, 0.0, 1.0, 0.25, 0.3] if pu in ('rcos', 'rrc') else [0.5]) + ([0.1, 0.75, 1 / 3, 0.14] if th and pu in ('rcos', 'rrc') else []):
                cs.append(case('%s osr=%d span=%d beta=%s' % (pu, osr, span, be), 'superpose', pulse=pu, osr=osr, span=span, n=(4 if osr * span < 9 else 3) + (2 if th else 0), beta=be))
        for n in range(1, 9):
            cs.append(case('%s n=%d' % (pu, n), 'superpose', pulse=pu, osr=2 + n % 3, span=1 + n % 2, n=n, zi=n % 2 == 0))
        cs.append(case('%s memory' % pu, 'superpose', pulse=pu, osr=2, span=2, n=3, zi=True))
        cs.append(case('%s memory longer than signal' % pu, 'superpose', pulse=pu, osr=3, span=2, n=1, zi=True))
        cs.append(case('%s integers' % pu, 'superpose', pulse=pu, osr=2, span=1, n=3, kind='int'))
        for osr, span, n, cuts in [(2, 2, 6, [2]), (3, 1, 5, [1, 2]), (1, 2, 5, [3]), (4, 2, 4, [1, 3]), (2, 3, 5, [1, 2, 3, 4]), (1, 5, 6, [1, 2, 5]), (3, 4, 4, [1, 3]), (2, 4, 7, [3, 5]), (8, 1, 3, [1, 2])]:
            cs.append(case('%s chunks osr=%d span=%d cuts=%s' % (pu, osr, span, cuts), 'chunks', pulse=pu, osr=osr, span=span, n=n, cuts=cuts))
        cs.append(case('%s wrong memory' % pu, 'memory_pulse', pulse=pu, osr=2, span=1))
        cs.append(case('%s wrong memory 2' % pu, 'memory_pulse', pulse=pu, osr=1, span=2))
    for osr, span, be in [(7, 4, 0.14), (9, 3, 0.18), (14, 2, 0.28), (3, 2, 1 / 4), (6, 2, 0.3)]:
        for pu in ('rcos', 'rrc'):
            cs.append(case('%s singular osr=%d beta=%s' % (pu, osr, be), 'superpose', pulse=pu, osr=osr, span=span, n=2, beta=be))
            cs.append(case('%s function osr=%d beta=%s' % (pu, osr, be), 'beta_zero_one', pulse=pu, osr=osr, span=span, beta=be))
    for pu in ('rcos', 'rrc'):
        for be in (0, 1, 0.5):
            cs.append(case('%s function osr=4 beta=%s' % (pu, be), 'beta_zero_one', pulse=pu, osr=4, span=3, beta=be))
        for osr, span in [(1, 2), (2, 2), (4, 1), (3, 2 if pu == 'rcos' else 1)] + ([(3, 2), (4, 3), (8, 2), (5, 2)] if th else []):
            cs.append(case('%s any roll-off osr=%d span=%d' % (pu, osr, span), 'shape_any_beta', pulse=pu, osr=osr, span=span))
    for osr, span in [(1, 2), (2, 2), (4, 2), (3, 1)] + ([(8, 3), (5, 4)] if th else []):
        cs.append(case('sinc no ISI osr=%d span=%d' % (osr, span), 'no_isi', pulse='sinc', osr=osr, span=span, n=4, beta=0))
        for be in (0.0, 0.5, 1.0, 0.25, 0.35):
            cs.append(case('rcos no ISI osr=%d span=%d beta=%s' % (osr, span, be), 'no_isi', pulse='rcos', osr=osr, span=span, n=4, beta=be))
        cs.append(case('hold osr=%d span=%d' % (osr, span), 'hold', osr=osr, span=span, n=4))
        cs.append(case('impulse osr=%d span=%d' % (osr, span), 'impulse', osr=osr, span=span, n=4))
    for osr, span in [(1, 2), (2, 1)] + ([(2, 2), (3, 2)] if th else []):
        cs.append(case('rcos no ISI any roll-off osr=%d span=%d' % (osr, span), 'no_isi', pulse='rcos', osr=osr, span=span, n=2, beta='any'))
    for pu in PULSES:
        for be in ([0.5, 0.0, 1.0, 0.2] if pu in ('rcos', 'rrc') else [0.5]):
            cs.append(case('%s sweep osr beta=%s' % (pu, be), 'sweep', pulse=pu, beta=be, grid=[(o, 1) for o in range(1, 17)] + [(32, 1)]))
            cs.append(case('%s sweep span beta=%s' % (pu, be), 'sweep', pulse=pu, beta=be, grid=[(2, q) for q in range(1, 11)] + [(3, 5), (4, 8), (5, 4), (6, 3), (7, 2), (9, 3), (10, 2), (16, 4)]))
    cs.append(case('unknown pulse', 'unknown'))
    for pu in PULSES:
        for osr, span, n in [(2, 2, 150), (4, 2, 70), (1, 3, 260)]:
            cs.append(case('%s long osr=%d span=%d n=%d' % (pu, osr, span, n), 'big', what='superpose', pulse=pu, osr=osr, span=span, n=n))
        cs.append(case('%s long chunks' % pu, 'big', what='chunks', pulse=pu, osr=2, span=2, n=140, cuts=[64, 65, 129]))
        cs.append(case('%s long blocks' % pu, 'big', what='chunks', pulse=pu, osr=2, span=2, n=530, cuts=[257, 258]))
    return cs
