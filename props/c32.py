"""C32 power spectrum analyser"""
from .common import case

BOUNDS = 'any real signal of 7 to 24 samples (matrix ones too; integer ones with two free samples) in windows of 3 to 13 samples, six windows, overlaps 0 to 0.9, sampling rates of 1 to 1e9, every mode, both side-band modes, fixed load, full scale and bandwidths; default bandwidth for any signal of 1 to 15 samples; fixed complex signals'
OUTSIDE = 'longer signals; symbolic sampling rates and loads; complex signals other than the fixed ones; rounding of the FFT'
ASSUMPTIONS = 'scipy.signal.welch is the averaged modified periodogram of mean-free segments (validated on every run against scipy by replaying witnesses); windows are taken from scipy.signal.get_window'
MODES = ('dB', 'dBm', 'dBm/Hz', 'dBuv', 'dBuv/sqrt(Hz)', 'dBc', 'dBFs')
FIXED = [1.0, -0.5, 2.0, 0.25, -1.5, 1.25, 0.75, -2.0, 0.5, 1.5, -1.0, 0.125, 1.75, -0.25, -1.25, 2.25]


def _win(name, n):
    from scipy.signal import get_window
    return [float(v) for v in get_window(name, n)]


def _factor(mode, r, rbw, band, obw, full):
    if obw is not None:
        mode = 'dBc'
    b = rbw if obw is None else obw
    return {'dB': 1.0, 'dBm': 1000.0 / r * rbw / band, 'dBm/Hz': 1000.0 / r / band, 'dBuv': 1e12 * rbw / band, 'dBuv/sqrt(Hz)': 1e12 / band, 'dBc': b / band, 'dBFs': b / band / full ** 2}[mode], mode == 'dBc'


def _ceil_pow2(x):
    n = 1
    while n < x:
        n *= 2
    return n


def _spectrum(x, w, nfft, step):
    """mean over the segments of |DFT(window * mean-free segment)|^2 / sum(window^2), inner bins; x any numbers"""
    import math
    N = len(w)
    starts = list(range(0, len(x) - N + 1, step))
    e = sum(v * v for v in w)
    out = []
    for k in range(nfft // 2 + 1):
        c = [w[i] * math.cos(2 * math.pi * k * i / nfft) for i in range(N)]
        s = [w[i] * math.sin(2 * math.pi * k * i / nfft) for i in range(N)]
        mc, ms = sum(c) / N, sum(s) / N
        t = 0
        for st in starts:
            a = sum(((c[i] - mc) * x[st + i] for i in range(N)), 0)
            b = sum(((s[i] - ms) * x[st + i] for i in range(N)), 0)
            t = t + a * a + b * b
        out.append(t * (1.0 / (e * len(starts))))
    return out


def spec(h, n, fs, rbw, mode, window, overlap, osr, kw, kind):
    import math
    np = h.np
    if kind == 'int':
        v = h.ints('s', 2, -2, 2)
        s = h.np.array([int(4 * FIXED[i]) for i in range(n)])
        s[1] = v[0]
        s[n - 2] = v[1]
        x = [s[i] for i in range(n)]
    elif kind == 'mat':
        s = h.reals('s', (2, n // 2), -2, 2)
        x = [s[i // (n // 2), i % (n // 2)] for i in range(n // 2 * 2)]
    else:
        s = h.reals('s', n, -2, 2, hint=FIXED)
        x = [s[i] for i in range(n)]
    psa = h.module('CommDspy.psa').psa
    rel = mode == 'dBc' or kw.get('obw') is not None
    pw = sum((v * v for v in x), 0) * (1.0 / len(x))
    if rel:
        h.assume(pw >= 1e-3)
    f, p = psa(s, fs, rbw=rbw, mode=mode, window=window, overlap=overlap, osr=osr, **kw)
    r_ = rbw if rbw is not None else max(fs / 1000, 2 * fs / len(x))
    N = int(1.9 * math.ceil(fs / r_))
    nfft = _ceil_pow2(N * osr)
    band = fs if kw.get('sb_mode') == 'SSB' else fs / 2
    fac, _ = _factor(mode, kw.get('r', 50), r_, band, kw.get('obw'), kw.get('fullscale', 1))
    ref = _spectrum(x, _win(window, N), nfft, N - int(math.floor(N * overlap)))
    h.eq(np.shape(f), [nfft // 2 + 1], 'one frequency per bin up to half the rate')
    h.eq(np.shape(p), [nfft // 2 + 1], 'one power per frequency')
    for k in range(nfft // 2 + 1):
        h.eq(f[k] / fs, k / nfft, 'frequency of bin %d' % k, tol=1e-9)
        v = p[k] * (1.0 / fac)
        if rel:
            rms = np.sqrt(np.mean(np.reshape(s, -1) * np.reshape(s, -1)))
            v = (v * rms) * rms
        h.eq(v, ref[k] * (0.5 if k in (0, nfft // 2) else 1), 'power in bin %d' % k, tol=1e-6)


def parseval(h, n, fs, mode, osr, kw):
    """rectangular window, one segment: the integrated density is the mean power about the mean"""
    np = h.np
    s = h.reals('s', n, -2, 2, hint=FIXED)
    rbw = fs * 1.9 / n * 1.0000001
    while int(1.9 * _up(fs / rbw)) > n:
        rbw = rbw * 1.01
    N = int(1.9 * _up(fs / rbw))
    s = s[:N]
    f, p = h.module('CommDspy.psa').psa(s, fs, rbw=rbw, mode=mode, window='boxcar', overlap=0, osr=osr, **kw)
    df = f[1] - f[0]
    m = sum((s[i] for i in range(N)), 0) * (1.0 / N)
    pw = sum(((s[i] - m) * (s[i] - m) for i in range(N)), 0) * (1.0 / N)
    unit = {'dBm/Hz': 1000.0 / kw.get('r', 50), 'dBuv/sqrt(Hz)': 1e12}[mode]
    tot = sum((p[k] for k in range(p.shape[0])), 0) * (df / unit)
    h.eq(tot, pw * (0.5 if kw.get('sb_mode') == 'SSB' else 1), 'the integrated density is the power of the signal', tol=1e-6)


def _up(v):
    import math
    return math.ceil(v)


def scale(h, n, mode, fs, rbw):
    """a gain on the signal is a gain squared on the spectrum, and none relative to the carrier; never negative"""
    np = h.np
    s = h.reals('s', n, -2, 2, hint=FIXED)
    g = h.pick('g', [-3.0, 0.5, 10.0])
    if mode == 'dBc':
        h.assume(sum((s[i] * s[i] for i in range(n)), 0) >= 0.01)
    psa = h.module('CommDspy.psa').psa
    f, p = psa(s, fs, rbw=rbw, mode=mode)
    f2, p2 = psa(s * g, fs, rbw=rbw, mode=mode)
    e = 1 if mode == 'dBc' else g * g
    u = 1e12 if 'uv' in mode else 1
    for k in range(p.shape[0]):
        if mode == 'dBc':
            rms = np.sqrt(np.mean(s * s))
            rms2 = np.sqrt(np.mean((s * g) * (s * g)))
            h.eq((p2[k] * rms2) * rms2, g * g * ((p[k] * rms) * rms), 'a gain does not change the level relative to the carrier: bin %d' % k, tol=1e-6)
        else:
            h.eq(p2[k] * (1 / u), e * p[k] * (1 / u), 'gain squared in bin %d' % k, tol=1e-6)


def unknown(h):
    s = h.reals('s', 8, -2, 2)
    psa = h.module('CommDspy.psa').psa
    m = h.pick('m', ['dbm', 'dBW', '', 'psd'])
    h.check(h.rejects(psa, s, 4.0, rbw=1.0, mode=m), 'an unknown mode is rejected')


def cplx(h, mode, fs, rbw, n):
    """two-sided spectrum of a complex signal"""
    import cmath
    import math
    a = h.pick('a', [0.5, 1 + 1j, -2j, 0.25 - 1.5j])
    x = [cmath.exp(2j * math.pi * i * 0.13) * FIXED[i] for i in range(n)]
    x[2] = x[2] + a
    f, p = h.module('CommDspy.psa').psa(h.np.array(x), fs, rbw=rbw, mode=mode)
    N = int(1.9 * math.ceil(fs / rbw))
    nfft = _ceil_pow2(N * 4)
    w = _win('blackmanharris', N)
    step = N - int(math.floor(N * 0.75))
    starts = list(range(0, n - N + 1, step))
    e = sum(v * v for v in w)
    fac, rel = _factor(mode, 50, rbw, fs, None, 1)
    if rel:
        fac = fac / (sum(abs(v) ** 2 for v in x) / n)
    h.eq(h.np.shape(p), [nfft], 'two-sided spectrum')
    for k in range(nfft):
        t = 0.0
        for st in starts:
            seg = x[st:st + N]
            m = sum(seg) / N
            t += abs(sum(w[i] * (seg[i] - m) * cmath.exp(-2j * math.pi * k * i / nfft) for i in range(N))) ** 2
        h.eq(h.np.real(p[k]) / fac, t / (e * len(starts)), 'power in bin %d' % k, tol=1e-6)


def cases(tier):
    th = tier == 'thorough'
    cs = []

    def add(n, fs, rbw, mode, window='blackmanharris', overlap=0.75, osr=4, kind='real', **kw):
        cs.append(case('spec-n%d-%g-%s-%s-%s-%s-o%d%s%s' % (n, fs, rbw, mode, window, overlap, osr, '' if kind == 'real' else '-' + kind, ''.join('-%s%s' % i for i in sorted(kw.items()))), 'spec',
                       n=n, fs=fs, rbw=rbw, mode=mode, window=window, overlap=overlap, osr=osr, kw=kw, kind=kind))

    for mode in MODES:
        add(10, 8.0, 2.0, mode)
        add(10, 8.0, 2.0, mode, sb_mode='SSB')
        add(9, 1e9, 3.1e8, mode, r=75, fullscale=2.5)
        add(12, 10.0, 2.0, mode, window='hann', overlap=0.5, osr=2)
        if mode != 'dBc':
            add(7, 4.0, 1.5, mode, window='hann', overlap=0.5, osr=2, kind='int')
    add(12, 6.0, 2.0, 'dBm', kind='mat')
    add(12, 6.0, 2.0, 'dBc', kind='mat')
    add(9, 4.0, 1.0, 'dBm', obw=3.0)
    add(9, 4.0, 1.0, 'dBFs', obw=3.0, fullscale=4)
    add(9, 4.0, 1.0, 'dBc', obw=0.5, sb_mode='SSB')
    add(12, 4.0, 1.0, 'dBm/Hz', window='boxcar', overlap=0)
    add(16, 4.0, 1.0, 'dBm/Hz', window='hamming', overlap=0.9)
    add(16, 4.0, 1.0, 'dB', window='flattop', overlap=0.3, osr=1)
    add(14, 7.0, 1.0, 'dBuv', window='blackman', overlap=0.5, osr=3)
    add(24, 3.0, 1.0, 'dB', overlap=0.6)
    for n in (1, 2, 3, 4, 5, 7, 8, 11, 15):
        add(n, 5.0, None, 'dB' if n < 3 else 'dBm')
    for n in (6, 9, 13) + ((20, 31) if th else ()):
        for mode in ('dBm/Hz', 'dBuv/sqrt(Hz)'):
            cs.append(case('parseval-%d-%s' % (n, mode), 'parseval', n=n, fs=1e3, mode=mode, osr=4, kw={}))
        cs.append(case('parseval-%d-ssb' % n, 'parseval', n=n, fs=2.0, mode='dBm/Hz', osr=2, kw=dict(r=10, sb_mode='SSB')))
    for mode in MODES:
        cs.append(case('scale-%s' % mode, 'scale', n=9, mode=mode, fs=4.0, rbw=1.0))
    for mode in MODES:
        cs.append(case('complex-%s' % mode, 'cplx', mode=mode, fs=6.0, rbw=1.5, n=13))
    cs.append(case('unknown', 'unknown'))
    if th:
        for mode in MODES:
            add(40, 16.0, 1.0, mode)
            add(30, 5e3, 1e3, mode, window='nuttall', overlap=0.4, osr=8)
    return cs
