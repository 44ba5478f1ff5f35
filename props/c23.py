"""C23 additive noise"""
from .common import case

BOUNDS = 'any signal in [-8, 8] (also integers and matrices) of 2 to 5 samples, memories up to longer than the signal, any SNR in [-20, 60] dB and fixed SNRs, any noise draws; channels with fixed and free taps'
OUTSIDE = 'the quality of the random generator itself; longer signals; constant-zero power estimates beyond the tolerance'

SNRS = [-10, 0, 3.0, 10, 20.0, 27]


def _lst(v):
    return [v[i] for i in range(v.shape[0])]


def _sig(h, shape, kind):
    return h.reals('x', shape, -8, 8) if kind == 'real' else h.choice('x', shape, [-1, 2], dtype=int)


def _snr(h, snr):
    return h.real('snr', -20, 60) if snr == 'any' else snr


def _noise(h, out, clean, n):
    """checks that the disturbance is one common factor times one independent Gaussian draw per sample; returns it"""
    h.eq(h.np.shape(out), list(h.np.shape(clean)), 'same shape')
    h.check(len(h.drawn) == n, 'one draw per sample')
    h.check(all(k == 'n' for k, _ in h.drawn), 'Gaussian draws')
    h.check(not h.reseeded, 'the generator is not reseeded')
    u = [v for _, v in h.drawn]
    if len(u) != n:
        return None, None
    d = _lst((out - clean).reshape(-1))
    return u, d


def additive(h, shape, snr, kind='real'):
    """out - signal = common factor * own draw: zero mean, independent, additive"""
    x = _sig(h, shape, kind)
    n = 1
    for s in shape:
        n *= s
    out = h.cd.channel.awgn(x, _snr(h, snr))
    u, d = _noise(h, out, x, n)
    if u is None:
        return
    for i in range(1, n):
        h.eq(d[i] * u[0], d[0] * u[i], 'sample %d carries its own draw with the common factor' % i, tol=1e-6)


def level(h, shape, snr, kind='real'):
    """variance of the noise times the linear SNR is the mean power up to the sampling correction"""
    x = _sig(h, shape, kind)
    n = 1
    for s in shape:
        n *= s
    q = _snr(h, snr)
    out = h.cd.channel.awgn(x, q)
    u, d = _noise(h, out, x, n)
    if u is None:
        return
    h.assume(h.and_(*[v == 1 for v in u]))
    p = 0
    for v in _lst(x.reshape(-1)):
        p = p + v * v
    p = p / n
    lin = 10 ** (q / 10)
    if snr != 'any':
        scale = d[0] * d[0] * lin
        h.check(scale >= p * (1 - 1e-6) - 1e-6, 'noise variance is at least the signal power over the SNR')
        h.check(scale <= p * n / (n - 1) * (1 + 1e-6) + 1e-6, 'noise variance is at most the corrected power over the SNR')
    else:
        s2 = d[0] * d[0]
        h.check(s2 * lin >= p * (1 - 1e-6) - 1e-6, 'noise variance is at least the signal power over the SNR')
        h.check(s2 * lin <= p * n / (n - 1) * (1 + 1e-6) + 1e-6, 'noise variance is at most the corrected power over the SNR')


def fixed_signal(h, x, snr):
    """given signals, any SNR"""
    n = len(x)
    q = _snr(h, snr)
    xs = h.np.array(x)
    out = h.cd.channel.awgn(xs, q)
    u, d = _noise(h, out, xs, n)
    if u is None:
        return
    for i in range(1, n):
        h.eq(d[i] * u[0], d[0] * u[i], 'sample %d carries its own draw with the common factor' % i, tol=1e-6)
    h.assume(u[0] == 1)
    p = sum(v * v for v in x) / n
    lin = 10 ** (q / 10)
    s2 = d[0] * d[0]
    h.check(s2 * lin >= p * (1 - 1e-6), 'noise variance is at least the signal power over the SNR')
    h.check(s2 * lin <= p * n / (n - 1) * (1 + 1e-6), 'noise variance is at most the corrected power over the SNR')


def chan(h, nb, na, n, snr, taps, zi=False):
    """noise after the filter, memory undisturbed"""
    if taps == 'any':
        b = h.reals('b', nb, -2, 2)
        a = h.np.array([1.0] + [0.5, -0.25][:na - 1])
    else:
        b = h.np.array([0.5, 1.0, -0.25, 0.125, 0.75, -0.5][:nb])
        a = h.np.array([2.0, 0.5, -0.25, 0.125, -0.0625][:na])
    x = h.reals('x', n, -8, 8)
    z = h.reals('z', max(nb, na) - 1, -4, 4) if zi else None
    clean, zc = h.cd.channel.awgn_channel(x, b, a, zi=z)
    h.check(len(h.drawn) == 0, 'no SNR, no noise')
    out, zo = h.cd.channel.awgn_channel(x, b, a, snr=snr, zi=z)
    u, d = _noise(h, out, clean, n)
    h.eq(zo, zc, 'memory is that of the noiseless channel', tol=1e-7)
    if u is None:
        return
    for i in range(1, n):
        h.eq(d[i] * u[0], d[0] * u[i], 'sample %d carries its own draw with the common factor' % i, tol=1e-6)


def scaled(h, n, snr, scale):
    """signals far from unit level: normalised quantities"""
    x = h.reals('x', n, -1, 1) * scale
    out = h.cd.channel.awgn(x, snr)
    u, d = _noise(h, out, x, n)
    if u is None:
        return
    h.assume(h.and_(*[v == 1 for v in u]))
    p = 0
    for v in _lst(x):
        p = p + (v / scale) * (v / scale)
    p = p / n
    s2 = (d[0] / scale) * (d[0] / scale) * 10 ** (snr / 10)
    h.check(s2 >= p * (1 - 1e-6) - 1e-6, 'noise variance is at least the signal power over the SNR')
    h.check(s2 <= p * n / (n - 1) * (1 + 1e-6) + 1e-6, 'noise variance is at most the corrected power over the SNR')


def long(h, n, snr, cols=None, chan=False):
    """a long fixed signal, any draws: every sample gets its own draw, all with the same factor"""
    xs = [((7 * i * i + 3 * i) % 13 - 6) / 2 for i in range(n)]
    x = h.np.array(xs)
    if cols:
        x = h.np.reshape(x, (n // cols, cols))
    if chan:
        out, _ = h.cd.channel.awgn_channel(x, h.np.array([1.0]), h.np.array([1.0]), snr=snr)
    else:
        out = h.cd.channel.awgn(x, snr)
    u, d = _noise(h, out, x, n)
    if u is None:
        return
    for i in range(1, n):
        h.eq(d[i] * u[0], d[0] * u[i], 'sample %d carries its own draw with the common factor' % i, tol=1e-6)
    h.assume(u[0] == 1)
    p = sum(v * v for v in xs) / n
    s2 = d[0] * d[0] * 10 ** (snr / 10)
    h.check(s2 >= p * (1 - 1e-6), 'noise variance is at least the signal power over the SNR')
    h.check(s2 <= p * n / (n - 1) * (1 + 1e-6), 'noise variance is at most the corrected power over the SNR')


def chan_level(h, nb, na, n, snr):
    b = h.np.array([0.5, 1.0, -0.25][:nb])
    a = h.np.array([2.0, 0.5, -0.25][:na])
    x = h.reals('x', n, -8, 8)
    clean, zc = h.cd.channel.awgn_channel(x, b, a)
    out, zo = h.cd.channel.awgn_channel(x, b, a, snr=snr)
    u, d = _noise(h, out, clean, n)
    if u is None:
        return
    h.assume(h.and_(*[v == 1 for v in u]))
    p = 0
    for v in _lst(clean):
        p = p + v * v
    p = p / n
    scale = d[0] * d[0] * 10 ** (snr / 10)
    h.check(scale >= p * (1 - 1e-6) - 1e-6, 'noise variance refers to the channel output')
    h.check(scale <= p * n / (n - 1) * (1 + 1e-6) + 1e-6, 'noise variance refers to the channel output (upper)')


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for sh in [(2,), (3,), (4,), (2, 2)] + ([(5,), (2, 3)] if th else []):
        for q in (SNRS if sh != (4,) or th else [0, 10]):
            cs.append(case('additive %s snr=%s' % (sh, q), 'additive', shape=list(sh), snr=q))
            cs.append(case('level %s snr=%s' % (sh, q), 'level', shape=list(sh), snr=q))
        cs.append(case('additive %s any snr' % (sh,), 'additive', shape=list(sh), snr='any'))
    for sh in [(2,), (3,)] + ([(4,)] if th else []):
        cs.append(case('level %s any snr' % (sh,), 'level', shape=list(sh), snr='any'))
    cs.append(case('additive integers', 'additive', shape=[2], snr=10, kind='int'))
    cs.append(case('level integers', 'level', shape=[2], snr=10, kind='int'))
    for i, x in enumerate([[1.0, -1.0], [1.0, 1.0, 1.0, 1.0], [3.0, -1.0, 1.0, -3.0, 1.0, 3.0], [5.0, 5.5, 4.5], [0.0, 0.0, 2.0, 0.0, 0.0]]):
        cs.append(case('signal %d any snr' % i, 'fixed_signal', x=x, snr='any'))
        cs.append(case('signal %d snr=15' % i, 'fixed_signal', x=x, snr=15))
    for nb, na, n, taps, zi in [(2, 1, 3, 'fix', False), (3, 2, 3, 'fix', True), (2, 3, 3, 'fix', False), (1, 1, 2, 'fix', False), (2, 2, 2, 'any', False), (3, 1, 3, 'any', True), (3, 1, 2, 'fix', True), (4, 1, 2, 'fix', True), (6, 1, 3, 'fix', True), (1, 4, 2, 'fix', True), (5, 5, 3, 'fix', False), (5, 5, 4, 'fix', True)]:
        cs.append(case('channel %d/%d %s zi=%s' % (nb, na, taps, zi), 'chan', nb=nb, na=na, n=n, snr=12, taps=taps, zi=zi))
    for nb, na, n, q in [(2, 1, 2, 6), (1, 2, 3, 6), (3, 2, 3, 6), (1, 1, 3, 0), (2, 1, 3, 0.0), (2, 1, 3, -7), (1, 1, 2, 40)]:
        cs.append(case('channel level %d/%d snr=%s' % (nb, na, q), 'chan_level', nb=nb, na=na, n=n, snr=q))
    for sc in (1e-3, 1e3):
        cs.append(case('level of signals up to %g' % sc, 'scaled', n=3, snr=10, scale=sc))
    for n in list(range(2, 17)) + [32, 64, 100]:
        cs.append(case('size %d' % n, 'long', n=n, snr=(n * 7) % 40 - 10))
        cs.append(case('channel size %d' % n, 'long', n=n, snr=(n * 5) % 40 - 10, chan=True))
    for q in range(-30, 62, 4):
        cs.append(case('snr %d' % q, 'long', n=5, snr=q))
        cs.append(case('snr %s' % (q + 0.5), 'long', n=6, snr=q + 0.5, cols=3))
    cs.append(case('long signal', 'long', n=40, snr=15))
    cs.append(case('long matrix', 'long', n=40, snr=15, cols=8))
    cs.append(case('long channel output', 'long', n=40, snr=0, chan=True))
    return cs
