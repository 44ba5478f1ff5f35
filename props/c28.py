"""C28 eye diagram"""
import math
from .common import case

BOUNDS = 'any real signal of up to 12 samples in [-2.5, 2.5] (bin edges included when they are binary fractions, otherwise 1e-9 away from them), 1 to 6 samples per symbol, 1 to 8 bins, ranges 0.75 to 3; 17 to 40 symbols (130 thorough) with up to 6 free samples; every ratio 1 to 12, 16, 20 and 32 and up to 128 bins with 3 free samples; interpolated diagrams by factors 2 and 3 for up to 9 input samples, 1e-6 away from bin edges'
OUTSIDE = 'longer signals; the interpolation itself is decided by C24'


def _counts(h, xs, fs, q, gap):
    """reference histogram of the listed samples"""
    out = [0] * q
    w = 2 * fs / q
    for x in xs:
        if gap:
            for k in range(q + 1):
                h.assume(h.np.abs(x - (-fs + k * w)) >= gap, quick=True)
        for k in range(q):
            lo, hi = -fs + k * w, -fs + (k + 1) * w
            inside = h.and_(x >= lo, (x <= fs) if k == q - 1 else (x < hi))
            out[k] = out[k] + h.ite(inside, 1, 0)
    return out


def _check(h, eye, amp, cols, fs, q, gap, log):
    """cols: for every phase the samples that belong to it"""
    np = h.np
    osr = len(cols)
    h.eq(np.shape(eye), [q, 2 * osr], 'one row per bin, two unit intervals')
    h.eq(np.shape(amp), [q], 'one amplitude per bin')
    if q > 1:
        h.eq(amp[0], -fs, 'the amplitude axis starts at the lower end of the range', tol=1e-12)
        h.eq(amp[q - 1], fs, 'the amplitude axis ends at the upper end of the range', tol=1e-9)
        for k in range(1, q):
            h.eq(amp[k] - amp[k - 1], 2 * fs / (q - 1), 'the amplitude axis is uniform', tol=1e-9)
    for p in range(osr):
        ref = _counts(h, cols[p], fs, q, gap)
        for k in range(q):
            for rep in (0, osr):
                if not log:
                    h.eq(eye[k, p + rep], ref[k], 'count of phase %d bin %d' % (p, k), tol=1e-9)
                else:
                    # log10(count + 0.1) for every possible count
                    want = math.log10(0.1)
                    for c in range(1, len(cols[p]) + 1):
                        want = h.ite(ref[k] >= c, math.log10(c + 0.1), want)
                    h.eq(eye[k, p + rep], want, 'log count of phase %d bin %d' % (p, k), tol=1e-9)


def many(h, osr, blocks, q, fs, log, spots):
    """long captures: the listed samples are free"""
    n = osr * blocks
    f = h.reals('s', len(spots), -2.5, 2.5)
    vals = [0.7 * (((7 * i * i + 3 * i) % 23) / 11.5 - 1) for i in range(n)]
    s = h.np.stack([f[spots.index(i)] if i in spots else vals[i] + 0 * f[0] for i in range(n)])
    eye, amp = h.cd.eye_diagram(s, osr, osr, quantization=q, fs_value=fs, logscale=log)
    _check(h, eye, amp, [[s[b * osr + p] for b in range(blocks)] for p in range(osr)], fs, q, 1e-9, log)


def plain(h, osr, blocks, q, fs, log, gap, kind):
    n = osr * blocks
    if kind == 'real':
        s = h.reals('s', n, -2.5, 2.5)
    else:
        s = h.ints('s', n, -2, 2)
    kw = {}
    if q is not None:
        kw['quantization'] = q
    if fs is not None:
        kw['fs_value'] = fs
    if log is not None:
        kw['logscale'] = log
    eye, amp = h.cd.eye_diagram(s, osr, osr, **kw)
    _check(h, eye, amp, [[s[b * osr + p] for b in range(blocks)] for p in range(osr)], 1 if fs is None else fs, 256 if q is None else q, gap, bool(log))


def interp(h, osr_in, up, blocks, q, fs, log):
    n = osr_in * blocks
    s = h.reals('s', n, -1, 1)
    osr = osr_in * up
    eye, amp = h.cd.eye_diagram(s, osr_in, osr, fs_value=fs, quantization=q, logscale=log)
    u = h.cd.digital_oversample(s, osr=up, order=osr_in, method='sinc')[0]
    m = h.np.size(u)
    cols = [[u[i] for i in range(p, m, osr)] for p in range(osr)]
    # the original samples sit at every up-th phase
    for p in range(0, osr, up):
        cols[p] = [s[osr_in // 2 + p // up + b * osr_in] for b in range(blocks - 1)]
    _check(h, eye, amp, cols, fs, q, 1e-6, log)


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for osr, blocks, q, fs, log, gap in [(1, 4, 4, 1, False, 0), (2, 3, 4, 1, False, 0), (4, 3, 2, 2, False, 0), (3, 2, 8, 0.75, False, 1e-9), (4, 1, 5, 1, False, 1e-9), (2, 4, 3, 1.25, False, 1e-9), (6, 2, 4, 3, False, 1e-9), (3, 3, 1, 1, False, 0), (2, 2, 4, 1, True, 0), (3, 3, 3, 0.75, True, 1e-9), (1, 3, 4, 1, None, 0), (2, 2, 6, None, None, 1e-9), (1, 5, 8, 2, True, 0), (2, 1, None, None, None, 0), (1, 2, None, 2, True, 0)] + ([(6, 4, 6, 1.5, False, 1e-9), (4, 4, 8, 1, True, 0), (1, 8, 4, 1, False, 0), (2, 6, 7, 2, True, 1e-9)] if th else []):
        cs.append(case('plain-o%d-b%d-q%s-f%s-%s' % (osr, blocks, q, fs, log), 'plain', osr=osr, blocks=blocks, q=q, fs=fs, log=log, gap=gap, kind='real'))
    for osr, blocks, q, fs, log in [(2, 17, 4, 1, False), (1, 40, 3, 1, False), (3, 33, 4, 2, True), (8, 9, 4, 1, False), (16, 3, 3, 1, False)] + ([(2, 130, 4, 1, False)] if th else []):
        n = osr * blocks
        cs.append(case('many-o%d-b%d-q%s' % (osr, blocks, q), 'many', osr=osr, blocks=blocks, q=q, fs=fs, log=log, spots=[0, 1, n // 2, n - 2, n - 1]))
    for osr in list(range(1, 13)) + [16, 20, 32]:
        for log in (False, True):
            for blocks, q, fs in ((2, 3, 1), (5, 2, 1.5)):
                n = osr * blocks
                cs.append(case('sweep-o%d-b%d-%s' % (osr, blocks, log), 'many', osr=osr, blocks=blocks, q=q, fs=fs, log=log, spots=sorted({0, n // 3, n - 1})))
    for q in (1, 2, 3, 5, 6, 7, 9, 16, 17, 32, 33, 64, 128):
        for log in (False, True):
            cs.append(case('bins-q%d-%s' % (q, log), 'many', osr=2, blocks=3, q=q, fs=1 + q % 3, log=log, spots=[0, 5]))
    for osr, blocks, q, fs in [(2, 2, 4, 2), (3, 2, 4, 1), (1, 4, 2, 2)]:
        cs.append(case('ints-o%d-b%d-q%s-f%s' % (osr, blocks, q, fs), 'plain', osr=osr, blocks=blocks, q=q, fs=fs, log=False, gap=0, kind='int'))
    for osr_in, up, blocks, q, fs, log in [(1, 2, 4, 4, 2, False), (2, 2, 3, 3, 1.5, False), (2, 3, 3, 4, 2, True), (3, 2, 3, 2, 1, False), (1, 3, 4, 5, 1, True)] + ([(4, 2, 3, 4, 2, False), (2, 4, 4, 3, 1, False)] if th else []):
        cs.append(case('interp-%d-x%d-b%d-q%d-f%s-%s' % (osr_in, up, blocks, q, fs, log), 'interp', osr_in=osr_in, up=up, blocks=blocks, q=q, fs=fs, log=log))
    return cs
