"""C10 bipolar and MLT-3"""
from .common import case, sparse

BOUNDS = 'bit vectors up to 20 bits and matrices up to 3x3; received ternary streams up to 5 symbols (7 thorough) for error detection, 12 otherwise; streams of 300 to 600 (1500 thorough) bits and received streams of about 50 symbols with 4 free ones'
OUTSIDE = 'longer streams, more than two dimensions'


def bipolar(h, shape):
    x = h.bits('x', shape)
    e = h.cd.tx.coding_bipolar(x)
    h.eq(h.np.shape(e), list(shape), 'shape is kept')
    f = x.reshape(-1)
    # reference: marks alternate 0, 2, 0, 2, ... (first mark low as documented)
    par, ref = 0, []
    for i in range(f.shape[0]):
        par = (par + f[i]) % 2                       # parity of marks so far
        ref.append(h.ite(f[i] == 0, 1, h.ite(par == 1, 0, 2)))
    h.eq(e, h.np.array(ref, dtype=int).reshape(tuple(shape)), 'zeros in the middle, marks alternate')
    h.eq(h.cd.rx.decoding_bipolar(e), x, 'decoding inverts encoding')


def bipolar_detect_clean(h, shape):
    x = h.bits('x', shape)
    e = h.cd.tx.coding_bipolar(x)
    h.eq(h.cd.rx.decoding_bipolar(e, error_detection=True), x, 'valid streams decode without flags')


def bipolar_rx(h, shape):
    r = h.ints('r', shape, 0, 2)
    f = r.reshape(-1)
    n = f.shape[0]
    h.eq(h.cd.rx.decoding_bipolar(r), h.np.array([h.ite(f[i] == 1, 0, 1) for i in range(n)], dtype=int).reshape(tuple(shape)), 'plain decoding')
    d = h.cd.rx.decoding_bipolar(r, error_detection=True)
    ref = []
    # the nearest marks before and behind every place, 1 for none
    before, behind = [1] * n, [1] * n
    for i in range(1, n):
        before[i] = h.ite(f[i - 1] == 1, before[i - 1], f[i - 1])
        behind[n - 1 - i] = h.ite(f[n - i] == 1, behind[n - i], f[n - i])
    for i in range(n):
        bad = h.or_(before[i] == f[i], behind[i] == f[i])
        ref.append(h.ite(f[i] == 1, 0.0, h.ite(bad, h.ite(f[i] == 2, 0.5, -0.5), 1.0)))
    h.eq(d, h.np.array(ref, dtype=float).reshape(tuple(shape)), 'runs of equal marks are flagged with their sign')


def mlt3(h, shape):
    x = h.bits('x', shape)
    e = h.cd.tx.coding_mlt3(x)
    h.eq(h.np.shape(e), list(shape), 'shape is kept')
    f = x.reshape(-1)
    b0, b1, ref = 0, 0, []                            # position in the cycle, two bits
    for i in range(f.shape[0]):
        c = b0 * f[i]
        b0 = (b0 + f[i]) % 2
        b1 = (b1 + c) % 2
        ref.append(h.ite(b0 == 1, 1, h.ite(b1 == 1, 2, 0)))
    h.eq(e, h.np.array(ref, dtype=int).reshape(tuple(shape)), 'MLT-3 waveform')
    h.eq(h.cd.rx.decoding_mlt3(e), x, 'decoding inverts encoding')


def mlt3_rx(h, shape):
    """a received level stream decodes to 1 where the level changes by one step"""
    r = h.ints('r', shape, 0, 2)
    f = r.reshape(-1)
    for i in range(1, f.shape[0]):
        h.assume(h.np.abs(f[i] - f[i - 1]) <= 1)
    h.assume(f[0] <= 1)
    d = h.cd.rx.decoding_mlt3(r)
    ref = [f[0]] + [h.ite(f[i] == f[i - 1], 0, 1) for i in range(1, f.shape[0])]
    h.eq(d, h.np.array(ref, dtype=int).reshape(tuple(shape)), 'level changes decode to 1')


big = sparse(globals())


def cases(tier):
    cs = []
    for sh in [(n,) for n in range(1, 13)] + [(2, 2), (3, 2), (5, 1), (1, 5), (2, 1, 2), (2, 3), (3, 3), (1, 4), (4, 1)] + ([(20,), (40,), (4, 5)] if tier == 'thorough' else []):
        for f in ('bipolar', 'mlt3'):
            cs.append(case('%s %s' % (f, sh), f, shape=list(sh)))
    for sh in [(1,), (2,), (3,), (4,), (5,), (6,), (2, 2), (3, 2)] + ([(8,), (2, 4)] if tier == 'thorough' else []):
        cs.append(case('bipolar_detect_clean %s' % (sh,), 'bipolar_detect_clean', shape=list(sh)))
    for sh in [(1,), (2,), (3,), (4,), (5,), (6,), (2, 2), (3, 1), (1, 3)] + ([(6,), (7,), (2, 3)] if tier == 'thorough' else []):
        cs.append(case('bipolar_rx %s' % (sh,), 'bipolar_rx', shape=list(sh)))
    for sh in [(n,) for n in range(1, 11)] + [(2, 3), (3, 2), (1, 4)]:
        cs.append(case('mlt3_rx %s' % (sh,), 'mlt3_rx', shape=list(sh)))
    for f in ('bipolar', 'mlt3', 'bipolar_detect_clean'):
        for sh in [(300,), (40, 15), (15, 40)] + ([(1500,)] if tier == 'thorough' else []):
            cs.append(case('long %s %s' % (f, sh), 'big', what=f, shape=list(sh)))
    for sh, at in [((50,), 'ends'), ((4, 12), 'ends'), ((200,), 'end'), ((300,), 'middle')]:
        cs.append(case('long bipolar_rx %s' % (sh,), 'big', what='bipolar_rx', at=at, shape=list(sh)))
    return cs
