"""C09 Manchester and differential Manchester"""
from .common import case, sparse

BOUNDS = 'bit vectors up to 24 bits and arrays up to 3x11 and 2x2x2 (48 and 5x6 thorough), received streams of the same sizes; streams of 300 to 600 (1500 thorough) bits with 4 free ones'
OUTSIDE = 'longer streams, more than three dimensions, odd received lengths'


def _dbl(shape):
    return list(shape[:-1]) + [2 * shape[-1]]


def manchester(h, shape):
    x = h.bits('x', shape)
    e = h.cd.tx.coding_manchester(x)
    ref = []
    f = x.reshape(-1)
    for i in range(f.shape[0]):
        ref += [f[i], 1 - f[i]]
    h.eq(e, h.np.array(ref, dtype=int).reshape(_dbl(shape)), 'each bit becomes its two halves')
    h.eq(h.cd.rx.decoding_manchester(e), x, 'decoding inverts encoding')


def manchester_rx(h, shape):
    r = h.bits('r', _dbl(shape))
    d = h.cd.rx.decoding_manchester(r)
    f = r.reshape(-1)
    ref = []
    for i in range(f.shape[0] // 2):
        a, b = f[2 * i], f[2 * i + 1]
        ref.append(h.ite(a == b, 0.5, h.ite(a == 1, 1.0, 0.0)))
    h.eq(d, h.np.array(ref, dtype=float).reshape(tuple(shape)), 'pairs decode to 1, 0 or 0.5')


def diff(h, shape):
    x = h.bits('x', shape)
    e = h.cd.tx.coding_differential_manchester(x)
    h.eq(h.np.shape(e), _dbl(shape), 'last dimension is doubled')
    h.observe(e)
    h.check(h.np.all((e == 0) | (e == 1)), 'waveform is binary')
    f, w = x.reshape(-1), e.reshape(-1)
    h.eq(w[0], 0, 'starts low')
    for i in range(f.shape[0]):
        h.check((w[2 * i] + w[2 * i + 1]) % 2 == 1 - f[i], 'toggles inside bit %d exactly for 0' % i)
        if i:
            h.check(w[2 * i] != w[2 * i - 1], 'toggles at the boundary before bit %d' % i)
    h.eq(h.cd.rx.decoding_differential_manchester(e), x, 'decoding inverts encoding')


def diff_rx(h, shape):
    r = h.bits('r', _dbl(shape))
    d = h.cd.rx.decoding_differential_manchester(r)
    f = r.reshape(-1)
    ref = [h.ite(f[2 * i] == f[2 * i + 1], 1, 0) for i in range(f.shape[0] // 2)]
    h.eq(d, h.np.array(ref, dtype=int).reshape(tuple(shape)), 'a bit is 1 exactly without a toggle inside it')


big = sparse(globals())


def cases(tier):
    cs = []
    for sh in [(n,) for n in range(1, 17)] + [(24,), (2, 2), (3, 2), (5, 2), (3, 3), (1, 1), (2, 3), (3, 4), (4, 1), (2, 9), (3, 11), (2, 1, 3), (2, 2, 2), (2, 8), (1, 15), (60,)] + ([(48,), (5, 6), (6, 2)] if tier == 'thorough' else []):
        for f in ('manchester', 'manchester_rx', 'diff', 'diff_rx'):
            cs.append(case('%s %s' % (f, sh), f, shape=list(sh)))
    for f in ('manchester', 'manchester_rx', 'diff', 'diff_rx'):
        for sh in [(300,), (40, 15), (15, 40)] + ([(1500,)] if tier == 'thorough' else []):
            cs.append(case('long %s %s' % (f, sh), 'big', what=f, shape=list(sh)))
    return cs
