"""C08 differential coding"""
from .common import case

BOUNDS = 'symbol arrays up to 10 fully symbolic entries (up to 40 for two-level alphabets), 1-D, 2-D up to 3x3 and 3-D, plus streams of 150 (400 thorough) entries with 4 symbolic ones and of up to 40000 entries with 4 symbolic ones; all four constellations'
OUTSIDE = 'longer fully symbolic streams, more than three dimensions'
NL = {'NRZ': 2, 'OOK': 2, 'PAM3': 3, 'PAM4': 4}


def _c(h, c):
    return getattr(h.cd.ConstellationEnum, c)


def _law(h, e, s, m):
    e, s = e.reshape(-1), s.reshape(-1)
    prev = 0
    for i in range(s.shape[0]):
        h.check((prev + s[i] - e[i]) % m == 0, 'symbol %d is the modulo sum of its predecessor and the input' % i)
        prev = e[i]


def full(h, c, shape):
    m = NL[c]
    s = h.ints('s', shape, 0, m - 1)
    e = h.cd.tx.coding_differential(s, _c(h, c))
    h.eq(h.np.shape(e), list(shape), 'shape is kept')
    h.observe(e)
    h.check(h.np.all((e >= 0) & (e < m)), 'encoded symbols stay in the alphabet')
    _law(h, e, s, m)
    h.eq(h.cd.rx.decoding_differential(e, _c(h, c)), s, 'decoding inverts encoding')


def decode(h, c, shape):
    """decoding law on arbitrary received symbols"""
    m = NL[c]
    r = h.ints('r', shape, 0, m - 1)
    d = h.cd.rx.decoding_differential(r, _c(h, c))
    h.eq(h.np.shape(d), list(shape), 'shape is kept')
    h.observe(d)
    rf, df = r.reshape(-1), d.reshape(-1)
    h.check(h.np.all((d >= 0) & (d < m)), 'decoded symbols stay in the alphabet')
    prev = 0
    for i in range(rf.shape[0]):
        h.check((df[i] + prev - rf[i]) % m == 0, 'entry %d is the modulo difference' % i)
        prev = rf[i]


def long(h, c, n, sym, top=None):
    """top: the fixed symbols use the lowest ones only, so that the free ones alone decide the range"""
    m = NL[c]
    x = [(7 * i * i + 3 * i + 1) % 11 % (top or m) for i in range(n)]
    for k, p in enumerate(sym):
        x[p] = h.int_('s%d' % k, 0, m - 1)
    s = h.np.array(x, dtype=int)
    e = h.cd.tx.coding_differential(s, _c(h, c))
    _law(h, e, s, m)
    h.eq(h.cd.rx.decoding_differential(e, _c(h, c)), s, 'decoding inverts encoding')


def verylong(h, c, n):
    """near-constant streams of maximal symbols: the running sum grows as fast as it can"""
    m = NL[c]
    k = [0, 1, n // 3, n - 5]
    x = [m - 1] * n
    for i, p in enumerate(k):
        x[p] = h.int_('s%d' % i, 0, m - 1)
    s = h.np.array(x, dtype=int)
    e = h.cd.tx.coding_differential(s, _c(h, c))
    h.eq(h.np.shape(e), [n], 'shape is kept')
    for p in [1, 100, n // 3 - 1, n // 3, n // 2, n - 6, n - 5, n - 1]:
        tot = (p + 1 - sum(1 for q in k if q <= p)) * (m - 1) + sum((s[q] for q in k if q <= p), 0)
        h.check((tot - e[p]) % m == 0, 'symbol %d is the modulo sum of the inputs so far' % p)
    d = h.cd.rx.decoding_differential(e, _c(h, c))
    for p in [0, 1, 2, n // 3, n // 3 + 1, n // 2, n - 5, n - 1]:
        h.eq(d[p], s[p], 'decoding inverts encoding')


def default(h):
    s = h.ints('s', (4,), 0, 3)
    h.eq(h.cd.tx.coding_differential(s), h.cd.tx.coding_differential(s, _c(h, 'PAM4')), 'PAM4 is the default of encoding')
    h.eq(h.cd.rx.decoding_differential(s), h.cd.rx.decoding_differential(s, _c(h, 'PAM4')), 'PAM4 is the default of decoding')


def cases(tier):
    cs = [case('default', 'default')]
    for c in NL:
        for sh in [(1,), (2,), (3,), (4,), (5,), (6,), (7,), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (1, 5), (5, 1), (2, 1, 3), (2, 2, 2)] + ([(40,), (5, 5)] if NL[c] == 2 else [(8,)]) + ([(10,), (3, 3)] if tier == 'thorough' else []):
            cs.append(case('full %s %s' % (c, sh), 'full', c=c, shape=list(sh)))
        for sh in [(n,) for n in range(1, 17)] + [(20,), (33,), (5, 5), (3, 4), (1, 5), (5, 1), (2, 3), (2, 2, 3), (1, 2, 1)]:
            cs.append(case('decode %s %s' % (c, sh), 'decode', c=c, shape=list(sh)))
        cs.append(case('very long %s' % c, 'verylong', c=c, n={2: 40000, 3: 20000, 4: 13000}[NL[c]]))
        n = 150 if tier == 'quick' else 400
        cs.append(case('long %s' % c, 'long', c=c, n=n, sym=[0, 5, n // 2, n - 2]))
        for L in (16, 60):
            for top in range(1, NL[c]):
                cs.append(case('long %s %d low symbols %d' % (c, L, top), 'long', c=c, n=L, sym=[1, L // 2, L - 1], top=top))
    return cs
