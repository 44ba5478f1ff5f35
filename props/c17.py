"""C17 rate and bit helpers"""
from .common import case, sparse

BOUNDS = 'signals up to 16 real samples in [-20000, 20000] with rates 1..5, 8, 16; unsigned integers up to 31 bits in arrays of up to three dimensions; word tables up to 10 bits; Hamming tables up to 3 words x 3 blocks x 6 bits, 2 words of 16 bits, and words of 130 to 1030 bits with 3 free places; power and RMS of up to 6 samples in [-20000, 20000]; vectors of 130 to 1100 entries with 4 free ones'
OUTSIDE = 'larger arrays and word widths above 12 bits, complex signals beyond 3 samples from a set of values'


def up(h, n, rate, kind):
    s = h.reals('s', n, -20000, 20000) if kind == 'real' else h.ints('s', n, -5, 5)
    u = h.cd.upsample(s, rate)
    ref = []
    for i in range(n):
        ref += [s[i]] + [0] * (rate - 1)
    h.eq(u, h.np.array(ref, dtype=float), 'samples %d apart, zeros between' % rate)
    h.eq(u[::rate], s, 'decimation recovers the signal')


def hold(h, n, rate, kind):
    s = h.reals('s', n, -20000, 20000) if kind == 'real' else h.ints('s', n, -5, 5)
    z = h.cd.zoh(s, rate)
    ref = []
    for i in range(n):
        ref += [s[i]] * rate
    h.eq(z, h.np.array(ref, dtype=float), 'each sample repeated %d times' % rate)
    h.eq(z[::rate], s, 'decimation recovers the signal')


VC = [1 + 2j, -1j, 2.0, -1.5 + 0.5j]


def rate_c(h, n, rate, what):
    """complex samples from a set of values"""
    s = h.choice('s', n, VC, dtype=complex)
    r = getattr(h.cd, what)(s, rate)
    h.eq(h.np.shape(r), [n * rate], '%d samples per sample' % rate)
    for i in range(n):
        for k in range(rate):
            h.check(r[i * rate + k] == (s[i] if k == 0 or what == 'zoh' else 0), 'complex sample %d.%d' % (i, k))


def binconv(h, shape, w):
    x = h.ints('x', shape, 0, 2 ** w - 1)
    b = h.cd.uint2bin(x, w)
    h.eq(h.np.shape(b), list(shape) + [w], 'one row of bits per integer')
    fb, fx = b.reshape(-1), x.reshape(-1)
    h.observe(b)
    for i in range(fx.shape[0]):
        for j in range(w):
            h.check(h.or_(fb[i * w + j] == 0, fb[i * w + j] == 1), 'bits are binary')
        h.eq(sum((fb[i * w + j] * 2 ** (w - 1 - j) for j in range(w)), 0), fx[i], 'MSB first')
    h.eq(h.cd.bin2uint(b), x, 'back to the integer')


def frombits(h, shape, w):
    b = h.bits('b', list(shape) + [w])
    x = h.cd.bin2uint(b)
    f = b.reshape(-1)
    n = 1
    for s in shape:
        n *= s
    ref = [sum((f[i * w + j] * 2 ** (w - 1 - j) for j in range(w)), 0) for i in range(n)]
    h.eq(x, h.np.array(ref, dtype=int).reshape(tuple(shape)), 'value of the bits, MSB first')
    h.eq(h.cd.uint2bin(x, w), b, 'bits of the value')


def perms(h, k):
    """row i of the table is the k-bit word i, for every i at once"""
    t = h.cd.get_bin_perm(k)
    h.eq(h.np.shape(t), [2 ** k, k], 'one row per word')
    i = h.int_('i', 0, 2 ** k - 1)
    row = t[i]
    h.observe(row)
    val = 0
    for j in range(k):
        h.check(h.or_(row[j] == 0, row[j] == 1), 'entries are binary')
        val = val + row[j] * 2 ** (k - 1 - j)
    h.eq(val, i, 'row i holds word i, MSB first')


def ham(h, M, N, l):
    """table indexed [word, block]; one nearest word per block"""
    c = h.bits('c', (M, l))
    p = h.bits('p', (N, l))
    t, idx = h.cd.hamming(p, c)
    ref = [[sum((h.ite(c[m, j] == p[k, j], 0, 1) for j in range(l)), 0) for k in range(N)] for m in range(M)]
    h.eq(t, h.np.array(ref, dtype=int), 'table holds the distances')
    h.eq(h.np.shape(idx), [N], 'one index per block')
    h.observe(idx)
    for k in range(N):
        ok = False
        for m in range(M):
            ok = h.or_(ok, h.and_(idx[k] == m, *[ref[m][k] <= ref[q][k] for q in range(M)]))
        h.check(ok, 'index of a nearest word for block %d' % k)


def ham_long(h, l, M, N, free):
    """words of hundreds of bits: fixed bits except for the listed places"""
    fc = h.bits('c', (M, len(free)))
    fp = h.bits('p', (N, len(free)))
    # word m differs from every block in a fixed share of the other places
    cl = [[1 if (j * 7 + m * 3) % (2 + m) == 0 or m == 1 else 0 for j in range(l)] for m in range(M)]
    pl = [[0 if k == 0 else (j % 2) for j in range(l)] for k in range(N)]
    base = [[sum(1 for j in range(l) if j not in free and cl[m][j] != pl[k][j]) for k in range(N)] for m in range(M)]
    for q, j in enumerate(free):
        for m in range(M):
            cl[m][j] = fc[m, q]
        for k in range(N):
            pl[k][j] = fp[k, q]
    t, idx = h.cd.hamming(h.np.array(pl, dtype=int), h.np.array(cl, dtype=int))
    ref = [[base[m][k] + sum((h.ite(fc[m, q] == fp[k, q], 0, 1) for q in range(len(free))), 0) for k in range(N)] for m in range(M)]
    h.eq(t, h.np.array(ref, dtype=int), 'table holds the distances')
    h.observe(idx)
    for k in range(N):
        ok = False
        for m in range(M):
            ok = h.or_(ok, h.and_(idx[k] == m, *[ref[m][k] <= ref[q][k] for q in range(M)]))
        h.check(ok, 'index of a nearest word for block %d' % k)


def pwr(h, n, kind):
    s = h.reals('s', n, -20000, 20000) if kind == 'real' else h.ints('s', n, -20 if n < 4 else -3, 20 if n < 4 else 3)
    p = h.cd.power(s)
    ref = sum((s[i] * s[i] for i in range(n)), 0) / n
    h.eq(p, ref, 'mean square', tol=1e-6)
    r = h.cd.rms(s)
    h.check(r >= 0, 'RMS is not negative')
    h.eq(r * r, ref, 'RMS squared is the mean square', tol=1e-5)


def pwr_c(h, n):
    """complex samples from a set of values"""
    s = h.choice('s', n, [1 + 2j, -1j, 2.0, -1.5 + 0.5j], dtype=complex)
    sq = [5.0, 1.0, 4.0, 2.5]
    vals = [1 + 2j, -1j, 2.0, -1.5 + 0.5j]
    p = h.cd.power(s)
    ref = 0
    for i in range(n):
        for v, q in zip(vals, sq):
            ref = ref + h.ite(s[i] == v, q, 0.0)
    h.check(h.np.abs(p - ref / n) < 1e-9, 'mean squared magnitude')
    h.check(h.np.abs(h.cd.rms(s) * h.cd.rms(s) - ref / n) < 1e-9, 'RMS squared is the mean squared magnitude')


def pwr_big(h, n, scale):
    """integer captures: the squares exceed 16 and 32 bits"""
    b = h.bits('b', n)
    s = h.np.stack([(2 * b[i] - 1) * (scale + i) for i in range(n)])
    ref = sum(float(scale + i) ** 2 for i in range(n)) / n
    h.eq(h.cd.power(s), ref, 'mean square of large integers', tol=1e-6 * ref)
    r = h.cd.rms(s)
    h.eq(r * r, ref, 'RMS squared is the mean square', tol=1e-6 * ref)


big = sparse(globals())


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for n in [1, 2, 3, 4, 5, 6, 7, 8] + ([10, 16] if th else []):
        for r in [1, 2, 3, 4, 5, 6, 7, 8, 16] if n < 4 else [1, 2, 3, 4, 5]:
            for kind in ('real', 'int'):
                cs.append(case('upsample n=%d rate=%d %s' % (n, r, kind), 'up', n=n, rate=r, kind=kind))
                cs.append(case('hold n=%d rate=%d %s' % (n, r, kind), 'hold', n=n, rate=r, kind=kind))
    for sh, w in [((1,), 1), ((1,), 5), ((3,), 1), ((3,), 4), ((2, 2), 3), ((1, 3), 2), ((2, 1, 2), 3), ((4,), 8), ((1, 1), 12), ((2,), 16), ((1,), 9), ((1,), 20), ((1,), 31)] + ([((6,), 12), ((2, 3, 2), 5)] if th else []):
        cs.append(case('uint2bin %s %d bits' % (sh, w), 'binconv', shape=list(sh), w=w))
        cs.append(case('bin2uint %s %d bits' % (sh, w), 'frombits', shape=list(sh), w=w))
    for k in [1, 2, 3, 5, 6, 7, 8, 9, 10] + ([11, 12] if th else []):
        cs.append(case('words k=%d' % k, 'perms', k=k))
    for M, N, l in [(1, 1, 1), (2, 3, 3), (3, 2, 4), (3, 1, 6), (2, 1, 16), (3, 1, 9), (2, 5, 3)] + ([(4, 3, 6), (5, 2, 5)] if th else []):
        cs.append(case('hamming %d words %d blocks %d bits' % (M, N, l), 'ham', M=M, N=N, l=l))
    for l, M, N in [(130, 3, 2), (257, 2, 1), (260, 3, 2), (520, 2, 2)] + ([(1030, 3, 2)] if th else []):
        cs.append(case('hamming %d words %d blocks %d bits' % (M, N, l), 'ham_long', l=l, M=M, N=N, free=[0, l // 2, l - 1]))
    for n in [1, 2, 4] + ([6] if th else []):
        for kind in ('real', 'int'):
            cs.append(case('power n=%d %s' % (n, kind), 'pwr', n=n, kind=kind))
    for n in (1, 2, 3):
        cs.append(case('power complex n=%d' % n, 'pwr_c', n=n))
        for r in (1, 2, 3):
            for what in ('upsample', 'zoh'):
                cs.append(case('%s complex n=%d rate=%d' % (what, n, r), 'rate_c', n=n, rate=r, what=what))
    for sc in (200, 40000, 50000000):
        cs.append(case('power of integers around %d' % sc, 'pwr_big', n=3, scale=sc))
    for n in (130, 300, 513, 1025):
        for what in ('up', 'hold'):
            for kind in ('real', 'int'):
                cs.append(case('long %s n=%d %s' % (what, n, kind), 'big', what=what, n=n, rate=3, kind=kind))
        cs.append(case('long power n=%d' % n, 'big', what='pwr', n=n, kind='real'))
        cs.append(case('long power n=%d int' % n, 'big', what='pwr', n=n, kind='int'))
        cs.append(case('long uint2bin n=%d' % n, 'big', what='binconv', shape=[n], w=8))
        cs.append(case('long bin2uint n=%d' % n, 'big', what='frombits', shape=[n], w=5))
    return cs
