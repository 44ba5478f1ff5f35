"""C03 bin2symbol / symbol2bin"""
from .common import case, sparse

BOUNDS = 'bit vectors up to 64 bits and matrices up to 4x9 (32 and 3x7 quick), alphabets 2, 4, 8, 16 (32, 64 thorough) and, for up to 3 symbols, 128, 256, 512, 1024, 4096 (up to 2^40 with ten free bits per symbol), all 16 flag combinations, non-power-of-two sizes 3..33; streams of 400 to 1025 entries with 4 free ones'
OUTSIDE = 'longer arrays, more than three dimensions, alphabets above 2^40'


def _flags(h):
    return dict(bit_order_inv=h.flag('boi'), inv_msb=h.flag('msb'), inv_lsb=h.flag('lsb'), pn_inv=h.flag('pn'))


def _group(h, bits, lv, k, f):
    """symbol of one group of k bits according to the documentation"""
    b = list(bits)
    if lv > 2:
        if f['bit_order_inv']:
            b = b[::-1]
        if f['inv_msb']:
            b[-1] = 1 - b[-1]
        if f['inv_lsb']:
            b[0] = 1 - b[0]
    if f['pn_inv']:
        b = [1 - v for v in b]
    return sum(v * (1 << i) for i, v in enumerate(b))


def roundtrip(h, lv, k, shape):
    x = h.bits('x', shape)
    f = _flags(h)
    flat = x.reshape(-1)
    n = flat.shape[0] // k
    sym = h.cd.tx.bin2symbol(x, lv, **f)
    ref = [_group(h, [flat[i * k + j] for j in range(k)], lv, k, f) for i in range(n)]
    h.eq(sym, h.np.array(ref, dtype=int), 'bin2symbol groups the bits as documented')
    h.check(h.np.all((sym >= 0) & (sym < lv)), 'symbols stay inside the alphabet')
    back = h.cd.rx.symbol2bin(sym, lv, **f)
    h.eq(back, flat[:n * k], 'symbol2bin(bin2symbol(x)) == x')


def inverse(h, lv, k, shape):
    """the other direction, on arbitrary symbol arrays"""
    s = h.ints('s', shape, 0, lv - 1)
    f = _flags(h)
    b = h.cd.rx.symbol2bin(s, lv, **f)
    flat = s.reshape(-1)
    h.eq(h.np.shape(b), [flat.shape[0] * k], 'symbol2bin gives %d bits per symbol' % k)
    h.check(h.np.all((b == 0) | (b == 1)), 'symbol2bin gives bits')
    h.eq(h.cd.tx.bin2symbol(b, lv, **f), flat, 'bin2symbol(symbol2bin(s)) == s')


def wide(h, lv, k, fixed):
    """alphabets beyond 2^12: two symbols, ten free bits of each at the ends, the others at one value"""
    free = list(range(5)) + list(range(k - 5, k))
    rows = [[h.bit('x%d_%d' % (i, j)) if j in free else fixed for j in range(k)] for i in range(2)]
    flat = h.np.array([v for r in rows for v in r], dtype=int)
    f = _flags(h)
    sym = h.cd.tx.bin2symbol(flat, lv, **f)
    h.eq(sym, h.np.array([_group(h, r, lv, k, f) for r in rows], dtype=int), 'bin2symbol groups the bits as documented')
    h.eq(h.cd.rx.symbol2bin(sym, lv, **f), flat, 'symbol2bin(bin2symbol(x)) == x')


def reject(h, lv):
    x = h.bits('x', (12,))
    f = _flags(h)
    h.check(h.raises(h.cd.tx.bin2symbol, x, lv, **f), 'alphabet of %d symbols is rejected' % lv)


big = sparse(globals())


def cases(tier):
    cs = []
    al = [(2, 1), (4, 2), (8, 3), (16, 4)] + ([(32, 5), (64, 6)] if tier == 'thorough' else [])
    shapes = [(n,) for n in range(1, 14)] + [(32,), (3, 7), (2, 4), (4, 3), (1, 6), (6, 1)] + ([(64,), (4, 9), (9, 4), (5, 5)] if tier == 'thorough' else [])
    for lv, k in al:
        for shape in shapes:
            cs.append(case('roundtrip %d %s' % (lv, shape), 'roundtrip', lv=lv, k=k, shape=list(shape)))
        for shape in [(n,) for n in range(1, 10)] + [(1, 1), (2, 3), (3, 1), (1, 4)]:
            cs.append(case('inverse %d %s' % (lv, shape), 'inverse', lv=lv, k=k, shape=list(shape)))
    for k in (13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40):
        for v in (0, 1):
            cs.append(case('wide %d bits of %d' % (k, v), 'wide', lv=2 ** k, k=k, fixed=v))
    for k in (7, 8, 9, 10, 11, 12):
        cs.append(case('roundtrip %d wide' % 2 ** k, 'roundtrip', lv=2 ** k, k=k, shape=[2 * k + 1]))
        cs.append(case('inverse %d wide' % 2 ** k, 'inverse', lv=2 ** k, k=k, shape=[2]))
    for lv, k in al[:3]:
        cs.append(case('roundtrip %d 3-D' % lv, 'roundtrip', lv=lv, k=k, shape=[2, 2, 3]))
        cs.append(case('inverse %d 3-D' % lv, 'inverse', lv=lv, k=k, shape=[2, 1, 2]))
        cs.append(case('roundtrip %d long' % lv, 'roundtrip', lv=lv, k=k, shape=[301 if tier == 'quick' else 1001]))
    for lv in (3, 5, 6, 7, 9, 10, 12, 15, 17, 33, 100, 255, 257, 1000):
        cs.append(case('reject %d' % lv, 'reject', lv=lv))
    for lv, k in [(2, 1), (4, 2), (8, 3), (16, 4)]:
        for sh in [(400,), (30, 20), (1025,)]:
            cs.append(case('long roundtrip %d %s' % (lv, sh), 'big', what='roundtrip', lv=lv, k=k, shape=list(sh)))
            cs.append(case('long inverse %d %s' % (lv, sh), 'big', what='inverse', lv=lv, k=k, shape=list(sh)))
    return cs
