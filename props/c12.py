"""C12 linear block codes"""
from .common import case, sparse

BOUNDS = 'encoding: any G up to 3x6, patterns up to 10 bits, fixed codes with up to 301 bits; decoding: any G up to 2x4 (and Hamming(7,4), (5,2), repetition, parity and random fixed codes up to k=4, n=7) with any received stream up to 2 blocks plus trailing bits; streams of 270 to 1300 bits with 4 free ones'
OUTSIDE = 'larger codes and longer streams'

CODES = {
    'ham74': [[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]],
    'c52': [[1, 0, 1, 1, 0], [0, 1, 0, 1, 1]],
    'rep3': [[1, 1, 1]],
    'par3': [[1, 0, 0, 1], [0, 1, 0, 1], [0, 0, 1, 1]],
    'nonsys': [[1, 1, 0, 0], [0, 1, 1, 1], [1, 1, 1, 0]],
    'deg': [[1, 1, 0], [1, 1, 0]],
    'deg4': [[1, 1, 0], [0, 0, 0], [1, 1, 0], [1, 1, 0]],
    'zero3': [[0, 0], [0, 0], [0, 0]],
    'even5': [[1, 1, 0, 0, 0], [0, 1, 1, 0, 0], [0, 0, 1, 1, 0], [0, 0, 0, 1, 1]],
    'rep9': [[1] * 9],
    'wide': [[1, 0, 1, 1, 0, 1, 0, 0, 1, 1], [0, 1, 1, 0, 1, 0, 0, 1, 1, 0]],
}


def _encode(h, u, G, k, n):
    """one block, GF(2) product"""
    out = []
    for j in range(n):
        s = 0
        for i in range(k):
            s = (s + u[i] * G[i][j]) % 2
        out.append(s)
    return out


def _G(h, code, k, n):
    if code:
        G = h.np.array(CODES[code], dtype=int)
        return G, CODES[code], len(CODES[code]), len(CODES[code][0])
    G = h.bits('G', (k, n))
    return G, [[G[i, j] for j in range(n)] for i in range(k)], k, n


def encode(h, L, k=0, n=0, code=None):
    G, g, k, n = _G(h, code, k, n)
    x = h.bits('x', L)
    y = h.cd.tx.coding_linear(x, G)
    xs = [x[i] for i in range(L)]
    while len(xs) % k:
        xs.append(0)
    ref = []
    for b in range(len(xs) // k):
        ref += _encode(h, xs[b * k:(b + 1) * k], g, k, n)
    h.eq(y, h.np.array(ref, dtype=int), 'encoding is the GF(2) product, padded with zeros')


def decode(h, L, k=0, n=0, code=None):
    G, g, k, n = _G(h, code, k, n)
    r = h.bits('r', L)
    keep = h.snapshot(r)
    d = h.cd.rx.decoding_linear(r, G)
    nb = L // n
    h.eq(h.np.shape(d), [nb * k], 'one message per complete block')
    out = h.cd.rx.decoding_linear(r, G, error_prob=True)
    h.eq(out[0], d, 'asking for the error probability does not change the decoded bits')
    h.eq(r, keep, 'the received bits are left alone')
    perr = out[1]
    h.eq(h.np.shape(perr), [nb], 'one probability per block')
    h.observe(d)
    msgs = [[(m >> (k - 1 - i)) & 1 for i in range(k)] for m in range(2 ** k)]
    words = [_encode(h, u, g, k, n) for u in msgs]
    for b in range(nb):
        dist = [sum((abs(words[m][j] - r[b * n + j]) for j in range(n)), 0) for m in range(len(msgs))]
        best = dist[0]
        for v in dist[1:]:
            best = h.ite(v < best, v, best)
        ok = False
        for m, u in enumerate(msgs):
            ok = h.or_(ok, h.and_(dist[m] == best, *[d[b * k + i] == u[i] for i in range(k)]))
        h.check(ok, 'block %d decodes to a nearest message' % b)
        cnt = sum((h.ite(v == best, 1, 0) for v in dist), 0)
        pref = 0.0
        for c in range(1, len(msgs) + 1):
            pref = h.ite(h.and_(best > 0, cnt == c), 1.0 / c, pref)
        h.eq(perr[b], pref, 'error probability of block %d' % b, tol=1e-9)


def roundtrip(h, code, L):
    g = CODES[code]
    k = len(g)
    x = h.bits('x', L)
    y = h.cd.tx.coding_linear(x, h.np.array(g, dtype=int))
    d = h.cd.rx.decoding_linear(y, h.np.array(g, dtype=int))
    ref = [x[i] for i in range(L)] + [0] * (-L % k)
    h.eq(d, h.np.array(ref, dtype=int), 'error-free code words decode to the message')
    d2, p = h.cd.rx.decoding_linear(y, h.np.array(g, dtype=int), True)
    h.eq(d2, h.np.array(ref, dtype=int), 'error-free code words decode to the message (with probability)')
    h.eq(p, h.np.zeros(len(ref) // k), 'code words have no error probability')


def correct(h, code, L, t):
    """up to t flipped bits per block are corrected when the code's distance allows it"""
    g = CODES[code]
    k, n = len(g), len(g[0])
    x = h.bits('x', L)
    y = h.cd.tx.coding_linear(x, h.np.array(g, dtype=int))
    e = h.bits('e', y.shape[0])
    for b in range(y.shape[0] // n):
        h.assume(sum((e[b * n + j] for j in range(n)), 0) <= t)
    d = h.cd.rx.decoding_linear((y + e) % 2, h.np.array(g, dtype=int))
    h.eq(d, x, '%d errors per block are corrected' % t)


big = sparse(globals())


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for k, n, L in [(k, n, L) for k in (1, 2, 3) for n in (1, 2, 3, 4, 5) for L in (2 * k, 2 * k + 1)] + [(1, 3, 9), (2, 3, 11), (3, 6, 6), (3, 4, 7), (3, 2, 1), (4, 4, 10)] + ([(5, 7, 11), (6, 9, 13), (2, 8, 24)] if th else []):
        cs.append(case('encode any %dx%d L=%d' % (k, n, L), 'encode', L=L, k=k, n=n))
    for k, n, L in [(1, 2, 2), (1, 3, 4), (2, 2, 2), (2, 3, 3)] + ([(2, 3, 6), (2, 4, 4), (3, 3, 3)] if th else []):
        cs.append(case('decode any %dx%d L=%d' % (k, n, L), 'decode', L=L, k=k, n=n))
    for c, L in [('rep3', L) for L in range(1, 12)] + [('par3', L) for L in (3, 4, 5, 6, 7, 9, 10)] + [('ham74', 7), ('ham74', 9), ('ham74', 14), ('c52', 5), ('c52', 10), ('par3', 8), ('nonsys', 5), ('deg', 6), ('deg4', 3), ('deg4', 6), ('zero3', 5), ('even5', 5), ('rep9', 9), ('wide', 10), ('rep3', 18)] + ([('c52', 17), ('rep3', 12), ('nonsys', 10)] if th else []):
        cs.append(case('decode %s L=%d' % (c, L), 'decode', L=L, code=c))
    for c, L in [(c, L) for c in ('ham74', 'rep3', 'nonsys', 'c52') for L in range(1, 18)] + [('ham74', 70), ('rep3', 65), ('nonsys', 130), ('c52', 301), ('wide', 67)]:
        cs.append(case('encode %s L=%d' % (c, L), 'encode', L=L, code=c))
    for c, L in [('ham74', 4), ('ham74', 6), ('c52', 4), ('rep3', 3), ('par3', 5), ('nonsys', 6)] + ([('ham74', 12), ('c52', 7)] if th else []):
        cs.append(case('roundtrip %s L=%d' % (c, L), 'roundtrip', code=c, L=L))
    for c, L, t in [('ham74', 4, 1), ('rep3', 3, 1), ('c52', 2, 1)] + ([('ham74', 8, 1)] if th else []):
        cs.append(case('correct %s L=%d' % (c, L), 'correct', code=c, L=L, t=t))
    for c, L in [('rep3', 900), ('ham74', 490), ('c52', 1300), ('par3', 402), ('nonsys', 270)]:
        cs.append(case('long decode %s L=%d' % (c, L), 'big', what='decode', L=L, code=c))
        cs.append(case('long roundtrip %s L=%d' % (c, L), 'big', what='roundtrip', L=L, code=c)) if c != 'par3' else None
    return cs
