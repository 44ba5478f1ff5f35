"""C01 PRBS generation"""
from .common import case

BOUNDS = 'all seeds symbolic; named types PRBS7..PRBS31 and every polynomial of degree 2..6; lengths from 0 to three periods for PRBS7, over two periods for PRBS9, over one for PRBS11 (PRBS13/15 and longer in the thorough tier), up to 200 bits for PRBS31; the splits listed per case'
OUTSIDE = 'requests longer than listed, in particular a full period of PRBS31'

DEG = {'PRBS7': 7, 'PRBS9': 9, 'PRBS11': 11, 'PRBS13': 13, 'PRBS15': 15, 'PRBS31': 31}


def _poly(h, t):
    return h.cd.get_polynomial(getattr(h.cd.PrbsEnum, t))


def _ref(h, poly, seed, n):
    """recurrence computed bit by bit; hist[0] is the most recent bit"""
    taps = [i for i in range(len(poly)) if poly[i]]
    hist = [seed[i] for i in range(len(poly))]
    out = []
    for _ in range(n):
        b = hist[taps[0]]
        for t in taps[1:]:
            b = b + hist[t]
        b = b % 2
        out.append(b)
        hist = [b] + hist[:-1]
    return out, hist


def recurrence(h, t, n):
    """bits and returned seed follow the recurrence"""
    poly = _poly(h, t)
    seed = h.bits('s', (DEG[t],))
    seq, nxt = h.cd.tx.prbs_gen(poly, seed, n)
    ref, hist = _ref(h, poly, seed, n)
    h.eq(seq, h.np.array(ref, dtype=int), 'generated bits follow the recurrence')
    h.eq(nxt, h.np.array(hist, dtype=int), 'returned seed is the register after the last bit')


def split(h, t, parts):
    """consecutive requests continue the sequence"""
    poly = _poly(h, t)
    seed = h.bits('s', (DEG[t],))
    whole, end = h.cd.tx.prbs_gen(poly, seed, sum(parts))
    s, got = seed, []
    for p in parts:
        b, s = h.cd.tx.prbs_gen(poly, s, p)
        h.eq(h.np.shape(b), [p], 'requested number of bits')
        got.append(b)
    h.eq(h.np.concatenate(got), whole, 'chunks join to the single request')
    h.eq(s, end, 'final seeds agree')


def iterator(h, t, n):
    poly = _poly(h, t)
    seed = h.bits('s', (DEG[t],))
    it = h.cd.tx.PrbsIterator(poly, seed)
    h.check(iter(it) is it, 'iter() of the iterator is the iterator')
    h.eq(it.get_seed(), seed, 'seed before the first bit')
    seq, end = h.cd.tx.prbs_gen(poly, seed, n)
    bits = []
    prev = seed
    for k in range(n):
        b = next(it)
        bits.append(b)
        h.eq(it.get_prev_seed(), prev, 'previous seed after bit %d' % k)
        prev = h.np.array([v for v in it.get_seed()], dtype=int)
    h.eq(h.np.array(bits, dtype=int), seq, 'iterator yields the generator bits')
    h.eq(it.get_seed(), end, 'iterator seed equals the returned seed')


def anypoly(h, deg, n):
    """every polynomial (symbolic taps), below one period"""
    poly = h.bits('p', (deg,))
    seed = h.bits('s', (deg,))
    seq, nxt = h.cd.tx.prbs_gen(poly, seed, n)
    hist = [seed[i] for i in range(deg)]
    out = []
    for _ in range(n):
        b = sum(hist[i] * poly[i] for i in range(deg)) % 2
        out.append(b)
        hist = [b] + hist[:-1]
    h.eq(seq, h.np.array(out, dtype=int), 'generated bits follow the recurrence')
    h.eq(nxt, h.np.array(hist, dtype=int), 'returned seed')
    it = h.cd.tx.PrbsIterator(poly, seed)
    h.eq(h.np.array([next(it) for _ in range(n)], dtype=int), h.np.array(out, dtype=int), 'iterator follows the recurrence')


def cases(tier):
    cs = []
    R = {'PRBS7': list(range(0, 26)) + [31, 32, 33, 40, 63, 64, 65, 96, 100, 126, 127, 128, 133, 134, 135, 253, 254, 255, 300, 381],
         'PRBS9': list(range(1, 21)) + [30, 64, 100, 256, 510, 511, 512, 520, 1022, 1030],
         'PRBS11': list(range(1, 24)) + [100, 1000, 2046, 2047, 2048, 2059],
         'PRBS13': list(range(1, 28)) + [150, 1000],
         'PRBS15': list(range(1, 32)) + [150, 1000],
         'PRBS31': list(range(1, 36)) + [61, 62, 63, 200]}
    if tier == 'thorough':
        R['PRBS7'] = list(range(0, 30)) + list(range(120, 142)) + [253, 254, 255, 256, 380, 381, 382, 508, 635, 1270]
        R['PRBS9'] += list(range(0, 24)) + [1021, 1023, 1533, 1534, 2044, 2560]
        R['PRBS11'] += [4093, 4094, 4095, 6141, 6145]
        R['PRBS13'] += [8190, 8191, 8192, 8200, 16382]
        R['PRBS15'] += [5000, 32767, 32770]
        R['PRBS31'] += list(range(3, 64)) + [500, 1000, 4000]
    for t in R:
        for n in sorted(set(R[t])):
            cs.append(case('recurrence %s %d' % (t, n), 'recurrence', t=t, n=n))
    S = {'PRBS7': [[1, 1], [3, 5], [5, 2, 9], [7, 7], [2, 20], [127, 5], [5, 127], [130, 3], [127, 127], [100, 100], [254, 9], [0, 9], [4, 0, 4], [129, 129, 129]],
         'PRBS9': [[3, 20], [509, 8], [511, 511], [515, 20], [600, 600]],
         'PRBS11': [[5, 30], [10, 11, 12], [2047, 9], [2050, 20]],
         'PRBS13': [[5, 40], [12, 13, 14]], 'PRBS15': [[5, 40], [14, 15, 16]], 'PRBS31': [[5, 40], [30, 31, 32], [1] * 10]}
    if tier == 'thorough':
        S['PRBS7'] += [[a, b] for a in range(0, 18) for b in (1, 6, 7, 8, 126, 127, 128)] + [[a, 30] for a in range(120, 140)] + [[a, 30] for a in range(250, 262)]
        S['PRBS9'] += [[a, 30] for a in list(range(1, 12)) + list(range(505, 524))]
        S['PRBS11'] += [[2040, 20], [2048, 2048], [4094, 12], [4100, 12]]
        S['PRBS13'] += [[8191, 20], [8195, 20], [9000, 9000]]
    for t in S:
        for p in S[t]:
            cs.append(case('split %s %s' % (t, p), 'split', t=t, parts=p))
    for t, n in (('PRBS7', 140), ('PRBS9', 40), ('PRBS11', 30), ('PRBS13', 30), ('PRBS15', 34), ('PRBS31', 64)):
        cs.append(case('iterator %s' % t, 'iterator', t=t, n=n))
    for deg, n in ((2, 2), (3, 6), (4, 10), (5, 9), (6, 8)) if tier == 'quick' else ((2, 2), (3, 6), (4, 14), (5, 12), (6, 10), (7, 9)):
        cs.append(case('anypoly %d' % deg, 'anypoly', deg=deg, n=n))
    return cs
