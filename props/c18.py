"""C18 pattern lock"""
from .common import case

BOUNDS = 'any binary pattern up to 6 bits with any binary signal up to 8 bits; any PAM4-level pattern up to 3 symbols with any PAM4-level signal up to 4 symbols; fixed patterns up to 8 symbols with any real signal in [-20000, 20000]; exact rotations of any pattern up to 6 symbols and, for four rotations, of a fixed pattern of 4095 symbols'
OUTSIDE = 'longer free patterns, rounding of the FFT-based correlation scipy chooses for long inputs'
ASSUMPTIONS = 'scipy.signal.correlate is modelled by the exact correlation sum'

FIX = {
    'b7': [1, 1, 1, 0, 0, 1, 0],
    'b5': [0, 1, 1, 0, 1],
    'per': [1, 0, 1, 0, 1, 0],
    'pam': [-3, 1, 3, -1, 1],
    'pam8': [-3, 3, 1, 1, -1, 3, -3, -1],
}


def _corr(h, rot, sig):
    return sum((rot[i] * sig[i] for i in range(len(sig))), 0)


def spec(h, out, pat, sig, tol=0):
    """out is the rotation of pat with the largest correlation with sig (already in NRZ form for bits)"""
    n, k = len(pat), min(len(pat), len(sig))
    rots = [pat[r:] + pat[:r] for r in range(n)]
    co = [_corr(h, [x for x in rot[:k]], sig[:k]) for rot in rots]
    ok = False
    for r in range(n):
        ok = h.or_(ok, h.and_(*([out[i] == rots[r][i] for i in range(n)] + [co[r] + tol >= c for c in co])))
    h.check(ok, 'a best-correlating rotation is returned')


def binary_any(h, n, m):
    p = h.bits('p', n)
    s = h.bits('s', m)
    out = h.cd.rx.lock_pattern_to_signal_binary(p, s)[0]
    h.eq(h.np.shape(out), [n], 'one whole period')
    h.observe(out)
    k = min(n, m)
    pl, sl = [p[i] for i in range(n)], [s[i] for i in range(m)]
    rots = [pl[r:] + pl[:r] for r in range(n)]
    co = [sum((h.ite(rot[i] == sl[i], 1, -1) for i in range(k)), 0) for rot in rots]
    ok = False
    for r in range(n):
        ok = h.or_(ok, h.and_(*([out[i] == rots[r][i] for i in range(n)] + [co[r] >= c for c in co])))
    h.check(ok, 'a best-correlating rotation is returned')


def multi_any(h, n, m, values):
    p = h.choice('p', n, values)
    s = h.choice('s', m, values)
    out = h.cd.rx.lock_pattern_to_signal(p, s)[0]
    h.eq(h.np.shape(out), [n], 'one whole period')
    h.observe(out)
    spec(h, out, [p[i] for i in range(n)], [s[i] for i in range(m)])


def fixed_real(h, pat, m):
    p = FIX[pat]
    s = h.reals('s', m, -20000, 20000)
    out = h.cd.rx.lock_pattern_to_signal(h.np.array(p, dtype=float), s)[0]
    h.eq(h.np.shape(out), [len(p)], 'one whole period')
    h.observe(out)
    spec(h, out, [float(v) for v in p], [s[i] for i in range(m)], tol=1e-9)


def fixed_bits(h, pat, m):
    p = FIX[pat]
    s = h.bits('s', m)
    out = h.cd.rx.lock_pattern_to_signal_binary(h.np.array(p), s)[0]
    h.eq(h.np.shape(out), [len(p)], 'one whole period')
    h.observe(out)
    n, k = len(p), min(len(p), m)
    rots = [p[r:] + p[:r] for r in range(n)]
    co = [sum((h.ite(s[i] == rot[i], 1, -1) for i in range(k)), 0) for rot in rots]
    ok = False
    for r in range(n):
        ok = h.or_(ok, h.and_(*([out[i] == rots[r][i] for i in range(n)] + [co[r] >= c for c in co])))
    h.check(ok, 'a best-correlating rotation is returned')


def rotation(h, n, reps, extra, binary):
    """the signal is a rotation of the pattern (repeated): the pattern comes back aligned"""
    p = h.bits('p', n) if binary else h.choice('p', n, [-3, -1, 1, 3])
    r = h.pick('r', range(n))
    pl = [p[i] for i in range(n)]
    rot = pl[r:] + pl[:r]
    sl = (rot * (reps + 1))[:n * reps + extra]
    s = h.np.array(sl, dtype=int if binary else float)
    f = h.cd.rx.lock_pattern_to_signal_binary if binary else h.cd.rx.lock_pattern_to_signal
    out = f(p, s)[0]
    h.eq(out, h.np.array(rot, dtype=float), 'aligned with the signal sample for sample')


def long_rotation(h, n, m, rs):
    """a long pattern and less than a period of it: scipy then correlates through the FFT, whose rounding breaks ties"""
    pl = [(-3, -1, 1, 3)[((i * i * 7 + 13 * i) // 5 + i // 3) % 4] for i in range(n)]
    r = h.pick('r', rs)
    rot = pl[r:] + pl[:r]
    out = h.cd.rx.lock_pattern_to_signal(h.np.array(pl, dtype=float), h.np.array(rot[:m], dtype=float))[0]
    h.eq(h.np.shape(out), [n], 'one whole period')
    best = sum(v * v for v in rot[:m])
    got = [float(v) for v in out]
    h.check(any(got == [float(v) for v in pl[q:] + pl[:q]] for q in range(n) if float(pl[q]) == got[0]), 'a rotation of the pattern')
    h.check(sum(a * b for a, b in zip(got[:m], rot)) >= best, 'correlates with the signal as well as the true alignment')


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for n, m in [(n, m) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4, 5, 6)] + [(5, 5), (5, 1), (5, 3)] + ([(5, 8), (6, 6), (6, 3)] if th else []):
        cs.append(case('binary any n=%d m=%d' % (n, m), 'binary_any', n=n, m=m))
    for n, m, v in [(2, 2, [-3, -1, 1, 3]), (3, 2, [-3, -1, 1, 3]), (3, 3, [-1, 0, 1]), (2, 4, [-3, -1, 1, 3])] + ([(3, 3, [-3, -1, 1, 3]), (4, 3, [-1, 0, 1]), (3, 3, [0, 1, 2])] if th else []):
        cs.append(case('multi-level any n=%d m=%d %s' % (n, m, v), 'multi_any', n=n, m=m, values=v))
    for p, m in [('b5', 5), ('b7', 7), ('b7', 4), ('b7', 9), ('per', 6), ('pam', 5), ('pam', 3), ('pam8', 8), ('pam8', 11)]:
        cs.append(case('fixed %s real m=%d' % (p, m), 'fixed_real', pat=p, m=m))
        if p[0] in 'bp' and not p.startswith('pam'):
            cs.append(case('fixed %s bits m=%d' % (p, m), 'fixed_bits', pat=p, m=m))
    for n, reps, ex, b in [(1, 1, 0, True), (3, 1, 0, True), (4, 2, 1, True), (5, 1, 2, True), (3, 1, 0, False), (4, 1, 1, False), (3, 3, 0, False)] + ([(6, 1, 0, True), (5, 2, 0, False)] if th else []):
        cs.append(case('rotation n=%d reps=%d+%d %s' % (n, reps, ex, 'bits' if b else 'PAM4'), 'rotation', n=n, reps=reps, extra=ex, binary=b))
    cs.append(case('long rotation n=4095 m=2000', 'long_rotation', n=4095, m=2000, rs=[1, 2, 3, 5]))
    return cs
