"""C13 convolutional encoding"""
from .common import case
from .convref import CODES, load, steps, group

BOUNDS = 'any generator taps up to 3 outputs x 4 taps and feedback up to 4 taps (also of another length than the generator) with streams up to 8 bits; 23 fixed codes (one to three inputs, up to 9 taps, with and without feedback) with any stream up to 25 bits; streams up to 400 bits with 10 free bits against integer overflow and rounding'
OUTSIDE = 'longer streams, more than four inputs, the zi argument'


def fixed(h, code, L):
    G, kw, n_in, n_out, g, F, use = load(h, code)
    x = h.bits('x', L)
    y = h.cd.tx.coding_conv(x, G, **kw)
    u = group([x[i] for i in range(L)], n_in)
    ref, _ = steps(u, g, F, use, [[0] * (len(g[i][0]) - 1) for i in range(n_in)], n_in, n_out)
    h.eq(y, h.np.array(ref, dtype=int), 'encoder output')


def anycode(h, n_out, m, L, fb, n_in=1):
    Gd, g, F, use = {}, [], [None] * n_in, [[0] * n_out for _ in range(n_in)]
    for i in range(n_in):
        Gd[i] = h.bits('G%d' % i, (n_out, m))
        g.append([[Gd[i][j, k] for k in range(m)] for j in range(n_out)])
    kw = {}
    if fb == 'all':
        Fd = {}
        for i in range(n_in):
            f = h.bits('F%d' % i, m)
            h.assume(f[0] == 1)
            Fd[i] = f
            F[i] = [1] + [f[k] for k in range(1, m)]
            use[i] = [1] * n_out
        kw = dict(feedback=Fd, use_feedback=h.np.ones((n_in, n_out), dtype=int))
    x = h.bits('x', L)
    y = h.cd.tx.coding_conv(x, Gd, **kw)
    u = group([x[i] for i in range(L)], n_in)
    ref, _ = steps(u, g, F, use, [[0] * (m - 1) for i in range(n_in)], n_in, n_out)
    h.eq(y, h.np.array(ref, dtype=int), 'encoder output')


def rscany(h, m, L):
    """systematic output and any recursive output in one code"""
    f = h.bits('F', m)
    h.assume(f[0] == 1)
    t = h.bits('T', m)
    s = h.np.concatenate([h.np.array([1]), h.np.zeros(m - 1, dtype=int)]).astype(int)
    G = {0: h.np.array([s, t])}
    x = h.bits('x', L)
    y = h.cd.tx.coding_conv(x, G, feedback={0: f}, use_feedback=h.np.array([[0, 1]]))
    g = [[[1] + [0] * (m - 1), [t[k] for k in range(m)]]]
    ref, _ = steps(group([x[i] for i in range(L)], 1), g, [[1] + [f[k] for k in range(1, m)]], [[0, 1]], [[0] * (m - 1)], 1, 2)
    h.eq(y, h.np.array(ref, dtype=int), 'encoder output')


def fblen(h, m, mf, L):
    """feedback polynomials shorter and longer than the generators; one output with and one without feedback"""
    f = h.bits('F', mf)
    h.assume(f[0] == 1)
    t = h.bits('T', m)
    s = h.np.concatenate([h.bits('S', 1), h.np.zeros(m - 1, dtype=int)]).astype(int)
    x = h.bits('x', L)
    y = h.cd.tx.coding_conv(x, {0: h.np.array([s, t])}, feedback={0: f}, use_feedback=h.np.array([[0, 1]]))
    ref, r = [], []
    for n in range(L):
        v = sum([t[k] * x[n - k] for k in range(m) if n >= k], 0) + sum([f[k] * r[n - k] for k in range(1, mf) if n >= k], 0)
        r.append(v % 2)
        ref += [s[0] * x[n], r[-1]]
    h.eq(y, h.np.array(ref, dtype=int), 'encoder output')


def long(h, code, L, free, start):
    """long stream, all but a window of bits fixed: exactness cannot depend on the length"""
    G, kw, n_in, n_out, g, F, use = load(h, code)
    w = h.bits('x', free)
    xs = [((i * i + 3 * i) // 2 + i // 7) % 2 for i in range(L)]
    xs = xs[:start] + [w[i] for i in range(free)] + xs[start + free:]
    y = h.cd.tx.coding_conv(h.np.array(xs, dtype=int), G, **kw)
    ref, _ = steps(group(xs, n_in), g, F, use, [[0] * (len(g[i][0]) - 1) for i in range(n_in)], n_in, n_out)
    h.eq(y, h.np.array(ref, dtype=int), 'encoder output')


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for c in CODES:
        for L in list(range(1, 9)) + [12] + ([24, 25] if th else []):
            cs.append(case('fixed %s L=%d' % (c, L), 'fixed', code=c, L=L))
    for n_out, m, L, fb, n_in in [(2, 2, 4, None, 1), (2, 3, 5, None, 1), (2, 3, 5, None, 2), (3, 2, 4, 'all', 1), (2, 3, 5, 'all', 1), (2, 2, 4, 'all', 2), (1, 1, 3, None, 1)] + ([(2, 4, 7, 'all', 1), (2, 4, 8, None, 1), (2, 3, 8, 'all', 2)] if th else []):
        cs.append(case('any n_in=%d %dx%d L=%d fb=%s' % (n_in, n_out, m, L, fb), 'anycode', n_out=n_out, m=m, L=L, fb=fb, n_in=n_in))
    for n_out, m, L, fb, n_in in [(1, 2, 6, None, 3), (2, 1, 5, None, 4)]:
        cs.append(case('any n_in=%d %dx%d L=%d fb=%s' % (n_in, n_out, m, L, fb), 'anycode', n_out=n_out, m=m, L=L, fb=fb, n_in=n_in))
    for m, L in [(2, 4), (3, 5)] + ([(4, 7)] if th else []):
        cs.append(case('systematic+any recursive m=%d L=%d' % (m, L), 'rscany', m=m, L=L))
    for m, mf, L in [(1, 2, 4), (1, 3, 4), (2, 3, 4), (2, 4, 5), (3, 2, 4), (4, 2, 4)] + ([(1, 5, 7), (5, 2, 7), (3, 5, 7)] if th else []):
        cs.append(case('feedback of %d taps over %d L=%d' % (mf, m, L), 'fblen', m=m, mf=mf, L=L))
    for c, L, fr, st in [('fb2', 120, 6, 0), ('rsc2', 120, 6, 50), ('k3', 200, 6, 100), ('fb3', 160, 6, 0), ('fb3', 160, 6, 90), ('mixed', 120, 6, 4)] + ([('fb2', 400, 10, 0), ('fb01', 400, 10, 5), ('rsc1', 400, 8, 0), ('fb3', 400, 10, 0)] if th else []):
        cs.append(case('long %s L=%d at %d' % (c, L, st), 'long', code=c, L=L, free=fr, start=st))
    return cs
