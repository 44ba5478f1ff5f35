"""C05 slicer"""
from .common import case, sparse

BOUNDS = 'real inputs in [-12,12], 1-D up to 6 entries and matrices up to 2x3; inputs up to 1e6 and down to 1e-4 with fixed level sets of 1 to 8 levels; 1 to 6 symbolic real levels in [-6,6], increasing and at least 0.01 apart or in any order (equal ones included), and the default level set; arrays of 300 to 600 (2000 thorough) samples with 4 free ones'
OUTSIDE = 'larger arrays, more than two dimensions (the code flattens them), complex inputs'


def _near(h, x, out, lv):
    """out is a level and no level is closer (ties either way)"""
    x, out = x.reshape(-1), out.reshape(-1)
    n = len(lv)
    for i in range(x.shape[0]):
        h.check(h.or_(*[h.np.abs(out[i] - lv[k]) <= 1e-12 for k in range(n)]), 'entry %d is a level' % i)
        d = h.np.abs(out[i] - x[i])
        for k in range(n):
            h.check(d <= h.np.abs(lv[k] - x[i]) + 1e-9, 'entry %d is a nearest level' % i)


def nearest(h, shape, nl, aslist=False, order=True):
    x = h.reals('x', shape, -12, 12)
    if nl == 0:
        lv = [-3, -1, 1, 3]
        out = h.cd.rx.slicer(x.tolist() if aslist else x)
        lvl = h.np.array([-3.0, -1.0, 1.0, 3.0])
    else:
        lvl = h.reals('l', (nl,), -6, 6)
        for k in range(nl - 1 if order else 0):
            h.assume(lvl[k + 1] - lvl[k] >= 0.01)
        out = h.cd.rx.slicer(x.tolist() if aslist else x, lvl)
        lv = [lvl[k] for k in range(nl)]
    h.eq(h.np.shape(out), list(shape), 'shape is kept')
    h.observe(out)
    _near(h, x, out, lv)


def idempotent(h, shape, nl):
    x = h.reals('x', shape, -12, 12)
    if nl == 0:
        a = h.cd.rx.slicer(x)
        b = h.cd.rx.slicer(a)
    else:
        lvl = h.reals('l', (nl,), -6, 6)
        for k in range(nl - 1):
            h.assume(lvl[k + 1] - lvl[k] >= 0.01)
        a = h.cd.rx.slicer(x, lvl)
        b = h.cd.rx.slicer(a, lvl)
    h.eq(b, a, 'slicing twice equals slicing once', tol=1e-9)


def many(h, n, step, lo, hi):
    """large constellations: any input in [lo, hi]"""
    lv = [(k - (n - 1) / 2) * step for k in range(n)]
    x = h.reals('x', 1, lo, hi)
    out = h.cd.rx.slicer(x, h.np.array(lv))
    h.eq(h.np.shape(out), [1], 'shape is kept')
    h.observe(out)
    h.check(h.or_(h.np.abs(out[0] - x[0]) <= step / 2 + 1e-9, h.and_(out[0] == lv[0], x[0] <= lv[0]), h.and_(out[0] == lv[-1], x[0] >= lv[-1])), 'nearest level')
    h.check(h.or_(*[out[0] == v for v in lv]), 'a level')


def scaled(h, lv, scale, shape):
    """fixed levels, inputs far outside (or far inside) their range"""
    x = h.reals('x', shape, -scale, scale)
    out = h.cd.rx.slicer(x, h.np.array(lv))
    h.eq(h.np.shape(out), list(shape), 'shape is kept')
    h.observe(out)
    _near(h, x, out, lv)


def integers(h, shape):
    """integer-typed captures"""
    x = h.ints('x', shape, -6, 6)
    out = h.cd.rx.slicer(x)
    h.eq(h.np.shape(out), list(shape), 'shape is kept')
    h.observe(out)
    _near(h, x, out, [-3, -1, 1, 3])


big = sparse(globals())


def cases(tier):
    cs = []
    for nl in (0, 1, 2, 3, 4) + ((5, 6) if tier == 'thorough' else ()):
        for sh in [(1,), (2,), (3,), (4,), (1, 1), (2, 3), (3, 2)] + ([(6,)] if tier == 'thorough' else []):
            cs.append(case('nearest %d %s' % (nl, sh), 'nearest', shape=list(sh), nl=nl))
        cs.append(case('nearest list %d' % nl, 'nearest', shape=[2], nl=nl, aslist=True))
        cs.append(case('nearest list2 %d' % nl, 'nearest', shape=[2, 2], nl=nl, aslist=True))
        if nl > 1:
            for sh in [(1,), (2,), (2, 2)]:
                cs.append(case('any order %d %s' % (nl, sh), 'nearest', shape=list(sh), nl=nl, order=False))
        cs.append(case('idempotent %d' % nl, 'idempotent', shape=[2], nl=nl))
    for n, step in [(16, 2.0), (130, 1.0), (300, 0.5)] + ([(1000, 1.0)] if tier == 'thorough' else []):
        w = 3 * step
        for c in (-(n - 1) / 2 * step, 0, (n - 1) / 2 * step, n / 4 * step):
            cs.append(case('many %d around %s' % (n, c), 'many', n=n, step=step, lo=c - w, hi=c + w))
    for k, lv in enumerate([[-1.0, 1.0], [-1.0, 0.0, 1.0], [-3.0, -1.0, 1.0, 3.0], [-2.0, -1.0, 0.0, 1.0, 2.0], [-7.0, -5.0, -3.0, -1.0, 1.0, 3.0, 5.0, 7.0], [2.5], [0.0, 1.0], [-1e-3, 1e-3], [-2e4, 1e4, 5e4], [-200.0, 0.3, 0.6, 200.0]]):
        for sc in (1e6, 3e3, 1.0, 1e-2):
            cs.append(case('scaled set %d up to %g' % (k, sc), 'scaled', lv=lv, scale=sc, shape=[1] if k else [1, 2]))
    cs.append(case('integers', 'integers', shape=[5]))
    cs.append(case('integers 2d', 'integers', shape=[2, 3]))
    for sh in [(400,), (513,), (30, 20), (1, 300), (300, 1)] + ([(2000,)] if tier == 'thorough' else []):
        for nl in (0, 2, 3):
            cs.append(case('long nearest %d %s' % (nl, sh), 'big', what='nearest', shape=list(sh), nl=nl))
    return cs
