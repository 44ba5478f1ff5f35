"""C04 mapping / demapping / levels"""
from .common import case, sparse

BOUNDS = 'symbol arrays up to 24 entries, 1-D to 4-D, all four constellations, both scalings and polarities; custom levels real-valued in [-5,5], level counts 1..6; arrays of 400 to 600 symbols with 4 free ones'
OUTSIDE = 'larger arrays, more than four dimensions'
NL = {'NRZ': 2, 'OOK': 2, 'PAM3': 3, 'PAM4': 4}
UN = {'NRZ': [-1, 1], 'OOK': [0, 1], 'PAM3': [-1, 0, 1], 'PAM4': [-3, -1, 1, 3]}


def _c(h, c):
    return getattr(h.cd.ConstellationEnum, c)


def roundtrip(h, c, shape):
    n = NL[c]
    s = h.ints('s', shape, 0, n - 1)
    fs, pn = h.flag('full_scale'), h.flag('pn_inv')
    m = h.cd.tx.mapping(s, _c(h, c), full_scale=fs, pn_inv=pn)
    # reference levels from the documentation
    lv = UN[c]
    scale = (sum(v * v for v in lv) / len(lv)) ** 0.5 if fs else 1.0
    ref = []
    fl = s.reshape(-1)
    for i in range(fl.shape[0]):
        v = 0.0
        for k in range(n):
            v = h.ite(fl[i] == k, (-1 if pn else 1) * lv[k] / scale, v)
        ref.append(v)
    h.eq(m, h.np.array(ref, dtype=float).reshape(tuple(shape)), 'mapped levels', tol=1e-12)
    d = h.cd.rx.demapping(m, _c(h, c), full_scale=fs, pn_inv=pn)
    h.eq(d, s, 'demapping(mapping(s)) == s')


def polarity(h, c, shape):
    s = h.ints('s', shape, 0, NL[c] - 1)
    fs = h.flag('full_scale')
    a = h.cd.tx.mapping(s, _c(h, c), full_scale=fs)
    b = h.cd.tx.mapping(s, _c(h, c), full_scale=fs, pn_inv=True)
    h.eq(b, -a, 'inverted polarity is the negated level')


def levels(h, c):
    u = h.cd.get_levels(_c(h, c))
    f = h.cd.get_levels(_c(h, c), full_scale=True)
    h.eq(u, h.np.array(UN[c]), 'documented levels')
    h.eq(h.np.shape(f), [NL[c]], 'number of full-scale levels')
    h.eq(h.np.mean(f * f), 1.0, 'full-scale power', tol=1e-12)
    d = h.np.diff(f)
    h.check(h.np.all(d > 0), 'increasing levels')
    h.eq(d, h.np.ones(NL[c] - 1) * d[0], 'equally spaced', tol=1e-12)
    h.eq(f * u[-1], u * f[-1], 'full-scale levels proportional to the unscaled ones', tol=1e-12)
    i = h.int_('i', 0, NL[c] - 1)
    h.eq(h.cd.tx.mapping(h.np.array([i]), _c(h, c), full_scale=True), h.np.array([f[i]]), 'mapping uses the full-scale levels', tol=1e-12)


def custom(h, c, shape, count):
    lv = h.reals('l', (count,), -5, 5)
    s = h.ints('s', shape, 0, NL[c] - 1)
    fs, pn = h.flag('full_scale'), h.flag('pn_inv')
    if count != NL[c]:
        h.check(h.raises(h.cd.tx.mapping, s, _c(h, c), full_scale=fs, levels=lv, pn_inv=pn), '%d levels for %s are rejected' % (count, c))
        return
    m = h.cd.tx.mapping(s, _c(h, c), full_scale=fs, levels=lv, pn_inv=pn)
    fl = s.reshape(-1)
    ref = []
    for i in range(fl.shape[0]):
        v = lv[0]
        for k in range(1, count):
            v = h.ite(fl[i] == k, lv[k], v)
        ref.append(-v if pn else v)
    h.eq(m, h.np.array(ref).reshape(tuple(shape)), 'custom levels are used as given', tol=1e-12)


big = sparse(globals())


def cases(tier):
    cs = []
    shapes = [(n,) for n in range(1, 13)] + [(3, 2), (2, 3), (3, 3), (2, 5), (5, 2), (24,), (1, 3), (3, 1), (2, 2, 3), (2, 1, 2, 2)] if tier == 'quick' else [(1,), (4,), (3, 2), (2, 5), (24,), (1, 3), (2, 2, 3), (2, 1, 2, 2), (64,), (4, 5), (8, 8)]
    for c in NL:
        for sh in shapes:
            cs.append(case('roundtrip %s %s' % (c, sh), 'roundtrip', c=c, shape=list(sh)))
        cs.append(case('polarity %s' % c, 'polarity', c=c, shape=[6]))
        cs.append(case('levels %s' % c, 'levels', c=c))
        for count in range(1, 7):
            cs.append(case('custom %s %d' % (c, count), 'custom', c=c, shape=[3], count=count))
        cs.append(case('custom 2d %s' % c, 'custom', c=c, shape=[2, 2], count=NL[c]))
        cs.append(case('custom 3d %s' % c, 'custom', c=c, shape=[2, 1, 2], count=NL[c]))
        cs.append(case('polarity 3d %s' % c, 'polarity', c=c, shape=[2, 2, 2]))
    for c in NL:
        for sh in [(400,), (30, 20)]:
            cs.append(case('long roundtrip %s %s' % (c, sh), 'big', what='roundtrip', c=c, shape=list(sh)))
    return cs
