"""C02 maximal-length polynomials"""
from .common import case

BOUNDS = 'every named type (PRBS7, 9, 11, 13, 15, 31), all seeds symbolic; full period, through repeated squaring of the one-step map that is itself checked against the code for every seed'
OUTSIDE = 'nothing within the named types; polynomials supplied by the user'

DEG = {'PRBS7': 7, 'PRBS9': 9, 'PRBS11': 11, 'PRBS13': 13, 'PRBS15': 15, 'PRBS31': 31}
# prime factors of 2^n - 1
PF = {7: [127], 9: [7, 73], 11: [23, 89], 13: [8191], 15: [7, 31, 151], 31: [2147483647]}


def _mul(a, b):
    """GF(2) matrices as lists of row bit masks: product a.b"""
    out = []
    for r in a:
        v = 0
        j = 0
        while r:
            if r & 1:
                v ^= b[j]
            r >>= 1
            j += 1
        out.append(v)
    return out


def _pow(m, e):
    n = len(m)
    r = [1 << i for i in range(n)]
    while e:
        if e & 1:
            r = _mul(r, m)
        m = _mul(m, m)
        e >>= 1
    return r


def _apply(m, s):
    n = len(m)
    out = []
    for r in m:
        idx = [j for j in range(n) if r >> j & 1]
        out.append(sum(s[j] for j in idx) % 2 if idx else 0)
    return out


def _step(h, how, poly, s):
    if how == 'iterator':
        it = h.cd.tx.PrbsIterator(poly, s)
        next(it)
        return it.get_seed()
    if how == 'bits':                      # state as seen in the emitted bits: one register length further
        n = len(poly)
        q, _ = h.cd.tx.prbs_gen(poly, s, n)
        return q[::-1]
    return h.cd.tx.prbs_gen(poly, s, 1)[1]


def period(h, t, how):
    n = DEG[t]
    poly = h.cd.get_polynomial(getattr(h.cd.PrbsEnum, t))
    h.eq(h.np.shape(poly), [n], 'degree of the polynomial')
    # one-step map of the code, from its action on the unit seeds
    m = [0] * n
    for j in range(n):
        e = h.np.array([1 if i == j else 0 for i in range(n)], dtype=int)
        st = _step(h, how, poly, e)
        for i in range(n):
            if int(st[i]):
                m[i] |= 1 << j
    s = h.bits('s', (n,))
    sv = [s[i] for i in range(n)]
    # the code agrees with that map on every seed
    h.eq(_step(h, how, poly, s), h.np.array(_apply(m, sv), dtype=int), 'one step is the linear map')
    nz = h.or_(*[v == 1 for v in sv])
    N = 2 ** n - 1
    one = _apply(m, sv)
    h.check(h.or_(h.not_(nz), *[v == 1 for v in one]), 'a non-zero register never becomes zero')
    k = 1 if how != 'bits' else n            # gcd(n, 2^n-1) = 1 for the named degrees
    full = _apply(_pow(m, N), sv)
    h.check(h.and_(*[a == b for a, b in zip(full, sv)]), 'the register returns to the seed after 2^n-1 steps')
    for p in PF[n]:
        part = _apply(_pow(m, N // p), sv)
        h.check(h.or_(h.not_(nz), *[a != b for a, b in zip(part, sv)]), 'the register does not return after (2^n-1)/%d steps' % p)


def cases(tier):
    cs = []
    for t in DEG:
        for how in ('iterator', 'generator', 'bits'):
            cs.append(case('period %s %s' % (t, how), 'period', t=t, how=how))
    return cs
