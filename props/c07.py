"""C07 Gray coding"""
from .common import case, sparse

BOUNDS = 'symbol arrays up to 16 entries, 1-D and 2-D, NRZ, OOK and PAM4; Gray labellings of 1..40, 64, 65, 129, 257 and 600 levels (up to 2000 thorough) with a symbolic level index; arrays of 1000 to 1500 symbols with 4 free ones'
OUTSIDE = 'PAM3 (its Gray labels 0,1,3 leave the alphabet), larger arrays'
NL = {'NRZ': 2, 'OOK': 2, 'PAM4': 4}


def _c(h, c):
    return getattr(h.cd.ConstellationEnum, c)


def bijection(h, c, shape):
    s = h.ints('s', shape, 0, NL[c] - 1)
    e = h.cd.tx.coding_gray(s, _c(h, c))
    h.eq(h.np.shape(e), list(shape), 'shape is kept by encoding')
    h.check(h.np.all((e >= 0) & (e < NL[c])), 'labels stay in the alphabet')
    h.eq(h.cd.rx.decoding_gray(e, _c(h, c)), s, 'decoding inverts encoding')
    d = h.cd.rx.decoding_gray(s, _c(h, c))
    h.eq(h.cd.tx.coding_gray(d, _c(h, c)), s, 'encoding inverts decoding')


def default(h, shape):
    s = h.ints('s', shape, 0, 3)
    h.eq(h.cd.tx.coding_gray(s), h.cd.tx.coding_gray(s, _c(h, 'PAM4')), 'PAM4 is the default of encoding')
    h.eq(h.cd.rx.decoding_gray(s), h.cd.rx.decoding_gray(s, _c(h, 'PAM4')), 'PAM4 is the default of decoding')


def _ones(x, n):
    return sum((x // (1 << b)) % 2 for b in range(n))


def neighbours(h, c):
    i = h.int_('i', 0, NL[c] - 2)
    a = h.np.array([i, i + 1])
    e = h.cd.tx.coding_gray(a, _c(h, c))
    h.eq(_ones(e[0] ^ e[1], 3), 1, 'neighbouring levels differ in one bit')


def labelling(h, n):
    v = h.cd.get_gray_level_vec(n)
    h.eq(h.np.shape(v), [n], 'one label per level')
    h.eq(v[0], 0, 'first label is 0')
    bits = max(1, (n - 1).bit_length())
    i = h.int_('i', 0, n - 1)
    h.check(h.and_(v[i] >= 0, v[i] < (1 << bits)), 'labels have the minimal number of bits')
    if n > 1:
        # distinct: the label leads back to its position, for every position at once
        inv = [0] * (1 << bits)
        for k in range(n):
            if 0 <= int(v[k]) < len(inv):
                inv[int(v[k])] = k
        h.eq(h.np.array(inv)[v[i]], i, 'labels are distinct')
        k = h.int_('k', 0, n - 2)
        d = (v[:-1] ^ v[1:])[k]
        h.check(h.or_(*[d == (1 << b) for b in range(bits)]), 'successive labels differ in one bit')


big = sparse(globals())


def cases(tier):
    cs = []
    for c in NL:
        for sh in [(n,) for n in range(1, 17)] + [(2, 3), (3, 2), (4, 4), (3, 1), (2, 2, 3), (100,)]:
            cs.append(case('bijection %s %s' % (c, sh), 'bijection', c=c, shape=list(sh)))
        cs.append(case('neighbours %s' % c, 'neighbours', c=c))
    cs.append(case('default', 'default', shape=[4]))
    for n in list(range(1, 18)) + [24, 31, 32, 33, 40, 64, 65, 129, 257, 600] + ([48, 63, 100, 127, 128, 200, 256, 300, 1025, 2000] if tier == 'thorough' else []):
        cs.append(case('labelling %d' % n, 'labelling', n=n))
    for c in NL:
        for sh in [(1000,), (50, 30)]:
            cs.append(case('long bijection %s %s' % (c, sh), 'big', what='bijection', c=c, shape=list(sh)))
    return cs
