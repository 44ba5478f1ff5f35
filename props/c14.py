"""C14 exhaustive maximum-likelihood decoding of convolutional codes"""
from .common import case, sparse
from .convref import CODES, load, steps, group

BOUNDS = 'fixed one- and two-input codes with up to 3 memory bits, with and without feedback, any received stream up to two blocks of 3 steps plus trailing bits, up to nine blocks of one step; blocks of 5 to 7 steps with any input, any start state and up to one flipped bit; any generator taps (2 outputs, 2 taps, with and without feedback) for one block of 2 steps; 40 and 150 blocks with 4 free symbols'
OUTSIDE = 'larger memories and blocks, traceback lengths that are no multiple of the number of outputs'


def _bits(v, n):
    return [(v >> (n - 1 - i)) & 1 for i in range(n)]


def table(h, g, F, use, n_in, n_out, n_steps):
    """every (input, start state): input bits, code word, end state"""
    mem = [len(g[i][0]) - 1 for i in range(n_in)]
    rows = []
    for s in range(2 ** sum(mem)):
        sb = _bits(s, sum(mem))
        st, k = [], 0
        for m in mem:
            st.append(sb[k:k + m])
            k += m
        for u in range(2 ** (n_in * n_steps)):
            ub = _bits(u, n_in * n_steps)
            w, e = steps(group(ub, n_in), g, F, use, st, n_in, n_out)
            rows.append((ub, w, [b for r in e for b in r]))
    return rows


def dists(h, rows, r):
    return [sum((abs(w[j] - r[j]) for j in range(len(r))), 0) for _, w, _ in rows]


def minimum(h, d):
    # fold with duplicates removed is not needed: the engine shares equal terms
    best = d[0]
    for v in d[1:]:
        best = h.ite(v < best, v, best)
    return best


def _prob(h, best, ind, zero_best):
    """1/count, 0 when the best distance is zero (count of indicator list)"""
    cnt = sum(ind, 0)
    p = 0.0
    for c in range(1, len(ind) + 1):
        p = h.ite(cnt == c, 1.0 / c, p)
    return h.ite(best == 0, 0.0, p) if zero_best else p


def decode(h, code, n_steps, extra, blocks=1, prob=True):
    G, kw, n_in, n_out, g, F, use = load(h, code)
    tb = n_out * n_steps
    L = tb * blocks + extra
    r = h.bits('r', L)
    keep = h.snapshot(r)
    d = h.cd.rx.decoding_conv_ml(r, G, tb, **kw)
    nb = n_in * n_steps
    h.eq(h.np.shape(d), [nb * blocks], 'decoded length')
    h.observe(d)
    rows = table(h, g, F, use, n_in, n_out, n_steps)
    p = None
    if prob:
        d2, p = h.cd.rx.decoding_conv_ml(r, G, tb, error_prob=True, **kw)
        h.eq(d2, d, 'asking for the probability does not change the bits')
        h.eq(h.np.shape(p), [blocks], 'one probability per block')
        h.eq(r, keep, 'the received bits are left alone')
    for b in range(blocks):
        rb = [r[b * tb + j] for j in range(tb)]
        db = [d[b * nb + i] for i in range(nb)]
        ds = dists(h, rows, rb)
        best = minimum(h, ds)
        ok = h.or_(*[h.and_(v == best, *[db[i] == row[0][i] for i in range(nb)]) for v, row in zip(ds, rows)])
        h.check(ok, 'block %d is a maximum-likelihood input' % b)
        if prob:
            h.eq(p[b], _prob(h, best, [h.ite(v == best, 1, 0) for v in ds], True), 'error probability of block %d' % b, tol=1e-9)


def anycode(h, n_out, m, n_steps, fb):
    G0 = h.bits('G', (n_out, m))
    g = [[[G0[j, k] for k in range(m)] for j in range(n_out)]]
    F, use, kw = [None], [[0] * n_out], {}
    if fb:
        f = h.bits('F', m)
        h.assume(f[0] == 1)
        F = [[1] + [f[k] for k in range(1, m)]]
        use = [[1] * n_out]
        kw = dict(feedback={0: f}, use_feedback=h.np.ones((1, n_out), dtype=int))
    tb = n_out * n_steps
    r = h.bits('r', tb)
    d = h.cd.rx.decoding_conv_ml(r, {0: G0}, tb, **kw)
    rows = table(h, g, F, use, 1, n_out, n_steps)
    ds = dists(h, rows, [r[j] for j in range(tb)])
    best = minimum(h, ds)
    h.observe(d)
    h.check(h.or_(*[h.and_(v == best, *[d[i] == row[0][i] for i in range(n_steps)]) for v, row in zip(ds, rows)]), 'a maximum-likelihood input')


def independent(h, code, n_steps, blocks):
    """every block is decoded as if it were alone"""
    G, kw, n_in, n_out, g, F, use = load(h, code)
    tb, nb = n_out * n_steps, n_in * n_steps
    r = h.bits('r', tb * blocks)
    d, p = h.cd.rx.decoding_conv_ml(r, G, tb, error_prob=True, **kw)
    for b in range(blocks):
        d1, p1 = h.cd.rx.decoding_conv_ml(r[b * tb:(b + 1) * tb], G, tb, error_prob=True, **kw)
        h.eq(d[b * nb:(b + 1) * nb], d1, 'block %d alone gives the same bits' % b)
        h.eq(p[b], p1[0], 'block %d alone gives the same probability' % b, tol=1e-9)


def near(h, code, n_steps):
    """longer blocks: any input from any start state, any single flipped bit; the answer is never farther than one bit"""
    G, kw, n_in, n_out, g, F, use = load(h, code)
    nb, tb = n_in * n_steps, n_out * n_steps
    x = h.bits('x', nb)
    mem = [len(g[i][0]) - 1 for i in range(n_in)]
    s = h.bits('s', max(sum(mem), 1))
    st, k = [], 0
    for m in mem:
        st.append([s[k + i] for i in range(m)])
        k += m
    w, _ = steps(group([x[i] for i in range(nb)], n_in), g, F, use, st, n_in, n_out)
    flip = h.pick('flip', [-1] + list(range(tb)))
    r = h.np.stack([(w[j] + (1 if j == flip else 0)) % 2 for j in range(tb)])
    d = h.cd.rx.decoding_conv_ml(r, G, tb, **kw)
    h.eq(h.np.shape(d), [nb], 'decoded length')
    h.observe(d)
    lim = 0 if flip < 0 else 1
    ok = False
    for v in range(2 ** sum(mem)):
        sb = _bits(v, sum(mem))
        st, k = [], 0
        for m in mem:
            st.append(sb[k:k + m])
            k += m
        o, _ = steps(group([d[i] for i in range(nb)], n_in), g, F, use, st, n_in, n_out)
        ok = h.or_(ok, sum((abs(o[j] - r[j]) for j in range(tb)), 0) <= lim)
    h.check(ok, 'the decoded input explains the block with at most %d error' % lim)


def clean(h, code, n_steps):
    """the encoder's own output decodes at distance zero"""
    G, kw, n_in, n_out, g, F, use = load(h, code)
    nb = n_in * n_steps
    x = h.bits('x', nb)
    y = h.cd.tx.coding_conv(x, G, **kw)
    d, p = h.cd.rx.decoding_conv_ml(y, G, n_out * n_steps, error_prob=True, **kw)
    h.eq(p, h.np.zeros(1), 'an error-free block is recognised')
    rows = table(h, g, F, use, n_in, n_out, n_steps)
    ok = h.or_(*[h.and_(*([d[i] == row[0][i] for i in range(nb)] + [y[j] == row[1][j] for j in range(n_out * n_steps)])) for row in rows])
    h.check(ok, 'the decoded input explains the error-free block exactly')


big = sparse(globals())


def cases(tier):
    th = tier == 'thorough'
    cs = []
    small = ['k2', 'rsc1', 'mem0', 'two0']
    mid = ['k3', '57', 'rsc2', 'fb2', 'fb01', 'r13', 'two1', 'mixed', 'fbdif']
    for c in small:
        cs.append(case('decode %s 2 steps' % c, 'decode', code=c, n_steps=2, extra=1))
        cs.append(case('decode %s 1 step, 2 blocks' % c, 'decode', code=c, n_steps=1, extra=0, blocks=2))
    for c in mid:
        cs.append(case('decode %s 2 steps' % c, 'decode', code=c, n_steps=2, extra=0, prob=c != 'two1' or th))
    for c, b in [('k2', 7), ('mem0', 9), ('rsc1', 6), ('two0', 5)]:
        cs.append(case('decode %s 1 step, %d blocks' % (c, b), 'decode', code=c, n_steps=1, extra=1, blocks=b, prob=c != 'two0'))
    for c, n, b in [('k2', 2, 3), ('k3', 2, 3), ('rsc1', 1, 4)] + ([('k2', 2, 4), ('rsc1', 1, 6)] if th else []):
        cs.append(case('independent %s %d steps %d blocks' % (c, n, b), 'independent', code=c, n_steps=n, blocks=b))
    cs.append(case('decode three1 1 step', 'decode', code='three1', n_steps=1, extra=0, blocks=2))
    for c, n in [('k2', 5), ('rsc1', 5), ('k3', 5), ('mem0', 7)]:
        cs.append(case('near %s %d steps' % (c, n), 'near', code=c, n_steps=n))
    cs.append(case('decode fbtwo 1 step', 'decode', code='fbtwo', n_steps=1, extra=0, blocks=1))
    cs.append(case('decode fb5 2 steps', 'decode', code='fb5', n_steps=2, extra=0, prob=False))
    cs.append(case('decode two 1 step', 'decode', code='two', n_steps=1, extra=2))
    for c in ['k2', 'rsc1', 'k3', 'fb2'] + (['57', 'rsc2', 'fb01', 'mixed', 'r13', 'two1'] if th else []):
        cs.append(case('decode %s 3 steps' % c, 'decode', code=c, n_steps=3, extra=1))
    if th:
        for c in ['k2', 'k3', 'rsc2', 'fb01']:
            cs.append(case('decode %s 2 steps, 2 blocks' % c, 'decode', code=c, n_steps=2, extra=1, blocks=2))
            cs.append(case('decode %s 4 steps' % c, 'decode', code=c, n_steps=4, extra=0))
        cs.append(case('decode k4 3 steps', 'decode', code='k4', n_steps=3, extra=0))
    for n_out, m, n, fb in [(1, 2, 2, False), (2, 2, 1, False), (2, 2, 1, True), (1, 2, 2, True), (2, 2, 2, False)] + ([(2, 2, 2, True), (1, 3, 2, False), (1, 3, 2, True)] if th else []):
        cs.append(case('any %dx%d %d steps fb=%s' % (n_out, m, n, fb), 'anycode', n_out=n_out, m=m, n_steps=n, fb=fb))
    for c, n in [('k2', 3), ('k3', 3), ('rsc1', 3), ('rsc2', 3), ('fb2', 3), ('fb01', 3), ('mixed', 2), ('two1', 2), ('two', 2), ('r13', 2), ('two0', 2), ('fbtwo', 2), ('fbdif', 2), ('fb5', 3)] + ([('k3', 4), ('fb2', 4), ('rsc2', 4)] if th else []):
        cs.append(case('clean %s %d steps' % (c, n), 'clean', code=c, n_steps=n))
    for n_steps, blocks in [(2, 150), (3, 40)]:
        cs.append(case('long decode k2 %d steps %d blocks' % (n_steps, blocks), 'big', what='decode', code='k2', n_steps=n_steps, extra=1, blocks=blocks))
    return cs
