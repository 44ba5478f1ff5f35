"""C15 Viterbi decoding"""
from .common import case, sparse
from .convref import CODES, load, steps, group
from .c14 import table, dists, minimum, _bits

BOUNDS = 'fixed one- and two-input codes with up to 3 memory bits, with and without feedback, any received stream up to two blocks of 4 steps plus trailing bits; any generator taps (2 outputs, 2 taps, with and without feedback) for one block of 2 steps; 40 and 150 blocks and a block of 60 steps with 4 free observations'
OUTSIDE = 'larger memories and blocks, streams without a complete block, traceback lengths that are no multiple of the number of outputs'


def _prob(h, ind):
    cnt = sum(ind, 0)
    p = 0.0
    for c in range(2, len(ind) + 1):
        p = h.ite(cnt == c, 1.0 / c, p)
    return p


def _spec(h, rows, rb, db, last, p, what, n_end):
    """db: decoded bits, last: reported end state index (or None), p: probability (or None)"""
    ds = dists(h, rows, rb)
    best = minimum(h, ds)
    nb = len(db)

    def end(row):
        return int(''.join(map(str, row[2])) or '0', 2)
    h.check(h.or_(*[h.and_(v == best, *[db[i] == row[0][i] for i in range(nb)]) for v, row in zip(ds, rows)]), '%s is a maximum-likelihood input' % what)
    if last is not None:
        h.check(h.or_(*[h.and_(v == best, last == end(row), *[db[i] == row[0][i] for i in range(nb)]) for v, row in zip(ds, rows)]), '%s ends in the reported state' % what)
    if p is not None:
        ind = []
        for s in range(n_end):
            sel = [v == best for v, row in zip(ds, rows) if end(row) == s]
            ind.append(h.ite(h.or_(*sel), 1, 0) if sel else 0)
        h.eq(p, _prob(h, ind), 'error probability of %s' % what, tol=1e-9)


def decode(h, code, n_steps, extra=0, blocks=1, prob=True):
    G, kw, n_in, n_out, g, F, use = load(h, code)
    tb = n_out * n_steps
    nb = n_in * n_steps
    r = h.bits('r', tb * blocks + extra)
    d, last, p = h.cd.rx.decoding_conv_viterbi(r, G, tb, error_prob=True, **kw)
    h.eq(h.np.shape(d), [nb * blocks], 'decoded length')
    h.eq(h.np.shape(p), [blocks], 'one probability per block')
    h.observe(d)
    h.observe(last)
    rows = table(h, g, F, use, n_in, n_out, n_steps)
    n_end = 2 ** sum(len(g[i][0]) - 1 for i in range(n_in))
    for b in range(blocks):
        _spec(h, rows, [r[b * tb + j] for j in range(tb)], [d[b * nb + i] for i in range(nb)],
              last if b == blocks - 1 else None, p[b] if prob else None, 'block %d' % b, n_end)


def plain(h, code, n_steps, extra=0):
    """without the probability the bits and the state are the same"""
    G, kw, n_in, n_out, g, F, use = load(h, code)
    tb = n_out * n_steps
    r = h.bits('r', tb + extra)
    d, last, p = h.cd.rx.decoding_conv_viterbi(r, G, tb, error_prob=True, **kw)
    d1, last1 = h.cd.rx.decoding_conv_viterbi(r, G, tb, **kw)
    h.eq(d1, d, 'same bits without the probability')
    h.eq(last1, last, 'same state without the probability')


def anycode(h, n_out, m, n_steps, fb):
    G0 = h.bits('G', (n_out, m))
    g = [[[G0[j, k] for k in range(m)] for j in range(n_out)]]
    F, use, kw = [None], [[0] * n_out], {}
    if fb:
        f = h.bits('F', m)
        h.assume(f[0] == 1)
        F = [[1] + [f[k] for k in range(1, m)]]
        use = [[1] * n_out]
        kw = dict(feedback={0: f}, use_feedback=h.np.ones((1, n_out), dtype=int))
    tb = n_out * n_steps
    r = h.bits('r', tb)
    d, last = h.cd.rx.decoding_conv_viterbi(r, {0: G0}, tb, **kw)
    h.observe(d)
    h.observe(last)
    rows = table(h, g, F, use, 1, n_out, n_steps)
    rb = [r[j] for j in range(tb)]
    ds = dists(h, rows, rb)
    best = minimum(h, ds)
    h.check(h.or_(*[h.and_(v == best, *[d[i] == row[0][i] for i in range(n_steps)]) for v, row in zip(ds, rows)]), 'a maximum-likelihood input')


def vs_exhaustive(h, code, n_steps):
    """never worse than exhaustive search: the two decoders' answers are at the same distance"""
    G, kw, n_in, n_out, g, F, use = load(h, code)
    tb, nb = n_out * n_steps, n_in * n_steps
    r = h.bits('r', tb)
    rb = [r[j] for j in range(tb)]
    v = h.cd.rx.decoding_conv_viterbi(r, G, tb, **kw)[0]
    e = h.cd.rx.decoding_conv_ml(r, G, tb, **kw)
    rows = table(h, g, F, use, n_in, n_out, n_steps)

    ds = dists(h, rows, rb)

    def dist_of(d):
        best = tb + 1
        for val, row in zip(ds, rows):
            hit = h.and_(*[d[i] == row[0][i] for i in range(nb)])
            best = h.ite(h.and_(hit, val < best), val, best)
        return best
    h.eq(dist_of(v), dist_of(e), 'same distance as exhaustive search')


def metrics(h, g, F, use, n_in, n_out, r):
    """least distance of any path to every end state, by dynamic programming over the reference encoder"""
    mem = [len(g[i][0]) - 1 for i in range(n_in)]
    ns = 2 ** sum(mem)
    M = [0] * ns
    for t in range(len(r) // n_out):
        N = [None] * ns
        for s in range(ns):
            sb, st, k = _bits(s, sum(mem)), [], 0
            for m in mem:
                st.append(sb[k:k + m])
                k += m
            for u in range(2 ** n_in):
                w, e = steps([_bits(u, n_in)], g, F, use, st, n_in, n_out)
                q = int(''.join(str(b) for row in e for b in row) or '0', 2)
                c = M[s] + sum((abs(w[j] - r[t * n_out + j]) for j in range(n_out)), 0)
                N[q] = c if N[q] is None else h.ite(c < N[q], c, N[q])
        M = [len(r) + 1 if v is None else v for v in N]
    return M


def probs(h, code, n_steps, blocks=1, free=None):
    """error probability of longer blocks, any received stream (or any values of its last bits)"""
    G, kw, n_in, n_out, g, F, use = load(h, code)
    tb = n_out * n_steps
    r = h.bits('r', free or tb * blocks)
    if free:
        r = h.np.stack([(i * i // 3) % 2 + 0 * r[0] for i in range(tb * blocks - free)] + [r[i] for i in range(free)])
    d, last, p = h.cd.rx.decoding_conv_viterbi(r, G, tb, error_prob=True, **kw)
    for b in range(blocks):
        M = metrics(h, g, F, use, n_in, n_out, [r[b * tb + j] for j in range(tb)])
        best = minimum(h, M)
        h.eq(p[b], _prob(h, [h.ite(m == best, 1, 0) for m in M]), 'error probability of block %d' % b, tol=1e-9)
        if b == blocks - 1:
            h.check(h.or_(*[h.and_(last == s, M[s] == best) for s in range(len(M))]), 'the reported state is a best one')


def independent(h, code, n_steps, blocks):
    """every block is decoded as if it were alone"""
    G, kw, n_in, n_out, g, F, use = load(h, code)
    tb, nb = n_out * n_steps, n_in * n_steps
    r = h.bits('r', tb * blocks)
    d, last, p = h.cd.rx.decoding_conv_viterbi(r, G, tb, error_prob=True, **kw)
    for b in range(blocks):
        d1, l1, p1 = h.cd.rx.decoding_conv_viterbi(r[b * tb:(b + 1) * tb], G, tb, error_prob=True, **kw)
        h.eq(d[b * nb:(b + 1) * nb], d1, 'block %d alone gives the same bits' % b)
        h.eq(p[b], p1[0], 'block %d alone gives the same probability' % b, tol=1e-9)
    h.eq(last, l1, 'the last block alone gives the same state')


def near(h, code, n_steps):
    """longer blocks: any input from any start state, any single flipped bit"""
    G, kw, n_in, n_out, g, F, use = load(h, code)
    nb, tb = n_in * n_steps, n_out * n_steps
    x = h.bits('x', nb)
    mem = [len(g[i][0]) - 1 for i in range(n_in)]
    s = h.bits('s', max(sum(mem), 1))

    def split(b):
        st, k = [], 0
        for m in mem:
            st.append([b[k + i] for i in range(m)])
            k += m
        return st
    w, _ = steps(group([x[i] for i in range(nb)], n_in), g, F, use, split(s), n_in, n_out)
    flip = h.pick('flip', [-1, 0, tb // 2, tb - 1])
    r = h.np.stack([(w[j] + (1 if j == flip else 0)) % 2 for j in range(tb)])
    d, last, p = h.cd.rx.decoding_conv_viterbi(r, G, tb, error_prob=True, **kw)
    h.eq(h.np.shape(d), [nb], 'decoded length')
    h.observe(d)
    lim = 0 if flip < 0 else 1
    ok = False
    for v in range(2 ** sum(mem)):
        o, e = steps(group([d[i] for i in range(nb)], n_in), g, F, use, split(_bits(v, sum(mem))), n_in, n_out)
        end = 0
        for b in [q for row in e for q in row]:
            end = 2 * end + b
        ok = h.or_(ok, h.and_(sum((abs(o[j] - r[j]) for j in range(tb)), 0) <= lim, last == end))
    h.check(ok, 'the decoded input explains the block with at most %d error and ends in the reported state' % lim)


def clean(h, code, n_steps):
    """the encoder's own output has a zero-distance path ending in the encoder's end state"""
    G, kw, n_in, n_out, g, F, use = load(h, code)
    nb = n_in * n_steps
    x = h.bits('x', nb)
    y = h.cd.tx.coding_conv(x, G, **kw)
    d, last = h.cd.rx.decoding_conv_viterbi(y, G, n_out * n_steps, **kw)
    rows = table(h, g, F, use, n_in, n_out, n_steps)
    ok = h.or_(*[h.and_(*([d[i] == row[0][i] for i in range(nb)] + [y[j] == row[1][j] for j in range(n_out * n_steps)])) for row in rows])
    h.check(ok, 'the decoded input explains the error-free block exactly')


big = sparse(globals())


def cases(tier):
    th = tier == 'thorough'
    cs = []
    small = ['k2', 'rsc1', 'two0']
    mid = ['k3', '57', 'rsc2', 'fb2', 'fb01', 'r13', 'two1', 'mixed', 'fbdif']
    for c in small:
        cs.append(case('decode %s 1 step, 2 blocks' % c, 'decode', code=c, n_steps=1, blocks=2))
        cs.append(case('decode %s 2 steps' % c, 'decode', code=c, n_steps=2, extra=1))
    for c in mid:
        cs.append(case('decode %s 2 steps' % c, 'decode', code=c, n_steps=2, prob=c not in ('two1', 'mixed') or th))
    for c in ['k2', 'rsc1', 'k3', 'fb2'] + (['57', 'rsc2', 'fb01', 'r13'] if th else []):
        cs.append(case('decode %s 3 steps' % c, 'decode', code=c, n_steps=3, prob=th))
    cs.append(case('decode fbtwo 1 step', 'decode', code='fbtwo', n_steps=1))
    cs.append(case('decode fb5 2 steps', 'decode', code='fb5', n_steps=2, prob=False))
    for c in ['k2', 'k3', 'rsc2']:
        cs.append(case('plain %s 2 steps' % c, 'plain', code=c, n_steps=2))
        cs.append(case('vs exhaustive %s' % c, 'vs_exhaustive', code=c, n_steps=2))
    for c, b in [('k2', 5), ('rsc1', 5), ('two0', 4), ('k3', 3)]:
        cs.append(case('decode %s 1 step, %d blocks' % (c, b), 'decode', code=c, n_steps=1, extra=1, blocks=b, prob=c != 'two0'))
    for c, n, b in [('k2', 8, 1), ('rsc1', 10, 1), ('k3', 7, 1), ('fb01', 5, 1), ('two0', 4, 1), ('k2', 2, 4)] + ([('k2', 20, 1), ('k4', 6, 1), ('57', 12, 1)] if th else []):
        cs.append(case('probabilities %s %d steps %d blocks' % (c, n, b), 'probs', code=c, n_steps=n, blocks=b, free=(10 if th else 7) if n > 5 else None))
    for c, n, b in [('k2', 2, 3), ('k3', 2, 3), ('rsc1', 1, 4), ('two0', 1, 4)] + ([('k2', 2, 4), ('rsc1', 1, 6)] if th else []):
        cs.append(case('independent %s %d steps %d blocks' % (c, n, b), 'independent', code=c, n_steps=n, blocks=b))
    for c, n in [('k2', 5), ('rsc1', 5), ('k3', 5), ('fb2', 5), ('k2', 8)]:
        cs.append(case('near %s %d steps' % (c, n), 'near', code=c, n_steps=n))
    if th:
        for c in ['k2', 'rsc1', 'k3', 'fb01']:
            cs.append(case('decode %s 4 steps' % c, 'decode', code=c, n_steps=4, prob=False))
            cs.append(case('decode %s 2 steps, 2 blocks' % c, 'decode', code=c, n_steps=2, blocks=2))
        cs.append(case('decode k4 3 steps', 'decode', code='k4', n_steps=3, prob=False))
    for n_out, m, n, fb in [(1, 2, 2, False), (2, 2, 1, False), (2, 2, 1, True), (1, 2, 2, True), (2, 2, 2, False)] + ([(2, 2, 2, True), (1, 3, 2, False), (1, 3, 2, True)] if th else []):
        cs.append(case('any %dx%d %d steps fb=%s' % (n_out, m, n, fb), 'anycode', n_out=n_out, m=m, n_steps=n, fb=fb))
    for c, n in [('k2', 3), ('k3', 3), ('rsc1', 3), ('rsc2', 3), ('fb2', 3), ('mixed', 2), ('two1', 2), ('r13', 2), ('two0', 2), ('fbtwo', 2), ('fbdif', 2), ('fb5', 3)] + ([('k3', 4), ('fb2', 4), ('two', 2)] if th else []):
        cs.append(case('clean %s %d steps' % (c, n), 'clean', code=c, n_steps=n))
    for n_steps, blocks in [(2, 150), (3, 40), (60, 1)]:
        cs.append(case('long decode k2 %d steps %d blocks' % (n_steps, blocks), 'big', what='decode' if n_steps < 9 else 'probs', code='k2', n_steps=n_steps, blocks=blocks))
    return cs
