"""C11 binary-only coders reject exactly the non-binary patterns"""
from .common import case

BOUNDS = 'patterns up to 6 symbols (2x3 matrices), generator matrices up to 2x3 entries, one and two inputs, feedback polynomials up to 3 taps, entries -2..3 (real-valued entries in [-2, 3] for patterns up to 4)'
OUTSIDE = 'longer fully free patterns (up to 60 symbols with three free ones), non-numeric data'


def _binary(h, *arrs):
    ok = True
    for a in arrs:
        f = a.reshape(-1)
        for i in range(f.shape[0]):
            ok = h.and_(ok, h.or_(f[i] == 0, f[i] == 1))
    return ok


def _decide(h, ok, fn, what):
    raised = h.raises(fn)
    h.check(h.not_(ok) if raised else ok, '%s rejects exactly the non-binary input' % what)


def _fn(h, name):
    return getattr(h.cd.tx if name.startswith('coding') else h.cd.rx, name)


def simple(h, f, shape, kind='int'):
    x = h.ints('x', shape, -2, 3) if kind == 'int' else h.choice('x', shape, [0.0, 1.0, 0.5, 0.25, 2.0, -1.0, 1.5])
    _decide(h, _binary(h, x), lambda: _fn(h, f)(x), f)


def constant(h, f, shape):
    """constant inputs of zeros and of ones are binary"""
    b = h.bit('b')
    x = h.np.zeros(shape, dtype=int) + b
    h.check(not h.raises(lambda: _fn(h, f)(x)), '%s accepts constant binary input' % f)


def linear(h, coder, npat, k, n):
    x = h.ints('x', npat, -1, 2)
    G = h.ints('G', (k, n), -1, 2)
    _decide(h, _binary(h, x, G), lambda: _fn(h, coder)(x, G), coder)


def conv(h, c, npat, n_out, m, fb):
    x = h.ints('x', npat, 0, 2)
    G = h.ints('G', (n_out, m), 0, 2)
    ok = [x, G]
    kw = {}
    if fb:
        F = h.ints('F', m, 0, 2)
        h.assume(F[0] == 1)
        kw = dict(feedback={0: F}, use_feedback=h.np.ones((1, n_out), dtype=int))
        ok.append(F)
    f = _fn(h, c)
    if c.startswith('coding'):
        call = lambda: f(x, {0: G}, **kw)
    else:
        call = lambda: f(x, {0: G}, n_out * (npat // n_out), **kw)
    _decide(h, _binary(h, *ok), call, c)


def conv2(h, c, fb):
    """two inputs: an offending entry may sit in the taps of either input"""
    x = h.ints('x', 4, 0, 2)
    n_out = 2
    G = {i: h.ints('G%d' % i, (n_out, 2), 0, 2) for i in range(2)}
    ok = [x, G[0], G[1]]
    kw = {}
    if fb:
        F = {}
        for i in range(2):
            f = h.ints('F%d' % i, 2, 0, 2)
            h.assume(f[0] == 1)
            F[i] = f
            ok.append(f)
        kw = dict(feedback=F, use_feedback=h.np.ones((2, n_out), dtype=int))
    f = _fn(h, c)
    call = (lambda: f(x, G, **kw)) if c.startswith('coding') else (lambda: f(x, G, n_out * 2, **kw))
    _decide(h, _binary(h, *ok), call, c)


def conv2x(h, c, which):
    """two inputs with everything else fixed: one offending entry anywhere in one argument"""
    v = h.ints('v', 4, -1, 2)
    m = v.reshape(2, 2)
    base = h.np.array([[1, 0], [1, 1]])
    x = v if which == 'x' else h.np.array([1, 0, 1, 1])
    G = {0: m if which == 'G0' else base, 1: m if which == 'G1' else base}
    kw = {}
    if which.startswith('F'):
        h.assume(h.and_(v[0] == 1, v[2] == 1))
        kw = dict(feedback={0: m[0], 1: m[1]} if which == 'F' else {1: m[1]}, use_feedback=h.np.array([[1, 1], [1, 1]] if which == 'F' else [[0, 0], [1, 1]]))
        if which == 'F1':
            h.assume(v[1] == 1)
    f = _fn(h, c)
    call = (lambda: f(x, G, **kw)) if c.startswith('coding') else (lambda: f(x, G, 4, **kw))
    _decide(h, _binary(h, v), call, c)


def spot(h, f, n, spots):
    """long patterns, everything fixed but a few entries"""
    x = [(i * i // 3) % 2 for i in range(n)]
    v = h.ints('v', len(spots), -1, 2)
    for k, p in enumerate(spots):
        x[p] = v[k]
    xa = h.np.array(x, dtype=int)
    g = h.np.array([[1, 0, 1], [0, 1, 1]])
    args = {'coding_linear': (xa, g), 'decoding_linear': (xa, g), 'coding_conv': (xa, {0: g}), 'decoding_conv_ml': (xa, {0: g}, 4), 'decoding_conv_viterbi': (xa, {0: g}, 4)}.get(f, (xa,))
    _decide(h, _binary(h, v), lambda: _fn(h, f)(*args), f)


def cases(tier):
    cs = []
    th = tier == 'thorough'
    for fn in ('coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_differential_manchester'):
        for sh in [(1,), (2,), (3,), (4,), (5,), (2, 2)] + ([(6,), (2, 3)] if th else []):
            cs.append(case('%s %s' % (fn, sh), 'simple', f=fn, shape=list(sh)))
        cs.append(case('%s constant' % fn, 'constant', f=fn, shape=[4]))
    for fn in ('decoding_manchester', 'decoding_differential_manchester'):
        for sh in [(2,), (4,), (2, 2)] + ([(6,), (3, 2)] if th else []):
            cs.append(case('%s %s' % (fn, sh), 'simple', f=fn, shape=list(sh)))
        cs.append(case('%s constant' % fn, 'constant', f=fn, shape=[4]))
    for fn in ('decoding_differential_manchester',):
        cs.append(case('%s fractional' % fn, 'simple', f=fn, shape=[2], kind='frac'))
    for fn in ('coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_differential_manchester', 'decoding_manchester', 'decoding_differential_manchester', 'coding_linear', 'decoding_linear', 'coding_conv', 'decoding_conv_ml', 'decoding_conv_viterbi'):
        cs.append(case('%s long' % fn, 'spot', f=fn, n=24 if 'conv_' in fn else 60, spots=[0, 11, 23] if 'conv_' in fn else [0, 31, 59]))
    for fn in ('coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_differential_manchester', 'decoding_manchester', 'decoding_differential_manchester'):
        cs.append(case('%s 3-D' % fn, 'simple', f=fn, shape=[2, 1, 2]))
    for fn in ('coding_conv', 'decoding_conv_ml', 'decoding_conv_viterbi'):
        for w in ('x', 'G0', 'G1', 'F', 'F1'):
            cs.append(case('%s two inputs %s' % (fn, w), 'conv2x', c=fn, which=w))
    for fb in ((False, True) if th else ()):
        cs.append(case('coding_conv two inputs fb=%s' % fb, 'conv2', c='coding_conv', fb=fb))
    for fn in ('coding_linear', 'decoding_linear'):
        for npat, k, n in [(1, 1, 1), (2, 1, 2), (2, 2, 2)] + ([(4, 2, 3)] if th else []):
            cs.append(case('%s %d %dx%d' % (fn, npat, k, n), 'linear', coder=fn, npat=npat, k=k, n=n))
    for fn in ('coding_conv', 'decoding_conv_ml', 'decoding_conv_viterbi'):
        for fb in (False, True):
            for npat, n_out, m in [(2, 1, 2), (2, 2, 2)] + ([(4, 2, 2)] if th else []):
                cs.append(case('%s %d %dx%d fb=%s' % (fn, npat, n_out, m, fb), 'conv', c=fn, npat=npat, n_out=n_out, m=m, fb=fb))
    return cs
