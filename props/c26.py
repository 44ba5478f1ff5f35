"""C26 Mueller-Muller timing step"""
from .common import case, sparse

BOUNDS = 'any signal in [-5000, 5000] with any +-1 reference up to 5 samples (7 thorough), any reference in [-5000, 5000] up to 3 samples (4 thorough), integer data and fixed references of 2 to 16 samples (24 thorough), any weights in [-3, 3] and any tolerance in [0, 4]; differences within 1e-9 of the tolerance may go either way; longer signals with a few free samples'
OUTSIDE = 'longer chunks; floating-point rounding within 1e-9 of the tolerance'


def _lst(v):
    return [v[i] for i in range(v.shape[0])]


def _diff(s, r, pre, post):
    n = len(r)
    a = b = 0
    for i in range(n - 1):
        a = a + r[i] * s[i + 1]          # post-cursor
        b = b + r[i + 1] * s[i]          # pre-cursor
    return a * post / (n - 1) - b * pre / (n - 1)


def _expect(h, st, d, tol, msg):
    ad = h.np.abs(d)
    h.observe(st)
    h.eq(h.np.shape(st), [], msg + ': a number')
    h.check(h.or_(ad >= tol - 1e-9, st == 0), msg + ': 0 inside the dead zone')
    h.check(h.or_(d < tol + 1e-9, st == 1), msg + ': 1 when the post-cursor dominates')
    h.check(h.or_(-d < tol + 1e-9, st == -1), msg + ': -1 when the pre-cursor dominates')
    h.check(h.or_(st == 0, st == 1, st == -1), msg + ': step is -1, 0 or 1')


def _data(h, n, ref, sig):
    s = h.reals('s', n, -5000, 5000) if sig == 'any' else (h.choice('s', n, [-2, 1], dtype=int) if sig == 'int' else h.np.array(([1.5, -0.75, 2.0, -1.0, 0.5, 3.0, -2.5, 1.0] * 4)[:n]))
    if ref == 'any':
        r = h.reals('r', n, -5000, 5000)
    elif ref == 'pam4':
        r = h.choice('r', n, [-3.0, -1.0, 1.0, 3.0])
    elif ref == 'nrz':
        r = h.choice('r', n, [-1.0, 1.0])
    elif ref == 'nrzint':
        r = h.choice('r', n, [-1, 1], dtype=int)
    else:
        r = h.np.array(([1.0, -1.0, -3.0, 1.0, 3.0, -1.0, 1.0] * 4)[:n])
    return s, r


def step(h, n, ref, sig, w, tol):
    s, r = _data(h, n, ref, sig)
    if w == 'any':
        pre, post = h.real('pre', -3, 3), h.real('post', -3, 3)
        kw = dict(pre_weight=pre, post_weight=post)
    elif w == 'default':
        pre = post = 1
        kw = {}
    else:
        pre, post = w
        kw = dict(pre_weight=pre, post_weight=post)
    if tol == 'any':
        t = h.real('tol', 0, 4)
        kw['tol'] = t
    elif tol == 'default':
        t = 1e-3
    else:
        t = tol
        kw['tol'] = t
    st = h.cd.rx.mueller_muller_step(s, r, **kw)
    _expect(h, st, _diff(_lst(s), _lst(r), pre, post), t, 'step')


def polarity(h, n, ref):
    s, r = _data(h, n, ref, 'any')
    a = h.cd.rx.mueller_muller_step(s, r)
    b = h.cd.rx.mueller_muller_step(-s, r)
    h.observe(a)
    h.eq(b, -a, 'flips when the signal polarity flips')


def gain(h, n, ref):
    """a gain above 1 never turns a step around"""
    s, r = _data(h, n, ref, 'any')
    g = h.pick('g', [0.5, 2.0, 4.0])
    d = _diff(_lst(s), _lst(r), 1, 1)
    h.assume(h.np.abs(d) >= 2.1e-3)
    a = h.cd.rx.mueller_muller_step(s, r)
    b = h.cd.rx.mueller_muller_step(s * g, r)
    h.eq(b, a, 'unchanged by a gain that does not cross the tolerance')


big = sparse(globals())


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for n in list(range(2, 17)) + ([24, 33] if th else []):
        for ref, sig, w, tol in [('fix', 'any', 'default', 'default'), ('fix', 'any', 'default', 'any'), ('fix', 'any', [0.5, 2.0], 0.25), ('fix', 'any', [2.0, 0.5], 'any'), ('nrz', 'any', 'default', 'default'), ('nrz', 'any', [1.0, 0.0], 'default'), ('fix', 'fix', 'any', 'any'), ('fix', 'any', [0.0, 1.0], 'default')]:
            if n > (7 if th else 5) and ref == 'nrz':
                continue
            cs.append(case('n=%d ref=%s sig=%s w=%s tol=%s' % (n, ref, sig, w, tol), 'step', n=n, ref=ref, sig=sig, w=w, tol=tol))
    for n in [2, 3] + ([4] if th else []):
        cs.append(case('n=%d everything free' % n, 'step', n=n, ref='any', sig='any', w='any', tol='any'))
        cs.append(case('n=%d free reference' % n, 'step', n=n, ref='any', sig='any', w='default', tol=0.5))
        cs.append(case('n=%d pam4' % n, 'step', n=n, ref='pam4', sig='any', w='default', tol='any'))
        cs.append(case('n=%d integers' % n, 'step', n=n, ref='nrzint', sig='int', w='default', tol='default'))
        cs.append(case('n=%d zero tolerance' % n, 'step', n=n, ref='nrzint', sig='int', w='default', tol=0))
    for n in (2, 3, 4):
        for ref in ('fix', 'nrz'):
            cs.append(case('polarity n=%d %s' % (n, ref), 'polarity', n=n, ref=ref))
            cs.append(case('gain n=%d %s' % (n, ref), 'gain', n=n, ref=ref))
    for n in (40, 129, 300, 1025):
        for ref, w, tol in (('nrz', 'default', 'default'), ('pam4', [0.5, 2.0], 0.25), ('any', 'default', 'any')):
            cs.append(case('long n=%d ref=%s' % (n, ref), 'big', what='step', n=n, ref=ref, sig='any', w=w, tol=tol))
    return cs
