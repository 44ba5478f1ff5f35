"""C25 LMS gradients"""
import math
from .common import case, sparse

BOUNDS = 'any input and reference in [-5000, 5000] and output in [-8, 8] of 2 to 8 samples at least 1e-6 away from a decision boundary, fixed level sets (two to four levels) and any increasing levels, tap positions -6..6 for the FFE and 1..6 for the DFE in any listed combination; soft variant with sigma 1/8 (outputs in [-2, 2]), 1/4, 1/2, 1, 2, 8 and exp/log as uninterpreted monotone functions; vectors of 70 and 300 samples with 4 free ones each'
OUTSIDE = 'longer vectors; outputs closer than 1e-6 to a decision boundary; under- or overflow of the exponentials'

LV = {'nrz': [-1.0, 1.0], 'pam4': [-3.0, -1.0, 1.0, 3.0], 'pam3': [-1.0, 0.0, 1.0], 'skew': [-2.0, 0.5, 1.0, 4.0], 'one': [1.5]}


def _lst(v):
    return [v[i] for i in range(v.shape[0])]


def _decide(h, s, lv):
    d = lv[0]
    for p, q in zip(lv, lv[1:]):
        mid = (p + q) / 2
        h.assume(h.np.abs(s - mid) >= 1e-6)
        d = d + h.ite(s > mid, q - p, 0)
    return d


def _setup(h, n, lv, ref, lim=8):
    x = h.reals('x', n, -5000, 5000)
    y = h.reals('y', n, -lim, lim)
    if lv == 'any':
        levels = h.reals('l', 2, -4, 4)
        h.assume(levels[1] - levels[0] >= 0.5)
        ll = _lst(levels)
    else:
        ll = LV[lv]
        levels = h.np.array(ll)
    r = h.reals('r', n, -5000, 5000) if ref else None
    rl = _lst(r) if ref else [_decide(h, y[i], ll) for i in range(n)]
    return x, y, levels, ll, r, rl


def _grads(h, res, ffe, dfe, e, x, ref, n, tol):
    """res is what came back after the cost"""
    want = (['ffe'] if ffe else []) + (['dfe'] if dfe else [])
    h.check(len(res) == len(want), 'the cost is followed by exactly the requested gradients')
    if len(res) != len(want):
        return
    for nm, g in zip(want, res):
        taps = ffe if nm == 'ffe' else dfe
        h.eq(h.np.shape(g), [len(taps)], '%s gradient has one entry per tap' % nm)
        for k, t in enumerate(taps):
            s, c = 0, 0
            for i in range(n):
                if 0 <= i - t < n:
                    s = s + e[i] * (x[i - t] if nm == 'ffe' else ref[i - t])
                    c += 1
            h.eq(g[k] * c, (0.5 if nm == 'ffe' else -0.5) * s, '%s gradient of tap %d' % (nm, t), tol=tol)


def _call(h, fn, x, y, levels, ffe, dfe, r, **kw):
    if ffe:
        kw['ffe_tap_idx'] = h.np.array(ffe)
    if dfe:
        kw['dfe_tap_idx'] = h.np.array(dfe)
    if r is not None:
        kw['reference_vec'] = r
    out = fn(x, y, levels, **kw)
    if not ffe and not dfe:
        return out, ()
    return out[0], tuple(out[1:])


def hard(h, n, lv, ffe, dfe, ref):
    x, y, levels, ll, r, rl = _setup(h, n, lv, ref)
    cost, g = _call(h, h.cd.rx.ddlms_grad, x, y, levels, ffe, dfe, r)
    e = [y[i] - rl[i] for i in range(n)]
    h.eq(h.np.shape(cost), [], 'the cost is a number')
    s = 0
    for v in e:
        s = s + v * v
    h.eq(cost * n, s, 'cost is the mean squared distance to the reference', tol=1e-6)
    _grads(h, g, ffe, dfe, e, _lst(x), rl, n, 1e-6)


def soft(h, n, lv, ffe, dfe, ref, sigma):
    x, y, levels, ll, r, rl = _setup(h, n, lv, ref, 2 if sigma is not None and sigma < 0.25 else 8)
    kw = {} if sigma is None else dict(sigma=sigma)
    cost, g = _call(h, h.cd.rx.soft_ddlms_grad, x, y, levels, ffe, dfe, r, **kw)
    sg = 1 if sigma is None else sigma
    np = h.np
    p = 1 / len(ll)
    e, lg = [], 0
    for i in range(n):
        den, num = 0, 0
        for m in ll:
            w = np.exp(-((y[i] - m) * (y[i] - m)) / (2 * sg * sg))
            den = den + w
            num = num + (y[i] - m) / (sg * sg) * w
        f = p / math.sqrt(2 * math.pi * sg * sg) * den
        lg = lg + np.log(f)
        e.append(num / f)
    h.eq(np.shape(cost), [], 'the cost is a number')
    h.eq(cost * n, -lg, 'cost is the mean negative log-likelihood of the mixture', tol=1e-6)
    _grads(h, g, ffe, dfe, e, _lst(x), rl, n, 1e-5)


def wrong_ref(h, which, n):
    d = h.pick('d', [-1, 0, 1])
    x, y = h.reals('x', n, -5000, 5000), h.reals('y', n, -8, 8)
    r = h.np.ones(n + d)
    f = h.cd.rx.ddlms_grad if which == 'hard' else h.cd.rx.soft_ddlms_grad
    h.check(h.rejects(lambda: f(x, y, h.np.array([-1.0, 1.0]), reference_vec=r)) == (d != 0), 'a reference of the wrong length is rejected')
    h.check(h.rejects(lambda: f(x, y, h.np.array([-1.0, 1.0]), ffe_tap_idx=h.np.array([0, 1]), dfe_tap_idx=h.np.array([1]), reference_vec=r)) == (d != 0), 'a reference of the wrong length is rejected with taps')


TAPS = [([], []), ([0], []), ([], [1]), ([-1, 0, 1], []), ([0, 1, 2], [1, 2]), ([-2, 0], [1]), ([], [2, 1, 3]), ([1], [3]), ([2, -1, 0], [2]), ([-3, 3], [1])]


big = sparse(globals())


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for ffe, dfe in TAPS:
        need = max([abs(t) for t in ffe + dfe] + [1]) + 1
        for n in sorted({need, need + 1, 4} | ({6} if th else set())):
            if n < need:
                continue
            cs.append(case('given reference ffe=%s dfe=%s n=%d' % (ffe, dfe, n), 'hard', n=n, lv='pam4', ffe=ffe, dfe=dfe, ref=True))
        for lv in ['nrz', 'pam4'] + (['pam3', 'skew', 'any'] if th or len(ffe) == 3 else []):
            n = need if lv != 'nrz' else need + 1
            n = min(n, 4) if need <= 4 else need
            if lv == 'any':
                n = min(need, 3)
                if n < need:
                    continue
            cs.append(case('decisions %s ffe=%s dfe=%s n=%d' % (lv, ffe, dfe, n), 'hard', n=n, lv=lv, ffe=ffe, dfe=dfe, ref=False))
        for sg in [None, 0.5] + ([2.0] if th or not (ffe or dfe) else []) + ([0.25, 0.125, 8] if len(ffe + dfe) < 2 else []):
            cs.append(case('soft sigma=%s ffe=%s dfe=%s given' % (sg, ffe, dfe), 'soft', n=need, lv='nrz', ffe=ffe, dfe=dfe, ref=True, sigma=sg))
        cs.append(case('soft decisions ffe=%s dfe=%s' % (ffe, dfe), 'soft', n=min(need, 3) if need <= 3 else need, lv='nrz', ffe=ffe, dfe=dfe, ref=False, sigma=1))
    for ffe, dfe in [([t], []) for t in range(-6, 7)] + [([], [t]) for t in range(1, 7)] + [([-5, 0], []), ([6, -4, 0], [5]), ([-6, 6], [4, 6]), (list(range(-4, 5)), [1, 2, 3, 4, 5])]:
        cs.append(case('given reference ffe=%s dfe=%s n=8' % (ffe, dfe), 'hard', n=8, lv='pam4', ffe=ffe, dfe=dfe, ref=True))
        cs.append(case('decisions nrz ffe=%s dfe=%s n=7' % (ffe, dfe), 'hard', n=7, lv='nrz', ffe=ffe, dfe=dfe, ref=False))
        cs.append(case('soft ffe=%s dfe=%s given' % (ffe, dfe), 'soft', n=7, lv='nrz', ffe=ffe, dfe=dfe, ref=True, sigma=1))
    cs.append(case('soft pam4', 'soft', n=2, lv='pam4', ffe=[0, 1], dfe=[1], ref=True, sigma=0.5))
    cs.append(case('soft pam4 decisions', 'soft', n=2, lv='pam4', ffe=[0], dfe=[1], ref=False, sigma=1))
    cs.append(case('soft one level', 'soft', n=2, lv='one', ffe=[0], dfe=[1], ref=False, sigma=2.0))
    for w in ('hard', 'soft'):
        cs.append(case('%s wrong reference' % w, 'wrong_ref', which=w, n=3))
    for ffe, dfe in [([], []), ([-1, 0, 1], [1, 2]), ([-6, 6], [4]), ([20, -20], [20])]:
        for n in (70, 300):
            for ref in (True, False):
                cs.append(case('long ffe=%s dfe=%s n=%d reference %s' % (ffe, dfe, n, ref), 'big', what='hard', n=n, lv='pam4', ffe=ffe, dfe=dfe, ref=ref))
            cs.append(case('long soft ffe=%s dfe=%s n=%d' % (ffe, dfe, n), 'big', what='soft', n=n, lv='nrz', ffe=ffe, dfe=dfe, ref=True, sigma=1)) if n < 99 else None
    return cs
