"""C27 channel and equaliser estimation"""
from .common import case

BOUNDS = 'PRBS7 and PRBS9 captures of 1 to 3 periods at fixed offsets with OOK, NRZ and PAM4 under all flag settings: any taps with up to 3 pre- and 11 post-cursors (main tap 1..2, side taps up to 0.3 in total) recovered exactly, any disturbance up to 1/2 on 6 captured samples; equaliser: any reference of 6 to 16 samples against fixed signals, any signal and reference of 5 to 9 samples with up to 4 FFE and 2 DFE taps'
OUTSIDE = 'longer captures and more taps; captures so distorted that the pattern lock itself moves; lasso; equaliser captures shorter than one period for PRBS references'
ASSUMPTIONS = 'numpy.linalg.lstsq and sklearn Ridge return a solution of their normal equations; scipy.signal.correlate is the exact correlation sum'

TAPS = {7: (7, 6), 9: (9, 5)}


def prbs(order, n):
    a, b = TAPS[order]
    s = [1] * order
    out = []
    for _ in range(n):
        out.append(s[-1])
        s = [s[a - 1] ^ s[b - 1]] + s[:-1]
    return out


def reference(order, con, fs, bi, pre_inv, gray, post_inv):
    """one period of the transmitted levels, written down independently of the package"""
    per = 2 ** order - 1
    bits = prbs(order, 2 * per)
    if con == 'PAM4':
        sy = []
        for i in range(per):
            p, q = bits[2 * i], bits[2 * i + 1]
            if bi:
                p, q = q, p
            v = p + 2 * q  # the first bit is the least significant one
            if pre_inv:
                v = 3 - v
            sy.append(v)
        if gray:
            sy = [[0, 1, 3, 2][v] for v in sy]
        lv = [-3.0, -1.0, 1.0, 3.0]
        sc = 5 ** -0.5 if fs else 1.0
    else:
        sy = [b ^ 1 if pre_inv else b for b in bits[:per]]
        lv = [0.0, 1.0] if con == 'OOK' else [-1.0, 1.0]
        sc = 2 ** 0.5 if fs and con == 'OOK' else 1.0
    r = [lv[v] * sc for v in sy]
    return [-v for v in r] if post_inv else r


def _args(h, con, flags):
    C = h.cd.ConstellationEnum
    fs, bi, pi, gr, po = flags
    return getattr(C, con), dict(prbs_full_scale=fs, bit_order_inv=bi, pn_inv_precoding=pi), gr, po


def _zero(h, v, msg, tol):
    h.eq(v, 0, msg, tol=tol)


def _size(h, err):
    """the residual is a number or a one-element array"""
    return err if h.np.ndim(err) == 0 else err[0]


# ------------------------------------------------------------------ channel
def ch_exact(h, order, con, flags, post, pre, off, length, norm):
    per = 2 ** order - 1
    r = reference(order, con, *flags)
    L = post + pre + 1
    b = 0.3 / max(L, 3)
    side = h.reals('c', L, -b, b)
    main = h.real('m', 1, 2)
    c = [main if k == pre else side[k] for k in range(L)]
    sig = h.np.stack([sum((c[k] * r[(n + off + pre - k) % per] for k in range(L)), 0) for n in range(length)])
    cn, kw, gr, po = _args(h, con, flags)
    est, err = h.cd.channel_estimation_prbs(getattr(h.cd.PrbsEnum, 'PRBS%d' % order), sig, cn, channel_postcursor=post, channel_precursor=pre, normalize=norm, gray_coding=gr, pn_inv_postcoding=po, **kw)
    h.eq(h.np.shape(est), [L], 'one tap per cursor')
    for k in range(L):
        h.eq(est[k] * main if norm else est[k], c[k], 'tap %d of a noiseless channel' % (k - pre), tol=1e-7)
    if h.np.size(err):
        h.eq(_size(h, err), 0, 'no residual for a noiseless channel', tol=1e-7)


def ch_noise(h, order, con, flags, post, pre, off, length, norm, spots):
    per = 2 ** order - 1
    r = reference(order, con, *flags)
    L = post + pre + 1
    d = h.reals('d', len(spots), -0.5, 0.5)
    raw = [r[(n + off) % per] + (d[spots.index(n)] if n in spots else 0) for n in range(length)]
    sig = h.np.stack([v + 0 * d[0] for v in raw])
    cn, kw, gr, po = _args(h, con, flags)
    est, err = h.cd.channel_estimation_prbs(getattr(h.cd.PrbsEnum, 'PRBS%d' % order), sig, cn, channel_postcursor=post, channel_precursor=pre, normalize=norm, gray_coding=gr, pn_inv_postcoding=po, **kw)
    reps = length // per
    avg = [sum((raw[n + per * q] for q in range(reps)), 0) / reps for n in range(per)]
    if norm:
        u = h.cd.channel_estimation_prbs(getattr(h.cd.PrbsEnum, 'PRBS%d' % order), sig, cn, channel_postcursor=post, channel_precursor=pre, normalize=False, gray_coding=gr, pn_inv_postcoding=po, **kw)[0]
        mx = h.np.max(u)
        for k in range(L):
            h.eq(est[k] * mx, u[k], 'normalisation divides tap %d by the peak' % (k - pre), tol=1e-6)
        est = u
    res = []
    for n in range(per):
        v = avg[n]
        for k in range(L):
            v = v - est[k] * r[(n + off + pre - k) % per]
        res.append(v)
    for j in range(L):
        _zero(h, sum((res[n] * r[(n + off + pre - j) % per] for n in range(per)), 0), 'residual is orthogonal to the reference at cursor %d' % (j - pre), 1e-6)
    h.eq(_size(h, err), sum((v * v for v in res), 0), 'the sum of squared residuals belongs to the taps', tol=1e-5)


# ------------------------------------------------------------------ equaliser
def _stubs(h, near=None):
    """what a least-squares solver is assumed to return for a symbolic matrix: any solution of its normal equations
    (with a residual and an output that are not zero, so that the MSE in dB exists)"""
    cnt = [0]
    memo = {}

    def key(*ms):
        return tuple(tuple(repr(v.p.key) if hasattr(v, 'p') else repr(v) for v in h.np.reshape(m, -1)) for m in ms)

    def fresh(n, nominal):
        cnt[0] += 1
        if near is None:
            return h.reals('sol%d' % cnt[0], n, -100, 100)
        x0 = nominal()
        return h.np.stack([h.real('sol%d_%d' % (cnt[0], i), round(float(x0[i]) - near, 3), round(float(x0[i]) + near, 3)) for i in range(n)])

    def lstsq(a, b):
        import numpy
        m, n = a.shape
        kk = key(a, b)
        if kk in memo:
            return memo[kk]
        x = fresh(n, lambda: numpy.linalg.lstsq(h.nominal(a), h.nominal(b), rcond=None)[0])
        y = [sum((a[i, j] * x[j] for j in range(n)), 0) for i in range(m)]
        r = [y[i] - b[i] for i in range(m)]
        for j in range(n):
            h.assume(sum((a[i, j] * r[i] for i in range(m)), 0) == 0, quick=True)
        ss = sum((v * v for v in r), 0)
        h.assume(ss >= 1e-3, quick=True)
        h.assume(sum((v * v for v in y), 0) >= 1e-3, quick=True)
        memo[kk] = (x, h.np.stack([ss]), n, None)
        return memo[kk]

    def solve(a, b):
        import numpy
        n = a.shape[0]
        x = fresh(n, lambda: numpy.linalg.solve(h.nominal(a), h.nominal(b)))
        for i in range(n):
            h.assume(sum((a[i, j] * x[j] for j in range(n)), 0) == b[i], quick=True)
        return x

    def ridge(a, b, alpha, fit_intercept):
        import numpy
        m, n = a.shape
        am = [sum((a[i, j] for i in range(m)), 0) / m if fit_intercept else 0 for j in range(n)]
        bm = sum((b[i] for i in range(m)), 0) / m if fit_intercept else 0
        ac = [[a[i, j] - am[j] for j in range(n)] for i in range(m)]

        def nominal():
            A, B = h.nominal(a), h.nominal(b)
            if fit_intercept:
                A, B = A - A.mean(0), B - B.mean()
            return numpy.linalg.solve(A.T @ A + alpha * numpy.eye(n), A.T @ B)
        x = fresh(n, nominal)
        r = [sum((ac[i][j] * x[j] for j in range(n)), 0) - (b[i] - bm) for i in range(m)]
        for j in range(n):
            h.assume(sum((ac[i][j] * r[i] for i in range(m)), 0) + alpha * x[j] == 0, quick=True)
        return x

    h.env_set('ridge', ridge)
    h.env_set('lstsq', lstsq)
    h.env_set('solve', solve)


def _equalised(ffe, dfe, sig, ref, n, L):
    """what the taps make of the signal at the row that predicts ref[n]"""
    v = 0
    for k in range(L):
        v = v + ffe[k] * sig[n + L - 1 - k]
    for j in range(len(dfe)):
        v = v - dfe[j] * ref[n - 1 - j]
    return v


def _eq_check(h, call, sig, ref, post, pre, dfe_n, norm, lam, tol, mse=True):
    np = h.np
    L = post + pre + 1
    if norm:
        nf, nd, gain, nerr, nms = call(True)
    ffe, dfe, g1, err, ms = call(False)
    h.eq(g1, 1, 'no gain without normalisation')
    h.eq(np.shape(ffe), [L], 'one feed-forward tap per cursor')
    if dfe_n:
        h.eq(np.shape(dfe), [dfe_n], 'one feedback tap per requested tap')
    else:
        h.check(dfe is None, 'no feedback taps without a DFE')
    f = [ffe[k] for k in range(L)]
    d = [dfe[j] for j in range(dfe_n)]
    if norm:
        h.eq(np.shape(nf), [L], 'one normalised feed-forward tap per cursor')
        h.eq(gain, np.max(ffe), 'the reported gain is the peak of the taps', tol=1e-9)
        for k in range(L):
            h.eq(nf[k] * gain, f[k], 'normalisation divides FFE tap %d by the gain' % k, tol=1e-7)
        if dfe_n:
            h.eq(np.shape(nd), [dfe_n], 'one normalised feedback tap per requested tap')
            for j in range(dfe_n):
                h.eq(nd[j] * gain, d[j], 'normalisation divides DFE tap %d by the gain' % j, tol=1e-7)
        else:
            h.check(nd is None, 'no feedback taps without a DFE')
        if np.size(err):
            h.eq(_size(h, nerr), _size(h, err), 'normalisation does not change the residual', tol=1e-7)
        h.eq(nms, ms, 'normalisation does not change the MSE', tol=1e-6)
    rows = range(dfe_n, len(sig) - post - pre - 1)
    y = {n: _equalised(f, d, sig, ref, n, L) for n in rows}
    e = {n: y[n] - ref[n] for n in rows}
    for k in range(L):
        _zero(h, sum((e[n] * sig[n + L - 1 - k] for n in rows), 0) + lam * f[k], 'error is orthogonal to the signal at FFE tap %d' % k, tol)
    for j in range(dfe_n):
        _zero(h, sum((e[n] * -ref[n - 1 - j] for n in rows), 0) + lam * d[j], 'error is orthogonal to the reference at DFE tap %d' % j, tol)
    ss = sum((e[n] * e[n] for n in rows), 0)
    if np.size(err):
        h.eq(_size(h, err), ss, 'the sum of squared residuals belongs to the taps', tol=tol)
    if mse:
        py = sum((y[n] * y[n] for n in rows), 0)
        h.assume(ss >= 1e-3)
        h.assume(py >= 1e-3)
        m = len(rows)
        want = 10 * np.log10((ss / m) / (py / m))
        h.eq(ms, want, 'the MSE in dB belongs to the taps', tol=1e-6)


SIG = {
    'a': [1.0, -0.5, 2.0, 0.25, -1.5, 1.25, 0.75, -2.0, 0.5, 1.5, -1.0, 0.125, 1.75, -0.25, -1.25, 2.25, -0.875, 0.625, 1.125, -1.75],
    'b': [0.5, 1.0, 1.0, -1.0, 2.0, -0.5, 0.0, 1.5, -1.5, 0.75, -0.75, 1.25, -2.0, 1.0, 0.25, -1.0],
}


def eq_ref(h, s, n, post, pre, lam, mse):
    """fixed signal, any reference"""
    sig = SIG[s][:n]
    ref = h.reals('r', n, -3, 3, hint=[1.5, -1.0, 0.5, 2.0, -2.5, 1.0, 0.25, -0.75, 3.0, 1.0, 1.25, 0.5, -1.5, 2.0, 1.0, -2.0])
    kw = dict(regularization='ridge', reg_lambda=lam) if lam else {}
    call = lambda norm_: h.cd.equalization_estimation(ref, h.np.array(sig), ffe_postcursor=post, ffe_precursor=pre, dfe_taps=0, normalize=norm_, **kw)
    _eq_check(h, call, sig, [ref[i] for i in range(n)], post, pre, 0, False, lam, 1e-5, mse)


def eq_norm(h, s, n, post, pre, lam):
    """fixed signal, reference = the signal through fixed taps with a clear peak plus any disturbance of three samples"""
    sig = SIG[s][:n]
    L = post + pre + 1
    t = h.reals('t', 3, -0.1, 0.1)
    f = [1.5 if k == pre else 0.25 * (-1) ** k for k in range(L)]
    ref = [sum(f[k] * sig[i + L - 1 - k] for k in range(L) if 0 <= i + L - 1 - k < n) + (t[i // 2] if i in (0, 2, 4) else 0 * t[0]) + 0.125 * (i % 3 - 1) for i in range(n)]
    kw = dict(regularization='ridge', reg_lambda=lam) if lam else {}
    call = lambda norm_: h.cd.equalization_estimation(h.np.stack(ref), h.np.array(sig), ffe_postcursor=post, ffe_precursor=pre, dfe_taps=0, normalize=norm_, **kw)
    _eq_check(h, call, sig, ref, post, pre, 0, True, lam, 1e-5, False)


def eq_peak(h, s, n, post, pre, peak):
    """normalisation with the largest tap anywhere"""
    sig = [((i * i * 7 + 3 * i + i // 3) % 13 - 6) / 4 for i in range(n)]
    L = post + pre + 1
    t = h.reals('t', 1, -0.05, 0.05)
    f = [1.5 if k == peak else 0.25 * (-1) ** k for k in range(L)]
    ref = [sum(f[k] * sig[i + L - 1 - k] for k in range(L) if 0 <= i + L - 1 - k < n) + (t[0] if i == s else 0 * t[0]) + 0.0625 * (i % 3 - 1) for i in range(n)]
    call = lambda norm_: h.cd.equalization_estimation(h.np.stack(ref), h.np.array(sig), ffe_postcursor=post, ffe_precursor=pre, dfe_taps=0, normalize=norm_)
    _eq_check(h, call, sig, ref, post, pre, 0, True, 0, 1e-5, False)


def eq_any(h, n, post, pre, dfe):
    """any signal, any reference"""
    _stubs(h)
    sig = h.reals('s', n, -2, 2, hint=SIG['a'][1:])
    ref = h.reals('r', n, -2, 2, hint=SIG['b'])
    call = lambda norm_: h.cd.equalization_estimation(ref, sig, ffe_postcursor=post, ffe_precursor=pre, dfe_taps=dfe, normalize=norm_)
    _eq_check(h, call, [sig[i] for i in range(n)], [ref[i] for i in range(n)], post, pre, dfe, False, 0, 1e-5, mse=False)


def eq_near(h, n, post, pre, dfe, at, norm, lam=0):
    """signal and reference off a fixed pair by any disturbance of one sample each"""
    _stubs(h, near=0.1)
    base = SIG['a'][:n]
    t = h.reals('t', 2, -0.05, 0.05, hint=[0.03125, -0.015625])
    sig = [v for v in base]
    sig[at] = sig[at] + t[0]
    L = post + pre + 1
    f = [1.0 if k == pre else 0.25 * (-1) ** k for k in range(L)]
    ref = []
    for i in range(n):
        ref.append(sum(f[k] * base[i + L - 1 - k] for k in range(L) if i + L - 1 - k < n) - sum(0.25 * ref[i - 1 - j] for j in range(dfe) if i - 1 - j >= 0) + 0.125 * (i % 3 - 1))
    ref[at] = ref[at] + t[1]
    mk = lambda l: h.np.stack([v + 0 * t[0] for v in l])
    kw = dict(regularization='ridge', reg_lambda=lam) if lam else {}
    call = lambda norm_: h.cd.equalization_estimation(mk(ref), mk(sig), ffe_postcursor=post, ffe_precursor=pre, dfe_taps=dfe, normalize=norm_, **kw)
    _eq_check(h, call, sig, ref, post, pre, dfe, norm, lam, 1e-4, mse=False)


def eq_prbs(h, order, con, flags, post, pre, dfe, off, length, norm, spots, c, lam=0):
    """PRBS reference through a fixed channel, any disturbance of a few captured samples"""
    per = 2 ** order - 1
    r = reference(order, con, *flags)
    d = h.reals('d', len(spots), -0.25, 0.25, hint=[0.25, -0.125, 0.0625])
    raw = [sum(c[j] * r[(n + off - j) % per] for j in range(len(c))) + (d[spots.index(n)] if n in spots else 0) for n in range(length)]
    sig = h.np.stack([v + 0 * d[0] for v in raw])
    _stubs(h, near=0.1)
    cn, kw, gr, po = _args(h, con, flags)
    if lam:
        kw = dict(kw, regularization='ridge', reg_lambda=lam)
    call = lambda norm_: h.cd.equalization_estimation_prbs(getattr(h.cd.PrbsEnum, 'PRBS%d' % order), sig, cn, ffe_postcursor=post, ffe_precursor=pre, dfe_taps=dfe, normalize=norm_, gray_coded=gr, pn_inv_postmapping=po, **kw)
    reps = length // per
    m = per if reps else length
    avg = [sum((raw[n + per * q] for q in range(reps)), 0) / reps for n in range(per)] if reps else raw
    ref = [r[(n + off + post) % per] for n in range(m)]
    _eq_check(h, call, avg, ref, post, pre, dfe, norm, lam, 1e-4, mse=False)


NF = (False, False, False, False, False)
FLAGS = [NF, (True, False, False, False, False), (False, True, False, False, False), (False, False, True, False, False), (False, False, False, True, False), (False, False, False, False, True), (True, True, True, True, True)]


def _fl(f):
    return ''.join('FT'[b] for b in f)


def cases(tier):
    th = tier == 'thorough'
    cs = []

    def ch(fn, con, fl, post, pre, off, length, norm, order=7, **kw):
        cs.append(case('%s-%d-%s-%s-%d-%d-o%d-%d-%s' % (fn, order, con, _fl(fl), post, pre, off, length, norm), fn, order=order, con=con, flags=fl, post=post, pre=pre, off=off, length=length, norm=norm, **kw))

    for con in ('OOK', 'NRZ', 'PAM4'):
        for fl in FLAGS:
            ch('ch_exact', con, fl, 1, 1, 5, 140, False)
        for post, pre, off, length, norm in [(0, 0, 0, 127, False), (2, 0, 20, 254, True), (0, 2, 126, 300, False), (4, 3, 64, 260, True), (11, 1, 15, 254, False), (1, 9, 3, 254, False)] + ([(3, 1, 77, 381, False), (5, 2, 9, 254, False)] if th else []):
            ch('ch_exact', con, NF, post, pre, off, length, norm)
        for post in range(5):
            for pre in range(4):
                ch('ch_exact', con, NF, post, pre, (31 * post + 17 * pre + 4) % 127, 127 + 13 * post + 29 * pre, (post + pre) % 2 == 0)
                cs[-1]['name'] += '-grid'
        ch('ch_noise', con, NF, 1, 1, 5, 300, False, spots=[0, 3, 126, 130, 253, 260])
        ch('ch_noise', con, NF, 2, 0, 33, 127, True, spots=[0, 126])
        ch('ch_noise', con, NF, 0, 1, 70, 254, False, spots=[0, 127, 200, 253])
        ch('ch_noise', con, NF, 0, 0, 1, 128, False, spots=[0, 127])
        ch('ch_noise', con, NF, 1, 0, 126, 253, False, spots=[126, 127, 252])
        ch('ch_noise', con, NF, 0, 0, 3, 381, False, spots=[10, 137, 264, 380])
    for fl in FLAGS:
        ch('ch_noise', 'PAM4', fl, 1, 0, 8, 260, False, spots=[1, 129, 255])
    if th:
        ch('ch_exact', 'NRZ', NF, 2, 1, 300, 700, False, order=9)
        ch('ch_exact', 'PAM4', FLAGS[-1], 1, 2, 11, 1100, True, order=9)
    for s in ('a', 'b'):
        for n, post, pre, lam in [(6, 0, 0, 0), (8, 1, 1, 0), (12, 2, 1, 0), (10, 1, 0, 0.5), (12, 1, 1, 2), (8, 0, 0, 0.05), (8, 1, 0, 0.01), (8, 0, 1, 0.001), (8, 1, 0, 100)] + ([(16, 3, 1, 0), (16, 2, 3, 0)] if th else []):
            cs.append(case('eq_ref-%s-%d-%d-%d-%s' % (s, n, post, pre, lam), 'eq_ref', opts=dict(witness_timeout=1500, branch_timeout=1000), s=s, n=n, post=post, pre=pre, lam=lam, mse=n <= 8))
        for n, post, pre, lam in [(8, 0, 0, 0), (10, 2, 0, 0), (12, 0, 2, 0), (12, 1, 1, 0.5)]:
            cs.append(case('eq_norm-%s-%d-%d-%d-%s' % (s, n, post, pre, lam), 'eq_norm', s=s, n=n, post=post, pre=pre, lam=lam))
    for n, post, pre, peak, s in [(24, 5, 0, 0, 3), (24, 2, 4, 6, 5), (24, 3, 3, 3, 2), (30, 7, 2, 9, 8)]:
        cs.append(case('eq_peak-%d-%d-%d-%d' % (n, post, pre, peak), 'eq_peak', s=s, n=n, post=post, pre=pre, peak=peak))
    for n, post, pre, dfe in [(5, 0, 0, 0), (6, 1, 0, 0), (6, 0, 0, 1), (7, 1, 0, 1), (9, 0, 1, 2), (11, 2, 0, 2)] + ([(12, 1, 1, 2), (11, 2, 1, 1)] if th else []):
        cs.append(case('eq_any-%d-%d-%d-%d' % (n, post, pre, dfe), 'eq_any', n=n, post=post, pre=pre, dfe=dfe))
    for n, post, pre, dfe, at, norm in [(14, 2, 1, 2, 5, False), (14, 1, 1, 3, 0, False), (16, 3, 0, 2, 11, True), (18, 2, 2, 3, 8, False), (12, 1, 0, 1, 3, True)]:
        cs.append(case('eq_near-%d-%d-%d-%d-%d-%s' % (n, post, pre, dfe, at, norm), 'eq_near', n=n, post=post, pre=pre, dfe=dfe, at=at, norm=norm))
    for n, post, pre, dfe, at, lam in [(12, 1, 0, 1, 5, 0.5), (12, 0, 0, 1, 3, 2), (12, 0, 0, 2, 4, 0.25), (12, 1, 0, 0, 4, 1), (12, 1, 0, 1, 5, 0.05), (12, 0, 0, 1, 5, 0.01), (12, 1, 0, 1, 5, 50)] + ([(14, 1, 1, 2, 5, 0.5), (16, 2, 0, 3, 10, 0.125)] if th else []):
        cs.append(case('eq_ridge-%d-%d-%d-%d-%d-%s' % (n, post, pre, dfe, at, lam), 'eq_near', n=n, post=post, pre=pre, dfe=dfe, at=at, norm=False, lam=lam))
    for con in ('OOK', 'NRZ', 'PAM4'):
        for fl in FLAGS:
            ch('eq_prbs', con, fl, 1, 1, 5, 140, False, dfe=0, spots=[2], c=[1, 0.25])
        for post, pre, dfe, off, length, norm in [(0, 0, 0, 0, 127, False), (0, 0, 2, 70, 254, False), (2, 1, 2, 3, 300, False), (1, 2, 3, 126, 381, True), (3, 0, 1, 9, 254, False), (1, 1, 1, 50, 90, False), (1, 0, 1, 12, 128, False), (0, 1, 1, 12, 126, False), (1, 0, 0, 99, 253, False)]:
            ch('eq_prbs', con, NF, post, pre, off, length, norm, dfe=dfe, spots=[0, 40, 80] if length < 200 else [0, 150, length - 1], c=[1, 0.25, -0.125])
            cs[-1]['name'] += '-d%d' % dfe
        for post, pre, dfe, length, norm, lam in [(1, 0, 0, 127, False, 0.5), (0, 1, 1, 254, False, 8)]:
            ch('eq_prbs', con, NF, post, pre, 17, length, norm, dfe=dfe, spots=[0, 40], c=[1, 0.25], lam=lam)
            cs[-1]['name'] += '-d%d-ridge%s' % (dfe, lam)
    return cs
