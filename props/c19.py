"""C19 PRBS checkers"""
from .common import case

BOUNDS = 'locked: any received stream of up to 300 bits for PRBS7 (up to 64 bits for PRBS9/11/13 and with a given reference for PRBS15/31), any threshold up to 40; unlocked: PRBS7 and PRBS9 streams at fixed phases with up to 6 free bits and any stream of up to 5 bits; seed-from-data: any stream of up to 24 bits for PRBS7 and up to 26 for PRBS9/11, thresholds 1..6'
OUTSIDE = 'longer streams; a supplied reference that is not one period long'

TAPS = {'PRBS7': [6, 7], 'PRBS9': [5, 9], 'PRBS11': [9, 11], 'PRBS13': [1, 2, 12, 13], 'PRBS15': [14, 15], 'PRBS31': [28, 31]}


def _deg(t):
    return int(t[4:])


def _seq(t, first, total):
    """continue the bits `first` (time order, length = degree) by the recurrence to `total` bits"""
    s = list(first)
    while len(s) < total:
        v = 0
        for k in TAPS[t]:
            v = (v + s[len(s) - k]) % 2
        s.append(v)
    return s


def _ones(t, n):
    """the bits generated from the all-ones seed"""
    d = _deg(t)
    return _seq(t, [1] * d, n + d)[d:]


def locked(h, t, L, th, given=False):
    d = h.bits('d', L)
    kw = {}
    period = 2 ** _deg(t) - 1
    ref = _ones(t, min(L, period))
    if given:
        kw = dict(prbs_seq=h.np.array(_ones(t, min(max(L, 40), period)), dtype=int))
    full = [ref[i % period] for i in range(L)]
    lth = h.int_('th', 1, th)
    lost, cnt, err = h.cd.rx.prbs_checker(h.cd.PrbsEnum[t], d, True, loss_th=lth, **kw)
    h.eq(err, h.np.array([h.ite(d[i] == full[i], False, True) for i in range(L)]), 'errors mark exactly the differing bits')
    n = sum((1 - d[i] if full[i] else d[i] for i in range(L)), 0)
    h.eq(cnt, L - n, 'correct-bit count')
    h.eq(lost, n >= lth, 'lock is lost exactly at the threshold')
    h.observe(lost)


def unlocked(h, t, L, phase, free):
    """a PRBS at some phase with free bits: errors are counted against a best alignment"""
    period = 2 ** _deg(t) - 1
    ref = _ones(t, period)
    w = h.bits('w', len(free))
    data = [ref[(phase + i) % period] for i in range(L)]
    for k, i in enumerate(free):
        data[i] = w[k]
    d = h.np.array(data, dtype=int)
    lost, cnt, err = h.cd.rx.prbs_checker(h.cd.PrbsEnum[t], d, False, loss_th=5)
    h.eq(h.np.shape(err), [L], 'one mark per bit')
    h.observe(err)
    n = sum((err[i] * 1 for i in range(L)), 0)
    h.eq(cnt, L - n, 'correct-bit count')
    h.check(h.or_(h.and_(lost, n >= 5), h.and_(h.not_(lost), n < 5)), 'lock is lost exactly at the threshold')
    k = min(L, period)
    if len(free) * 2 < k // 2 and L >= period:
        # the true phase is the unique best alignment: off-phase correlation is -1
        exp = [h.ite(d[i] == ref[(phase + i) % period], False, True) for i in range(L)]
        h.eq(err, h.np.array(exp), 'errors mark exactly the flipped bits')
        return
    mism = []
    for r in range(period):
        mism.append(sum((h.ite(d[i] == ref[(r + i) % period], 0, 1) for i in range(k)), 0))
    best = mism[0]
    for v in mism[1:]:
        best = h.ite(v < best, v, best)
    ok = False
    for r in range(period):
        ok = h.or_(ok, h.and_(*([mism[r] == best] + [err[i] == h.ite(d[i] == ref[(r + i) % period], False, True) for i in range(L)])))
    h.check(ok, 'errors are those of a best alignment')


def clean(h, t, L):
    """an error-free stream at any phase, the phase given by the (non-zero) state at the start"""
    deg = _deg(t)
    s = h.bits('s', deg)
    h.assume(h.or_(*[s[i] == 1 for i in range(deg)]))
    d = h.np.array(_seq(t, [s[i] for i in range(deg)], L), dtype=int)
    lost, cnt, err = h.cd.rx.prbs_checker_econ(h.cd.PrbsEnum[t], d, loss_th=1)
    h.check(h.not_(lost), 'lock is kept on an error-free stream')
    h.eq(err, h.np.zeros(L, dtype=bool), 'no errors are marked')


def recover(h, t, L, th):
    """any errors in the first degree-1 bits: a later attempt starts behind them"""
    deg = _deg(t)
    s = h.bits('s', deg)
    h.assume(h.or_(*[s[i] == 1 for i in range(deg)]))
    w = h.bits('w', deg - 1)
    d = h.np.array([w[i] for i in range(deg - 1)] + _seq(t, [s[i] for i in range(deg)], L - deg + 1), dtype=int)
    lost, cnt, err = h.cd.rx.prbs_checker_econ(h.cd.PrbsEnum[t], d, loss_th=th)
    h.observe(lost)
    h.check(h.not_(lost), 'errors within the first %d bits do not cost the lock' % (deg - 1))


def economy(h, t, L, th):
    deg = _deg(t)
    d = h.bits('d', L)
    lost, cnt, err = h.cd.rx.prbs_checker_econ(h.cd.PrbsEnum[t], d, loss_th=th)
    m = h.np.shape(err)[0]
    a = L - m
    h.check(0 <= a < deg, 'the report belongs to one of the attempts')
    s = _seq(t, [d[a + i] for i in range(deg)], m)
    exp = [h.ite(d[a + i] == s[i], False, True) for i in range(m)]
    h.eq(err, h.np.array(exp), 'errors mark exactly the bits that break the recurrence')
    n = sum((h.ite(d[a + i] == s[i], 0, 1) for i in range(m)), 0)
    h.check(h.or_(h.and_(lost, n >= th), h.and_(h.not_(lost), n < th)), 'lock is lost exactly at the threshold')
    h.observe(lost)
    if a:
        # earlier attempts must have lost lock
        for b in range(a):
            q = _seq(t, [d[b + i] for i in range(deg)], L - b)
            h.check(sum((h.ite(d[b + i] == q[i], 0, 1) for i in range(L - b)), 0) >= th, 'attempt %d was abandoned only when it lost lock' % b)


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for t, L, g in [('PRBS7', 1, False), ('PRBS7', 20, False), ('PRBS7', 127, False), ('PRBS7', 150, False), ('PRBS7', 260, False), ('PRBS7', 126, False), ('PRBS7', 128, False), ('PRBS7', 129, False), ('PRBS7', 254, False), ('PRBS7', 255, False), ('PRBS7', 256, False), ('PRBS7', 2, False), ('PRBS7', 6, False), ('PRBS7', 7, False), ('PRBS7', 8, False), ('PRBS7', 300, True), ('PRBS9', 40, False), ('PRBS11', 40, False), ('PRBS7', 30, True)] + ([('PRBS13', 64, False), ('PRBS9', 600, False), ('PRBS15', 64, False)] if th else []):
        cs.append(case('locked %s L=%d given=%s' % (t, L, g), 'locked', t=t, L=L, th=min(L, 40), given=g))
    for t, L in [('PRBS15', 40), ('PRBS31', 40)]:
        cs.append(case('locked %s L=%d given' % (t, L), 'locked', t=t, L=L, th=20, given=True))
    for ph in [0, 1, 50, 126] + ([13, 77, 100] if th else []):
        cs.append(case('unlocked PRBS7 phase %d' % ph, 'unlocked', t='PRBS7', L=127, phase=ph, free=[0, 5, 64, 126]))
    cs.append(case('unlocked PRBS7 two periods', 'unlocked', t='PRBS7', L=254, phase=33, free=[3, 130, 200]))
    cs.append(case('unlocked PRBS7 one and a bit', 'unlocked', t='PRBS7', L=140, phase=90, free=[0, 126, 127, 139]))
    cs.append(case('unlocked PRBS7 period+1', 'unlocked', t='PRBS7', L=128, phase=11, free=[0, 60, 127]))
    cs.append(case('unlocked PRBS7 two periods+1', 'unlocked', t='PRBS7', L=255, phase=120, free=[126, 127, 254]))
    cs.append(case('unlocked PRBS7 period-1', 'unlocked', t='PRBS7', L=126, phase=77, free=[0, 125]))
    cs.append(case('unlocked PRBS7 short', 'unlocked', t='PRBS7', L=5, phase=90, free=[0, 1, 2, 3, 4]))
    cs.append(case('unlocked PRBS7 40 bits', 'unlocked', t='PRBS7', L=40, phase=20, free=[0, 7, 39]))
    if th:
        cs.append(case('unlocked PRBS9', 'unlocked', t='PRBS9', L=511, phase=333, free=[0, 100, 510]))
    for t, L in [('PRBS7', 14), ('PRBS7', 8), ('PRBS7', 40), ('PRBS7', 133), ('PRBS7', 134), ('PRBS7', 135), ('PRBS7', 136), ('PRBS7', 262), ('PRBS9', 40), ('PRBS11', 40), ('PRBS13', 40), ('PRBS15', 48), ('PRBS31', 64)]:
        cs.append(case('clean %s L=%d' % (t, L), 'clean', t=t, L=L))
    for t, L, x in [('PRBS7', 14, 1), ('PRBS7', 20, 2), ('PRBS7', 30, 5), ('PRBS9', 22, 2), ('PRBS11', 26, 2)] + ([('PRBS7', 40, 9), ('PRBS13', 32, 3), ('PRBS15', 34, 2)] if th else []):
        cs.append(case('recover %s L=%d th=%d' % (t, L, x), 'recover', t=t, L=L, th=x))
    for t, L, x in [('PRBS7', 14, 1), ('PRBS7', 16, 2), ('PRBS7', 18, 3), ('PRBS9', 20, 2)] + ([('PRBS7', 24, 3), ('PRBS11', 24, 2), ('PRBS7', 22, 6)] if th else []):
        cs.append(case('economy %s L=%d th=%d' % (t, L, x), 'economy', t=t, L=L, th=x))
    return cs
