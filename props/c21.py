"""C21 ffe_dfe and the FFE/DFE filter object"""
from .common import case, sparse

BOUNDS = 'any signal in [-20000, 20000] up to 6 samples with fixed tap sets (up to 3 feed-forward and 3 feedback taps, default, two- and three-level constellations), any taps in [-2, 2] with fixed signals and any taps with any signal up to 3 samples, any initial memories, every split into two or three chunks; oversampled signals of three symbols at ratios 2 to 5 (8 thorough) and every phase, judged at the sampling instants; slicer inputs at least 1e-6 away from a decision boundary; signals of 70 to 200 (600 thorough) samples with 2 to 4 free ones'
OUTSIDE = 'oversampled outputs between the sampling instants, chunked oversampled calls (a decision whose update falls behind the end of a chunk is lost), longer signals, slicer inputs closer than 1e-6 to a decision boundary'

LV = {None: [-3.0, -1.0, 1.0, 3.0], 'nrz': [-1.0, 1.0], 'pam3': [-1.0, 0.0, 1.0], 'skew': [-2.0, 0.5, 1.0, 4.0], 'six': [-2.5, -1.5, -0.5, 0.5, 1.5, 2.5], 'eight': [-7.0, -5.0, -3.0, -1.0, 1.0, 3.0, 5.0, 7.0]}
FFE = {'f1': [1.0], 'f1b': [0.5], 'f2': [1.0, -0.25], 'f3': [0.125, 1.0, -0.375], 'f7': [0.125, -0.25, 1.0, 0.5, -0.125, 0.0625, 0.25]}
DFE = {'d1': [0.25], 'd2': [-0.25, 0.125], 'd3': [0.5, 0.0, -0.25], 'd5': [0.25, -0.125, 0.0625, 0.0, 0.125]}
SIG = [1.5, -3.25, 0.75, 2.5, -1.25, 3.5]


def _lst(v):
    return [v[i] for i in range(v.shape[0])]


def _decide(h, s, lv):
    """nearest level, with the assumption that s is not on a boundary"""
    d = lv[0]
    for p, q in zip(lv, lv[1:]):
        mid = (p + q) / 2
        h.assume(h.np.abs(s - mid) >= 1e-6)
        d = d + h.ite(s > mid, q - p, 0)
    return d


def _check(h, out, x, ffe, dfe, lv, zf, zd, msg='slicer input'):
    """out[i] = sum ffe[k] x[i-k] - sum dfe[k] * (k-th most recent decision)"""
    L = len(ffe)
    full = list(zf) + list(x)
    off = len(zf)
    dec = list(zd)
    h.eq(h.np.shape(out), [len(x)], 'one output per sample')
    for i in range(len(x)):
        f = 0
        for k in range(L):
            if off + i - k >= 0:
                f = f + ffe[k] * full[off + i - k]
        fb = 0
        for k in range(len(dfe)):
            fb = fb + dfe[k] * dec[k]
        h.eq(out[i], f - fb, '%s %d' % (msg, i), tol=1e-7)
        if dfe:
            dec = [_decide(h, out[i], lv)] + dec[:-1]
    return full[len(full) - L:] if len(full) >= L else [0] * (L - len(full)) + full, dec


def _call(h, x, ffe, dfe, lv, zf=None, zd=None):
    """returns (slicer_in, ffe memory or None, dfe memory or None)"""
    kw = {}
    if lv is not None:
        kw['levels'] = h.np.array(LV[lv])
    if ffe is not None:
        kw['ffe_taps'] = ffe
    if dfe is not None:
        kw['dfe_taps'] = dfe
    if zf is not None:
        kw['zi_ffe'] = zf
    if zd is not None:
        kw['zi_dfe'] = zd
    r = h.cd.rx.ffe_dfe(x, **kw)
    nf = 1 if ffe is None else len(ffe)
    if dfe is None:
        return (r, None, None) if nf == 1 else (r[0], r[1], None)
    return (r[0], None, r[1]) if nf == 1 else (r[0], r[1], r[2])


def _taps(h, f, d):
    """concrete names, or ('s', n) for n symbolic taps"""
    if f is None:
        ffe, fl = None, [1.0]
    elif isinstance(f, int):
        ffe = h.reals('f', f, -2, 2)
        fl = _lst(ffe)
    else:
        fl = FFE[f]
        ffe = h.np.array(fl)
    if d is None:
        dfe, dl = None, []
    elif isinstance(d, int):
        dfe = h.reals('d', d, -1, 1)
        dl = _lst(dfe)
    else:
        dl = DFE[d]
        dfe = h.np.array(dl)
    return ffe, fl, dfe, dl


def model(h, f, d, lv, n, sig, zf=None, zd=False):
    ffe, fl, dfe, dl = _taps(h, f, d)
    x = h.np.array(SIG[:n]) if sig == 'fix' else (h.ints('x', n, -2, 2) if sig == 'int' else h.reals('x', n, -20000, 20000))
    z = h.reals('zf', len(fl) - 1 if zf == 'short' else len(fl), -8, 8) if zf else None
    zdv = h.choice('zd', len(dl), LV[lv]) if zd else None
    out, zo, zdo = _call(h, x, ffe, dfe, lv, z, zdv)
    mem, dec = _check(h, out, _lst(x), fl, dl, LV[lv], _lst(z) if zf else [], _lst(zdv) if zd else [0] * len(dl))
    if zo is not None:
        h.eq(h.np.shape(zo), [len(fl)], 'length of the returned FFE memory')
        h.eq(zo, h.np.array(mem, dtype=float), 'returned FFE memory', tol=1e-9)
    if zdo is not None:
        h.eq(zdo, h.np.array(dec, dtype=float), 'returned DFE memory holds the latest decisions first', tol=1e-9)


def over(h, f, d, lv, osr, phase, n, zd=False, sig='any'):
    """oversampled signal: the model holds at the sampling instants, with the decisions taken there"""
    ffe, fl, dfe, dl = _taps(h, f, d)
    x = h.reals('x', n, -20000, 20000)
    if sig == 'held':
        # free at the sampling instants only
        x = h.np.array([x[i] if i % osr == phase else 0.1 * i - 0.37 for i in range(n)])
    kw = dict(zi_dfe=h.choice('zd', len(dl), LV[lv])) if zd else {}
    r = h.cd.rx.ffe_dfe(x, ffe_taps=ffe, dfe_taps=dfe, levels=h.np.array(LV[lv]), osr=osr, phase=phase, **kw)
    out = r[0]
    h.eq(h.np.shape(out), [n], 'one output per sample')
    h.observe(out)
    dec = _lst(kw['zi_dfe']) if zd else [0] * len(dl)
    for i in range(phase, n, osr):
        v = sum((fl[k] * x[i - k] for k in range(len(fl)) if i - k >= 0), 0) - sum((dl[k] * dec[k] for k in range(len(dl))), 0)
        h.eq(out[i], v, 'slicer input at sampling instant %d' % i, tol=1e-7)
        dec = [_decide(h, out[i], LV[lv])] + dec[:-1]


def strong(h, scale):
    """levels and signals far above one, and the decisions with them"""
    lv = [-3 * scale, -scale, scale, 3 * scale]
    x = h.reals('x', 3, -4 * scale, 4 * scale)
    out, m = h.cd.rx.ffe_dfe(x, levels=h.np.array(lv), dfe_taps=h.np.array([0.25, -0.5]))
    mem, dec = _check(h, out, _lst(x), [1.0], [0.25, -0.5], lv, [], [0, 0])
    h.eq(m, h.np.array(dec, dtype=float), 'returned DFE memory', tol=1e-6)


def none_ffe(h, d, n):
    """ffe_taps=None means no FFE"""
    x = h.reals('x', n, -20000, 20000)
    if d is None:
        out = h.cd.rx.ffe_dfe(x, ffe_taps=None)
        h.eq(out, x, 'no taps: unchanged', tol=1e-9)
        return
    out, zd = h.cd.rx.ffe_dfe(x, ffe_taps=None, dfe_taps=h.np.array(DFE[d]))
    _check(h, out, _lst(x), [1.0], DFE[d], LV[None], [], [0] * len(DFE[d]))


def chunks(h, f, d, lv, n, cuts, sig):
    ffe, fl, dfe, dl = _taps(h, f, d)
    x = h.np.array(SIG[:n]) if sig == 'fix' else h.reals('x', n, -20000, 20000)
    whole, zf0, zd0 = _call(h, x, ffe, dfe, lv)
    _check(h, whole, _lst(x), fl, dl, LV[lv], [], [0] * len(dl))
    zf = zd = None
    parts = []
    for lo, hi in zip([0] + cuts, cuts + [n]):
        y, zf, zd = _call(h, x[lo:hi], ffe, dfe, lv, zf, zd)
        parts.append(y)
    h.eq(h.np.concatenate(parts), whole, 'chunks give the same outputs as one call', tol=1e-7)
    if zf is not None:
        h.eq(zf, zf0, 'same FFE memory at the end', tol=1e-7)
    if zd is not None:
        h.eq(zd, zd0, 'same DFE memory at the end', tol=1e-7)


def reject(h, f, d):
    ffe, fl, dfe, dl = _taps(h, f, d)
    x = h.reals('x', 4, -8, 8)
    k = h.pick('len', [0, 1, 2, 3, 4, 5, 6])
    if len(fl) > 1:
        h.check(h.rejects(lambda: _call(h, x, ffe, dfe, None, zf=h.np.zeros(k))) == (k not in (len(fl), len(fl) - 1)), 'FFE memory of the wrong size is rejected with a ValueError')
    if dl and k > 0:
        h.check(h.rejects(lambda: _call(h, x, ffe, dfe, None, zd=h.np.zeros(k))) == (k != len(dl)), 'DFE memory of the wrong size is rejected with a ValueError')


def obj(h, f, d, lv, n, cuts, sig, d0=1.0):
    """FfeDfeFilterTII: same model, first feedback entry is the main cursor"""
    ffe, fl, dfe, dl = _taps(h, f, d)
    fl = [v / d0 for v in fl]
    m = h.module('CommDspy.misc.help_classes')
    x = h.np.array(SIG[:n]) if sig == 'fix' else (h.ints('x', n, -2, 2) if sig == 'int' else h.reals('x', n, -20000, 20000))
    flt = m.FfeDfeFilterTII(ffe if ffe is not None else h.np.array([1.0]), h.np.array([d0] + [d0 * v for v in dl]), h.np.array(LV[lv]))
    parts = []
    for lo, hi in zip([0] + cuts, cuts + [n]):
        parts.append(flt(x[lo:hi]))
    _check(h, h.np.concatenate(parts), _lst(x), fl, dl, LV[lv], [], [0] * len(dl))


big = sparse(globals())


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for f in FFE:
        if f in ('f1b', 'f7'):
            continue
        for d in [None, 'd1', 'd2', 'd3']:
            if f == 'f1' and d is None:
                continue
            for lv in ([None, 'nrz', 'skew', 'pam3'] if th else ([None, 'nrz'] if d != 'd3' else ['nrz', 'skew'])):
                if d is None and lv is not None:
                    continue
                n = (5 if th else 4) if (lv != 'nrz') else (8 if th else 6)
                cs.append(case('any signal %s/%s %s n=%d' % (f, d, lv, n), 'model', f=f, d=d, lv=lv, n=n, sig='any'))
    for f, d, lv, zf, zd in [('f2', None, None, 'full', False), ('f3', None, None, 'short', False), ('f3', None, None, 'full', False), ('f3', 'd2', 'nrz', 'full', True), ('f2', 'd1', None, 'short', True), ('f1', 'd2', None, None, True), ('f1b', 'd3', 'pam3', None, True)]:
        cs.append(case('memories %s/%s %s %s' % (f, d, lv, zf), 'model', f=f, d=d, lv=lv, n=3, sig='any', zf=zf, zd=zd))
        cs.append(case('memories n=1 %s/%s %s %s' % (f, d, lv, zf), 'model', f=f, d=d, lv=lv, n=1, sig='any', zf=zf, zd=zd))
    for f, d, lv in [(3, None, None), (2, None, None), (3, 1, None), (1, 2, 'nrz'), (2, 2, 'nrz')] + ([(3, 2, None)] if th else []):
        cs.append(case('any taps %s/%s %s' % (f, d, lv), 'model', f=f, d=d, lv=lv, n=5 if lv or d is None else 4, sig='fix'))
    for f, d, lv, n in [(2, None, None, 4), (3, None, None, 4), (1, 1, 'nrz', 3), (2, 1, 'nrz', 3)] + ([(2, 2, 'nrz', 3), (2, 1, None, 3)] if th else []):
        cs.append(case('any taps and signal %s/%s %s n=%d' % (f, d, lv, n), 'model', f=f, d=d, lv=lv, n=n, sig='any'))
    cs.append(case('integer signal f2/d1', 'model', f='f2', d='d1', lv='nrz', n=2, sig='int'))
    cs.append(case('integer signal f3', 'model', f='f3', d=None, lv=None, n=3, sig='int'))
    cs.append(case('no FFE, no DFE', 'none_ffe', d=None, n=3))
    cs.append(case('no FFE given, d2', 'none_ffe', d='d2', n=3))
    for f, d, lv, n, cuts in [('f2', None, None, 5, [2]), ('f3', None, None, 6, [1, 2]), ('f3', None, None, 6, [2, 3]), ('f3', None, None, 5, [4]), ('f1', 'd2', 'nrz', 5, [2]), (None, 'd1', None, 4, [1, 2]), ('f1b', 'd3', 'nrz', 5, [1, 2]),
                              ('f2', 'd1', None, 4, [2]), ('f3', 'd2', 'nrz', 5, [1, 3]), ('f3', 'd3', 'nrz', 5, [2, 3]), ('f3', 'd2', None, 4, [1])]:
        cs.append(case('chunks %s/%s %s cuts=%s' % (f, d, lv, cuts), 'chunks', f=f, d=d, lv=lv, n=n, cuts=cuts, sig='any'))
    for f, d, lv, n, cuts in [(3, None, None, 6, [1, 3]), (2, 1, 'nrz', 5, [2]), (1, 2, 'nrz', 5, [1, 3])]:
        cs.append(case('chunks any taps %s/%s' % (f, d), 'chunks', f=f, d=d, lv=lv, n=n, cuts=cuts, sig='fix'))
    for f, d, lv, n in [('f1', 'd1', 'six', 3), ('f2', 'd2', 'eight', 3), ('f7', None, None, 9), ('f7', 'd5', 'nrz', 7), ('f1', 'd5', 'pam3', 4), ('f3', 'd1', 'six', 2)]:
        cs.append(case('any signal %s/%s %s n=%d' % (f, d, lv, n), 'model', f=f, d=d, lv=lv, n=n, sig='any'))
    for f, d, lv, zf, zd in [('f7', None, None, 'full', False), ('f7', None, None, 'short', False), ('f2', 'd5', 'nrz', 'full', True), ('f1', 'd5', 'six', None, True), ('f3', 'd3', None, None, True)]:
        cs.append(case('memories %s/%s %s %s' % (f, d, lv, zf), 'model', f=f, d=d, lv=lv, n=2, sig='any', zf=zf, zd=zd))
    for f, d, lv, n, cuts in [('f7', None, None, 9, [2, 5]), ('f7', 'd5', 'nrz', 6, [1, 3]), ('f1', 'd5', 'nrz', 6, [2]), ('f1', 'd2', 'six', 3, [1])]:
        cs.append(case('chunks %s/%s %s cuts=%s' % (f, d, lv, cuts), 'chunks', f=f, d=d, lv=lv, n=n, cuts=cuts, sig='any'))
    for osr in (2, 3, 4, 5) + ((6, 7, 8) if th else ()):
        for ph in range(osr):
            for f, d, lv, zd in [('f1', 'd1', 'nrz', False), ('f3', 'd2', 'nrz', True)]:
                cs.append(case('oversampled %s/%s by %d phase %d' % (f, d, osr, ph), 'over', f=f, d=d, lv=lv, osr=osr, phase=ph, n=3 * osr, zd=zd, sig='any' if osr < 4 and f == 'f1' else 'held'))
            if osr < 4:
                cs.append(case('oversampled pam3 by %d phase %d' % (osr, ph), 'over', f='f2', d='d1', lv='pam3', osr=osr, phase=ph, n=2 * osr + 1, sig='held'))
    for s in (100.0, 1e4):
        cs.append(case('strong signal %g' % s, 'strong', scale=s))
    for f, d in [('f2', None), ('f3', None), ('f1', 'd1'), ('f1', 'd3'), ('f3', 'd2'), ('f2', 'd2')]:
        cs.append(case('wrong memories %s/%s' % (f, d), 'reject', f=f, d=d))
    for f, d, lv, n, cuts, sig in [('f3', 'd2', 'nrz', 5, [2], 'any'), ('f2', 'd3', None, 4, [1], 'any'), ('f1', 'd1', 'skew', 4, [], 'any'), ('f3', 'd1', 'pam3', 4, [1, 2], 'any'), ('f2', 'd1', 'nrz', 2, [], 'int'), (2, 2, 'nrz', 5, [3], 'fix')]:
        cs.append(case('object %s/%s %s' % (f, d, lv), 'obj', f=f, d=d, lv=lv, n=n, cuts=cuts, sig=sig))
    for f, d, lv, n, cuts, sig, d0 in [('f3', 'd2', 'nrz', 5, [2], 'any', -1.0), ('f1', 'd3', 'nrz', 5, [], 'any', -1.0), ('f1', 'd5', 'pam3', 4, [1], 'any', -1.0), ('f2', 'd3', None, 4, [1], 'any', 2.0), ('f7', 'd1', 'nrz', 6, [3], 'any', 0.5), ('f1', 'd5', 'nrz', 7, [], 'any', 0.5), ('f2', 'd2', 'nrz', 3, [], 'int', -2.0)]:
        cs.append(case('object %s/%s %s main cursor %s' % (f, d, lv, d0), 'obj', f=f, d=d, lv=lv, n=n, cuts=cuts, sig=sig, d0=d0))
    for f, d, lv in [('f1', None, None), ('f3', None, None), ('f2', 'd1', 'nrz'), ('f3', 'd2', None), ('f2', 'd1', 'pam3')]:
        for n in (70, 200) + ((600,) if th else ()):
            cs.append(case('long %s/%s %s n=%d' % (f, d, lv, n), 'big', what='model', at='ends' if d is None else 'end', f=f, d=d, lv=lv, n=n, sig='any'))
        cs.append(case('long chunks %s/%s %s' % (f, d, lv), 'big', what='chunks', at='end', f=f, d=d, lv=lv, n=150, cuts=[64, 65, 130], sig='any')) if f != 'f1' else None
        cs.append(case('long blocks %s/%s %s' % (f, d, lv), 'big', what='chunks', at='end', f=f, d=d, lv=lv, n=330, cuts=[1, 161], sig='any')) if f != 'f1' else None
    return cs
