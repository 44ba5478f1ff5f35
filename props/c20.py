"""C20 channels, CTLE and filter objects"""
from .common import case, sparse
from .c21 import obj as ffedfe_object

BOUNDS = 'any real taps in [-2, 2] (up to 4 numerator and 4 denominator taps, leading denominator tap from a set of non-zero values or any value in [1/4, 4]), any signal in [-20000, 20000] up to 7 samples, any initial memory, any split into up to three chunks; fixed filters up to 8/7 taps with any signal of 1 to 12 samples (30 thorough); three fixed CTLEs with any signal up to 10 samples; signals of 150 and 260 (1100 thorough) samples with 4 free ones'
OUTSIDE = 'empty chunks (scipy returns an undefined memory for them), longer signals and filters, floating-point rounding beyond the tolerance'

A0 = [1.0, 2.0, -1.0, 0.5]


def _tdf2(b, a, x, z):
    """transposed direct form II with coefficients normalised by a[0] (independent reference)"""
    K = max(len(a), len(b))
    b = [v / a[0] for v in b] + [0] * (K - len(b))
    a = [v / a[0] for v in a] + [0] * (K - len(a))
    z = list(z) + [0]
    out = []
    for v in x:
        y = b[0] * v + z[0]
        for k in range(1, K):
            z[k - 1] = b[k] * v + z[k] - a[k] * y
        out.append(y)
    return out, z[:K - 1]


def _direct(b, a, x):
    """difference equation from rest"""
    y = []
    for n in range(len(x)):
        s = sum((b[i] * x[n - i] for i in range(len(b)) if n - i >= 0), 0)
        s = s - sum((a[j] * y[n - j] for j in range(1, len(a)) if n - j >= 0), 0)
        y.append(s / a[0])
    return y


def _coef(h, nb, na, a0):
    b = h.reals('b', nb, -2, 2)
    if a0 == 'any':
        lead = [h.real('a0', 0.25, 4)]
    else:
        lead = [a0]
    rest = h.reals('a', na - 1, -1, 1) if na > 1 else None
    al = lead + [rest[i] for i in range(na - 1)]
    return b, h.np.array(al, dtype=float), [b[i] for i in range(nb)], al


def _lst(v):
    return [v[i] for i in range(v.shape[0])]


def channel(h, nb, na, n, a0, zi):
    b, a, bl, al = _coef(h, nb, na, a0)
    x = h.reals('x', n, -20000, 20000)
    K = max(nb, na) - 1
    z = h.reals('z', K, -4, 4) if zi else None
    y, zo = h.cd.channel.awgn_channel(x, b, a, zi=z)
    ref, zref = _tdf2(bl, al, _lst(x), _lst(z) if zi else [0] * K)
    h.eq(y, h.np.array(ref, dtype=float), 'difference equation', tol=1e-6)
    if not zi:
        h.eq(y, h.np.array(_direct(bl, al, _lst(x)), dtype=float), 'difference equation from rest', tol=1e-6)
    h.eq(h.np.shape(zo), [K], 'memory length')


def channel_chunks(h, nb, na, n, cuts, a0):
    b, a, bl, al = _coef(h, nb, na, a0)
    x = h.reals('x', n, -20000, 20000)
    whole, zw = h.cd.channel.awgn_channel(x, b, a)
    z, parts = None, []
    for lo, hi in zip([0] + cuts, cuts + [n]):
        y, z = h.cd.channel.awgn_channel(x[lo:hi], b, a, zi=z)
        parts.append(y)
    h.eq(h.np.concatenate(parts), whole, 'chunks join without a seam', tol=1e-6)
    if len(z):
        h.eq(z, zw, 'same memory at the end', tol=1e-6)


def channel_fir(h, nb, n, a):
    """denominator given as a number"""
    b = h.reals('b', nb, -2, 2)
    x = h.reals('x', n, -20000, 20000)
    y, zo = h.cd.channel.awgn_channel(x, b, a)
    h.eq(y, h.np.array(_direct(_lst(b), [a], _lst(x)), dtype=float), 'difference equation', tol=1e-6)
    h.eq(h.np.shape(zo), [nb - 1], 'memory length')


def channel_int(h, n):
    x = h.ints('x', n, -3, 3)
    b, a = h.np.array([0.5, 0.25, -1.0]), h.np.array([2.0, 0.5])
    y, zo = h.cd.channel.awgn_channel(x, b, a)
    h.eq(y, h.np.array(_direct([0.5, 0.25, -1.0], [2.0, 0.5], _lst(x)), dtype=float), 'integer signals are treated as reals', tol=1e-9)


def _filt(h, cls, b, a, z=None):
    m = h.module('CommDspy.misc.help_classes')
    if cls == 'Filter':
        return m.Filter(b, a) if z is None else m.Filter(b, a, *z)
    return m.FilterTII(b, a) if z is None else m.FilterTII(b, a, z)


def objects(h, cls, nb, na, n, cuts, a0):
    b, a, bl, al = _coef(h, nb, na, a0)
    x = h.reals('x', n, -20000, 20000)
    f = _filt(h, cls, b, a)
    ref = _direct(bl, al, _lst(x))
    parts = []
    for lo, hi in zip([0] + cuts, cuts + [n]):
        parts.append(f(x[lo:hi]))
    h.eq(h.np.concatenate(parts), h.np.array(ref, dtype=float), 'difference equation across chunks', tol=1e-6)


def objects_mem(h, cls, nb, na, n):
    """initial memories given"""
    b, a, bl, al = _coef(h, nb, na, 2.0)
    x = h.reals('x', n, -20000, 20000)
    if cls == 'Filter':
        zf = h.reals('zf', nb, -4, 4)
        zi = h.reals('zi', na - 1, -4, 4)
        f = _filt(h, cls, b, a, (zf, zi))
        px, py = _lst(zf), _lst(zi)
        ref = []
        for v in _lst(x):
            px = [v] + px[:nb - 1]
            y = (sum((p * q for p, q in zip(bl, px)), 0) - sum((p * q for p, q in zip(al[1:], py)), 0)) / al[0]
            py = ([y] + py)[:na - 1]
            ref.append(y)
        h.eq(f(x), h.np.array(ref, dtype=float), 'difference equation from the given memory', tol=1e-6)
    else:
        # memory in the units of a[0]*y, as in the sketch of the documentation
        K = max(nb, na) - 1
        z = h.reals('z', K, -4, 4)
        f = _filt(h, cls, b, a, z)
        zs = _lst(z) + [0]
        bb, aa = bl + [0] * (K + 1 - nb), al + [0] * (K + 1 - na)
        ref = []
        for v in _lst(x):
            y = (bb[0] * v + zs[0]) / aa[0]
            for k in range(1, K + 1):
                zs[k - 1] = bb[k] * v + zs[k] - aa[k] * y
            ref.append(y)
        h.eq(f(x), h.np.array(ref, dtype=float), 'difference equation from the given memory', tol=1e-6)


def large(h, which, scale):
    """the same equations at every signal level: scale up and down"""
    bl, al = [1.0, 0.5, -0.25], [1.0, -0.5, 0.25]
    x = h.reals('x', 4, -scale, scale)
    b, a = h.np.array(bl), h.np.array(al)
    y = h.cd.channel.awgn_channel(x, b, a)[0] if which == 'channel' else _filt(h, which, b, a)(x)
    h.eq(y, h.np.array(_direct(bl, al, _lst(x)), dtype=float), 'difference equation', tol=1e-9 * scale)


def longer(h, which, n, nb, na):
    """longer filters and signals, fixed taps"""
    bl = [0.5, -0.25, 0.125, 1.0, 0.0625, -0.5, 0.25, 0.375][:nb]
    al = [1.0, -0.5, 0.25, 0.125, 0.0, -0.0625, 0.125][:na]
    x = h.reals('x', n, -20000, 20000)
    b, a = h.np.array(bl), h.np.array(al)
    ref = h.np.array(_direct(bl, al, _lst(x)), dtype=float)
    if which == 'channel':
        y, z = h.cd.channel.awgn_channel(x, b, a)
        h.eq(y, ref, 'difference equation', tol=1e-6)
        c = max(1, n // 3)
        if n == 1:
            return
        y1, z1 = h.cd.channel.awgn_channel(x[:c], b, a)
        y2, z2 = h.cd.channel.awgn_channel(x[c:], b, a, zi=z1)
        h.eq(h.np.concatenate([y1, y2]), ref, 'chunks join without a seam', tol=1e-6)
    else:
        f = _filt(h, which, b, a)
        cuts = sorted({0, max(1, n // 3), max(1, n // 3) + 1, n} & set(range(n + 1)))
        parts = [f(x[i:j]) for i, j in zip(cuts, cuts[1:])]
        h.eq(h.np.concatenate(parts), ref, 'difference equation across chunks', tol=1e-6)


def objects_int(h, cls, n):
    x = h.ints('x', n, -3, 3)
    bl, al = [0.5, 0.25], [2.0, 0.5, -0.25]
    y = _filt(h, cls, h.np.array(bl), h.np.array(al))(x)
    h.eq(y, h.np.array(_direct(bl, al, _lst(x)), dtype=float), 'integer signals are treated as reals', tol=1e-9)


def objects_reject(h, cls):
    d = h.pick('d', [-1, 1, 0])
    b, a = h.np.array([1.0, 0.5, 0.25]), h.np.array([1.0, 0.5])
    m = h.module('CommDspy.misc.help_classes')
    if cls == 'Filter':
        h.check(h.rejects(lambda: m.Filter(b, a, z_fir=h.np.zeros(3 + d))) == (d != 0), 'wrong FIR memory length is rejected')
        h.check(h.rejects(lambda: m.Filter(b, a, z_iir=h.np.zeros(1 + d))) == (d != 0), 'wrong IIR memory length is rejected')
    else:
        h.check(h.rejects(lambda: m.FilterTII(b, a, h.np.zeros(2 + d))) == (d != 0), 'wrong memory length is rejected')


CT = {'one': ([5e8], [2e9, 5e9], -4.0, 1e9, 4), 'two': ([-1e9, 3e9], [2e9, 5e9], 3.0, 2e9, 2), 'eq': ([7e8], [3e9], 0.0, 1e9, 1)}


def ctle(h, cfg, n, cut):
    ze, po, g, fs, osr = CT[cfg]
    x = h.reals('x', n, -20000, 20000)
    b, a = h.cd.rx.get_ctle_filter(ze, po, g, fs, osr)
    y = h.cd.rx.ctle(x, ze, po, g, fs, osr)
    bl, al = [float(v) for v in b], [float(v) for v in a]
    h.eq(y, h.np.array(_direct(bl, al, _lst(x)), dtype=float), 'difference equation', tol=1e-6)
    K = max(len(bl), len(al)) - 1
    y1, z = h.cd.rx.ctle(x[:cut], ze, po, g, fs, osr, zi=h.np.zeros(K))
    y2, z = h.cd.rx.ctle(x[cut:], ze, po, g, fs, osr, zi=z)
    h.eq(h.np.concatenate([y1, y2]), y, 'chunks join without a seam', tol=1e-6)


big = sparse(globals())


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for nb, na in [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3)] + ([(4, 1), (1, 4), (4, 3), (3, 4)] if th else []):
        for a0 in ([1.0, 2.0, 'any'] if nb + na < 5 else [1.0, -1.0]) + ([0.5] if th else []):
            n = 5 if na <= 2 else 4
            if a0 == 'any':
                n = 3
            for zi in (False, True):
                if zi and max(nb, na) == 1:
                    continue
                cs.append(case('channel %d/%d a0=%s zi=%s' % (nb, na, a0, zi), 'channel', nb=nb, na=na, n=n, a0=a0, zi=zi))
    for nb, na, n, cuts, a0 in [(3, 1, 6, [2], 1.0), (2, 2, 6, [1, 3], 1.0), (3, 2, 5, [1], 2.0), (2, 3, 5, [3, 4], 1.0), (4, 1, 6, [1, 2], 1.0)] + ([(3, 3, 6, [2, 4], -1.0), (4, 2, 7, [1, 6], 1.0)] if th else []):
        cs.append(case('channel chunks %d/%d n=%d cuts=%s' % (nb, na, n, cuts), 'channel_chunks', nb=nb, na=na, n=n, cuts=cuts, a0=a0))
    for nb, n, a in [(3, 5, 1), (2, 4, 2.0), (1, 3, 1.0)]:
        cs.append(case('channel FIR %d a=%s' % (nb, a), 'channel_fir', nb=nb, n=n, a=a))
    cs.append(case('channel int', 'channel_int', n=3))
    for cls in ('Filter', 'FilterTII'):
        for nb, na, n, cuts, a0 in [(1, 1, 3, [1], 2.0), (3, 1, 5, [2], 1.0), (1, 3, 5, [1, 2], 1.0), (2, 2, 5, [3], 2.0), (3, 2, 5, [1], 0.5), (2, 2, 3, [1], 'any')] + ([(2, 4, 5, [2], 1.0), (4, 2, 7, [3, 4], -1.0)] if th else []):
            cs.append(case('%s %d/%d n=%d a0=%s' % (cls, nb, na, n, a0), 'objects', cls=cls, nb=nb, na=na, n=n, cuts=cuts, a0=a0))
        for nb, na, n in [(2, 2, 4), (3, 2, 4), (2, 3, 4), (1, 4, 3), (4, 4, 3), (3, 5, 2), (4, 1, 3), (1, 2, 3)]:
            cs.append(case('%s memory %d/%d' % (cls, nb, na), 'objects_mem', cls=cls, nb=nb, na=na, n=n))
        cs.append(case('%s int' % cls, 'objects_int', cls=cls, n=2))
        cs.append(case('%s wrong memory' % cls, 'objects_reject', cls=cls))
    for w in ('channel', 'Filter', 'FilterTII'):
        for sc in (1e4, 1e-3):
            cs.append(case('%s signals up to %g' % (w, sc), 'large', which=w, scale=sc))
        for n, nb, na in [(n, 3, 3) for n in range(1, 13)] + [(4, k, 1) for k in range(1, 9)] + [(4, 1, k) for k in range(2, 8)] + [(5, k, k) for k in range(2, 8)] + [(9, 8, 1), (9, 5, 4), (9, 1, 7), (8, 4, 6)] + ([(30, 8, 7), (24, 8, 1)] if th else []):
            cs.append(case('%s longer %d/%d n=%d' % (w, nb, na, n), 'longer', which=w, n=n, nb=nb, na=na))
    for f, d, lv, n, cuts, d0 in [('f2', 'd2', 'nrz', 4, [2], 1.0), ('f1', 'd3', 'nrz', 5, [1], -1.0), ('f3', 'd1', 'pam3', 4, [], 2.0), ('f1', 'd5', 'nrz', 7, [3], 0.5), ('f7', 'd3', 'nrz', 6, [2], -2.0)]:
        cs.append(case('FFE/DFE object %s/%s %s main cursor %s' % (f, d, lv, d0), 'ffedfe_object', f=f, d=d, lv=lv, n=n, cuts=cuts, sig='any', d0=d0))
    for c in CT:
        cs.append(case('ctle %s' % c, 'ctle', cfg=c, n=8 if not th else 10, cut=3))
        for n in range(2, 8):
            for cut in range(1, n):
                cs.append(case('ctle %s n=%d cut %d' % (c, n, cut), 'ctle', cfg=c, n=n, cut=cut))
    for w in ('channel', 'Filter', 'FilterTII'):
        for n, nb, na in [(150, 3, 3), (260, 8, 1), (260, 2, 2), (800, 3, 2)] + ([(1100, 4, 2)] if th else []):
            cs.append(case('long %s %d/%d n=%d' % (w, nb, na, n), 'big', what='longer', which=w, n=n, nb=nb, na=na))
    cs.append(case('long ctle', 'big', what='ctle', cfg='one', n=150, cut=70))
    return cs
