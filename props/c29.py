"""C29 CTLE"""
from .common import case, sparse

BOUNDS = '1 or 2 zeros and up to 3 poles (2 zeros with 3 poles thorough) with any magnitude in [0.5, 4] and either sign relative to any symbol rate in [1, 4], oversampling 1, 2, 4, any DC gain in [-60, 40] dB (10**x uninterpreted); fixed GHz-scale filters with up to 4 poles (repeated ones too) with any signal in [-3000, 3000] of up to 5 samples, in the listed blocks down to single samples; signals of 150 and 260 samples with 4 free ones'
OUTSIDE = 'more zeros and poles; frequencies whose ratio to the sampling rate is outside [1/32, 4]; rounding of the bilinear transform'
ASSUMPTIONS = 'scipy.signal.bilinear is the exact bilinear transform; 10**(gain/20) is an uninterpreted positive function'


def _roots(h, name, n):
    """magnitudes and the values passed, each of either sign"""
    mag, val = [], []
    for i in range(n):
        m = h.real('%s%d' % (name, i), 0.5, 4)
        mag.append(m)
        val.append(-m if h.flag('%s%d.neg' % (name, i)) else m)
    return mag, val


def _expand(pairs, ones):
    """coefficients of prod (u + v z^-1) * (1 + z^-1)^ones"""
    c = [1]
    for u, v in list(pairs) + [(1, 1)] * ones:
        n = [0] * (len(c) + 1)
        for i, x in enumerate(c):
            n[i] = n[i] + x * u
            n[i + 1] = n[i + 1] + x * v
        c = n
    return c


def _prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def filt(h, nz, npl, osr, g, container):
    zm, zv = _roots(h, 'z', nz)
    pm, pv = _roots(h, 'p', npl)
    fs = h.real('fs', 1, 4)
    gain = h.real('g', -60, 40) if g is None else g
    mk = list if container == 'list' else (lambda v: h.np.stack([x + 0.0 for x in v]))
    b, a = h.cd.rx.get_ctle_filter(mk(zv), mk(pv), gain, fs, osr)
    h.eq(h.np.shape(a), [npl + 1], 'one denominator coefficient per pole and one more')
    h.eq(h.np.shape(b), [npl + 1], 'numerator as long as the denominator')
    c = 2 * fs * osr
    K = 10 ** (gain / 20) if g is not None else h.np.power(10, gain / 20)
    # analogue prototype K * prod(s/z + 1) / prod(s/p + 1), s = c (1 - z^-1)/(1 + z^-1)
    den = _expand([(p + c, p - c) for p in pm], 0)
    num = _expand([(z + c, z - c) for z in zm], npl - nz)
    D0 = _prod([p + c for p in pm])
    for k in range(npl + 1):
        h.eq(a[k] * D0, den[k], 'denominator coefficient %d is the bilinear transform of the poles' % k, tol=1e-5)
        h.eq(b[k] * D0 * _prod(zm), K * num[k] * _prod(pm), 'numerator coefficient %d is the bilinear transform of the zeros' % k, tol=1e-5)
    h.eq(a[0], 1, 'monic denominator', tol=1e-9)


def stable(h, nz, npl, osr):
    """consequences stated on their own: DC gain and poles inside the unit circle"""
    zm, zv = _roots(h, 'z', nz)
    pm, pv = _roots(h, 'p', npl)
    fs = h.pick('fs', [1, 2.5])
    gain = h.pick('g', [0, -6, 20])
    b, a = h.cd.rx.get_ctle_filter(zv, pv, gain, fs, osr)
    K = 10.0 ** (gain / 20)
    # times the (positive) product of the pole factors: no quotient left
    c = 2 * fs * osr
    D0 = _prod([p + c for p in pm])
    sb, sa = 0, 0
    for k in range(npl + 1):
        sa = sa + a[k]
    for k in range(npl + 1):
        sb = sb + b[k]
    h.eq(sb * D0, K * (sa * D0), 'gain at DC', tol=1e-5)
    if npl == 1:
        h.check(h.and_(a[1] < 1, a[1] > -1), 'the pole is strictly inside the unit circle')
    elif npl == 2:
        h.check(h.and_(a[2] < 1, a[2] > -1, 1 + a[1] + a[2] > 0, 1 - a[1] + a[2] > 0), 'both poles are strictly inside the unit circle')


SETS = {
    'lead': ([-1.5e9], [4.2e9, -9e9]),
    'flat': ([2e9], [2e9]),
    'two': ([1e9, -3e9], [5e9, 8e9, -1.2e10]),
    'pk': ([7e9], [-3e9, 2e10]),
    'triple': ([2e9], [3e9, 3e9, 3e9]),
    'four': ([-1e9, 1e9], [5e9, -5e9, 5e9, 2.2e10]),
    'equal': ([2e9, 4e9, 4e9], [6e9, 6e9, 8e9]),
}


def _ref(kind, gain, fs, osr):
    z, p = SETS[kind]
    c = 2.0 * fs * osr
    den = _expand([(abs(x) + c, abs(x) - c) for x in p], 0)
    num = _expand([(abs(x) + c, abs(x) - c) for x in z], len(p) - len(z))
    k = 10.0 ** (gain / 20) * _prod([abs(x) for x in p]) / _prod([abs(x) for x in z])
    return [k * v / den[0] for v in num], [v / den[0] for v in den]


def run(h, kind, gain, fs, osr, n, split):
    z, p = SETS[kind]
    s = h.reals('s', n, -3000, 3000)
    b, a = _ref(kind, gain, fs, osr)
    y = []
    for i in range(n):
        v = 0
        for k in range(len(b)):
            if i - k >= 0:
                v = v + b[k] * s[i - k]
        for k in range(1, len(a)):
            if i - k >= 0:
                v = v - a[k] * y[i - k]
        y.append(v)
    f = h.module('CommDspy.rx.ctle_model').ctle
    if split is None:
        out = f(s, z, p, gain, fs, osr)
        h.eq(h.np.shape(out), [n], 'one output per input')
        for i in range(n):
            h.eq(out[i], y[i], 'output %d' % i, tol=1e-6)
    else:
        zi = h.np.zeros(len(p))
        cuts = [0] + (split if isinstance(split, list) else [split]) + [n]
        outs = []
        for lo, hi in zip(cuts, cuts[1:]):
            o, zi = f(s[lo:hi], z, p, gain, fs, osr, zi=zi)
            h.eq(h.np.shape(o), [hi - lo], 'one output per input')
            outs += [o[i] for i in range(hi - lo)]
        for i in range(n):
            h.eq(outs[i], y[i], 'output %d' % i, tol=1e-6)


big = sparse(globals())


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for nz, npl in [(1, 1), (1, 2), (2, 2), (1, 3)] + ([(2, 3)] if th else []):
        for osr in (1, 2, 3, 4, 5, 8, 16, 32):
            for g in (None, 0, -6.5, 12, -30, -60, 30):
                if g is None and (nz == 2 and osr not in (4, 8, 32) and not th or npl > 2):
                    continue
                if g is not None and osr != 2:
                    continue
                cs.append(case('filt-%dz%dp-o%d-%s' % (nz, npl, osr, 'g' if g is None else g), 'filt', nz=nz, npl=npl, osr=osr, g=g, container='list' if osr < 4 else 'array'))
        if npl <= 2:
            for osr in (1, 3):
                cs.append(case('stable-%dz%dp-o%d' % (nz, npl, osr), 'stable', nz=nz, npl=npl, osr=osr))
    for kind in SETS:
        for gain, fs, osr, n, split in [(0, 1e10, 2, 4, None), (-6, 2.5e10, 1, 5, 2), (-30, 1e10, 4, 4, None), (26, 1e10, 3, 3, None), (3.5, 1e10, 32, 4, 1), (-3, 1e10, 2, 4, [1, 2, 3]), (2, 1e10, 1, 5, [4]), (-1, 2e9, 2, 6, [1, 4, 5])]:
            cs.append(case('run-%s-%s-%g-%d-%d-%s' % (kind, gain, fs, osr, n, split), 'run', kind=kind, gain=gain, fs=fs, osr=osr, n=n, split=split))
    for kind in SETS:
        for n, split in [(150, None), (260, [64, 65, 200]), (530, [3, 265])]:
            cs.append(case('long run-%s n=%d' % (kind, n), 'big', what='run', kind=kind, gain=-3, fs=1e10, osr=2, n=n, split=split))
    return cs
