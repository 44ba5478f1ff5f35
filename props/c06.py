"""C06 quantize"""
from .common import case, sparse

BOUNDS = 'real inputs in [-300,300], 1-D and 2-D up to 4 entries, total bits 1..4 (..6 thorough), fractional bits -3..4, formats u, s, ss and the default; words of 7 to 10 bits (13 thorough), fractional bits -8..12, around four points of the range; arrays of 300 to 600 (1500 thorough) samples with 4 free ones'
OUTSIDE = 'wider words, larger arrays'


def grid(bits, frac, f):
    n = 2 ** bits
    k = range(0, n) if f == 'u' else range(-n // 2, n // 2) if f == 's' else range(-n // 2 + 1, n // 2)
    return [v * 2.0 ** -frac for v in k]


def quant(h, bits, frac, f, shape):
    x = h.reals('x', shape, -300, 300)
    if f is None:
        out = h.cd.rx.quantize(x, bits, frac)
    else:
        out = h.cd.rx.quantize(x, bits, frac, f)
    g = grid(bits, frac, f or 'u')
    h.eq(h.np.shape(out), list(shape), 'shape is kept')
    h.observe(out)
    x, out = x.reshape(-1), out.reshape(-1)
    step = 2.0 ** -frac
    for i in range(x.shape[0]):
        h.check(h.or_(*[out[i] == v for v in g]), 'entry %d is on the grid' % i)
        # nearest grid point: within half a step, or saturated at the end
        h.check(h.or_(h.np.abs(out[i] - x[i]) <= step / 2 + 1e-9,
                      h.and_(x[i] >= g[-1], out[i] == g[-1]), h.and_(x[i] <= g[0], out[i] == g[0])), 'entry %d is a nearest grid point' % i)


def wide(h, bits, frac, f, at):
    """wide words: any input around one point of the range (as a fraction of it)"""
    g = grid(bits, frac, f)
    step = 2.0 ** -frac
    c = g[0] + at * (g[-1] - g[0])
    x = h.reals('x', 1, c - 2.5 * step, c + 2.5 * step)
    out = h.cd.rx.quantize(x, bits, frac, f)
    h.eq(h.np.shape(out), [1], 'shape is kept')
    h.observe(out)
    h.check(h.or_(*[out[0] == v for v in g if abs(v - c) <= 5 * step]), 'on the grid')
    h.check(h.or_(h.np.abs(out[0] - x[0]) <= step / 2 + step * 1e-9, h.and_(x[0] >= g[-1], out[0] == g[-1]), h.and_(x[0] <= g[0], out[0] == g[0])), 'a nearest grid point')


def unknown(h, f):
    x = h.reals('x', (2,), -4, 4)
    h.check(h.raises(h.cd.rx.quantize, x, 3, 1, f), 'format %r is rejected' % f)


big = sparse(globals())


def cases(tier):
    cs = []
    top = 4 if tier == 'quick' else 6
    for f in ('u', 's', 'ss', None):
        for bits in range(1, top + 1):
            for frac in (-3, -2, -1, 0, 1, 2, 3, 4):
                if tier == 'quick' and f is None and frac not in (-1, 0, 2):
                    continue
                cs.append(case('quant %s %d.%d' % (f, bits, frac), 'quant', bits=bits, frac=frac, f=f, shape=[2] if bits < 4 else [1]))
        cs.append(case('quant 2d %s' % f, 'quant', bits=2, frac=1, f=f, shape=[2, 2]))
    for bits, frac in [(7, 3), (8, 0), (9, -2), (9, 12), (10, 4), (10, -8)] + ([(11, 0), (12, 6), (12, -6), (13, 0)] if tier == 'thorough' else []):
        for f in ('u', 's', 'ss'):
            for at in (0, 0.3, 0.5, 1):
                cs.append(case('wide %s %d.%d at %s' % (f, bits, frac, at), 'wide', bits=bits, frac=frac, f=f, at=at))
    for f in ('unsigned', 'signed', 'U', '', 'sss', 'f'):
        cs.append(case('unknown %s' % f, 'unknown', f=f))
    for f in ('u', 's', 'ss'):
        for sh in [(257,), (20, 30)] + ([(1500,)] if tier == 'thorough' else []):
            cs.append(case('long quant %s %s' % (f, sh), 'big', what='quant', bits=3, frac=1, f=f, shape=list(sh)))
            cs.append(case('long quant 6 bits %s %s' % (f, sh), 'big', what='quant', bits=6, frac=-1, f=f, shape=list(sh)))
    return cs
