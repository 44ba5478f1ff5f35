"""C16 framing (buffer)"""
from .common import case, sparse

BOUNDS = 'signals up to 10 samples (14 thorough), frame lengths 1..5 and 8, overlaps from -5 to the frame length minus one, delays 0..3, with real-valued, integer-valued signals, and complex signals up to 4 samples from a set of values; every combination within that box whose total length exceeds the overlap; streams of 257 and 300 samples with 4 free ones'
OUTSIDE = 'longer signals, total lengths not exceeding the overlap, overlap >= length'


def frames(h, n, length, kind):
    s = h.reals('s', n, -20000, 20000) if kind == 'real' else h.ints('s', n, -3, 3) if kind == 'int' else h.bits('s', n)
    overlap = h.pick('overlap', [o for o in range(-5, length) if o != 0] + [0])
    delay = h.pick('delay', [1, 2, 3, 0])
    clip = h.flag('clip')
    tot = n + delay
    h.assume(tot > max(overlap, 0))
    m = h.cd.buffer(s, length, overlap=overlap, delay=delay, clip=clip)
    full = [0] * delay + [s[i] for i in range(n)] + [0] * (length + 4)
    stride = length - overlap
    starts = [k for k in range(0, tot - max(overlap, 0), stride)]
    if clip and starts and starts[-1] + length > tot:
        starts = starts[:-1]
    if not starts:
        h.eq(h.np.shape(m)[0], 0, 'no frame is left')
        return
    ref = h.np.array([[full[k + i] for i in range(length)] for k in starts], dtype=float)
    h.eq(m, ref, 'every sample at its place, exactly the frames that are due')


VC = [1 + 2j, -1j, 2.0, -1.5 + 0.5j]


def cframes(h, n, length):
    """complex samples from a set of values"""
    s = h.choice('s', n, VC, dtype=complex)
    overlap = h.pick('overlap', [o for o in range(-2, length)])
    delay = h.pick('delay', [0, 2])
    clip = h.flag('clip')
    tot = n + delay
    h.assume(tot > max(overlap, 0))
    m = h.cd.buffer(s, length, overlap=overlap, delay=delay, clip=clip)
    full = [0] * delay + [s[i] for i in range(n)] + [0] * (length + 4)
    starts = [k for k in range(0, tot - max(overlap, 0), length - overlap)]
    if clip and starts and starts[-1] + length > tot:
        starts = starts[:-1]
    h.check(h.np.shape(m)[0] == len(starts), 'exactly the frames that are due')
    for r, k in enumerate(starts):
        for i in range(length):
            h.check(m[r, i] == full[k + i], 'complex sample of frame %d, column %d' % (r, i))


def defaults(h, n, length):
    s = h.reals('s', n, -20000, 20000)
    a = h.cd.buffer(s, length)
    full = [s[i] for i in range(n)] + [0] * length
    h.eq(a, h.np.array([[full[k + i] for i in range(length)] for k in range(0, n, length)], dtype=float), 'no overlap, no delay, no clipping by default')


big = sparse(globals())


def cases(tier):
    cs = []
    th = tier == 'thorough'
    for n in list(range(1, 11)) + ([11, 12, 13, 14] if th else []):
        for length in [1, 2, 3, 4, 5]:
            for kind in ('real', 'int'):
                cs.append(case('frames n=%d length=%d %s' % (n, length, kind), 'frames', n=n, length=length, kind=kind))
    for n, length in [(12, 8), (17, 8), (20, 13), (13, 7)] + ([(30, 12), (40, 20)] if th else []):
        cs.append(case('frames n=%d length=%d real' % (n, length), 'frames', n=n, length=length, kind='real'))
    for n, l in [(1, 1), (3, 2), (4, 3), (2, 4)]:
        cs.append(case('complex frames n=%d length=%d' % (n, l), 'cframes', n=n, length=l))
    for n, l in [(5, 2), (6, 3), (1, 4)]:
        cs.append(case('defaults n=%d length=%d' % (n, l), 'defaults', n=n, length=l))
    for n, length in [(300, 7), (257, 5), (513, 6), (257, 64)]:
        for kind in ('real', 'int'):
            cs.append(case('long frames n=%d length=%d %s' % (n, length, kind), 'big', what='defaults' if length > 9 else 'frames', n=n, length=length, **(dict(kind=kind) if length < 9 else {})))
    return cs
