"""C30 the complete link"""
from .common import case

BOUNDS = 'any bit stream of up to 8 symbols (12 two-level symbols), streams of 14 to 60 symbols with 3 free symbols, any disturbance per symbol up to half the level spacing minus 1e-6, all flag combinations listed per case; pulse-shaped links of up to 5 symbols with oversampling 2 to 8 and spans 1 to 4'
OUTSIDE = 'longer streams; disturbances closer than 1e-6 to half the spacing'

NB = {'OOK': 1, 'NRZ': 1, 'PAM4': 2}
SP = {'OOK': 1.0, 'NRZ': 2.0, 'PAM4': 2.0}
FS = {'OOK': 2 ** 0.5, 'NRZ': 1.0, 'PAM4': 5 ** -0.5}


def _tx(h, bits, con, gray, diff, fs, inv, flags):
    cn = getattr(h.cd.ConstellationEnum, con)
    s = h.cd.tx.bin2symbol(bits, 2 ** NB[con], **flags)
    if gray:
        s = h.cd.tx.coding_gray(s, cn)
    if diff:
        s = h.cd.tx.coding_differential(s, cn)
    return h.cd.tx.mapping(s, cn, full_scale=fs, pn_inv=inv)


def _rx(h, sig, con, gray, diff, fs, inv, flags):
    cn = getattr(h.cd.ConstellationEnum, con)
    lv = h.cd.get_levels(cn, full_scale=fs)
    lv = (-1 * lv[::-1] if inv else lv) * 1.0
    y = h.cd.rx.demapping(h.cd.rx.slicer(sig, lv), cn, full_scale=fs, pn_inv=inv)
    if diff:
        y = h.cd.rx.decoding_differential(y, cn)
    if gray:
        y = h.cd.rx.decoding_gray(y, cn)
    return h.cd.rx.symbol2bin(y, 2 ** NB[con], **flags)


def _noise(h, n, con, fs):
    lim = SP[con] * (FS[con] if fs else 1.0) / 2 - 1e-6
    return h.reals('d', n, -lim, lim)


def direct(h, n, con, gray, diff, fs, inv, flags):
    nb = NB[con]
    bits = h.bits('b', n * nb)
    sig = _tx(h, bits, con, gray, diff, fs, inv, flags) + _noise(h, n, con, fs)
    out = _rx(h, sig, con, gray, diff, fs, inv, flags)
    h.eq(h.np.reshape(out, -1), bits, 'the transmitted bits are delivered')


def long(h, n, con, gray, diff, fs, inv, flags, low, spots):
    """long streams: fixed bits (from the low symbols only) except for the listed symbols; disturbed there"""
    nb = NB[con]
    f = h.bits('b', len(spots) * nb)
    bl = [((5 * i * i + 3 * i) // 4) % 2 if not low else 0 for i in range(n * nb)]
    for k, p in enumerate(spots):
        for j in range(nb):
            bl[p * nb + j] = f[k * nb + j]
    bits = h.np.array(bl, dtype=int)
    d = _noise(h, len(spots), con, fs)
    sig = _tx(h, bits, con, gray, diff, fs, inv, flags)
    sig = sig + h.np.stack([d[spots.index(i)] if i in spots else 0 * d[0] for i in range(n)])
    out = _rx(h, sig, con, gray, diff, fs, inv, flags)
    h.eq(h.np.reshape(out, -1), bits, 'the transmitted bits are delivered')


def shaped(h, n, con, gray, diff, fs, inv, flags, pulse, beta, osr, span, chunks):
    nb = NB[con]
    bits = h.bits('b', n * nb)
    sym = _tx(h, bits, con, gray, diff, fs, inv, flags)
    # flush the pulse tails with idle symbols, sample at the symbol instants
    pad = h.np.concatenate((sym, h.np.zeros(span)))
    kw = dict(osr=osr, span=span, pulse=pulse)
    if beta is not None:
        kw['beta'] = beta
    if chunks:
        a, z = h.cd.channel.pulse_shape(pad[:chunks], **kw)
        b, z = h.cd.channel.pulse_shape(pad[chunks:], zi=z, **kw)
        wave = h.np.concatenate((a, b))
    else:
        wave, _ = h.cd.channel.pulse_shape(pad, **kw)
    at = 0 if pulse == 'imp' else span * osr
    sig = h.np.stack([wave[at + k * osr] for k in range(n)]) + _noise(h, n, con, fs)
    out = _rx(h, sig, con, gray, diff, fs, inv, flags)
    h.eq(h.np.reshape(out, -1), bits, 'the transmitted bits are delivered through the pulse')


def line(h, n, code):
    """binary line codes through the same slicing and de-mapping"""
    cd, np = h.cd, h.np
    bits = h.bits('b', n)
    tx, rx = cd.tx, cd.rx
    if code in ('manchester', 'differential_manchester'):
        c = getattr(tx, 'coding_' + code)(bits)
        con = cd.ConstellationEnum.NRZ
        m = np.size(c)
        sig = tx.mapping(np.reshape(c, -1), con) + h.reals('d', m, -0.999999, 0.999999)
        r = rx.demapping(rx.slicer(sig, np.array([-1.0, 1.0])), con)
        out = getattr(rx, 'decoding_' + code)(np.reshape(r, np.shape(c)))
    else:
        c = getattr(tx, 'coding_' + code)(bits)
        con = cd.ConstellationEnum.PAM3
        sig = tx.mapping(c, con) + h.reals('d', n, -0.499999, 0.499999)
        r = rx.demapping(rx.slicer(sig, np.array([-1.0, 0.0, 1.0])), con)
        out = getattr(rx, 'decoding_' + code)(r)
    h.eq(np.reshape(out, -1), bits, 'the transmitted bits are delivered')


NO = {}
BO = dict(bit_order_inv=True)
PN = dict(pn_inv=True)
ALL = dict(bit_order_inv=True, inv_msb=True, inv_lsb=False, pn_inv=True)
LSB = dict(inv_lsb=True)


def cases(tier):
    th = tier == 'thorough'
    cs = []

    def add(n, con, gray, diff, fs, inv, flags, fl):
        cs.append(case('direct-%s-n%d-%s%s%s%s-%s' % (con, n, 'FT'[gray], 'FT'[diff], 'FT'[fs], 'FT'[inv], fl), 'direct', n=n, con=con, gray=gray, diff=diff, fs=fs, inv=inv, flags=flags))
    B = (False, True)
    for con in ('OOK', 'NRZ', 'PAM4'):
        for gray in B:
            for diff in B:
                for fs in B:
                    for inv in B:
                        add(4 if con != 'PAM4' else 3, con, gray, diff, fs, inv, NO, 'no')
        for fl, nm in ((BO, 'bo'), (PN, 'pn'), (ALL, 'all'), (LSB, 'lsb')):
            add(4 if con != 'PAM4' else 3, con, True, True, True, False, fl, nm)
            add(3, con, False, False, False, True, fl, nm)
        for m in range(16):
            fl = {k: True for i, k in enumerate(('bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv')) if m >> i & 1}
            add(3 if con != 'PAM4' else 2, con, bool(m % 2), bool(m // 4 % 2), bool(m // 2 % 2), bool(m // 8), fl, 'flags%d' % m)
        add(12 if con != 'PAM4' else 8, con, con == 'PAM4', False, False, False, NO, 'no')
        add(6, con, True, con != 'PAM4', True, True, BO, 'bo')
        for n in (14, 40) + ((60, 300) if th else ()):
            for low in B:
                for gray, diff, fs, inv, fl in ((False, False, False, False, NO), (False, True, False, False, NO), (True, True, True, True, BO), (True, False, False, True, ALL)):
                    cs.append(case('long-%s-n%d-low%s-%s%s%s%s' % (con, n, 'FT'[low], 'FT'[gray], 'FT'[diff], 'FT'[fs], 'FT'[inv]), 'long', n=n, con=con, gray=gray, diff=diff, fs=fs, inv=inv, flags=fl, low=low, spots=[1, n // 2, n - 1]))
    for con, n, pulse, beta, osr, span, chunks in [('PAM4', 3, 'rcos', 0.5, 4, 2, 0), ('NRZ', 4, 'rcos', 1.0, 2, 3, 0), ('OOK', 4, 'sinc', None, 4, 2, 0), ('PAM4', 4, 'sinc', None, 2, 4, 2), ('NRZ', 5, 'rect', None, 4, 1, 0), ('PAM4', 3, 'imp', None, 3, 1, 0), ('PAM4', 4, 'rcos', 0.25, 8, 3, 1), ('OOK', 3, 'rcos', 0.0, 2, 2, 2), ('NRZ', 4, 'rect', None, 8, 2, 3)]:
        for gray, diff, fs, inv, fl in ((False, False, False, False, NO), (True, True, True, True, BO)):
            cs.append(case('shaped-%s-n%d-%s%s-o%d-s%d-c%d-%s' % (con, n, pulse, beta, osr, span, chunks, 'FT'[gray]), 'shaped', n=n, con=con, gray=gray, diff=diff, fs=fs, inv=inv, flags=fl, pulse=pulse, beta=beta, osr=osr, span=span, chunks=chunks))
    for code in ('manchester', 'differential_manchester', 'bipolar', 'mlt3'):
        for n in (1, 4, 6):
            cs.append(case('line-%s-%d' % (code, n), 'line', n=n, code=code))
    return cs
