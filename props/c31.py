"""C31 no function modifies what it is given; repeated calls agree"""
from .common import case
from .convref import load
from .c27 import reference, _args

BOUNDS = 'every exported function and filter object, each argument array all-symbolic within its domain at 3 to 24 entries (taps, polynomials, code matrices at fixed values), integer and floating-point inputs, vectors and matrices, memory arguments included; compared across two freshly loaded copies of the package: A in one, and B, A, A in the other'
OUTSIDE = 'longer inputs; random functions are checked for modification only'

TY = {'int': int, 'float': float}


def _flat(h, r):
    if isinstance(r, dict):
        r = list(r.values())
    if isinstance(r, (tuple, list)):
        out = []
        for x in r:
            out += _flat(h, x)
        return out
    return [r]


def _walk(args, kw):
    for i, a in enumerate(args):
        yield 'argument %d' % i, a
    for k, a in kw.items():
        yield k, a


def _arrays(h, args, kw):
    out = []
    for nm, a in _walk(args, kw):
        for x in _flat(h, a):
            if hasattr(x, 'shape') and hasattr(x, 'dtype') and x.shape != ():
                out.append((nm, x))
    return out


def _lists(args, kw):
    """plain lists and dictionaries among the arguments"""
    out, todo = [], list(_walk(args, kw))
    while todo:
        nm, a = todo.pop()
        if isinstance(a, dict):
            out.append((nm, a, list(a.items())))
            todo += [(nm, v) for v in a.values()]
        elif isinstance(a, list):
            out.append((nm, a, list(a)))
            todo += [(nm, v) for v in a]
    return out


def _call(h, fn, args, kw, raw=None):
    arrs = _arrays(h, args, kw)
    lists = _lists(args, kw)
    keep = [h.snapshot(a) for _, a in arrs]
    r = fn(*args, **kw)
    if raw is not None:
        raw += _flat(h, r)
    for nm, a, k in lists:
        now = list(a.items()) if isinstance(a, dict) else list(a)
        h.check(len(now) == len(k), '%s keeps its length' % nm)
        for x, y in zip(now, k):
            if isinstance(a, dict):
                h.check(x[0] == y[0] and x[1] is y[1], '%s keeps its entries' % nm)
            elif isinstance(y, (int, float)):
                h.check(x == y, '%s keeps its entries' % nm)
            else:
                h.check(x is y, '%s keeps its entries' % nm)
    for (nm, a), k in zip(arrs, keep):
        h.eq(a, k, '%s is unchanged by the call' % nm)
        h.check(str(a.dtype) == str(k.dtype), '%s keeps its type' % nm)
    return [h.snapshot(x) if hasattr(x, 'shape') else x for x in _flat(h, r)]


def _same(h, a, b):
    h.check(len(a) == len(b), 'a repeated call returns as many results')
    for x, y in zip(a, b):
        if x is None or y is None:
            h.check(x is None and y is None, 'a repeated call returns the same')
        elif isinstance(x, (bool, str)) or callable(x):
            pass
        else:
            h.eq(y, x, 'a repeated call returns the same')


def pure(h, which, rand=False, q=None, solo=False, spoil=False, **p):
    """A in a fresh interpreter state; then, in another, B, A, A: nothing given is modified and A is always the same"""
    fn, mk = REG[which](h, **p)
    r = _call(h, fn, *mk('a'))
    h.fresh()
    if not solo:
        fb, mkb = REG[which](h, **dict(p, **(q or {})))
        _call(h, fb, *mkb('b'))
    fn, mk = REG[which](h, **p)
    A = mk('a')
    r2 = _call(h, fn, *A)
    r3 = _call(h, fn, *A)
    if not rand:
        _same(h, r, r2)
        _same(h, r, r3)
        if spoil:
            raw = []
            _call(h, fn, *mk('a'), raw=raw)
            for x in raw:
                if hasattr(x, 'shape') and x.shape != ():
                    try:
                        x[...] = x + 1
                    except (ValueError, TypeError):
                        pass
            _same(h, r, _call(h, fn, *mk('a')))


def objects(h, kind, n):
    """filter objects: neither the taps nor the chunks given to them change; two objects do not interact"""
    m = h.module('CommDspy.misc.help_classes')
    np = h.np
    b, a = np.array([0.5, 0.25, -0.125]), np.array([1.0, -0.25, 0.5])
    lv = np.array([-1.0, 1.0])

    def mk(tag):
        if kind == 'filter':
            zf, zi = h.reals(tag + 'f', 3, -1, 1), h.reals(tag + 'i', 2, -1, 1)
            return (m.Filter, (b, a), dict(z_fir=zf, z_iir=zi))
        if kind == 'tii':
            return (m.FilterTII, (b, a), dict(z=h.reals(tag + 'z', 2, -1, 1)))
        if kind == 'tii0':
            return (m.FilterTII, (b, a), {})
        return (m.FfeDfeFilterTII, (b, np.array([0.25, -0.125]), lv), dict(z=h.reals(tag + 'z', 2, -1, 1)))
    ca, aa, ka = mk('p')
    cb, ab, kb = mk('q')
    x, y = h.reals('x', n, -3000, 3000), h.reals('y', n, -3000, 3000)
    arrs = _arrays(h, aa, ka) + _arrays(h, ab, kb) + [('data', x), ('data', y)]
    keep = [h.snapshot(v) for _, v in arrs]
    o1, o2 = ca(*aa, **ka), cb(*ab, **kb)
    r1 = h.snapshot(o1(x))
    o2(y)
    r1b = h.snapshot(o1(y))
    for (nm, v), k in zip(arrs, keep):
        h.eq(v, k, '%s is unchanged' % nm)
    o3 = ca(*aa, **ka)
    h.eq(o3(x), r1, 'the same object on the same data gives the same')
    h.eq(o3(y), r1b, 'the same object on the same data gives the same')


def iterators(h, n):
    """PRBS iterators: the polynomial and the seed given stay as they are; two iterators do not interact"""
    poly = h.bits('p', 5)
    s1, s2 = h.bits('a', 5), h.bits('b', 5)
    keep = [h.snapshot(v) for v in (poly, s1, s2)]
    i1, i2 = h.cd.tx.PrbsIterator(poly, s1), h.cd.tx.PrbsIterator(poly, s2)
    r1, kept = [], []
    for k in range(n):
        r1.append(next(i1))
        next(i2)
        kept.append((i1.get_seed(), h.snapshot(i1.get_seed()), i1.get_prev_seed(), h.snapshot(i1.get_prev_seed())))
    for v, k in zip((poly, s1, s2), keep):
        h.eq(v, k, 'polynomial and seeds are unchanged')
    for a, b, c, d in kept:
        h.eq(a, b, 'a seed handed out stays as it was')
        h.eq(c, d, 'a seed handed out stays as it was')
    i3 = h.cd.tx.PrbsIterator(poly, s1)
    for k in range(n):
        h.eq(next(i3), r1[k], 'the same iterator gives the same bits')


# ---------------------------------------------------------------- builders
REG = {}


def reg(f):
    REG[f.__name__] = f
    return f


def _shape(h, x, shape):
    return h.np.reshape(x, shape)


@reg
def bin2symbol(h, n, m, flags, ty):
    return h.cd.tx.bin2symbol, lambda t: ((h.bits(t, (n, m) if n else m, dtype=TY[ty]), 2 ** 2), flags)


@reg
def symbol2bin(h, n, flags, ty):
    return h.cd.rx.symbol2bin, lambda t: ((h.ints(t, n, 0, 3, dtype=TY[ty]), 4), flags)


@reg
def coding(h, code, con, shape, lo, hi, ty, side):
    f = getattr(getattr(h.cd, side), ('coding_' if side == 'tx' else 'decoding_') + code)

    def mk(t):
        a = h.ints(t, shape, lo, hi, dtype=TY[ty])
        return ((a, getattr(h.cd.ConstellationEnum, con)) if con else (a,)), {}
    return f, mk


@reg
def decbip(h, n, ed):
    return h.cd.rx.decoding_bipolar, lambda t: ((h.ints(t, n, 0, 2),), dict(error_detection=ed))


G74 = [[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]]
G42 = [[1, 0, 1, 1], [0, 1, 0, 1]]


@reg
def codlin(h, n, g):
    return h.cd.tx.coding_linear, lambda t: ((h.bits(t, n), h.np.array(G74 if g == 7 else G42)), {})


@reg
def declin(h, n, soft, g):
    def mk(t):
        x = h.bits(t, n)
        return (x, h.np.array(G74 if g == 7 else G42)), dict(error_prob=soft)
    return h.cd.rx.decoding_linear, mk


def _conv(h, fb):
    G, kw = load(h, 'rsc2' if fb else '57')[:2]
    return G, kw


@reg
def codconv(h, n, fb):
    def mk(t):
        G, kw = _conv(h, fb)
        return (h.bits(t, n), G), kw
    return h.cd.tx.coding_conv, mk


@reg
def decconv(h, n, fb, soft, alg, tb):
    def mk(t):
        G, kw = _conv(h, fb)
        x = h.bits(t, n)
        return (x, G, tb), dict(kw, error_prob=soft)
    return getattr(h.cd.rx, 'decoding_conv_' + alg), mk


@reg
def mapping(h, con, shape, fs, inv, lv, ty):
    def mk(t):
        q = {'OOK': 1, 'NRZ': 1, 'PAM3': 2, 'PAM4': 3}[con]
        kw = dict(full_scale=fs, pn_inv=inv)
        if lv:
            kw['levels'] = h.reals(t + 'l', q + 1, -3, 3)
        return (h.ints(t, shape, 0, q, dtype=TY[ty]), getattr(h.cd.ConstellationEnum, con)), kw
    return h.cd.tx.mapping, mk


@reg
def demapping(h, con, shape, fs, inv):
    def mk(t):
        cn = getattr(h.cd.ConstellationEnum, con)
        lv = {'OOK': [0.0, 1.0], 'NRZ': [-1.0, 1.0], 'PAM3': [-1.0, 0.0, 1.0], 'PAM4': [-3.0, -1.0, 1.0, 3.0]}[con]
        if fs:
            k = {'OOK': 2 ** 0.5, 'NRZ': 1.0, 'PAM4': 5 ** -0.5}[con]
            lv = [v * k for v in lv]
        if inv:
            lv = [-v for v in lv]
        return (h.choice(t, shape, lv), cn), dict(full_scale=fs, pn_inv=inv)
    return h.cd.rx.demapping, mk


@reg
def slicer(h, shape, ty, lv=None):
    def mk(t):
        x = h.reals(t, shape, -3000, 3000) if ty == 'f' else h.ints(t, shape, -4, 4)
        return (x, h.np.array(lv or [-3.0, -1.0, 1.0, 3.0]) if ty == 'f' else h.np.array([-3, -1, 1, 3])), {}
    return h.cd.rx.slicer, mk


@reg
def quantize(h, shape, tb, fb, typ):
    return h.cd.rx.quantize, lambda t: ((h.reals(t, shape, -3000, 3000), tb), dict(frac_bits=fb, fix_point_type=typ))


@reg
def prbs(h, n, poly=(0, 0, 1, 1)):
    return h.cd.tx.prbs_gen, lambda t: ((h.np.array(poly), h.bits(t, 4), n), {})


@reg
def checker(h, n, lock):
    def mk(t):
        return (h.cd.PrbsEnum.PRBS7, h.bits(t, n), lock), dict(loss_th=3)
    return h.cd.rx.prbs_checker, mk


@reg
def checkeconomy(h, n):
    return h.cd.rx.prbs_checker_econ, lambda t: ((h.cd.PrbsEnum.PRBS7, h.bits(t, n)), dict(loss_th=3))


@reg
def checkerseq(h, n, lock):
    def mk(t):
        return (h.cd.PrbsEnum.PRBS7, h.bits(t, n), lock), dict(loss_th=3, prbs_seq=h.np.array([(k * k // 3) % 2 for k in range(127)]))
    return h.cd.rx.prbs_checker, mk


@reg
def lock(h, n, m, binary):
    f = h.cd.rx.lock_pattern_to_signal_binary if binary else h.cd.rx.lock_pattern_to_signal

    def mk(t):
        pat = h.bits(t + 'p', n) if binary else h.np.array([1.0, -1.0, 3.0, 1.0, -3.0][:n])
        return (pat, h.bits(t, m) if binary else h.reals(t, m, -3000, 3000)), {}
    return f, mk


@reg
def aux(h, what, n, ty='f', a=(), k=None):
    def mk(t):
        x = h.reals(t, n, -3000, 3000) if ty == 'f' else (h.bits(t, n) if ty == 'b' else h.ints(t, n, 0, 7))
        return (x,) + tuple(a), dict(k or {})
    return getattr(h.cd, what), mk


@reg
def zoh(h, n, hold):
    return h.cd.zoh, lambda t: ((h.reals(t, n, -3000, 3000), hold), {})


@reg
def ham(h, n, k):
    return h.cd.hamming, lambda t: ((h.bits(t, (n, 3)), h.bits(t + 'c', (k, 3))), {})


@reg
def pulse(h, n, pulse, osr, span, z, beta=0.5):
    def mk(t):
        kw = dict(osr=osr, span=span, pulse=pulse, beta=beta)
        if z:
            kw['zi'] = h.reals(t + 'z', z, -1, 1)
        return (h.reals(t, n, -3000, 3000),), kw
    return h.cd.channel.pulse_shape, mk


@reg
def pulse_t(h, shape, beta):
    def mk(t):
        return (4, 2) + (() if beta is None else (beta,)), dict(t=h.np.array([-1.0, -0.5, 0.0, 0.25, 1.5]))
    return getattr(h.cd.channel, shape), mk


@reg
def awgn(h, n, snr):
    return h.cd.channel.awgn, lambda t: ((h.np.array([1.0, -1.0, 0.5, 0.25, -1.0, 2.0, 0.0][:n]), snr), {})


@reg
def awgnch(h, n, snr, z, fir):
    def mk(t):
        b, a = h.np.array([1.0, 0.5, -0.25]), h.np.array([1.0] if fir else [1.0, 0.25, 0.125])
        kw = dict(snr=snr)
        if z:
            kw['zi'] = h.reals(t + 'z', 2, -1, 1)
        x = h.reals(t, n, -3000, 3000) if snr is None else h.np.array([1.0, -1.0, 0.5, 0.25, -1.0, 2.0, 0.0][:n])
        return (x, b, a), kw
    return h.cd.channel.awgn_channel, mk


@reg
def ctle(h, n, z, aslist=False):
    def mk(t):
        if aslist:
            return (h.reals(t, n, -3000, 3000), [3e9, -1e9], [5e9, 2e9, -4e9], -4.0, 1e9, 8), dict(zi=h.reals(t + 'z', 3, -1, 1)) if z else {}
        kw = dict(zi=h.reals(t + 'z', 2, -1, 1)) if z else {}
        return (h.reals(t, n, -3000, 3000), h.np.array([1e9]), h.np.array([2e9, 4e9]), -4.0, 1e9, 8), kw
    return h.cd.rx.ctle, mk


@reg
def ctlef(h, zero=1e9, g=-4.0, osr=8, aslist=False):
    if aslist:
        return h.cd.rx.get_ctle_filter, lambda t: (([3e9, zero, -2e9], [5e9, -2e9, 4e9], g, 1e9, osr), {})
    return h.cd.rx.get_ctle_filter, lambda t: ((h.np.array([zero]), h.np.array([2e9, 4e9, 5e9]), g, 1e9, osr), {})


@reg
def ffedfe(h, n, f, d, z, lv):
    def mk(t):
        np = h.np
        kw = {}
        if f:
            kw['ffe_taps'] = np.array([1.0, 0.25, -0.125, 0.5, 0.125][:f])
        if d:
            kw['dfe_taps'] = np.array([0.25, -0.125, 0.0625, 0.5][:d])
            kw['levels'] = np.array([-1.0, 1.0] if lv == 2 else [-3.0, -1.0, 1.0, 3.0])
        if z and f > 1:
            kw['zi_ffe'] = h.reals(t + 'zf', f - 1, -1, 1)
        if z and d:
            kw['zi_dfe'] = h.choice(t + 'zd', d, [-1.0, 1.0])
        return (h.reals(t, n, -3000, 3000),), kw
    return h.cd.rx.ffe_dfe, mk


@reg
def lms(h, n, f, d, ref, soft):
    fn = h.cd.rx.soft_ddlms_grad if soft else h.cd.rx.ddlms_grad

    def mk(t):
        np = h.np
        k = n + (len(f) - 1 if f else 0)
        kw = dict(ffe_tap_idx=np.array(f), dfe_tap_idx=np.array(d))
        if soft:
            out = np.array([0.5, -1.25, 0.75, -0.25, 1.5][:n])
        else:
            out = h.reals(t + 'o', n, -3000, 3000)
        if ref:
            kw['reference_vec'] = h.choice(t + 'r', n, [-1.0, 1.0])
        return (h.reals(t, n, -3000, 3000), out, np.array([-1.0, 1.0])), kw
    return fn, mk


@reg
def mm(h, n):
    def mk(t):
        # every step moves the phase, so the decision on it stays away from the tolerance
        return (h.choice(t, n, [-1.0, 0.5, 1.0]), h.choice(t + 'r', n, [-1.0, 1.0])), {}
    return h.cd.rx.mueller_muller_step, mk


@reg
def oversample(h, n, osr, order, method):
    return h.cd.digital_oversample, lambda t: ((h.reals(t, n, -3000, 3000), osr, order, method), {})


@reg
def eye(h, n, osr=(2, 4), log=False):
    def mk(t):
        v = h.choice(t, n, [-1.0, 0.0, 0.5, 1.0, -3.0, 5e6])
        return (v,) + tuple(osr), dict(quantization=4, logscale=log)
    return h.cd.eye_diagram, mk


@reg
def chest(h, order, norm, fl):
    def mk(t):
        per = 2 ** order - 1
        r = reference(order, 'NRZ', *([fl] * 5))
        d = h.reals(t, 3, -0.125, 0.125)
        s = [r[(k + 9) % per] + 0.25 * r[(k + 8) % per] + (d[k] if k < 3 else 0 * d[0]) for k in range(per)]
        cn, kw, gr, po = _args(h, 'NRZ', [fl] * 5)
        return (getattr(h.cd.PrbsEnum, 'PRBS%d' % order), h.np.stack(s), cn), dict(kw, channel_postcursor=1, channel_precursor=1, normalize=norm, gray_coding=gr, pn_inv_postcoding=po)
    return h.cd.channel_estimation_prbs, mk


@reg
def eqest(h, n, norm, lam):
    def mk(t):
        sig = [((k * k * 5 + k * 7) % 13 - 6) / 4 for k in range(n)]
        f = [0.25, 1.5, -0.25]
        d = h.reals(t, 3, -0.1, 0.1)
        ref = [sum(f[k] * sig[i + 2 - k] for k in range(3) if 0 <= i + 2 - k < n) + (d[i] if i < 3 else 0 * d[0]) + 0.125 * (i % 3 - 1) for i in range(n)]
        kw = dict(regularization='ridge', reg_lambda=lam) if lam else {}
        return (h.np.stack(ref), h.np.array(sig)), dict(kw, ffe_postcursor=1, ffe_precursor=1, dfe_taps=0, normalize=norm)
    return h.cd.equalization_estimation, mk


@reg
def psa(h, n, mode, sb, rbw, win, cplx=False):
    def mk(t):
        x = h.reals(t, n, -3000, 3000, hint=[1.0, -0.5, 0.25, 2.0, -1.5, 0.75, 1.25, -2.0, 0.5, 1.5, -1.0, 0.125])
        if mode == 'dBc':
            h.assume(x[0] >= 0.5)
        return (x, 8.0), dict(rbw=rbw, mode=mode, window=win, osr=1, sb_mode=sb)
    return h.module('CommDspy.psa').psa, mk


@reg
def jit(h, n, pulse, z):
    def mk(t):
        kw = dict(osr=2, span=2, pulse=pulse, beta=0.5, rj_sigma=0.05)
        if z:
            kw['zi'] = h.reals(t + 'z', z, -1, 1)
        return (h.choice(t, n, [-1.0, 1.0, 3.0]),), kw
    return h.cd.channel.pulse_shape, mk


@reg
def levels(h, con, fs):
    return h.cd.get_levels, lambda t: ((getattr(h.cd.ConstellationEnum, con),), dict(full_scale=fs))


@reg
def bin2uint(h, shape):
    return h.cd.bin2uint, lambda t: ((h.bits(t, shape),), {})


@reg
def uint2bin(h, shape, n):
    return h.cd.uint2bin, lambda t: ((h.ints(t, shape, 0, 2 ** n - 1), n), {})


@reg
def const(h, what, args):
    """no input: the values handed out depend on the arguments alone"""
    obj = h.cd
    for part in what.split('.'):
        obj = getattr(obj, part)

    def mk(t):
        if isinstance(args, str):
            return (getattr(h.cd.PrbsEnum if args.startswith('PRBS') else h.cd.ConstellationEnum, args),), {}
        return tuple(args), {}
    return obj, mk


def cases(tier):
    th = tier == 'thorough'
    cs = []

    def add(which, **kw):
        nm = which + '-' + '-'.join(str(v).replace(' ', '').replace("'", '') for v in kw.values())
        cs.append(case(nm, 'pure', which=which, spoil='q' not in kw and not kw.get('solo'), **kw))
    big = 2 if th else 1
    FL = [('no', {}), ('all', dict(bit_order_inv=True, inv_msb=True, inv_lsb=True, pn_inv=True)), ('bo', dict(bit_order_inv=True)), ('pn', dict(pn_inv=True)), ('msb', dict(inv_msb=True)), ('lsb', dict(inv_lsb=True))]
    for _, fl in FL:
        for ty in ('int', 'float'):
            cs.append(case('bin2symbol-%s-%s' % (_, ty), 'pure', which='bin2symbol', n=0, m=6 * big, flags=fl, ty=ty, q=dict(flags=FL[1][1] if ty == 'int' else FL[0][1])))
        cs.append(case('symbol2bin-%s' % _, 'pure', which='symbol2bin', n=4 * big, flags=fl, ty='int', q=dict(flags=FL[1][1] if fl != FL[1][1] else FL[0][1])))
        cs.append(case('bin2symbol-%s-mat' % _, 'pure', which='bin2symbol', n=3, m=2, flags=fl, ty='int'))
    for side in ('tx', 'rx'):
        for ty in ('int', 'float'):
            for con, hi in (('OOK', 1), ('NRZ', 1), ('PAM4', 3)):
                for code in ('gray', 'differential'):
                    if ty == 'float' and code == 'gray':
                        continue
                    for shape in (4 * big, (2, 3)):
                        cs.append(case('%s-%s-%s-%s-%s' % (side, code, con, shape if isinstance(shape, int) else 'mat', ty), 'pure', which='coding', code=code, con=con, shape=shape, lo=0, hi=hi, ty=ty, side=side, q=(dict(con='PAM4', hi=3) if con != 'PAM4' else dict(con='NRZ', hi=1)) if con and ty == 'int' else None))
            for code in ('manchester', 'bipolar', 'mlt3', 'differential_manchester'):
                hi = 1 if side == 'tx' or 'manchester' in code else 2
                for shape in (4 * big, (2, 4)):
                    if ty == 'float' and 'manchester' in code:
                        continue
                    cs.append(case('%s-%s-%s-%s' % (side, code, shape if isinstance(shape, int) else 'mat', ty), 'pure', which='coding', code=code, con=None, shape=shape, lo=0, hi=hi, ty=ty, side=side))
    add('decbip', n=4, ed=True, solo=True)
    for g in (7, 4):
        k, n = (4, 7) if g == 7 else (2, 4)
        add('codlin', n=2 * k, g=g)
        add('declin', n=n, soft=False, g=g)
    add('declin', n=4, soft=True, g=4)
    for fb in (False, True):
        add('codconv', n=4 * big, fb=fb)
        for soft in (False, True):
            add('decconv', n=6, fb=fb, soft=soft, alg='ml', tb=3)
            add('decconv', n=6, fb=fb, soft=soft, alg='viterbi', tb=3)
    for con in ('OOK', 'NRZ', 'PAM4'):
        for fs in (False, True):
            for inv in (False, True):
                for shape in (3, (2, 2)):
                    for ty in ('int',):
                        cs.append(case('mapping-%s-%s%s-%s-%s' % (con, 'FT'[fs], 'FT'[inv], shape if isinstance(shape, int) else 'mat', ty), 'pure', which='mapping', con=con, shape=shape, fs=fs, inv=inv, lv=False, ty=ty, q=[dict(fs=not fs), dict(inv=not inv), None][(shape == 3) + (con == 'PAM4')]))
                    if True:
                        cs.append(case('demapping-%s-%s%s-%s' % (con, 'FT'[fs], 'FT'[inv], shape if isinstance(shape, int) else 'mat'), 'pure', which='demapping', con=con, shape=shape, fs=fs, inv=inv, q=dict(fs=True, inv=not inv) if con != 'PAM4' or shape == 3 else None))
        for fs in (False, True):
            add('levels', con=con, fs=fs)
            add('levels', con=con, fs=fs, q=dict(fs=not fs))
            add('levels', con=con, fs=fs, q=dict(con='PAM3'))
    add('mapping', con='PAM4', shape=3, fs=False, inv=True, lv=True, ty='int')
    add('mapping', con='NRZ', shape=3, fs=True, inv=False, lv=True, ty='int')
    for ty in 'fi':
        add('slicer', shape=3 * big, ty=ty)
        cs.append(case('slicer-mat-' + ty, 'pure', which='slicer', shape=(2, 2), ty=ty))
    add('slicer', shape=3, ty='f', q=dict(lv=[-1.0, 1.0]))
    add('quantize', shape=2, tb=3, fb=1, typ='s', q=dict(typ='u'))
    add('quantize', shape=2, tb=3, fb=0, typ='ss', q=dict(fb=-1))
    add('quantize', shape=2, tb=3, fb=0, typ='u', q=dict(tb=2))
    for tb, fb, typ in ((3, 0, 'u'), (4, 1, 's'), (3, 2, 's'), (3, 0, 'ss'), (4, 0, 'ss'), (5, 3, 'ss'), (5, 2, 's'), (5, 4, 'u'), (2, -1, 's')):
        add('quantize', shape=3 * big, tb=tb, fb=fb, typ=typ)
    cs.append(case('quantize-mat', 'pure', which='quantize', shape=(2, 2), tb=3, fb=1, typ='ss'))
    cs.append(case('quantize-mat-u', 'pure', which='quantize', shape=(1, 2), tb=4, fb=1, typ='u'))
    cs.append(case('iterators', 'iterators', n=12))
    for mode in ('dB', 'dBm', 'dBc', 'dBuv'):
        add('psa', n=8, mode=mode, sb='DSB', rbw=4.0, win='hann', solo=mode != 'dB')
    add('psa', n=8, mode='dB', sb='SSB', rbw=4.0, win='boxcar', q=dict(sb='DSB'))
    add('psa', n=8, mode='dBm/Hz', sb='DSB', rbw=None, win='boxcar', q=dict(mode='dB'))
    cs.append(case('jitter', 'pure', which='jit', n=3, pulse='rcos', z=0, rand=True))
    cs.append(case('jitter-mem', 'pure', which='jit', n=3, pulse='sinc', z=7, rand=True))
    # longer arguments
    for side in ('tx', 'rx'):
        for code, con, hi in (('differential', 'PAM3', 2), ('differential', 'NRZ', 1), ('gray', 'PAM4', 3), ('manchester', None, 1), ('bipolar', None, 1 if side == 'tx' else 2), ('mlt3', None, 1 if side == 'tx' else 2), ('differential_manchester', None, 1)):
            n = 6 if con == 'PAM3' and side == 'tx' else 24
            cs.append(case('%s-%s-%s-long' % (side, code, con), 'pure', which='coding', code=code, con=con, shape=n, lo=0, hi=hi, ty='int', side=side, solo=True))
    for con in ('PAM3', 'PAM4', 'NRZ'):
        for inv in (False, True):
            cs.append(case('mapping-long-%s-%s' % (con, inv), 'pure', which='mapping', con=con, shape=24, fs=False, inv=inv, lv=False, ty='int', solo=True))
            cs.append(case('demapping-long-%s-%s' % (con, inv), 'pure', which='demapping', con=con, shape=24, fs=False, inv=inv, solo=True))
            cs.append(case('mapping-3d-%s-%s' % (con, inv), 'pure', which='mapping', con=con, shape=(2, 2, 2), fs=False, inv=inv, lv=False, ty='int', solo=True))
    cs.append(case('bin2symbol-long', 'pure', which='bin2symbol', n=0, m=24, flags=FL[1][1], ty='int', solo=True))
    cs.append(case('symbol2bin-long', 'pure', which='symbol2bin', n=16, flags=FL[1][1], ty='int', solo=True))
    cs.append(case('slicer-long', 'pure', which='slicer', shape=12, ty='f', solo=True))
    cs.append(case('ctle-long', 'pure', which='ctle', n=16, z=True, solo=True))
    cs.append(case('ffe-long', 'pure', which='ffedfe', n=20, f=5, d=0, z=True, lv=2, solo=True))
    cs.append(case('buffer-long', 'pure', which='aux', what='buffer', n=24, a=(8, 5), k=dict(delay=3, clip=True), solo=True))
    cs.append(case('oversample-long', 'pure', which='oversample', n=16, osr=4, order=5, method='lagrange', solo=True))
    cs.append(case('pulse_shape-long', 'pure', which='pulse', n=16, pulse='rcos', osr=4, span=4, z=0, solo=True))
    cs.append(case('codconv-long', 'pure', which='codconv', n=24, fb=True, solo=True))
    cs.append(case('codlin-long', 'pure', which='codlin', n=24, g=7, solo=True))
    cs.append(case('lms-long', 'pure', which='lms', n=10, f=[-1, 0, 1], d=[1, 2], ref=True, soft=False, solo=True))
    add('prbs', n=9 * big)
    add('prbs', n=9, q=dict(poly=(1, 0, 0, 1)))
    add('prbs', n=20, q=dict(n=3))
    add('prbs', n=3, q=dict(n=20))
    add('checker', n=8, lock=False, solo=True)
    add('checker', n=10, lock=True)
    add('checkerseq', n=10, lock=True)
    add('checkeconomy', n=12)
    add('lock', n=3, m=7, binary=True)
    add('lock', n=3, m=6, binary=False)
    for args in [dict(what='power', n=4), dict(what='rms', n=4), dict(what='upsample', n=4, a=(3,)), dict(what='buffer', n=7, a=(3,)), dict(what='buffer', n=7, a=(3, 1)), dict(what='buffer', n=7, a=(3, 1), k=dict(delay=2, clip=True)), dict(what='buffer', n=6, ty='i', a=(4, 2), k=dict(delay=1))]:
        add('aux', **args)
    cs.append(case('bin2uint', 'pure', which='bin2uint', shape=(2, 3), q=dict(shape=4)))
    cs.append(case('uint2bin', 'pure', which='uint2bin', shape=(3,), n=3, q=dict(n=2)))
    add('zoh', n=4, hold=3)
    add('ham', n=2, k=3)
    for p, osr, span, z in [('rect', 3, 1, 0), ('rcos', 2, 2, 0), ('sinc', 2, 2, 0), ('rrc', 2, 2, 0), ('imp', 3, 1, 0), ('rcos', 2, 2, 7), ('sinc', 2, 1, 3)]:
        cs.append(case('pulse_shape-%s-%d-%d-%d' % (p, osr, span, z), 'pure', which='pulse', n=3, pulse=p, osr=osr, span=span, z=z))
        if not z and p != 'imp':
            cs.append(case('pulse_shape-%s-%d-%d-other' % (p, osr, span), 'pure', which='pulse', n=3, pulse=p, osr=osr, span=span, z=0, q=dict(osr=osr + 1)))
            cs.append(case('pulse_shape-%s-%d-%d-span' % (p, osr, span), 'pure', which='pulse', n=3, pulse=p, osr=osr, span=span, z=0, q=dict(span=span + 1)))
            cs.append(case('pulse_shape-%s-%d-%d-beta' % (p, osr, span), 'pure', which='pulse', n=3, pulse=p, osr=osr, span=span, z=0, q=dict(beta=0.25)))
            cs.append(case('pulse_shape-%s-%d-%d-kind' % (p, osr, span), 'pure', which='pulse', n=3, pulse=p, osr=osr, span=span, z=0, q=dict(pulse='rrc' if p != 'rrc' else 'rcos')))
    for fn, beta in (('rect_pulse', None), ('sinc_pulse', None), ('rcos_pulse', 0.5), ('rrc_pulse', 0.5), ('rcos_pulse', 0.0)):
        cs.append(case('%s-%s' % (fn, beta), 'pure', which='pulse_t', shape=fn, beta=beta))
    for snr in (20, None):
        cs.append(case('awgn_channel-%s' % snr, 'pure', which='awgnch', n=4, snr=snr, z=True, fir=False, rand=snr is not None))
        cs.append(case('awgn_channel-fir-%s' % snr, 'pure', which='awgnch', n=4, snr=snr, z=False, fir=True, rand=snr is not None))
    cs.append(case('awgn', 'pure', which='awgn', n=4, snr=10, rand=True))
    add('ctle', n=4, z=False)
    add('ctlef')
    add('ctlef', aslist=True)
    add('ctle', n=3, z=True, aslist=True)
    add('ctle', n=3, z=False, aslist=True)
    for q in (dict(zero=2e9), dict(g=0.0), dict(osr=4)):
        add('ctlef', q=q)
    for f, d, z, lv in [(0, 0, False, 2), (3, 0, False, 2), (3, 0, True, 2), (2, 1, True, 2), (3, 2, True, 4), (1, 2, False, 4), (1, 3, True, 2), (3, 4, True, 2), (5, 0, True, 2)]:
        add('ffedfe', n=4, f=f, d=d, z=z, lv=lv)
    for f, d in (([-1, 0, 1], []), ([0], [1, 2]), ([], [1])):
        for ref in (False, True):
            add('lms', n=4, f=f, d=d, ref=ref, soft=False)
        add('lms', n=4, f=f, d=d, ref=True, soft=True)
        add('lms', n=4, f=f, d=d, ref=False, soft=True)
    add('mm', n=4)
    for osr, order, method in [(2, 2, 'lagrange'), (3, 3, 'lagrange'), (2, 2, 'sinc'), (2, 2, 'rcos'), (1, 2, 'lagrange')]:
        add('oversample', n=5, osr=osr, order=order, method=method)
    for q in (dict(order=3), dict(osr=3), dict(method='sinc')):
        add('oversample', n=6, osr=2, order=2, method='lagrange', q=q)
    add('oversample', n=6, osr=2, order=2, method='sinc', q=dict(method='rcos'))
    add('codlin', n=4, g=4, q=dict(n=8, g=7))
    add('declin', n=4, soft=True, g=4, q=dict(soft=False))
    add('codconv', n=4, fb=False, q=dict(fb=True))
    add('codconv', n=4, fb=True, q=dict(fb=False))
    add('decconv', n=4, fb=True, soft=True, alg='viterbi', tb=4, q=dict(fb=False))
    add('decconv', n=4, fb=False, soft=True, alg='ml', tb=4, q=dict(fb=True))
    add('ffedfe', n=3, f=3, d=2, z=False, lv=4, q=dict(f=2, d=1, lv=2))
    add('ffedfe', n=3, f=0, d=0, z=False, lv=2, q=dict(f=3))
    add('lms', n=4, f=[0, 1], d=[1], ref=False, soft=False, q=dict(f=[0], d=[]))
    add('eye', n=4)
    add('eye', n=4, osr=(2, 2))
    add('eye', n=4, osr=(1, 1), log=True)
    for norm in (False, True):
        for fl in (False, True):
            add('chest', order=7, norm=norm, fl=fl)
    add('chest', order=7, norm=False, fl=False, q=dict(fl=True))
    add('chest', order=7, norm=False, fl=True, q=dict(fl=False, norm=True))
    for lam in (0, 0.5):
        for norm in (False, True):
            add('eqest', n=12, norm=norm, lam=lam)
    for kind in ('filter', 'tii', 'tii0', 'ffedfe'):
        cs.append(case('object-' + kind, 'objects', kind=kind, n=3))
    for nm, args, other in [('get_levels', 'PAM4', 'NRZ'), ('get_levels', 'NRZ', 'PAM4'), ('get_levels', 'OOK', 'PAM4'), ('get_polynomial', 'PRBS7', 'PRBS9'), ('get_polynomial', 'PRBS31', 'PRBS7'), ('get_gray_level_vec', (4,), (2,)), ('get_bin_perm', (3,), (2,)), ('dig_delay_lagrange_coeffs', (3, 0.25), (3, 0.5)), ('dig_delay_lagrange_coeffs', (3, 0.25), (3, 0.25, False)), ('dig_delay_sinc_coeffs', (3, 0.25), (3, 0.75)), ('dig_delay_sinc_coeffs', (3, 0.25), (3, 0.25, False)), ('channel.rcos_pulse', (4, 2, 0.5), (4, 2, 0.25)), ('channel.rcos_pulse', (4, 2, 0.5), (2, 4, 0.5)), ('channel.rrc_pulse', (4, 2, 0.5), (4, 2, 0.25)), ('channel.rrc_pulse', (4, 2, 0.5), (2, 4, 0.5)), ('channel.sinc_pulse', (4, 2), (2, 4)), ('channel.rect_pulse', (4, 2), (2, 4))]:
        cs.append(case('const-%s-%s-%s' % (nm, args, other), 'pure', which='const', what=nm, args=args, q=dict(args=other), spoil=True))
    return cs
