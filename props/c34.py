"""C34 the results depend on the values alone: not on the integer type, nor on the memory layout of the arrays"""
from .common import case
from .c31 import REG, _flat, G74, G42

BOUNDS = 'every exported function of the toolbox and the filter objects, data, memories, levels and taps alike; arrays of 3 to 16 entries, each entry any value of its domain (bits, symbols) or, for signals, one of five values that reach the ends of the type; the types bool (bits), uint8, int8, uint16, int16, int32 and uint32, and four layouts (every second entry of a larger array, reversed view, slice of a larger array, column order)'
OUTSIDE = 'float32 and complex arrays; uint64 (numpy does not mix it with its default integers); types in which the numbers do not fit; lists; more entries'

RANGE = {'bool': (0, 1), 'uint8': (0, 255), 'int8': (-128, 127), 'uint16': (0, 65535), 'int16': (-2 ** 15, 2 ** 15 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1), 'uint32': (0, 2 ** 32 - 1)}
# sample values of a signal: small ones and ones whose sums and products leave the type
SIG = {'uint8': [0, 1, 3, 100, 250], 'int8': [-120, -3, 1, 2, 120], 'uint16': [0, 1, 3, 300, 60000], 'int16': [-30000, -3, 1, 2, 30000], 'int32': [-3, 1, 2, 70000, -90000], 'uint32': [0, 1, 3, 70000, 4000000000]}


def layout(np, x, how):
    """the same values, differently placed in memory"""
    if how == 'strided':
        n = x.shape[-1]
        b = np.zeros(x.shape[:-1] + (2 * n + 1,), dtype=x.dtype) + x.reshape(-1)[0]
        b = b.astype(x.dtype)
        b[..., 1::2] = x
        return b[..., 1::2]
    if how == 'reversed':
        return x[..., ::-1].copy()[..., ::-1]
    if how == 'slice':
        b = np.concatenate([x, x, x])
        return b[x.shape[0]:2 * x.shape[0]]
    if how == 'fortran':
        return np.swapaxes(np.swapaxes(x, 0, -1).copy(), 0, -1)
    raise KeyError(how)


class Np:
    def __init__(self, np, conv):
        self.__dict__['_np'], self.__dict__['_conv'] = np, conv

    def __getattr__(self, n):
        return getattr(self._np, n)

    def array(self, x, *a, **k):
        return self._conv(self._np.array(x, *a, **k), x)


class Arranged:
    """the harness as the builders of C31 see it, handing out the same values in another guise.
    typ: the integer type of the drawn arrays (None: int / float as usual), lay: a layout, dom: type that bounds the signal values"""

    def __init__(self, h, typ=None, lay=None, dom=None, consts=True):
        self.h, self.typ, self.lay, self.dom = h, typ, lay, dom
        self.np = Np(h.np, self._const if consts else lambda r, x: r)

    def __getattr__(self, n):
        return getattr(self.h, n)

    def _place(self, x):
        return layout(self.h.np, x, self.lay) if self.lay else x

    def _const(self, r, x):
        if self.typ and r.dtype.kind in 'iu' and r.size:
            lo, hi = RANGE[self.typ]
            flat = [int(v) for v in r.reshape(-1)]
            if r.ndim and min(flat) >= lo and max(flat) <= hi:
                r = r.astype(self.typ)
        return self._place(r) if r.ndim and r.size else r

    def bits(self, name, shape, dtype=None):
        return self._place(self.h.bits(name, shape, dtype=self.typ or dtype))

    def ints(self, name, shape, lo, hi, dtype=None):
        if self.dom:
            lo, hi = max(lo, RANGE[self.dom][0]), min(hi, RANGE[self.dom][1])
        return self._place(self.h.ints(name, shape, lo, hi, dtype=self.typ or dtype))

    def choice(self, name, shape, values, dtype=float):
        if self.dom:
            lo, hi = RANGE[self.dom]
            if not all(v == int(v) and lo <= v <= hi for v in values):
                return self._place(self.h.choice(name, shape, values, dtype=dtype))
            return self._place(self.h.choice(name, shape, values, dtype=self.typ or dtype))
        return self._place(self.h.choice(name, shape, values, dtype=dtype))

    def reals(self, name, shape, lo, hi, hint=None):
        if self.dom:
            return self._place(self.h.choice(name, shape, SIG[self.dom], dtype=self.typ or float))
        return self._place(self.h.reals(name, shape, lo, hi, hint=hint))


def _agree(h, r, s, what):
    h.check(len(r) == len(s), 'as many results')
    for x, y in zip(r, s):
        if x is None or y is None:
            h.check(x is None and y is None, 'the result is the same %s' % what)
        elif isinstance(x, (bool, str)) or callable(x):
            pass
        else:
            h.eq(h.np.asarray(y) * 1.0, h.np.asarray(x) * 1.0, 'the result is the same %s' % what, tol=1e-9)


def typed(h, which, to, consts=True, **p):
    """the same numbers stored as 64-bit integers (or floats) and as another integer type"""
    fn, mk = REG[which](Arranged(h, None, None, to, consts), **p)
    a, k = mk('a')
    r = _flat(h, fn(*a, **k))
    fn, mk = REG[which](Arranged(h, to, None, to, consts), **p)
    a, k = mk('a')
    _agree(h, r, _flat(h, fn(*a, **k)), 'for %s' % to)


def placed(h, which, lay, **p):
    fn, mk = REG[which](h, **p)
    a, k = mk('a')
    r = _flat(h, fn(*a, **k))
    fn, mk = REG[which](Arranged(h, None, lay), **p)
    a, k = mk('a')
    _agree(h, r, _flat(h, fn(*a, **k)), 'for a %s array' % lay)


def table(th):
    """(name, builder, parameters, kind): kind b = bits, i = small symbols, s = signal"""
    T = []
    add = lambda nm, which, kind, **p: T.append((nm, which, kind, p))
    for fl in ({}, dict(inv_msb=True, pn_inv=True), dict(inv_lsb=True, bit_order_inv=True)):
        t = '+'.join(fl) or 'plain'
        add('bin2symbol ' + t, 'bin2symbol', 'b', n=0, m=6, flags=fl, ty='int')
        add('bin2symbol mat ' + t, 'bin2symbol', 'b', n=3, m=2, flags=fl, ty='int')
        add('bin2symbol mat 3x4 ' + t, 'bin2symbol', 'b', n=3, m=4, flags=fl, ty='int')
        add('symbol2bin ' + t, 'symbol2bin', 'i', n=4, flags=fl, ty='int')
        for sh in ((2, 3), (3, 4), (2, 1, 3)):
            add('symbol2bin %s %s' % (sh, t), 'symbol2bin', 'i', n=sh, flags=fl, ty='int')
    for side in ('tx', 'rx'):
        for con, hi in (('NRZ', 1), ('PAM4', 3)):
            add('%s gray %s' % (side, con), 'coding', 'i', code='gray', con=con, shape=(2, 3), lo=0, hi=hi, ty='int', side=side)
            add('%s differential %s' % (side, con), 'coding', 'i', code='differential', con=con, shape=(2, 2), lo=0, hi=hi, ty='int', side=side)
            add('%s differential %s 3-D' % (side, con), 'coding', 'i', code='differential', con=con, shape=(2, 1, 3) if side == 'rx' else (2, 1, 2), lo=0, hi=hi, ty='int', side=side)
            add('%s gray %s 3-D' % (side, con), 'coding', 'i', code='gray', con=con, shape=(2, 1, 3), lo=0, hi=hi, ty='int', side=side)
        for code in ('manchester', 'bipolar', 'mlt3', 'differential_manchester'):
            bits = side == 'tx' or 'manchester' in code
            for sh in (6, (2, 4), (3, 2), (3, 4)) + (((2, 2, 2),) if 'manchester' in code else ()):
                add('%s %s %s' % (side, code, sh), 'coding', 'b' if bits else 'i', code=code, con=None, shape=sh, lo=0, hi=1 if bits else 2, ty='int', side=side)
    add('rx bipolar flags', 'decbip', 'i', n=5, ed=True)
    for g in (7, 4):
        add('linear coding %d' % g, 'codlin', 'b', n=8, g=g)
        add('linear decoding %d' % g, 'declin', 'b', n=g, soft=False, g=g)
    add('linear decoding soft', 'declin', 'b', n=8, soft=True, g=4)
    for fb in (False, True):
        add('conv coding %d' % fb, 'codconv', 'b', n=6, fb=fb)
        for alg in ('ml', 'viterbi'):
            add('conv %s %d' % (alg, fb), 'decconv', 'b', n=6, fb=fb, soft=True, alg=alg, tb=6)
    for con in ('NRZ', 'PAM3', 'PAM4'):
        for inv in (False, True):
            add('mapping %s %d' % (con, inv), 'mapping', 'i', con=con, shape=(2, 2), fs=False, inv=inv, lv=False, ty='int')
            add('mapping fs %s %d' % (con, inv), 'mapping', 'i', con=con, shape=3, fs=True, inv=inv, lv=False, ty='int') if con != 'PAM3' else None
            add('demapping %s %d' % (con, inv), 'demapping', 'i', con=con, shape=(2, 2), fs=False, inv=inv)
    for con in ('NRZ', 'PAM4'):
        for sh in ((3, 2), (2, 1, 3)):
            add('mapping %s %s' % (con, sh), 'mapping', 'i', con=con, shape=sh, fs=False, inv=True, lv=False, ty='int')
            add('demapping %s %s' % (con, sh), 'demapping', 'i', con=con, shape=sh, fs=False, inv=True)
    add('demapping OOK', 'demapping', 'i', con='OOK', shape=4, fs=False, inv=False)
    add('mapping levels', 'mapping', 'i', con='PAM4', shape=3, fs=False, inv=False, lv=True, ty='int')
    add('slicer', 'slicer', 's', shape=3, ty='f')
    add('slicer 3x2', 'slicer', 's', shape=(3, 2), ty='f')
    add('slicer int', 'slicer', 's', shape=(2, 2), ty='i')
    add('slicer far levels', 'slicer2', 's', shape=3)
    add('slicer far levels 2x2', 'slicer2', 's', shape=(2, 2))
    add('mapping levels inverted', 'mapping', 'i', con='PAM3', shape=2, fs=False, inv=True, lv=True, ty='int')
    add('demapping zeros', 'zeros', 'i', n=3)
    for tb, fb, typ in ((3, 1, 's'), (9, 0, 'u'), (5, -1, 'ss')):
        add('quantize %d.%d%s' % (tb, fb, typ), 'quantize', 's', shape=(1, 1) if tb > 6 else (1, 3), tb=tb, fb=fb, typ=typ)
    add('prbs', 'prbs', 'b', n=20)
    add('checker', 'checker', 'b', n=10, lock=True)
    add('checker lock', 'checker', 'b', n=6, lock=False)
    add('checker sequence', 'checkerseq', 'b', n=10, lock=True)
    add('checker economy', 'checkeconomy', 'b', n=12)
    add('lock binary', 'lock', 'b', n=3, m=4, binary=True)
    add('lock', 'lock', 's', n=3, m=3, binary=False)
    for nm, p in (('power', dict(what='power', n=3)), ('rms', dict(what='rms', n=3)), ('upsample', dict(what='upsample', n=4, a=(3,))), ('buffer', dict(what='buffer', n=7, a=(3, 1), k=dict(delay=2))), ('buffer clip', dict(what='buffer', n=7, a=(4, -1), k=dict(clip=True)))):
        add(nm, 'aux', 's', **p)
    add('bin2uint', 'bin2uint', 'b', shape=(2, 4))
    add('bin2uint long', 'bin2uint', 'b', shape=(1, 12))
    add('uint2bin', 'uint2bin', 'i', shape=(2, 2), n=3)
    add('zoh', 'zoh', 's', n=4, hold=3)
    add('hamming', 'ham', 'b', n=2, k=3)
    for pl, osr, span, z in (('rect', 3, 1, 0), ('rcos', 2, 2, 0), ('sinc', 2, 2, 0), ('rrc', 2, 2, 7), ('imp', 3, 1, 0)):
        add('pulse_shape ' + pl, 'pulse', 's', n=3, pulse=pl, osr=osr, span=span, z=z)
    add('awgn_channel', 'awgnch', 's', n=4, snr=None, z=True, fir=False)
    add('awgn_channel fir', 'awgnch', 's', n=4, snr=None, z=False, fir=True)
    add('ctle', 'ctle', 's', n=4, z=True)
    for f, d, z, lv in ((3, 0, False, 2), (3, 0, True, 2), (2, 1, True, 2), (1, 2, False, 4)):
        add('ffe_dfe %d %d %d' % (f, d, z), 'ffedfe', 's', n=3, f=f, d=d, z=z, lv=lv)
    for f, d, ref in (([-1, 0, 1], [], False), ([0], [1, 2], False), ([0, 1], [1], True)):
        add('lms %s %s' % (f, d), 'lms', 's', n=3 if not ref else 4, f=f, d=d, ref=ref, soft=False)
    for f, d, ref in (([0, 1], [], False), ([], [1], True), ([-1], [2], True)):
        add('soft lms %s %s' % (f, d), 'soft2', 's', n=3, f=f, d=d, ref=ref)
    for f, d, z, lv in ((1, 0, False, 0), (2, 0, True, 0), (1, 1, True, 1), (1, 2, True, 1), (2, 1, False, 1)):
        add('ffe_dfe integer taps %d %d %d' % (f, d, z), 'ffe2', 's', n=3 if not d else 2, f=f, d=d, z=z)
    add('awgn_channel integer taps', 'chan2', 's', n=3, z=False)
    add('awgn_channel integer taps and memory', 'chan2', 's', n=3, z=True)
    add('ctle integer frequencies', 'ctle2', 's', n=3)
    add('mueller_muller', 'mm2', 's', n=3)
    for osr, order, m in ((2, 2, 'lagrange'), (2, 2, 'sinc'), (2, 2, 'rcos')):
        add('oversample ' + m, 'oversample', 's', n=5, osr=osr, order=order, method=m)
    add('eye', 'eye2', 's', n=4)
    add('psa', 'psa2', 's', shape=7, mode='dBm/Hz', sb='DSB')
    add('psa matrix', 'psa2', 's', shape=(2, 3), mode='dBFs', sb='SSB')
    add('psa carrier', 'psa2', 's', shape=6, mode='dBc', sb='DSB')
    add('filter', 'filt', 's', n=3, obj='filter')
    add('filter TII', 'filt', 's', n=3, obj='tii')
    add('filter FFE/DFE', 'filt', 's', n=3, obj='ffedfe')
    return T


MM = {'int8': [-60, 100], 'uint8': [60, 200], 'int16': [-20000, 30000], 'int32': [-3, 2 ** 30], 'uint16': [300, 60000], 'uint32': [3, 2 ** 31]}


def mm2(h, n):
    return h.cd.rx.mueller_muller_step, lambda t: ((h.choice(t, n, MM.get(getattr(h, 'dom', None), [-1.5, 2.0])), h.choice(t + 'r', n, [1, 3])), {})


def eye2(h, n):
    return h.cd.eye_diagram, lambda t: ((h.reals(t, n, -1, 1), 2, 2), dict(quantization=4, fs_value=128))


def filt(h, n, obj):
    m = h.module('CommDspy.misc.help_classes')

    def run(b, a, x, lv):
        if obj == 'filter':
            o = m.Filter(b, a)
        elif obj == 'tii':
            o = m.FilterTII(b, a)
        else:
            o = m.FfeDfeFilterTII(b, a, lv)
        return o(x[:2]), o(x[2:])
    return run, lambda t: ((h.np.array([3, 1, 2]), h.np.array([1, 0, 2]), h.reals(t, n, -2, 2), h.np.array([-3, -1, 1, 3])), {})


def _ends(h):
    """two levels whose distance from some signal values leaves the type"""
    v = SIG.get(getattr(h, 'dom', None), [-3, -1, 1, 2, 3])
    return h.np.array([v[0], v[3]] if v[0] < 0 else [v[1], v[4]])


def slicer2(h, shape):
    return h.cd.rx.slicer, lambda t: ((h.reals(t, shape, -3000, 3000), _ends(h)), {})


def zeros(h, n):
    return h.cd.rx.demapping, lambda t: ((h.ints(t, n, 0, 0), h.cd.ConstellationEnum.OOK), dict(pn_inv=True))


def soft2(h, n, f, d, ref):
    def mk(t):
        v = SIG.get(getattr(h, 'dom', None), [-1.5, 2.0])
        kw = dict(ffe_tap_idx=h.np.array(f, dtype=int), dfe_tap_idx=h.np.array(d, dtype=int))
        if ref:
            kw['reference_vec'] = h.reals(t + 'r', n, -8, 8)
        return (h.reals(t, n, -3000, 3000), h.choice(t + 'o', n, [min(v), max(v)]), _ends(h)), dict(sigma=(max(v) - min(v)) / 4.0, **kw)
    return h.cd.rx.soft_ddlms_grad, mk


def ffe2(h, n, f, d, z):
    def mk(t):
        kw = dict(ffe_taps=h.np.array([3, 100, 2][:f]))
        if d:
            kw['dfe_taps'] = h.np.array([2, 100][:d])
            kw['levels'] = _ends(h)
        if z and f > 1:
            kw['zi_ffe'] = h.reals(t + 'zf', f - 1, -1, 1)
        if z and d:
            kw['zi_dfe'] = h.reals(t + 'zd', d, -1, 1)
        return (h.reals(t, n, -3000, 3000),), kw
    return h.cd.rx.ffe_dfe, mk


def chan2(h, n, z):
    return h.cd.channel.awgn_channel, lambda t: ((h.reals(t, n, -3000, 3000), h.np.array([5, 100]), h.np.array([2, 1])), dict(zi=h.reals(t + 'z', 1, -1, 1)) if z else {})


def ctle2(h, n):
    return h.cd.rx.ctle, lambda t: ((h.reals(t, n, -3000, 3000), h.np.array([20]), h.np.array([30, 60]), -4.0, 100.0, 4), {})


def psa2(h, shape, mode, sb):
    v = SIG.get(getattr(h, 'dom', None), [-2, 2])
    # without a carrier the ratio is not defined
    return h.module('CommDspy.psa').psa, lambda t: ((h.reals(t, shape, -2, 2) if mode != 'dBc' else h.choice(t, shape, [min(x for x in v if x), max(v)]), 8.0), dict(rbw=4.0, mode=mode, window='hann', osr=1, sb_mode=sb))


REG.update(slicer2=slicer2, zeros=zeros, soft2=soft2, ffe2=ffe2, chan2=chan2, ctle2=ctle2, psa2=psa2, mm2=mm2, eye2=eye2, filt=filt)


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for nm, which, kind, p in table(th):
        types = {'b': ['uint8', 'int8', 'int32', 'bool'], 'i': ['uint8', 'int8', 'int32'], 's': ['int8', 'uint8', 'int16', 'int32']}[kind]
        if th:
            types = types + ['uint16', 'uint32'] + (['int16'] if kind != 's' else [])
        for ty in types:
            # polynomials and generators are not stored as booleans
            cs.append(case('%s as %s' % (nm, ty), 'typed', which=which, to=ty, consts=ty != 'bool', **p))
        for lay in ('strided', 'reversed', 'slice', 'fortran'):
            cs.append(case('%s %s' % (nm, lay), 'placed', which=which, lay=lay, **p))
    return cs
