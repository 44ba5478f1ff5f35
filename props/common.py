def case(name, fn, opts=None, **params):
    return dict(name=name, fn=fn, params=params, opts=opts or {})


class Sparse:
    """the harness with large arrays mostly fixed: only some entries (at both ends and in the middle, or at the end) are free"""

    def __init__(self, h, at='ends', least=20):
        self.h, self.at, self.least = h, at, least

    def __getattr__(self, n):
        return getattr(self.h, n)

    def _mix(self, name, shape, draw, fixed, dtype):
        dims = [shape] if isinstance(shape, int) else list(shape)
        n = 1
        for d in dims:
            n *= d
        if n < self.least:
            return draw(name, shape)
        spots = sorted({n - 1, n - 2} | ({0, n // 3} if self.at == 'ends' else {n // 2, n // 3, n // 3 + 1} if self.at == 'middle' else set()))
        f = draw(name, len(spots))
        vals = [fixed(i) for i in range(n)]
        for k, p in enumerate(spots):
            vals[p] = f[k]
        return self.h.np.array(vals, dtype=dtype).reshape(tuple(dims))

    def bits(self, name, shape, **k):
        return self._mix(name, shape, lambda a, s: self.h.bits(a, s, **k), lambda i: ((5 * i * i + 3 * i) // 4) % 2, k.get('dtype') or int)

    def ints(self, name, shape, lo, hi, **k):
        return self._mix(name, shape, lambda a, s: self.h.ints(a, s, lo, hi, **k), lambda i: lo + ((7 * i * i + 3 * i) // 4) % (hi - lo + 1), k.get('dtype') or int)

    def choice(self, name, shape, values, dtype=float):
        return self._mix(name, shape, lambda a, s: self.h.choice(a, s, values, dtype=dtype), lambda i: values[((7 * i * i + 3 * i) // 4) % len(values)], dtype)

    def reals(self, name, shape, lo, hi, hint=None):
        w = min(-lo, hi, 4.0) if lo < 0 < hi else None
        return self._mix(name, shape, lambda a, s: self.h.reals(a, s, lo, hi), lambda i: (((7 * i * i + 3 * i) % 61 + 0.625) / 61.0 * 2 - 1) * w if w else lo + (hi - lo) * ((7 * i * i + 3 * i) % 61 + 0.625) / 61.0, float)


def sparse(module):
    """a case function that runs another one of the module on long, mostly fixed arrays"""
    def big(h, what, at='ends', least=20, **p):
        return module[what](Sparse(h, at, least), **p)
    return big
