"""Independent shift-register model of a convolutional encoder over GF(2) (any start state)."""


def steps(u, G, F, use, state, n_in, n_out):
    """u: list of steps, each a list of n_in bits.  G[i][j] = taps, F[i] = feedback taps or None,
    use[i][j].  state[i] = register content, newest first.  Returns (outputs, end state)."""
    st = [list(s) for s in state]
    outs = []
    for step in u:
        o = [0] * n_out
        for i in range(n_in):
            x = step[i]
            w = x
            if F[i] is not None:
                for m in range(1, len(F[i])):
                    if m - 1 < len(st[i]):
                        w = (w + F[i][m] * st[i][m - 1]) % 2
            reg = [w] + st[i]
            for j in range(n_out):
                g = G[i][j]
                if F[i] is not None and not use[i][j]:
                    o[j] = (o[j] + g[0] * x) % 2            # only memory-less taps are allowed here
                else:
                    for m in range(len(g)):
                        o[j] = (o[j] + g[m] * reg[m]) % 2
            st[i] = reg[:len(st[i])]
        outs += o
    return outs, st


CODES = {
    # name: (n_in, n_out, G {i: taps per output}, F {i: taps} or None, use or None)
    'k3': (1, 2, {0: [[1, 1, 1], [1, 1, 0]]}, None, None),
    '57': (1, 2, {0: [[1, 0, 1], [1, 1, 1]]}, None, None),
    'k2': (1, 2, {0: [[1, 1], [1, 0]]}, None, None),
    'r13': (1, 3, {0: [[1, 1, 1], [1, 0, 1], [0, 1, 1]]}, None, None),
    'two': (2, 3, {0: [[1, 0], [0, 0], [1, 1]], 1: [[0, 0, 0], [1, 0, 0], [0, 0, 1]]}, None, None),
    'two1': (2, 3, {0: [[1, 0], [0, 0], [1, 1]], 1: [[0, 0], [1, 0], [0, 1]]}, None, None),
    'rsc1': (1, 2, {0: [[1, 0], [0, 1]]}, {0: [1, 1]}, [[0, 1]]),
    'rsc2': (1, 2, {0: [[1, 0, 0], [1, 0, 1]]}, {0: [1, 1, 1]}, [[0, 1]]),
    'fb2': (1, 2, {0: [[1, 1, 1], [1, 0, 1]]}, {0: [1, 1, 1]}, [[1, 1]]),
    'fb01': (1, 2, {0: [[1, 1, 0], [0, 1, 1]]}, {0: [1, 0, 1]}, [[1, 1]]),
    'mixed': (2, 3, {0: [[1, 0], [0, 0], [1, 1]], 1: [[0, 0], [1, 0], [0, 1]]}, {1: [1, 1]}, [[0, 0, 0], [0, 0, 1]]),
    'two0': (2, 2, {0: [[1, 1], [1, 0]], 1: [[1], [1]]}, None, None),
    'mem0': (1, 2, {0: [[1], [1]]}, None, None),
    'fb3': (1, 2, {0: [[1, 1, 0, 1], [1, 0, 1, 1]]}, {0: [1, 1, 0, 1]}, [[1, 1]]),
    'three': (3, 4, {0: [[1, 0], [0, 1], [1, 1], [0, 0]], 1: [[0, 1], [1, 0], [0, 0], [1, 1]], 2: [[1, 1], [0, 0], [0, 1], [1, 0]]}, None, None),
    'three1': (3, 2, {0: [[1], [0]], 1: [[0, 1], [1, 0]], 2: [[1], [1]]}, None, None),
    'fbtwo': (2, 3, {0: [[1, 0, 1], [0, 0, 0], [1, 0, 0]], 1: [[0, 0, 0], [1, 1, 0], [0, 0, 0]]}, {0: [1, 1, 1], 1: [1, 0, 1]}, [[1, 0, 0], [0, 1, 0]]),
    'fbdif': (2, 2, {0: [[1, 1], [0, 1]], 1: [[0, 1, 1], [1, 0, 1]]}, {0: [1, 1], 1: [1, 1, 1]}, [[1, 1], [1, 1]]),
    'fb5': (1, 2, {0: [[1, 0, 0, 0, 0], [1, 0, 0, 0, 1]]}, {0: [1, 0, 0, 0, 1]}, [[0, 1]]),
    'k7': (1, 2, {0: [[1, 0, 1, 1, 0, 1, 1], [1, 1, 1, 1, 0, 0, 1]]}, None, None),
    'fb7': (1, 2, {0: [[1, 1, 0, 1, 0, 1, 1], [1, 0, 0, 1, 1, 0, 1]]}, {0: [1, 0, 1, 0, 0, 1, 1]}, [[1, 1]]),
    'k9': (1, 3, {0: [[1, 0, 1, 0, 1, 1, 1, 0, 1], [1, 1, 0, 0, 1, 0, 1, 1, 1], [1, 1, 1, 1, 0, 1, 1, 0, 1]]}, None, None),
    'k4': (1, 2, {0: [[1, 1, 1, 1], [1, 1, 0, 1]]}, None, None),
}


def load(h, code):
    n_in, n_out, G, F, use = CODES[code]
    args = dict(G={i: h.np.array(G[i], dtype=int) for i in G})
    kw = {}
    if F is not None:
        kw = dict(feedback={i: h.np.array(F[i], dtype=int) for i in F}, use_feedback=h.np.array(use, dtype=int))
    Fl = [(F[i] if F is not None and i in F else None) for i in range(n_in)]
    ul = use if use is not None else [[0] * n_out for _ in range(n_in)]
    return args['G'], kw, n_in, n_out, [G[i] for i in range(n_in)], Fl, ul


def group(bits, n):
    b = list(bits)
    while len(b) % n:
        b.append(0)
    return [b[i:i + n] for i in range(0, len(b), n)]
