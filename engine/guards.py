"""Hash-consed boolean graph (AND / n-ary XOR / leaf / arithmetic atom).

A literal is 2*node+neg.  FALSE = 0, TRUE = 1.  Nothing here decides a property: nodes are
handed to z3 (see solver.py); construction only applies local, always-valid rewrites.
"""
FALSE, TRUE = 0, 1
kind = ['C']          # 'C' const, 'L' leaf, 'A' and, 'X' xor, 'Z' arithmetic atom
data = [None]
_and = {}
_xor = {}
_leaf = {}
_atom = {}
size = [0]
groups = []           # partitions: lists of literals exactly one of which is true (by construction)
_groupkeys = {}
node_groups = {}


def reset():
    del kind[1:], data[1:], size[1:], groups[:]
    for d in (_and, _xor, _leaf, _atom, _groupkeys, node_groups, _ha):
        d.clear()


def _new(k, d, s=1):
    kind.append(k); data.append(d); size.append(s)
    return len(kind) - 1


def leaf(name):
    n = _leaf.get(name)
    if n is None:
        n = _leaf[name] = _new('L', name)
    return 2 * n


def atom(key, payload):
    """key: hashable canonical form; payload: (op, poly)"""
    n = _atom.get(key)
    if n is None:
        n = _atom[key] = _new('Z', payload)
    return 2 * n


def not_(a):
    return a ^ 1


def and_(a, b):
    if a > b:
        a, b = b, a
    if a == 0:
        return 0
    if a == 1 or a == b:
        return b
    if a ^ 1 == b:
        return 0
    r = _and.get((a, b))
    if r is not None:
        return r
    r = _and_simpl(a, b)
    if r is None:
        r = 2 * _new('A', (a, b), min(size[a >> 1] + size[b >> 1] + 1, 1 << 40))
    _and[(a, b)] = r
    return r


def _and_simpl(a, b):
    for p, q in ((a, b), (b, a)):
        n = q >> 1
        if kind[n] == 'A':
            x, y = data[n]
            if q & 1:                       # p & ~(x&y)
                if x == p:
                    return and_(p, y ^ 1)
                if y == p:
                    return and_(p, x ^ 1)
                if x == p ^ 1 or y == p ^ 1:
                    return p
            else:
                if x == p or y == p:
                    return q
                if x == p ^ 1 or y == p ^ 1:
                    return 0
    na, nb = a >> 1, b >> 1
    if kind[na] == 'A' and kind[nb] == 'A':
        x, y = data[na]
        u, v = data[nb]
        if a & 1 and b & 1:
            if (x ^ 1 == u and y ^ 1 == v) or (x ^ 1 == v and y ^ 1 == u):
                return xor_(x, y)
            # ~(x&y) & ~(x&~y) = ~x
            if x == u and y == v ^ 1 or x == v and y == u ^ 1:
                return x ^ 1
            if y == u and x == v ^ 1 or y == v and x == u ^ 1:
                return y ^ 1
        elif not (a & 1) and not (b & 1):
            if x ^ 1 in (u, v) or y ^ 1 in (u, v):
                return 0
    return None


def or_(a, b):
    return and_(a ^ 1, b ^ 1) ^ 1


def xor_(a, b):
    neg = (a ^ b) & 1
    na, nb = a >> 1, b >> 1
    if na == nb:
        return neg
    if na == 0:
        return (nb << 1) | neg
    if nb == 0:
        return (na << 1) | neg
    sa = data[na] if kind[na] == 'X' else frozenset((na,))
    sb = data[nb] if kind[nb] == 'X' else frozenset((nb,))
    s = sa ^ sb
    if not s:
        return neg
    if len(s) == 1:
        (n,) = s
        return (n << 1) | neg
    n = _xor.get(s)
    if n is None:
        n = _xor[s] = _new('X', s, min(sum(size[i] for i in s) + 1, 1 << 40))
    return (n << 1) | neg


def ite_(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    if a == b ^ 1:
        return xor_(c, b)
    if a == 1:
        return or_(c, b)
    if a == 0:
        return and_(c ^ 1, b)
    if b == 1:
        return or_(c ^ 1, a)
    if b == 0:
        return and_(c, a)
    return or_(and_(c, a), and_(c ^ 1, b))


def and_all(xs):
    r = 1
    for x in xs:
        r = and_(r, x)
        if r == 0:
            return 0
    return r


def or_all(xs):
    xs = [x for x in xs if x != 0]
    if not xs:
        return 0
    while len(xs) > 1:                       # balanced
        nx = [or_(xs[i], xs[i + 1]) for i in range(0, len(xs) - 1, 2)]
        if len(xs) & 1:
            nx.append(xs[-1])
        xs = nx
    return xs[0]


def partition(lits):
    """Record that exactly one of lits holds (valid by construction of a value summary)."""
    if len(lits) < 3 or len(lits) > 24:
        return
    key = frozenset(lits)
    if key in _groupkeys:
        return
    _groupkeys[key] = len(groups)
    for l in key:
        node_groups.setdefault(l >> 1, []).append(len(groups))
    groups.append(tuple(key))


def has_atom(lits, memo={}):
    """Does the cone of any literal contain an arithmetic atom?"""
    for l in lits:
        if _has_atom(l >> 1):
            return True
    return False


_ha = {}


def _has_atom(n):
    r = _ha.get(n)
    if r is not None:
        return r
    st = [n]
    seen = set()
    res = False
    while st:
        m = st.pop()
        if m in seen:
            continue
        seen.add(m)
        k = kind[m]
        if k == 'Z':
            res = True
            break
        if k == 'A':
            st.append(data[m][0] >> 1); st.append(data[m][1] >> 1)
        elif k == 'X':
            st.extend(data[m])
    _ha[n] = res
    return res
