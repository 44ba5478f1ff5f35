"""Translation of guards and polynomials to z3, and query bookkeeping."""
import math
import time
from fractions import Fraction
import z3
from . import guards as G
from . import sym as S


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.trivial = 0

    def as_dict(self):
        return dict(queries=self.queries, solver_s=round(self.time, 3), sat=self.sat, unsat=self.unsat,
                    unknown=self.unknown, normal_form=self.trivial)


def _fn_facts(kind, r, t):
    """true facts about the transcendental functions (linear in r and t)"""
    half = z3.RealVal('1/2')
    ab = lambda e: z3.If(e >= 0, e, -e)
    if kind == 'fn_sinc':
        out = [r >= z3.RealVal('-22/100'), r >= 1 - 2 * ab(t)]
        for k in range(1, 9):                 # |sinc(x)| <= 2|x-k| for every integer k != 0
            for q in (k, -k):
                out += [r <= 2 * ab(t - q), -r <= 2 * ab(t - q)]
        return out
    if kind == 'fn_sin':
        return [r <= ab(t), -r <= ab(t)]
    if kind == 'fn_cos':
        return [r >= 1 - ab(t)]
    if kind == 'fn_exp':
        return [r >= 1 + t, z3.Implies(t <= 0, r <= 1)]
    if kind == 'fn_log':
        return [z3.Implies(t > 0, r <= t - 1)]
    return []


LIPSCHITZ = {'fn_sin': 1, 'fn_cos': 1, 'fn_sinc': Fraction(3, 2)}


class Solver:
    def __init__(self, timeout_ms=10000, seed=0):
        self.timeout = timeout_ms
        self.seed = seed
        self.stats = Stats()
        self._z = {}                # node -> z3 bool
        self._atoms = {}            # atom index -> z3 real term
        self._side = {}             # atom index -> list of side constraints
        self._fn = {}
        self.bool = z3.SolverFor('QF_FD')
        self.bool.set('timeout', timeout_ms)
        try:
            self.bool.set('random_seed', seed)
        except z3.Z3Exception:
            pass
        self._def = {}              # node -> z3 const defined in self.bool
        self._defgroups = set()
        self.hints = {}             # input name -> value tried first in nonlinear queries
        self._lin = None

    # ---------------------------------------------------------------- boolean side (Tseitin, incremental)
    def _blit(self, lit):
        n = lit >> 1
        e = self._bnode(n)
        return z3.Not(e) if lit & 1 else e

    def _bnode(self, n):
        d = self._def
        r = d.get(n)
        if r is not None:
            return r
        st = [n]
        add = self.bool.add
        while st:
            m = st[-1]
            if m in d:
                st.pop()
                continue
            k = G.kind[m]
            if k == 'C':
                d[m] = z3.BoolVal(False)
                st.pop()
            elif k == 'L':
                d[m] = z3.Bool('l%d' % m)
                st.pop()
            elif k == 'A':
                a, b = G.data[m]
                need = [x >> 1 for x in (a, b) if (x >> 1) not in d]
                if need:
                    st.extend(need)
                    continue
                za, zb = (z3.Not(d[x >> 1]) if x & 1 else d[x >> 1] for x in (a, b))
                v = z3.Bool('n%d' % m)
                add(v == z3.And(za, zb))
                d[m] = v
                st.pop()
            elif k == 'X':
                need = [x for x in G.data[m] if x not in d]
                if need:
                    st.extend(need)
                    continue
                xs = [d[x] for x in sorted(G.data[m])]
                acc = xs[0]
                for i, x in enumerate(xs[1:]):
                    v = z3.Bool('x%d_%d' % (m, i))
                    add(v == z3.Xor(acc, x))
                    acc = v
                d[m] = acc
                st.pop()
            else:
                raise S.Unsupported('arithmetic atom in boolean query')
        # exactly-one lemmas of value summaries whose members are all present
        return d[n]

    def _lemmas(self):
        d = self._def
        for gi, grp in enumerate(G.groups):
            if gi in self._defgroups:
                continue
            if all((l >> 1) in d for l in grp):
                self._defgroups.add(gi)
                self.bool.add(z3.Or([z3.Not(d[l >> 1]) if l & 1 else d[l >> 1] for l in grp]))

    # ---------------------------------------------------------------- arithmetic side (direct terms)
    def zlit(self, lit):
        e = self.znode(lit >> 1)
        return z3.Not(e) if lit & 1 else e

    def znode(self, n):
        z = self._z
        r = z.get(n)
        if r is not None:
            return r
        st = [n]
        while st:
            m = st[-1]
            if m in z:
                st.pop()
                continue
            k = G.kind[m]
            if k == 'C':
                z[m] = z3.BoolVal(False); st.pop()
            elif k == 'L':
                z[m] = z3.Bool('l%d' % m); st.pop()
            elif k == 'A':
                a, b = G.data[m]
                need = [x >> 1 for x in (a, b) if (x >> 1) not in z]
                if need:
                    st.extend(need)
                    continue
                z[m] = z3.And(*[z3.Not(z[x >> 1]) if x & 1 else z[x >> 1] for x in (a, b)])
                st.pop()
            elif k == 'X':
                need = [x for x in G.data[m] if x not in z]
                if need:
                    st.extend(need)
                    continue
                xs = [z[x] for x in sorted(G.data[m])]
                acc = xs[0]
                for x in xs[1:]:
                    acc = z3.Xor(acc, x)
                z[m] = acc
                st.pop()
            else:
                op, p = G.data[m]
                t = self.zpoly(p)
                z[m] = (t < 0) if op == 'lt' else (t == 0)
                st.pop()
        return z[n]

    def zpoly(self, p):
        terms = []
        for (n, at), c in p.t.items():
            t = None
            for a in at:
                x = self.zatom(a)
                t = x if t is None else t * x
            if n:
                t = z3.If(self.znode(n), z3.RealVal(1) if t is None else t, z3.RealVal(0))
            cv = z3.RealVal(str(c))
            terms.append(cv if t is None else (t if c == 1 else cv * t))
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def zatom(self, a):
        r = self._atoms.get(a)
        if r is not None:
            return r
        kind, payload, lo, hi = S.atoms[a]
        side = []
        if kind == 'var':
            r = z3.Real('r%d' % a)
            if lo is not None:
                side.append(r >= z3.RealVal(str(lo)))
            if hi is not None:
                side.append(r <= z3.RealVal(str(hi)))
        elif kind == 'abs':
            t = self.zpoly(payload)
            r = z3.If(t >= 0, t, -t)
        elif kind == 'sqrt':
            r = z3.Real('q%d' % a)
            t = self.zpoly(payload)
            side += [r >= 0, r * r == t]
        elif kind == 'inv':
            r = z3.Real('i%d' % a)
            t = self.zpoly(payload)
            side += [r * t == 1]
            if lo is not None:
                side += [r >= z3.RealVal(str(lo)), r <= z3.RealVal(str(hi))]
        elif kind in ('floor', 'ceil', 'trunc', 'rint'):
            t = self.zpoly(payload)
            if kind == 'floor':
                r = z3.ToReal(z3.ToInt(t))
            elif kind == 'ceil':
                r = -z3.ToReal(z3.ToInt(-t))
            elif kind == 'trunc':
                r = z3.If(t >= 0, z3.ToReal(z3.ToInt(t)), -z3.ToReal(z3.ToInt(-t)))
            else:
                k = z3.ToInt(t + z3.RealVal('1/2'))
                r = z3.If(z3.And(z3.ToReal(k) - t == z3.RealVal('1/2'), k % 2 == 1), z3.ToReal(k) - 1, z3.ToReal(k))
        elif kind.startswith('fn_'):
            f = self._fn.get(kind)
            if f is None:
                f = self._fn[kind] = z3.Function(kind, z3.RealSort(), z3.RealSort())
            r = f(self.zpoly(payload))
            if lo is not None:
                side.append(r >= z3.RealVal(str(lo)))
            if kind == 'fn_exp' or kind.startswith('fn_pow'):
                side.append(r > 0)
            if hi is not None:
                side.append(r <= z3.RealVal(str(hi)))
            side += _fn_facts(kind, r, self.zpoly(payload))
        elif kind == 'uf':
            name, args = payload
            f = self._fn.get((name, len(args)))
            if f is None:
                f = self._fn[(name, len(args))] = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
            r = f(*[self.zpoly(p) for p in args])
        else:
            raise S.Unsupported('atom kind ' + kind)
        self._atoms[a] = r
        self._side[a] = side
        return r

    def _atom_closure(self, lits):
        """indices of all arithmetic atoms reachable from the literals"""
        seen, ats = set(), set()
        st = [l >> 1 for l in lits]

        def polyatoms(p):
            for (n, at) in p.t:
                if n:
                    st.append(n)
                for a in at:
                    addatom(a)

        def addatom(a):
            if a in ats:
                return
            ats.add(a)
            kind, payload, _, _ = S.atoms[a]
            if isinstance(payload, S.Poly):
                polyatoms(payload)
            elif kind == 'uf':
                for p in payload[1]:
                    polyatoms(p)
        while st:
            m = st.pop()
            if m in seen:
                continue
            seen.add(m)
            k = G.kind[m]
            if k == 'A':
                st.append(G.data[m][0] >> 1); st.append(G.data[m][1] >> 1)
            elif k == 'X':
                st.extend(G.data[m])
            elif k == 'Z':
                polyatoms(G.data[m][1])
        return ats, seen

    # ---------------------------------------------------------------- queries
    def check(self, lits, timeout=None, want_model=False, seed=None):
        """satisfiability of a conjunction; (result, model or None)"""
        lits = [l for l in lits if l != 1]
        if any(l == 0 for l in lits):
            self.stats.trivial += 1
            return 'unsat', None
        s = set(lits)
        if any(l ^ 1 in s for l in s):
            self.stats.trivial += 1
            return 'unsat', None
        if not lits and not want_model:
            return 'sat', None
        t0 = time.time()
        self.stats.queries += 1
        to = timeout or self.timeout
        try:
            if not G.has_atom(lits):
                asm = [self._blit(l) for l in s]
                self._lemmas()
                self.bool.set('timeout', to)
                r = self.bool.check(*asm)
                res = str(r)
                mod = self.bool.model() if res == 'sat' and want_model else None
                return self._done(res, t0), (self._bmodel(mod) if mod is not None else None)
            return self._arith(list(s), to, want_model, t0, seed)
        finally:
            self.stats.time += time.time() - t0

    def check_false(self, lits):
        """every obligation of the path folded to true by hash-consing: let the solver confirm the refutation"""
        t0 = time.time()
        self.stats.queries += 1
        try:
            if G.has_atom(lits):
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(z3.BoolVal(False))
                return self._done(str(s.check()), t0)
            r = self.bool.check(*[self._blit(l) for l in lits], z3.BoolVal(False))
            return self._done(str(r), t0)
        finally:
            self.stats.time += time.time() - t0

    def _done(self, res, t0):
        setattr(self.stats, res if res in ('sat', 'unsat') else 'unknown', getattr(self.stats, res if res in ('sat', 'unsat') else 'unknown') + 1)
        return res if res in ('sat', 'unsat') else 'unknown'

    def _arith(self, lits, to, want_model, t0, seed):
        ats, nodes = self._atom_closure(lits)
        cons = [self.zlit(l) for l in lits]
        for a in ats:
            self.zatom(a)
        nl = False
        for a in list(ats):
            cons += self._side[a]
        cons += self._lipschitz(ats)
        for a in ats:
            if S.atoms[a][0] in ('inv', 'sqrt'):
                nl = True
        for m in nodes:
            if G.kind[m] == 'Z':
                if any(len(at) > 1 for (_, at) in G.data[m][1].t):
                    nl = True
        res, mod = 'unknown', None
        if nl and self.hints:
            sub = [(self._atoms[a], z3.RealVal(str(self.hints[S.atoms[a][1]]))) for a in ats if S.atoms[a][0] == 'var' and S.atoms[a][1] in self.hints]
            if sub:
                s = z3.SolverFor('QF_NRA') if not any(S.atoms[a][0].startswith('fn_') for a in ats) else z3.Solver()
                s.set('timeout', min(int(to), 4000))
                s.add(*[z3.simplify(z3.substitute(c, *sub)) for c in cons])
                if str(s.check()) == 'sat':
                    m = self._amodel(s.model()) if want_model else None
                    if m is not None:
                        m.update({S.atoms[a][1]: self.hints[S.atoms[a][1]] for a in ats if S.atoms[a][0] == 'var' and S.atoms[a][1] in self.hints})
                    return self._done('sat', t0), m
            if self._lin is None:
                self._lin = LinSolver()
            if self._lin.refutes(lits, ats, min(int(to), 5000)):
                return self._done('unsat', t0), None
        plans = ['default', 'nlsat'] if nl else ['default']
        for i, plan in enumerate(plans):
            if plan == 'default':
                s = z3.Solver()
            else:
                s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'smt').solver() if False else z3.SolverFor('QF_NRA')
            s.set('timeout', int(to if len(plans) == 1 else to / 2))
            if seed is not None:
                s.set('random_seed', seed)
            s.add(*cons)
            try:
                res = str(s.check())
            except z3.Z3Exception:
                res = 'unknown'
            if res in ('sat', 'unsat'):
                if res == 'sat' and want_model:
                    mod = s.model()
                break
        return self._done(res, t0), (self._amodel(mod) if mod is not None else None)

    def _lipschitz(self, ats):
        """arguments that differ by rounding only give values that differ by rounding only"""
        out, by = [], {}
        for a in sorted(ats):
            k = S.atoms[a][0]
            if k in LIPSCHITZ:
                by.setdefault(k, []).append(a)
        for k, l in by.items():
            if len(l) > 60:
                continue
            for i, a in enumerate(l):
                for b in l[:i]:
                    p, q = S.atoms[a][1], S.atoms[b][1]
                    if set(p.t) - {(0, ())} != set(q.t) - {(0, ())}:
                        continue
                    lo, hi = S.padd(p, S.pscale(q, -1)).bounds()
                    if lo is None:
                        continue
                    d = max(abs(lo), abs(hi))
                    if 0 < d < Fraction(1, 10 ** 6):
                        e = z3.RealVal(str(Fraction(d) * LIPSCHITZ[k]))
                        x, y = self._atoms[a], self._atoms[b]
                        out += [x - y <= e, y - x <= e]
        return out

    def _bmodel(self, mod):
        asg = {}
        for m, k in enumerate(G.kind):
            if k == 'L':
                e = self._def.get(m)
                asg[G.data[m]] = bool(z3.is_true(mod.eval(e, model_completion=True))) if e is not None else None
        return asg

    def _amodel(self, mod):
        asg = {}
        for m, k in enumerate(G.kind):
            if k == 'L':
                e = self._z.get(m)
                asg[G.data[m]] = bool(z3.is_true(mod.eval(e, model_completion=True))) if e is not None else None
        for a, (kind, payload, lo, hi) in enumerate(S.atoms):
            if kind == 'var':
                e = self._atoms.get(a)
                if e is None:
                    asg[payload] = None
                    continue
                v = mod.eval(e, model_completion=True)
                asg[payload] = _num(v)
        return asg


class LinSolver(Solver):
    """over-approximation: every product of two or more terms is a fresh bounded real (linear arithmetic)"""
    def __init__(self):
        Solver.__init__(self)
        self._mono = {}
        self._mside = {}

    def zpoly(self, p):
        terms = []
        for (n, at), c in p.t.items():
            t = None
            if len(at) == 1:
                t = self.zatom(at[0])
            elif at:
                t = self._mono.get(at)
                if t is None:
                    t = self._mono[at] = z3.Real('m' + '_'.join(map(str, at)))
                    lo, hi = S.Poly({(0, at): Fraction(1)}).bounds()
                    self._mside[at] = ([t >= z3.RealVal(str(lo))] if lo is not None else []) + ([t <= z3.RealVal(str(hi))] if hi is not None else [])
            if n:
                t = z3.If(self.znode(n), z3.RealVal(1) if t is None else t, z3.RealVal(0))
            cv = z3.RealVal(str(c))
            terms.append(cv if t is None else (t if c == 1 else cv * t))
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def refutes(self, lits, ats, to):
        cons = [self.zlit(l) for l in lits]
        for a in ats:
            self.zatom(a)
        for a in ats:
            if S.atoms[a][0] == 'inv':
                t = self._atoms[a]
                _, _, lo, hi = S.atoms[a]
                if lo is not None:
                    cons += [t >= z3.RealVal(str(lo)), t <= z3.RealVal(str(hi))]
            elif S.atoms[a][0] == 'sqrt':
                cons.append(self._atoms[a] >= 0)
            else:
                cons += self._side[a]
        for v in self._mside.values():
            cons += v
        s = z3.SolverFor('QF_LRA') if not any(S.atoms[a][0].startswith('fn_') or S.atoms[a][0] == 'uf' for a in ats) else z3.Solver()
        s.set('timeout', to)
        s.add(*cons)
        try:
            return str(s.check()) == 'unsat'
        except z3.Z3Exception:
            return False


def _num(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(30)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return Fraction(0)


# -------------------------------------------------------------------- concrete evaluation under an assignment
class Eval:
    """evaluate guards and terms for a full assignment of leaves and variables"""
    def __init__(self, asg):
        self.asg = asg
        self.n = {0: False}
        self.at = {}

    def lit(self, l):
        r = self.node(l >> 1)
        return (not r) if l & 1 else r

    def node(self, n):
        v = self.n
        if n in v:
            return v[n]
        st = [n]
        while st:
            m = st[-1]
            if m in v:
                st.pop()
                continue
            k = G.kind[m]
            if k == 'L':
                v[m] = bool(self.asg.get(G.data[m]) or False); st.pop()
            elif k == 'A':
                a, b = G.data[m]
                need = [x >> 1 for x in (a, b) if (x >> 1) not in v]
                if need:
                    st.extend(need); continue
                v[m] = all(v[x >> 1] != bool(x & 1) for x in (a, b)); st.pop()
            elif k == 'X':
                need = [x for x in G.data[m] if x not in v]
                if need:
                    st.extend(need); continue
                r = False
                for x in G.data[m]:
                    r ^= v[x]
                v[m] = r; st.pop()
            else:
                op, p = G.data[m]
                q = self.poly(p)
                v[m] = (q < 0) if op == 'lt' else (q == 0)
                st.pop()
        return v[n]

    def atom(self, a):
        if a in self.at:
            return self.at[a]
        kind, payload, lo, hi = S.atoms[a]
        if kind == 'var':
            r = self.asg.get(payload)
            r = Fraction(0) if r is None else r
        elif kind == 'abs':
            r = abs(self.poly(payload))
        elif kind == 'sqrt':
            r = Fraction(math.sqrt(max(0.0, float(self.poly(payload)))))
        elif kind == 'inv':
            q = self.poly(payload)
            r = 1 / Fraction(q) if q else Fraction(0)
        elif kind == 'floor':
            r = math.floor(self.poly(payload))
        elif kind == 'ceil':
            r = math.ceil(self.poly(payload))
        elif kind == 'trunc':
            r = math.trunc(self.poly(payload))
        elif kind == 'rint':
            r = round(Fraction(self.poly(payload)))
        elif kind.startswith('fn_pow'):
            r = Fraction(float(kind[6:]) ** float(self.poly(payload)))
        elif kind.startswith('fn_'):
            import numpy as np
            with np.errstate(all='ignore'):
                f = float(getattr(np, kind[3:])(float(self.poly(payload))))
            r = Fraction(f) if math.isfinite(f) else Fraction(0)
        else:
            raise S.Unsupported('no concrete value for ' + kind)
        self.at[a] = r
        return r

    def poly(self, p):
        t = 0
        for (n, at), c in p.t.items():
            if n and not self.node(n):
                continue
            q = c
            for a in at:
                q = q * self.atom(a)
            t += q
        return t

    def value(self, x):
        if not isinstance(x, S.Sym):
            return x
        if x.g is not None:
            return self.lit(x.g)
        if x._vs is not None:
            for v, g in x._vs.items():
                if self.lit(g):
                    return v
            return None
        return float(self.poly(x._p))
