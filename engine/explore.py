"""Path exploration of a harness over the symbolically loaded package, and the deciding queries."""
import importlib
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
from . import guards as G
from . import sym as S
from . import sarr as A
from . import npshim as N
from .sym import Sym, Unsupported
from .sarr import SArr, asS, apply_uf
from .solver import Solver, Eval
from .harness import Inputs, PathEnd

ENGINE_DIR = os.path.dirname(os.path.abspath(__file__))


class Deadline(BaseException):
    pass


class PathBudget(BaseException):
    pass


class Ob:
    """one obligation: literal that must hold"""
    __slots__ = ('lit', 'msg', 'weak', 'arith')

    def __init__(self, lit, msg, weak=()):
        self.lit, self.msg, self.weak = lit, msg, weak


class SymH(Inputs):
    concrete = False

    def __init__(self, pkg, solver, opts):
        self.pkg = pkg
        self.np = pkg.np
        self.solver = solver
        self.opts = opts
        self.queue = [[]]
        self.envs = {}
        self.branch_to = opts.get('branch_timeout', 4000)
        self.rnd = random.Random(opts.get('seed', 1))

    def begin(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.pcset = set()
        self.obs_ = []
        self.observed = []
        self.nz = 0
        self.drawn, self.reseeded = [], False
        self.ndec = 0
        self.nob = 0
        self.envs = {}
        self.cd = self.pkg.fresh()

    # ------------------------------------------------------------ explorer
    def _assume_lit(self, l):
        if l != 1 and l not in self.pcset:
            self.pc.append(l)
            self.pcset.add(l)

    def decide(self, lit):
        if isinstance(lit, (bool, np.bool_)):
            return bool(lit)
        if isinstance(lit, Sym):
            lit = lit.guard()
        if lit == 0:
            return False
        if lit == 1:
            return True
        if lit in self.pcset:
            return True
        if lit ^ 1 in self.pcset:
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t, _ = self.solver.check(self.pc + [lit], timeout=self.branch_to)
            if t == 'unsat':
                v = False
            else:
                f, _ = self.solver.check(self.pc + [lit ^ 1], timeout=self.branch_to)
                v = True
                if f != 'unsat':
                    self.queue.append(self.taken + [False])
                    self.ndec += 1
                    if len(self.queue) > self.opts.get('max_queue', 20000):
                        raise PathBudget()
        self.taken.append(v)
        self._assume_lit(lit if v else lit ^ 1)
        return v

    def choose(self, vs):
        items = list(vs.items())
        for v, g in items[:-1]:
            if self.decide(g):
                return v
        return items[-1][0]

    def fresh_noise(self, size, kind):
        if size is None:
            n, shape = 1, ()
        else:
            shape = (int(size),) if isinstance(size, (int, np.integer)) else tuple(int(s) for s in size)
            n = int(np.prod(shape)) if shape else 1
        o = np.empty(n, dtype=object)
        for i in range(n):
            o[i] = self._var('noise[%d]' % (self.nz + i), -4, 4)
        self.nz += n
        self.drawn += [(kind, v) for v in o]
        a = SArr(o.reshape(shape), S.FLOAT)
        return a if size is not None else a.a[()]

    noise = lambda self, size: self.fresh_noise(size, 'n')

    def env(self, name):
        f = self.envs.get(name)
        if f is None:
            raise Unsupported('no environment model for ' + name)
        return f

    def env_set(self, name, fn):
        self.envs[name] = fn

    # ------------------------------------------------------------ inputs
    def _hint(self, d):
        """values the solver may try first in nonlinear queries"""
        self.solver.hints.update({k: S.fr(v) for k, v in d.items()})

    def nominal(self, x):
        """numeric value of an expression with the hinted inputs"""
        ev = Eval(dict(self.solver.hints))
        x = asS(x)
        return np.array([float(ev.value(v)) for v in x.a.reshape(-1)]).reshape(x.shape)

    def _leaf(self, name):
        return G.leaf(name)

    def _bit(self, name):
        return Sym(S.INT, p=S.pind(G.leaf(name)))

    def _code(self, name, k, n):
        """code bits -> {index: guard}"""
        vs = {0: 1}
        for b in range(k):
            l = G.leaf('%s.%d' % (name, b))
            nx = {}
            for v, g in vs.items():
                nx[v] = G.and_(g, l ^ 1)
                nx[v + (1 << b)] = G.and_(g, l)
            vs = nx
        out = {}
        for v, g in vs.items():
            v = v if v < n else v - n
            out[v] = G.or_(out.get(v, 0), g)
        return out

    def _pick(self, name, values):
        n = len(values)
        k = max(1, (n - 1).bit_length())
        dt = np.dtype(complex) if any(isinstance(v, complex) for v in values) else np.dtype(float) if any(isinstance(v, float) for v in values) else np.dtype(np.int64)
        vs = {}
        for i, g in self._code(name, k, n).items():
            v = S.canon(values[i], dt)
            vs[v] = G.or_(vs.get(v, 0), g)
        return S.mkvs(dt, vs)

    def _int(self, name, lo, hi):
        n = hi - lo + 1
        if n == 1:
            return lo
        k = (n - 1).bit_length()
        if n == 1 << k:
            p = S.pconst(lo)
            for b in range(k):
                p = S.padd(p, S.pscale(S.pind(G.leaf('%s.%d' % (name, b))), 1 << b))
            return Sym(S.INT, p=p)
        return S.mkvs(S.INT, {lo + i: g for i, g in self._code(name, k, n).items()})

    def _var(self, name, lo, hi):
        a = S.new_atom('var', name, name, S.fr(lo) if lo is not None else None, S.fr(hi) if hi is not None else None)
        return Sym(S.FLOAT, p=S.pvar(a))

    def _array(self, name, shape, f, dtype):
        shape, names = self._idx(name, shape)
        dt = A.norm_dtype(dtype)
        o = np.empty(len(names), dtype=object)
        for i, n in enumerate(names):
            v = f(n)
            sd = v.dt if isinstance(v, Sym) else (np.dtype(float) if isinstance(v, float) else np.dtype(np.int64))
            o[i] = S.cast(v, sd, dt)
        return SArr(o.reshape(shape), dt)

    def _scalar(self, v, dtype):
        return S.wrap_scalar(v, A.norm_dtype(dtype)) if not isinstance(v, Sym) or v.dt == A.norm_dtype(dtype) else v

    # ------------------------------------------------------------ specification
    def _lit(self, c):
        if isinstance(c, SArr):
            c = A.reduce_all(c)
        if isinstance(c, (list, tuple)):
            return G.and_all([self._lit(x) for x in c])
        if isinstance(c, Sym):
            return c.guard()
        if isinstance(c, np.ndarray):
            return int(bool(np.all(c)))
        return int(bool(c))

    def assume(self, c, quick=False):
        """quick: leave finding out that the path has ended to the later queries"""
        l = self._lit(c)
        if l == 0:
            raise PathEnd()
        self._assume_lit(l)
        if quick:
            return
        r, _ = self.solver.check(self.pc, timeout=self.branch_to)
        if r == 'unsat':
            raise PathEnd()

    def check(self, c, msg):
        self.nob += 1
        self.obs_.append(Ob(self._lit(c), msg))

    def observe(self, x):
        self.observed.append(None if x is None else asS(x))

    def eq(self, a, b, msg, tol=0):
        if a is None:
            self.obs_.append(Ob(0, msg + ': got None'))
            return
        a, b = asS(a), asS(b)
        self.observe(a)
        if a.shape != b.shape:
            self.obs_.append(Ob(0, '%s: shape %s instead of %s' % (msg, a.shape, b.shape)))
            return
        for i, (x, y) in enumerate(zip(a.a.reshape(-1), b.a.reshape(-1))):
            self.nob += 1
            if x is y:
                self.solver.stats.trivial += 1
                continue
            l = self._eqlit(x, y, a.dt, b.dt, tol)
            if l == 1:
                self.solver.stats.trivial += 1
                continue
            weak = ()
            if G.has_atom([l]):
                weak = tuple(self._eqlit(x, y, a.dt, b.dt, t) for t in (0.3, 0.01, 1e-4) if t > tol)
            self.obs_.append(Ob(l, '%s: element %d' % (msg, i), weak))

    def _eqlit(self, x, y, xd, yd, tol):
        if xd.kind == 'O' or yd.kind == 'O':
            raise Unsupported('object array compared')
        if tol == 0:
            r = S.cmp_el('eq', S.cast(x, xd, S.FLOAT) if xd.kind == 'b' else x, S.cast(y, yd, S.FLOAT) if yd.kind == 'b' else y)
            return r.g if isinstance(r, Sym) else int(bool(r))
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            return int(abs(float(x) - float(y)) <= tol)
        d = S.add_el(S.cast(x, xd, S.FLOAT), S.cast(y, yd, S.FLOAT), S.FLOAT, sub=True)
        if not isinstance(d, Sym):
            return int(abs(d) <= tol)
        r1 = S.cmp_el('le', d, tol)
        r2 = S.cmp_el('ge', d, -tol)
        return G.and_(r1.g if isinstance(r1, Sym) else int(r1), r2.g if isinstance(r2, Sym) else int(r2))

    def raises(self, fn, *a, **k):
        try:
            fn(*a, **k)
        except Unsupported:
            raise
        except Exception as e:
            if engine_fault(e):
                raise Unsupported('engine: %r' % (e,)) from e
            self.observed.append('raise')
            return True
        self.observed.append('noraise')
        return False

    def module(self, name):
        return self.pkg.load(name)

    def rejects(self, fn, *a, **k):
        try:
            fn(*a, **k)
        except Unsupported:
            raise
        except ValueError as e:
            if engine_fault(e):
                raise Unsupported('engine: %r' % (e,)) from e
            self.observed.append('reject')
            return True
        self.observed.append('accept')
        return False

    def and_(self, *xs):
        return S.mkbool(G.and_all([self._lit(x) for x in xs]))

    def or_(self, *xs):
        return S.mkbool(G.or_all([self._lit(x) for x in xs]))

    def not_(self, x):
        if isinstance(x, SArr):
            return apply_uf(np.logical_not, x)
        return S.mkbool(self._lit(x) ^ 1)

    def ite(self, c, a, b):
        l = self._lit(c)
        if l == 1:
            return a
        if l == 0:
            return b
        dt = np.result_type(_dt(a), _dt(b))
        return S.wrap_scalar(S.ite_el(l, S.cast(_el(a), _dt(a), dt), S.cast(_el(b), _dt(b), dt), dt), dt)

    def fresh(self):
        self.cd = self.pkg.fresh()
        return self.cd

    def snapshot(self, x):
        return self.np.array(x)

    def is_finite(self, x):
        x = asS(x)
        for v in x.a.reshape(-1):
            if isinstance(v, Sym):
                vs = v.quick_vs()
                if vs is not None and any(not np.isfinite(q) for q in vs):
                    return S.mkbool(G.or_all([g for q, g in vs.items() if not np.isfinite(q)]) ^ 1)
            elif not np.isfinite(v):
                return False
        return True


def _dt(x):
    if isinstance(x, (Sym, SArr)):
        return x.dt
    return np.asarray(x).dtype


def _el(x):
    if isinstance(x, SArr):
        return x._one()
    if isinstance(x, np.generic):
        return S.canon(x, x.dtype)
    return x


def engine_fault(e):
    """exceptions that come from a gap of the engine rather than from the code under test"""
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return False
    inner = os.path.abspath(tb[-1].filename).startswith(ENGINE_DIR)
    return inner and isinstance(e, (AttributeError, NotImplementedError, KeyError, AssertionError, RecursionError, NameError, UnboundLocalError))


# ====================================================================== one case
def functions_monitor(repo):
    """record package functions executed (PEP 669, disabled per code object after its first hit)"""
    seen = set()
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, 'vt')
    except ValueError:
        pass
    pre = os.path.realpath(repo) + os.sep

    def start(code, off):
        f = code.co_filename
        if f.startswith(pre) and not code.co_name.startswith('<'):
            seen.add(os.path.relpath(f, pre) + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)
    return seen


def explore(pkg, module, fn, params, opts, replay, log):
    """returns a result dict for one case"""
    t0 = time.time()
    S.reset()
    N.used_fallbacks.clear()
    N.used_models.clear()
    fnames = functions_monitor(pkg.repo)
    solver = Solver(opts.get('query_timeout', 20000), opts.get('seed', 1))
    h = SymH(pkg, solver, opts)
    S.ctx[0] = h
    mod = importlib.import_module('props.' + module)
    f = getattr(mod, fn)
    res = dict(case=opts.get('name'), paths=0, ended=0, obligations=0, decided=True, notes=[], violation=None,
               witnesses=0, functions=[], complete=False)
    deadline = opts.get('deadline', 60)

    def onalarm(*a):
        raise Deadline()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, deadline)
    try:
        while h.queue:
            prefix = h.queue.pop()
            h.begin(prefix)
            crash = None
            try:
                f(h, **params)
            except PathEnd:
                res['ended'] += 1
                continue
            except Unsupported as e:
                res['decided'] = False
                note(res, 'unsupported: %s%s' % (e, where(e, pkg.repo)))
                # still run the real code on an input of this path: a violation there is a violation
                v = probe(h, replay, module, fn, params, res, opts)
                if v:
                    res['violation'] = v
                    break
                if res['paths'] == 0 and len(res['notes']) > 6:
                    break
                continue
            except Exception as e:
                if opts.get('debug'):
                    traceback.print_exc()
                if engine_fault(e):
                    res['decided'] = False
                    note(res, 'engine: %r%s' % (e, where(e, pkg.repo)))
                    v = probe(h, replay, module, fn, params, res, opts)
                    if v:
                        res['violation'] = v
                        break
                    continue
                crash = '%s: %s%s' % (type(e).__name__, str(e)[:200], where(e, pkg.repo))
                h.obs_.append(Ob(0, 'raised ' + crash))
            res['paths'] += 1
            v = decide_path(h, solver, replay, module, fn, params, res, opts, log)
            if v:
                res['violation'] = v
                break
            if opts.get('max_paths') and res['paths'] >= opts['max_paths'] and h.queue:
                res['decided'] = False
                note(res, 'path budget %d reached' % opts['max_paths'])
                break
    except Deadline:
        res['decided'] = False
        note(res, 'deadline %ss reached after %d paths' % (deadline, res['paths']))
    except PathBudget:
        res['decided'] = False
        note(res, 'too many paths')
    except (MemoryError, RecursionError) as e:
        res['decided'] = False
        note(res, 'resource: %r' % (e,))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if res['paths'] == 0 and not res['violation']:
        res['decided'] = False
        note(res, 'no path reached the end (vacuous)')
    if res['decided'] and res['witnesses'] == 0 and not res['violation']:
        res['decided'] = False
        note(res, 'no reachability witness')
    res['complete'] = res['decided']
    res['functions'] = sorted(fnames)
    res['fallbacks'] = sorted(N.used_fallbacks)
    res['models'] = sorted(N.used_models)
    res['solver'] = solver.stats.as_dict()
    res['nodes'] = len(G.kind)
    res['wall'] = round(time.time() - t0, 3)
    return res


def note(res, s):
    if s not in res['notes'] and len(res['notes']) < 20:
        res['notes'].append(s)


def where(e, repo):
    tb = traceback.extract_tb(e.__traceback__)
    at = [f for f in tb if f.filename.startswith(os.path.realpath(repo) + os.sep)]
    return ' at %s:%s' % (os.path.relpath(at[-1].filename, repo), at[-1].lineno) if at else ''


def complete(h, asg):
    """fill inputs the model leaves open with seeded random values of their domain"""
    out = {}
    asg = asg or {}
    r = h.rnd
    for m, k in enumerate(G.kind):
        if k == 'L':
            n = G.data[m]
            v = asg.get(n)
            out[n] = bool(r.getrandbits(1)) if v is None else bool(v)
    for (kind, name, lo, hi) in S.atoms:
        if kind == 'var':
            v = asg.get(name)
            if v is None:
                l = -1 if lo is None else lo
                u = l + 2 if hi is None else hi
                v = Fraction(l) + (Fraction(u) - Fraction(l)) * Fraction(r.randrange(0, 4097), 4096)
            out[name] = Fraction(v)
    return out


def dyadic(h, asg, lits):
    """the same model with its real inputs on a coarse binary grid where that keeps every condition
    (so that the floating-point run of the real code meets the same ties)"""
    vs = [(name, lo, hi) for (kind, name, lo, hi) in S.atoms if kind == 'var']
    if not vs:
        return asg
    for q in (3, 8, 16):
        a = dict(asg)
        for name, lo, hi in vs:
            v = Fraction(round(asg[name] * 2 ** q), 2 ** q)
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                v = asg[name]
            a[name] = v
        try:
            ev = Eval(a)
            if all(ev.lit(l) for l in lits):
                return a
        except (Unsupported, ArithmeticError, TypeError):
            return asg
    return asg


def jsonable(asg):
    return {k: (float(v) if isinstance(v, Fraction) else v) for k, v in asg.items()}


def same_obs(x, y):
    """compare a symbolic observation evaluated under the model with the replayed one"""
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x == y
    if list(x[1]) != list(y[1]):
        return False
    for a, b in zip(x[2], y[2]):
        if isinstance(a, list) or isinstance(b, list):
            return True
        if a == b or (a != a and b != b):
            continue
        if a is None or b is None:
            return False
        if not abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)):
            return False
    return True


def eval_obs(h, asg):
    ev = Eval(asg)
    out = []
    for o in h.observed:
        if o is None or isinstance(o, str):
            out.append(o)
            continue
        if o.dt.kind not in 'biuf':
            out.append(['other', list(o.shape), []])
            continue
        vals = []
        for v in o.a.reshape(-1):
            q = ev.value(v)
            vals.append(None if q is None else float(q))
        out.append([o.dt.kind, list(o.shape), vals])
    return out, ev


def run_replay(replay, module, fn, params, asg, opts):
    return replay(dict(module=module, fn=fn, params=params, asg=jsonable(asg), timeout=opts.get('replay_timeout', 60)))


def confirmed(r, module, fn, params, asg):
    return dict(fails=r['fails'], module=module, fn=fn, params=params, asg=jsonable(asg))


def probe(h, replay, module, fn, params, res, opts):
    """the path could not be encoded to its end: run the real code on one of its inputs"""
    if res.get('probes', 0) >= opts.get('max_probes', 6):
        return None
    res['probes'] = res.get('probes', 0) + 1
    r, m = h.solver.check(h.pc, want_model=True, timeout=5000) if h.pc else ('sat', {})
    if r != 'sat':
        return None
    asg = complete(h, m)
    rr = run_replay(replay, module, fn, params, asg, opts)
    if rr['status'] == 'fail':
        return confirmed(rr, module, fn, params, asg)
    return None


def margin(h, lits, d):
    """the same conjunction with strict slack on its direct inequalities (models away from boundaries)"""
    out = []
    flat, todo = [], list(lits)
    while todo and len(flat) < 2000:
        l = todo.pop()
        if not l & 1 and G.kind[l >> 1] == 'A':
            todo.extend(G.data[l >> 1])
        else:
            flat.append(l)
    for l in flat + todo:
        n = l >> 1
        if G.kind[n] == 'Z' and G.data[n][0] == 'lt':
            p = G.data[n][1]
            out.append(S.cmp_poly('lt', S.padd(p, S.pconst(d))) if not l & 1 else S.cmp_poly('lt', S.padd(p, S.pconst(-d))) ^ 1)
        else:
            out.append(l)
    return out


def decide_path(h, solver, replay, module, fn, params, res, opts, log):
    """the deciding queries of one path: path condition and negated obligations"""
    obs = h.obs_
    res['obligations'] += h.nob
    todo = [o for o in obs if o.lit != 1]
    solver.stats.trivial += len(obs) - len(todo)
    wits = []
    # reachability witness
    if res['witnesses'] < opts.get('witnesses', 3) or any(isinstance(o, str) for o in h.observed) and res['witnesses'] < 24:
        r, m = solver.check(margin(h, h.pc, Fraction(1, 1000)), want_model=True, timeout=opts.get('witness_timeout', 8000)) if h.pc else ('sat', {})
        if r != 'sat' and h.pc:
            r, m = solver.check(h.pc, want_model=True, timeout=opts.get('witness_timeout', 8000))
        if r == 'unsat':
            res['paths'] -= 1
            res['ended'] += 1
            return None
        if r == 'sat':
            asg = dyadic(h, complete(h, m), h.pc)
            rr = run_replay(replay, module, fn, params, asg, opts)
            if rr['status'] == 'fail':
                return confirmed(rr, module, fn, params, asg)
            if rr['status'] == 'ok':
                try:
                    mine, ev = eval_obs(h, asg)
                except Unsupported:
                    mine = None
                if mine is not None:
                    if len(mine) != len(rr['obs']) or not all(same_obs(a, b) for a, b in zip(mine, rr['obs'])):
                        bad = [i for i, (a, b) in enumerate(zip(mine, rr['obs'])) if not same_obs(a, b)][:1]
                        # float rounding may take another branch at a boundary: allow one retry with another model
                        res['mismatch'] = res.get('mismatch', 0) + 1
                        if res['mismatch'] > opts.get('mismatch_ok', 0):
                            res['decided'] = False
                            note(res, 'encoding disagrees with the real run at observation %s: %s vs %s' % (
                                bad, str([mine[i] for i in bad])[:200], str([rr['obs'][i] for i in bad])[:200]))
                    else:
                        res['witnesses'] += 1
                else:
                    res['witnesses'] += 1
            elif rr['status'] != 'ok':
                res['decided'] = False
                note(res, 'witness replay: %s %s' % (rr['status'], rr['fails']))
        else:
            note(res, 'witness query: ' + r)
    if not todo:
        if obs or h.observed:
            solver.check_false(h.pc)
        return None
    boolean = [o for o in todo if not G.has_atom([o.lit])]
    arith = [o for o in todo if G.has_atom([o.lit])]
    cands = 0
    groups = []
    if boolean:
        groups.append(boolean)
    # arithmetic obligations one by one (cheaper queries, usable verdicts)
    seen = set()
    for o in arith:
        if o.lit in seen:
            continue
        seen.add(o.lit)
        groups.append([o])
    for grp in groups:
        neg = G.or_all([o.lit ^ 1 for o in grp])
        tried = []
        r, m = solver.check(h.pc + [neg], want_model=True)
        if r == 'unsat':
            continue
        if r == 'unknown':
            res['decided'] = False
            note(res, 'solver unknown for: ' + grp[0].msg)
            # look for a counterexample with more slack all the same
        models = []
        if len(grp) == 1 and grp[0].weak:
            for w in grp[0].weak:
                r2, m2 = solver.check(margin(h, h.pc, Fraction(1, 100)) + [w ^ 1], want_model=True, timeout=5000)
                if r2 == 'sat':
                    models.append(m2)
                    break
        if r == 'sat':
            models.append(m)
            if any(G.has_atom([l]) for l in h.pc):
                r2, m2 = solver.check(margin(h, h.pc, Fraction(1, 100)) + [neg], want_model=True, timeout=5000)
                if r2 == 'sat':
                    models.insert(0, m2)
            if len(grp) > 1 or not grp[0].weak:
                for o in grp[:3]:
                    r3, m3 = solver.check(h.pc + [o.lit ^ 1], want_model=True, timeout=5000)
                    if r3 == 'sat':
                        models.append(m3)
        for m in models[:5]:
            asg = dyadic(h, complete(h, m), h.pc + [neg])
            rr = run_replay(replay, module, fn, params, asg, opts)
            cands += 1
            if rr['status'] == 'fail':
                return confirmed(rr, module, fn, params, asg)
        if r == 'sat':
            res['decided'] = False
            res['spurious'] = res.get('spurious', 0) + 1
            note(res, 'counterexample to "%s" did not reproduce on the real code' % grp[0].msg)
            if res['spurious'] >= opts.get('max_spurious', 12):
                return None
    return None
