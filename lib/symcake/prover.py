"""Deciding (in)equalities between integer polynomials with z3.

A context holds facts p >= 0.  A goal g >= 0 is decided by asking z3 whether the facts, together with
products of pairs of facts (which are consequences of them), are inconsistent with g <= -1.  `unsat` is a proof for all
integer values; anything else is "not proven" and never counted as a proof."""
import time, itertools
import z3
from . import poly as PL
from .poly import Poly, syms, mk

from z3 import z3core
class _core:
    pass
for _n in ('Z3_mk_add', 'Z3_mk_mul', 'Z3_mk_ge', 'Z3_mk_le', 'Z3_mk_numeral', 'Z3_solver_assert', 'Z3_inc_ref', 'Z3_dec_ref'):
    setattr(_core, _n, getattr(z3core, _n).__defaults__[-1].f)
ZCTX = z3.main_ctx()
_mono = {}
_term = {}

_QC = {}         # decided queries: (chain of base facts, query) -> answer; the answer depends on nothing else
_CH = {}         # (chain id, fact) -> chain id
QCAP = 600000
def qput(k, v):
    if len(_QC) > QCAP: _QC.clear()
    _QC[k] = v
    return v

class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.quick = 0
        self.refuted = 0
        self.time = 0.0
        self.unknown = 0
        self.models = 0
        self.model_time = 0.0
        self.hits = 0
STATS = Stats()

def reset_cache():
    _mono.clear()
    _term.clear()
    _ge.clear()
    _prod.clear()
    _nums.clear()
    for a in _kept: _core.Z3_dec_ref(_CREF, a)
    _kept.clear()

def zmono(m):
    v = _mono.get(m)
    if v is None:
        v = _mono[m] = z3.Real('m' + '_'.join(map(str, m)))
    return v

_CREF = ZCTX.ref()
_RS = z3.RealSort().ast
_kept = []
def _keep(a):
    _core.Z3_inc_ref(_CREF, a)
    _kept.append(a)
    return a
_nums = {}
def _num(c):
    v = _nums.get(c)
    if v is None: v = _nums[c] = _keep(_core.Z3_mk_numeral(_CREF, str(c).encode(), _RS))
    return v
def _rawlin(p):
    """raw z3 ast (kept alive) of a linear combination over monomials"""
    if isinstance(p, int): return _num(p)
    args = []
    for m, c in p.t.items():
        if m == (): args.append(_num(c))
        else:
            k = (m, c)
            t = _term.get(k)
            if t is None:
                t = zmono(m).ast
                if c != 1: t = _keep(_core.Z3_mk_mul(_CREF, 2, (z3.Ast * 2)(_num(c), t)))
                _term[k] = t
            args.append(t)
    if len(args) == 1: return args[0]
    return _keep(_core.Z3_mk_add(_CREF, len(args), (z3.Ast * len(args))(*args)))
def rawge(p):
    k = p.key()
    v = _ge.get(k)
    if v is None: v = _ge[k] = _keep(_core.Z3_mk_ge(_CREF, _rawlin(p), _num(0)))
    return v
def rawneg(p):
    """p <= -1"""
    return _keep(_core.Z3_mk_le(_CREF, _rawlin(p), _num(-1)))

def zint(p):
    if isinstance(p, int): return z3.IntVal(p)
    args = []
    for m, c in p.t.items():
        if m == (): args.append(z3.IntVal(c))
        else:
            v = z3.Int('n' + '_'.join(map(str, m)))
            args.append(v if c == 1 else v * c)
    return z3.Sum(args)
_ge = {}
_core_assert = _core.Z3_solver_assert
def zge(p):
    return z3.BoolRef(rawge(p), ZCTX)
def zadd(s, p):
    """assert p >= 0"""
    _core_assert(_CREF, s.solver, rawge(p))
def zneg(s, p):
    """assert p <= -1"""
    _core_assert(_CREF, s.solver, rawneg(p))
_prod = {}
def product(p, q):
    k = (p.key(), q.key())
    v = _prod.get(k)
    if v is None:
        v = _prod[k] = p * q
    return v

class Cond:
    __slots__ = ('k', 'a', 'neg_')
    def __init__(self, k, a):
        self.k = k      # 'ge','eq','ne','and','or','op'
        self.a = a
        self.neg_ = None
    def neg(self):
        if self.neg_ is None:
            k, a = self.k, self.a
            if k == 'ge': n = Cond('ge', -a - 1)
            elif k == 'eq': n = Cond('ne', a)
            elif k == 'ne': n = Cond('eq', a)
            elif k == 'and': n = Cond('or', tuple(x.neg() for x in a))
            elif k == 'or': n = Cond('and', tuple(x.neg() for x in a))
            else: n = Cond('op', (not a[0], a[1]))
            n.neg_ = self
            self.neg_ = n
        return self.neg_
    def syms(self):
        if self.k in ('ge', 'eq', 'ne'): return syms(self.a)
        if self.k == 'op': return getattr(self.a[1], 'csyms', frozenset())
        s = frozenset()
        for x in self.a: s |= x.syms()
        return s
    def key(self):
        if self.k in ('ge', 'eq', 'ne'): return (self.k, self.a.key() if isinstance(self.a, Poly) else self.a)
        if self.k == 'op': return ('op', self.a)
        return (self.k, tuple(x.key() for x in self.a))
    def subst(self, d):
        if self.k in ('ge', 'eq', 'ne'):
            return mkcond(self.k, PL.subst_many(self.a, d))
        if self.k == 'op': return self
        return Cond(self.k, tuple(x.subst(d) if isinstance(x, Cond) else x for x in self.a))
    def __repr__(self):
        if self.k in ('ge', 'eq', 'ne'):
            return '(%s %s 0)' % (PL.show(self.a), {'ge': '>=', 'eq': '==', 'ne': '!='}[self.k])
        return '(%s %r)' % (self.k, self.a)

def mkcond(k, p):
    if isinstance(p, int):
        return {'ge': p >= 0, 'eq': p == 0, 'ne': p != 0}[k]
    return Cond(k, p)

def tighten(p):
    """integer tightening of p >= 0"""
    if isinstance(p, int): return p
    import math
    g = 0
    for m, c in p.t.items():
        if m != (): g = math.gcd(g, c)
    if g > 1:
        t = {m: (c // g) for m, c in p.t.items()}
        if () in t and t[()] == 0: del t[()]
        return mk(t)
    return p

class Ctx:
    def __init__(self, timeout_ms=3000):
        self.base = []           # polys >= 0
        self.basekeys = set()
        self.eqs = []            # polys == 0 (also in base both ways)
        self.nes = []
        self.version = 0
        self.pos = {}            # proven cache
        self.negc = {}           # key -> version
        self.s1 = z3.SolverFor('QF_LRA')
        self.s1.set('timeout', timeout_ms)
        self.s2 = None
        self.s2n = 0
        self.scopes = []         # (symid, T)
        self.guards = []         # Cond list, local
        self.nonneg = set()
        self.infeasible = False
        self.log = []            # human readable assumptions
        self.timeout = timeout_ms
        self.low = {}
        self.si = z3.SolverFor('QF_LIA')
        self.si.set('timeout', 800)
        self.nsi = 0
        self.samples = []        # concrete integer assignments satisfying the base facts (used to refute quickly)
        self.sver = 0
        self.defs = {}           # symid -> function(env): value of a derived symbol
        self.order = []
        self.sampler = None
        self._pts = {}
        self.bh = 0              # chain id of the base facts

    # ---- adding facts ----
    def add_ge(self, p, why=None):
        p = tighten(p)
        if isinstance(p, int):
            if p < 0: self.infeasible = True
            return
        k = p.key()
        if k in self.basekeys: return
        self.basekeys.add(k)
        self.base.append(p)
        c = (self.bh, k)
        h = _CH.get(c)
        if h is None: h = _CH[c] = len(_CH) + 1
        self.bh = h
        self.version += 1
        if len(p.t) <= 2 and p.degree() == 1:
            ss = [m for m in p.t if m]
            if len(ss) == 1 and p.t[ss[0]] > 0:
                lo = -p.t.get((), 0)
                s = ss[0][0]
                v = -(-lo // p.t[ss[0]])
                if v >= 0:
                    self.nonneg.add(s)
                    self.low[s] = max(self.low.get(s, 0), v)
        zadd(self.s1, p)
        self._filter(p)
        if p.degree() == 1 and len(p.t) > 2: self._cuts(p)
    def _cuts(self, p):
        """rounding cuts: two linear facts whose sum cancels a symbol and leaves a common factor"""
        import math
        new = []
        for m, c in p.t.items():
            if m == () or abs(c) != 1: continue
            for f in self.base:
                if f.degree() != 1 or f.t.get(m) != -c: continue
                q = p + f
                if isinstance(q, int): continue
                g = 0
                for n, d in q.t.items():
                    if n: g = math.gcd(g, d)
                if g > 1 and q.t.get((), 0) % g and len(q.t) <= 4: new.append(q)
        for q in new: self.add_ge(q)
    def add_eq(self, p):
        if isinstance(p, int):
            if p != 0: self.infeasible = True
            return
        self.eqs.append(p)
        self.add_ge(p)
        self.add_ge(-p)
    def add(self, c):
        if c is True: return
        if c is False:
            self.infeasible = True
            return
        if c.k == 'ge': self.add_ge(c.a)
        elif c.k == 'eq': self.add_eq(c.a)
        elif c.k == 'ne':
            if self.prove_ge(c.a): self.add_ge(c.a - 1)
            elif self.prove_ge(-c.a): self.add_ge(-c.a - 1)
            else: self.nes.append(c.a)
        elif c.k == 'and':
            for x in c.a: self.add(x)
        elif c.k == 'or':
            live = [x for x in c.a if x is not False and not self.prove(x.neg() if isinstance(x, Cond) else (not x))]
            if any(x is True for x in live): return
            if len(live) == 1: self.add(live[0])
            elif not live: self.infeasible = True
            # otherwise kept implicit (weaker facts are sound)

    # ---- concrete sample points (to refute unprovable goals without asking the solver) ----
    def _filter(self, p):
        if not self.samples: return
        keep = [e for e in self.samples if self.val(p, e) is not None and self.val(p, e) >= 0]
        if len(keep) != len(self.samples):
            self.samples = keep
            self.sver += 1
    def val(self, p, env):
        if isinstance(p, int): return p
        s = 0
        for m, c in p.t.items():
            v = c
            for x in m:
                y = env.get(x)
                if y is None:
                    d = self.defs.get(x)
                    if d is None: return None
                    y = d(env)
                    if y is None: return None
                    env[x] = y
                v *= y
            s += v
        return s
    def consistent(self, env):
        for f in self.base:
            v = self.val(f, env)
            if v is None or v < 0: return False
        for q in self.nes:
            if self.val(q, env) == 0: return False
        return True
    def add_samples(self, envs):
        for e in envs:
            if self.consistent(e): self.samples.append(e)
        self.sver += 1
    def cval(self, c, env):
        if c is True or c is False: return c
        if c.k == 'op': return True
        if c.k in ('and', 'or'):
            vs = [self.cval(x, env) for x in c.a]
            if any(v is None for v in vs): return None
            return all(vs) if c.k == 'and' else any(vs)
        v = self.val(c.a, env)
        if v is None: return None
        return v >= 0 if c.k == 'ge' else (v == 0 if c.k == 'eq' else v != 0)
    def points(self):
        k = (self.sver, tuple(s for s, _ in self.scopes), tuple(id(g) for g in self.guards))
        r = self._pts.get(k)
        if r is not None: return r[0]
        if len(self.samples) < 10 and self.sampler is not None:
            self.sampler(self)
            k = (self.sver, k[1], k[2])
        pts = list(self.samples)
        import random
        rnd = random.Random(1)
        todo = list(self.guards)
        def prune(pts, todo):
            left = []
            for g in todo:
                if pts and self.cval(g, pts[0]) is None:
                    left.append(g)
                    continue
                pts = [e for e in pts if self.cval(g, e)]
            return pts, left
        pts, todo = prune(pts, todo)
        for s, T in self.scopes:
            out = []
            for e in pts:
                t = self.val(T, e)
                if t is None or t <= 0: continue
                if t <= 8: vs = range(t)
                else:
                    vs = {0, 1, 2, 3, t // 2, t - 3, t - 2, t - 1}
                    vs.add(rnd.randrange(t))
                    vs.add(rnd.randrange(t))
                for v in vs:
                    n = dict(e)
                    n[s] = v
                    out.append(n)
            out, todo = prune(out, todo)
            if len(out) > 300: out = rnd.sample(out, 300)
            pts = out
        for g in todo:
            pts = [e for e in pts if self.cval(g, e)]
        if not pts and self.samples and self.guards: pts = self._solve_points()
        if len(pts) > 80: pts = rnd.sample(pts, 80)
        self._pts[k] = (pts, list(self.guards))
        return pts
    def _solve_points(self):
        """points for the scopes and guards over known inputs: with the inputs fixed the facts are nearly linear"""
        out = []
        t0 = time.time()
        ids = set(s for s, _ in self.scopes)
        for e in self.samples[:4]:
            s = z3.SolverFor('QF_LIA')
            s.set('timeout', 200)
            pins = dict(e)
            def ex(p):
                p = PL.subst_many(p, pins) if isinstance(p, Poly) else p
                if isinstance(p, int): return z3.IntVal(p)
                for x in p.syms():
                    if x not in ids and x not in pins:
                        d = self.defs.get(x)
                        v = d(dict(pins)) if d is not None else None
                        if v is None: raise KeyError(x)
                        pins[x] = v
                        return ex(p)
                args = []
                for m, c in p.t.items():
                    v = z3.IntVal(c)
                    for x in m: v = v * z3.Int('i%d' % x)
                    args.append(v)
                return z3.Sum(args)
            def cx(c):
                if c is True or c is False: return z3.BoolVal(c)
                if c.k == 'ge': return ex(c.a) >= 0
                if c.k == 'eq': return ex(c.a) == 0
                if c.k == 'ne': return ex(c.a) != 0
                if c.k == 'and': return z3.And([cx(x) for x in c.a])
                if c.k == 'or': return z3.Or([cx(x) for x in c.a])
                return z3.BoolVal(True)
            try:
                for x, T in self.scopes:
                    v = z3.Int('i%d' % x)
                    s.add(v >= 0, v < ex(T))
                for g in self.guards: s.add(cx(g))
            except KeyError:
                continue
            STATS.models += 1
            if s.check() == z3.sat:
                m = s.model()
                n = dict(pins)
                for x in ids: n[x] = m.eval(z3.Int('i%d' % x), model_completion=True).as_long()
                if all(self.cval(g, n) for g in self.guards): out.append(n)
        STATS.model_time += time.time() - t0
        return out
    def refuted(self, p):
        for e in self.points():
            v = self.val(p, e)
            if v is not None and v < 0: return True
        return False

    # ---- proving ----
    def prove(self, c):
        if c is True: return True
        if c is False: return False
        k = c.k
        if k == 'ge': return self.prove_ge(c.a)
        if k == 'eq': return self.prove_eq(c.a)
        if k == 'ne': return self.prove_ge(c.a - 1) or self.prove_ge(-c.a - 1) or self._ne_fact(c.a)
        if k == 'and': return all(self.prove(x) for x in c.a)
        if k == 'or': return any(self.prove(x) for x in c.a)
        return False
    def _ne_fact(self, p):
        for q in self.nes:
            if q == p or q == -p: return True
        for g in self.guards:
            if g.k == 'ne' and (g.a == p or g.a == -p): return True
        # parity style: p = a*q + c
        if isinstance(p, Poly):
            import math
            g = 0
            for m, c in p.t.items():
                if m: g = math.gcd(g, c)
            if g > 1 and p.t.get((), 0) % g: return True
        return False
    def prove_eq(self, p):
        if isinstance(p, int): return p == 0
        return self.prove_ge(p) and self.prove_ge(-p)
    def int_prove(self, p):
        self.nint = getattr(self, 'nint', 0) + 1
        return self.int_prove_(p)
    def int_prove_(self, p):
        """linear integer reasoning (cuts) over the degree-1 base facts"""
        if isinstance(p, int): return p >= 0
        if self.refuted(p): return False
        ck = (self.bh, 'I', p.key())
        c = _QC.get(ck)
        if c is not None:
            STATS.hits += 1
            return c
        while self.nsi < len(self.base):
            f = self.base[self.nsi]
            self.nsi += 1
            if f.degree() == 1: self.si.add(zint(f) >= 0)
        t0 = time.time()
        STATS.queries += 1
        self.si.push()
        self.si.add(zint(p) <= -1)
        r = self.si.check()
        self.si.pop()
        STATS.time += time.time() - t0
        if r == z3.unsat: STATS.unsat += 1
        return qput(ck, r == z3.unsat)
    def int_bounds(self, q, cmax=1):
        """linear bounds of an integer quotient that need integer (not rational) reasoning"""
        if isinstance(q, int): return
        k = ('ib', q.key())
        if self.pos.get(k) == self.version: return
        cand = set()
        for f in self.base:
            if f.degree() == 1: cand |= f.syms()
        for s in sorted(cand):
            x = Poly({(s,): 1})
            done = False
            cr = PL.coeff_split(q, s)
            if cr is None or not isinstance(cr[0], int): continue
            for c in range(1, cmax + 1):
                for g in (c * x - q - 1, c * x - q):
                    if self._lin_known(g) or self.int_prove(g):
                        self.add_ge(g)
                        done = True
                        break
                if done: break
            for c in range(cmax, 0, -1):
                hit = False
                for g in (q - c * x - 1, q - c * x):
                    if self._lin_known(g) or self.int_prove(g):
                        self.add_ge(g)
                        hit = True
                        break
                if hit: break
        for c in (q - 1, q):
            if self._lin_known(c) or self.int_prove(c):
                self.add_ge(c)
                break
        self.pos[k] = self.version
    def seek(self):
        if self.sampler is not None: self.sampler(self)
    def sat(self, timeout=2500):
        """True/False/None: do the base facts have an integer solution?"""
        ck = (self.bh, 'S', timeout, frozenset(q.key() for q in self.nes))
        if ck in _QC:
            STATS.hits += 1
            return _QC[ck]
        s = z3.Solver()
        s.set('timeout', timeout)
        def ex(p):
            args = []
            for m, c in p.t.items():
                e = z3.IntVal(c)
                for x in m: e = e * z3.Int('i%d' % x)
                args.append(e)
            return z3.Sum(args)
        for f in self.base: s.add(ex(f) >= 0)
        for q in self.nes: s.add(ex(q) != 0)
        t0 = time.time()
        STATS.queries += 1
        r = s.check()
        STATS.time += time.time() - t0
        if r == z3.unsat:
            STATS.unsat += 1
            return qput(ck, False)
        return qput(ck, True if r == z3.sat else None)
    def _lin_known(self, p):
        if isinstance(p, int): return p >= 0
        return tighten(p).key() in self.basekeys
    def prove_ge(self, p):
        if isinstance(p, int): return p >= 0
        p = tighten(p)
        if isinstance(p, int): return p >= 0
        if self.refuted(p):
            STATS.refuted += 1
            return False
        if self.scopes:
            ss = p.syms()
            if any(s in ss for s, _ in self.scopes):
                q = self._eliminate(p)
                if q is not None:
                    if isinstance(q, int):
                        if q >= 0: return True
                    elif self._base_prove(q): return True
                return self._full(p)
        if self._base_prove(p): return True
        if self.guards and self._guard_relevant(p):
            return self._full(p)
        return False

    def _guard_relevant(self, p):
        ss = syms(p)
        return any(g.syms() & ss for g in self.guards)

    def _eliminate(self, p):
        for s, T in reversed(self.scopes):
            if isinstance(p, int): return p
            if s not in p.syms(): continue
            cr = PL.coeff_split(p, s)
            if cr is None: return None
            c, r = cr
            if self.prove_ge(c):
                p = r
            elif self.prove_ge(-c):
                p = r + c * (T - 1)
            else:
                return None
        return p

    def _quick(self, p):
        """all coefficients non-negative over non-negative symbols; uses lower bounds"""
        lo = p.t.get((), 0)
        for m, c in p.t.items():
            if m == (): continue
            if c < 0: return False
            v = c
            for s in m:
                if s not in self.nonneg: return False
                v *= self.low.get(s, 0)
            lo += v
        return lo >= 0

    def _base_prove(self, p):
        if isinstance(p, int): return p >= 0
        k = p.key()
        if k in self.pos: return True
        if self.negc.get(k) == self.version: return False
        if self._quick(p):
            self.pos[k] = True
            STATS.quick += 1
            return True
        r = self._z3_base(p)
        if r: self.pos[k] = True
        else: self.negc[k] = self.version
        return r

    def _z3_base(self, p):
        ck = (self.bh, 'B', p.key())
        c = _QC.get(ck)
        if c is not None:
            STATS.hits += 1
            return c
        return qput(ck, self._z3_base_(p))
    def _z3_base_(self, p):
        t0 = time.time()
        STATS.queries += 1
        self.s1.push()
        zneg(self.s1, p)
        # known nonneg monomials of the goal
        for m in p.t:
            if len(m) > 1 and all(s in self.nonneg for s in m):
                lo = 1
                for s in m: lo *= self.low.get(s, 0)
                zadd(self.s1, Poly({m: 1, (): -lo}) if lo else Poly({m: 1}))
        r = self.s1.check()
        self.s1.pop()
        if r == z3.unsat:
            STATS.unsat += 1
            STATS.time += time.time() - t0
            return True
        deg = p.degree()
        if deg >= 2 or any(q.degree() >= 2 for q in self.base):
            s = self._products(p)
            s.push()
            zneg(s, p)
            r = s.check()
            s.pop()
            if r == z3.unsat:
                STATS.unsat += 1
                STATS.time += time.time() - t0
                return True
            if deg >= 3:
                if self._deg3(p):
                    STATS.unsat += 1
                    STATS.time += time.time() - t0
                    return True
        if r == z3.unknown: STATS.unknown += 1
        STATS.time += time.time() - t0
        return False

    def _products(self, p=None):
        if self.s2 is None:
            self.s2 = z3.SolverFor('QF_LRA')
            self.s2.set('timeout', self.timeout)
            self.s2n = 0
        n = len(self.base)
        if self.s2n < n:
            new = range(self.s2n, n)
            for i in new:
                zadd(self.s2, self.base[i])
            for i in new:
                pi = self.base[i]
                if pi.degree() > 1: continue
                for j in range(i + 1):
                    pj = self.base[j]
                    if pj.degree() > 1: continue
                    q = product(pi, pj)
                    if not isinstance(q, int):
                        zadd(self.s2, q)
            self.s2n = n
        return self.s2

    def _deg3(self, p):
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', self.timeout)
        return self._prod_query(p, self.base, [], 3)

    def _closure(self, p, facts, rounds=3):
        ss = set(syms(p))
        chosen = []
        used = set()
        for _ in range(rounds):
            grew = False
            for i, f in enumerate(facts):
                if i in used: continue
                fs = f.syms()
                if fs & ss:
                    used.add(i)
                    chosen.append(f)
                    if not fs <= ss:
                        ss |= fs
                        grew = True
            if not grew: break
        return chosen

    def _local_query(self, p, loc):
        s = self._products()
        s.push()
        for f in loc: zadd(s, f)
        ss = set(syms(p))
        for f in loc: ss |= f.syms()
        zneg(s, p)
        r = s.check() == z3.unsat
        if not r:
            lin = [f for f in loc if f.degree() == 1]
            for i, f in enumerate(lin):
                for g in lin[:i + 1]:
                    q = product(f, g)
                    if isinstance(q, Poly): zadd(s, q)
            for f in lin:
                for g in self.base:
                    if g.degree() == 1 and g.syms() <= ss:
                        q = product(g, f)
                        if isinstance(q, Poly): zadd(s, q)
            r = s.check() == z3.unsat
        s.pop()
        return r
    def _prod_query(self, p, facts, extra, deg, cap=2500):
        facts = self._closure(p, facts + extra)
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', self.timeout)
        for f in facts: zadd(s, f)
        lin = [f for f in facts if f.degree() == 1]
        non = [f for f in facts if f.degree() == 2]
        cnt = 0
        prods = []
        for i in range(len(lin)):
            for j in range(i + 1):
                q = product(lin[i], lin[j])
                if isinstance(q, Poly):
                    zadd(s, q)
                    prods.append(q)
                    cnt += 1
        if deg >= 3:
            gm = set(m for m in p.t if len(m) >= 3)
            for q in prods + non:
                for f in lin:
                    if cnt > cap: break
                    r = product(q, f)
                    if isinstance(r, Poly) and any(m in gm for m in r.t):
                        zadd(s, r)
                        cnt += 1
        zneg(s, p)
        return s.check() == z3.unsat

    def scope_facts(self):
        out = []
        for s, T in self.scopes:
            t = Poly({(s,): 1})
            out.append(t)
            q = T - 1 - t
            out.append(q)
        return out
    def guard_facts(self):
        out = []
        for g in self.guards:
            if g.k == 'ge': out.append(g.a)
            elif g.k == 'eq':
                out.append(g.a)
                out.append(-g.a)
            elif g.k == 'and':
                for x in g.a:
                    if x.k == 'ge': out.append(x.a)
                    elif x.k == 'eq':
                        out.append(x.a); out.append(-x.a)
        return [x for x in out if isinstance(x, Poly)]

    def _full(self, p, extra=()):
        k = ('F', p.key(), tuple(s for s, _ in self.scopes), tuple(g.key() for g in self.guards), tuple(e.key() for e in extra))
        if k in self.pos: return True
        if self.negc.get(k) == self.version: return False
        ck = (self.bh, 'F', k[1], k[2], k[4], tuple(T.key() if isinstance(T, Poly) else T for _, T in self.scopes), tuple(f.key() for f in self.guard_facts()))
        c = _QC.get(ck)
        if c is not None:
            STATS.hits += 1
            if c: self.pos[k] = True
            else: self.negc[k] = self.version
            return c
        t0 = time.time()
        STATS.queries += 1
        loc = self.scope_facts() + self.guard_facts() + list(extra)
        deg = max(2, p.degree())
        r = self._local_query(p, loc)
        if not r: r = self._prod_query(p, self.base, loc, deg)
        STATS.time += time.time() - t0
        if r:
            STATS.unsat += 1
            self.pos[k] = True
        else:
            self.negc[k] = self.version
        return qput(ck, r)

    def unsat_with(self, facts):
        """are the facts (polys >= 0) inconsistent with the context (base, scopes, guards)?"""
        t0 = time.time()
        STATS.queries += 1
        facts = [f for f in facts]
        for f in facts:
            if isinstance(f, int) and f < 0: return True
        facts = [f for f in facts if isinstance(f, Poly)]
        ck = (self.bh, 'U', frozenset(f.key() for f in facts), tuple((s, T.key() if isinstance(T, Poly) else T) for s, T in self.scopes), tuple(f.key() for f in self.guard_facts()))
        c = _QC.get(ck)
        if c is not None:
            STATS.hits += 1
            STATS.queries -= 1
            return c
        allf = self.base + self.scope_facts() + self.guard_facts() + facts
        if not facts:
            r = False
        else:
            seed = facts[0]
            for f in facts[1:]:
                seed_s = f
            ss = set()
            for f in facts: ss |= f.syms()
            dummy = Poly({(x,): 1 for x in ss}) if ss else 0
            fs = self._closure(dummy, allf)
            s = z3.SolverFor('QF_LRA')
            s.set('timeout', self.timeout)
            for f in fs: zadd(s, f)
            r = s.check() == z3.unsat
            if not r:
                lin = [f for f in fs if f.degree() == 1]
                for i in range(len(lin)):
                    for j in range(i + 1):
                        q = product(lin[i], lin[j])
                        if isinstance(q, Poly): zadd(s, q)
                r = s.check() == z3.unsat
        STATS.time += time.time() - t0
        if r: STATS.unsat += 1
        return qput(ck, r)

    # ---- concrete models (for counterexample replay and reachability witnesses) ----
    def model(self, conds=(), pins=None, bounds=None, timeout=2000, seed=0, avoid=(), nolocal=False):
        """integer model of base facts (+scopes/guards) and conds; pins: {symid: int}"""
        t0 = time.time()
        STATS.models += 1
        zi = {}
        def var(s):
            v = zi.get(s)
            if v is None: v = zi[s] = z3.Int('i%d' % s)
            return v
        pins = pins or {}
        def ex(p):
            if isinstance(p, int): return z3.IntVal(p)
            p = PL.subst_many(p, pins)
            if isinstance(p, int): return z3.IntVal(p)
            args = []
            for m, c in p.t.items():
                e = z3.IntVal(c)
                for x in m: e = e * var(x)
                args.append(e)
            return z3.Sum(args)
        def cx(c):
            if c is True or c is False: return z3.BoolVal(c)
            if c.k == 'ge': return ex(c.a) >= 0
            if c.k == 'eq': return ex(c.a) == 0
            if c.k == 'ne': return ex(c.a) != 0
            if c.k == 'and': return z3.And([cx(x) for x in c.a])
            if c.k == 'or': return z3.Or([cx(x) for x in c.a])
            return z3.BoolVal(True)
        s = z3.Solver()
        s.set('timeout', timeout)
        s.set('random_seed', seed)
        for f in self.base: s.add(ex(f) >= 0)
        for q in self.nes: s.add(ex(q) != 0)
        if not nolocal:
            for f in self.scope_facts(): s.add(ex(f) >= 0)
            for g in self.guards: s.add(cx(g))
        for c in conds: s.add(cx(c))
        for sid, (lo, hi) in (bounds or {}).items():
            if sid not in pins:
                s.add(var(sid) >= lo, var(sid) <= hi)
        r = s.check()
        STATS.model_time += time.time() - t0
        if r != z3.sat:
            return None
        m = s.model()
        env = dict(pins)
        for sid, v in zi.items():
            env[sid] = m.eval(v, model_completion=True).as_long()
        return env
