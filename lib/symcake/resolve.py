"""Which value does an array element hold at the end of a path?

Event families recorded by the engine (packing stores, kernel tiles, unpacking stores) are inverted symbolically: the
family's loop variables are solved as the digits of a mixed-radix representation of the wanted address, each digit
justified by solver-proved range facts; conditions the facts do not settle are case-split."""
from . import poly as PL
from .poly import Poly, syms
from .prover import Cond, mkcond
from .sym import Unsupported

class Unresolved(Exception):
    pass
class NeedOuter(Exception):
    def __init__(self, c): self.c = c
class Uninit(Exception):
    pass

class Dot:
    """sum over kappa in [0,T) (and over extra summed variables) of A-term * B-term, as resolved leaves"""
    def __init__(self, leaves, sid, T):
        self.leaves, self.sid, self.T = leaves, sid, T

class Resolver:
    def __init__(self, e, maxcases=300):
        self.e = e
        self.ctx = e.ctx
        self.maxcases = maxcases
        self.ncases = 0
        self.nsolve = 0
        self.eqmap = {}
        for q in e.ctx.eqs: self.add_eq(q)
        self.derive()
        self._norm = {}

    def derive(self):
        """equalities the path facts imply: symbols with one value, quotients equal to another symbol (up to a constant)"""
        ctx = self.ctx
        ctx.seek()
        pts = [x for x in ctx.samples]
        if not pts: return
        cand = set()
        for f in ctx.base:
            if f.degree() == 1: cand |= f.syms()
        cand = sorted(x for x in cand if x not in self.eqmap)
        vals = {}
        for x in cand:
            v = [ctx.val(Poly({(x,): 1}), p) for p in pts]
            if None not in v: vals[x] = v
        def imp(p):
            return (ctx.prove_ge(p) or ctx.int_prove(p)) and (ctx.prove_ge(-p) or ctx.int_prove(-p))
        for x in list(vals):
            if len(set(vals[x])) == 1:
                p = Poly({(x,): 1}) - vals[x][0]
                if imp(p):
                    ctx.add_eq(p)
                    self.add_eq(p)
                    del vals[x]
        qs = set(PL.symid(q) for q, _, _ in self.e.divlist)
        for x in [x for x in vals if x in qs]:
            for y in vals:
                if y == x or (y in qs and y > x) or x in self.eqmap: continue
                df = set(a - b for a, b in zip(vals[x], vals[y]))
                if len(df) == 1:
                    p = Poly({(x,): 1}) - Poly({(y,): 1}) - df.pop()
                    if imp(p):
                        ctx.add_eq(p)
                        self.add_eq(p)

    # ---- equalities known on the path are used to rewrite every polynomial ----
    def add_eq(self, q):
        q = PL.subst_many(q, self.eqmap)
        if isinstance(q, int): return
        best = None
        for s in sorted(q.syms(), reverse=True):
            cr = PL.coeff_split(q, s)
            if cr is not None and isinstance(cr[0], int) and abs(cr[0]) == 1:
                best = (s, -cr[1] if cr[0] == 1 else cr[1])
                # prefer eliminating problem sizes over quotients: keep the last created otherwise
                break
        if best is None: return
        s, v = best
        for k in list(self.eqmap): self.eqmap[k] = PL.subst(self.eqmap[k], s, v)
        self.eqmap[s] = v
    def norm(self, p):
        if isinstance(p, int) or not self.eqmap: return p
        k = p.key()
        r = self._norm.get(k)
        if r is None:
            r = self._norm[k] = PL.subst_many(p, self.eqmap)
        return r
    def nsub(self, p, sub):
        return self.norm(PL.subst_many(p, sub))

    # ---- case splitting ----
    def decide(self, c):
        if c is True or c is False: return c
        if self.ctx.prove(c): return True
        if self.ctx.prove(c.neg()): return False
        raise NeedOuter(c)

    def cases(self, fn, own=None, cap=64):
        """run fn under every combination of undecided conditions: list of (guards, result).
        own: symbols of this level; conditions free of them are left to the enclosing level"""
        out = []
        ctx = self.ctx
        g0 = len(ctx.guards)
        todo = [[]]
        try:
            while todo:
                assume = todo.pop()
                self.ncases += 1
                if self.ncases > self.maxcases: raise Unresolved('too many cases')
                if len(todo) + len(out) > cap: raise Unresolved('too many cases at one level')
                ctx.guards.extend(assume)
                try:
                    out.append((assume, fn()))
                except NeedOuter as n:
                    if own is not None and not (n.c.syms() & own): raise
                    todo.append(assume + [n.c.neg()])
                    todo.append(assume + [n.c])
                except (Unresolved, Uninit):
                    if not self.contradictory(): raise
                finally:
                    del ctx.guards[g0:]
        finally:
            del ctx.guards[g0:]
        return out

    def contradictory(self):
        """the present guards cannot hold (so this case is empty)"""
        ctx = self.ctx
        if not ctx.guards: return False
        if ctx.samples and ctx.points(): return False
        for g in ctx.guards:
            rest = [x for x in ctx.guards if x is not g]
            save, ctx.guards = ctx.guards, rest
            try:
                if ctx.prove(g.neg()): return True
            finally: ctx.guards = save
        return False

    # ---- solving addresses ----
    def prove_ge(self, p):
        return self.ctx.prove_ge(p)

    def digit(self, t, stride):
        """t = q*stride + rem with 0 <= rem < stride"""
        self.nsolve += 1
        if isinstance(stride, int) and stride == 1: return t, 0
        q, rem = PL.divide(t, stride) if not isinstance(t, int) or isinstance(stride, int) else (0, t)
        for _ in range(4):
            if self.decide(mkcond('ge', rem)): break
            q, rem = q - 1, rem + stride
        else: raise Unresolved('digit below')
        for _ in range(4):
            if self.decide(mkcond('ge', stride - 1 - rem)): return q, rem
            q, rem = q + 1, rem - stride
        raise Unresolved('digit above: %s by %s' % (PL.show(t), PL.show(stride)))

    def hull(self, lo, hi, bvs):
        return self.e.hull(lo, hi, bvs)

    def outside(self, addr, ev):
        h = self.e.hull(self.norm(ev.lo), self.norm(ev.hi), [(b, self.norm(T)) for b, T in ev.bvs if b not in self.scopeset()])
        if h is None: return False
        return self.prove_ge(h[0] - 1 - addr) or self.prove_ge(addr - h[1])

    def scopeset(self):
        return set(s for s, _ in self.ctx.scopes)

    def match(self, addr, ev):
        """None if ev does not touch addr (in this case); else (substitution, offset inside the event's range, free bvs)"""
        inscope = self.scopeset()
        bvs = [(s, self.norm(T)) for s, T in ev.bvs if s not in inscope]
        elo = self.norm(ev.lo)
        if self.outside(addr, ev): return None
        # strides
        los = syms(elo)
        unk = []
        free = []
        for s, T in bvs:
            if s in los: unk.append((s, T))
            else: free.append((s, T))
        base = elo
        dig = []
        for s, T in unk:
            cr = PL.coeff_split(base, s)
            if cr is None: raise Unresolved('non-linear address')
            dig.append((cr[0], s, T))
            base = cr[1]
        if any(set(syms(c)) & set(s for s, _ in unk) for c, _, _ in dig): raise Unresolved('non-linear address')
        width = self.norm(ev.hi - ev.lo)
        if set(syms(width)) & set(s for s, _ in bvs): raise Unresolved('variable width')
        # order the digits by stride (each stride must exceed the span of the smaller ones)
        order = self.order(dig, width)
        t = addr - base
        sub = {}
        live = []
        for s, T in free:
            T = self.nsub(T, sub)
            if T == 1 or (isinstance(T, Poly) and self.ctx.prove_ge(1 - T)):     # runs at most once
                if isinstance(T, Poly) and not self.decide(mkcond('ge', T - 1)): return None
                sub[s] = 0
            else: live.append((s, T))
        free = live
        for c, s, T in order:
            if isinstance(c, int) and c == 1 and isinstance(width, int) and width == 1:
                q, t = t, 0
            else:
                q, t = self.digit(t, c)
            if not self.decide(mkcond('ge', q)): return None
            if not self.decide(mkcond('ge', self.nsub(T, sub) - 1 - q)): return None
            sub[s] = q
        if not self.decide(mkcond('ge', t)): return None
        if not self.decide(mkcond('ge', width - 1 - t)): return None
        for g in ev.guards:
            g = g.subst(sub)
            if isinstance(g, Cond): g = g.subst(self.eqmap)
            if isinstance(g, Cond) and g.syms() & set(s for s, _ in free): raise Unresolved('guard on a summed variable')
            if not self.decide(g): return None
        return sub, t, free

    def order(self, dig, width):
        """sort digits by stride, largest first, and prove the mixed-radix property"""
        rest = list(dig)
        out = []
        span = width - 1          # largest value representable by the digits placed so far (smallest strides first)
        while rest:
            # smallest stride: one that is <= all others
            best = None
            for i, (c, s, T) in enumerate(rest):
                if all(j == i or self.prove_ge(rest[j][0] - c * T) for j in range(len(rest))):
                    best = i
                    break
            if best is None:
              for i, (c, s, T) in enumerate(rest):
                if all(j == i or self.prove_ge(rest[j][0] - c) for j in range(len(rest))):
                    best = i
                    break
            if best is None: raise Unresolved('cannot order strides')
            c, s, T = rest.pop(best)
            if not self.prove_ge(c - 1 - span):
                raise Unresolved('overlapping digits: stride %s, span %s' % (PL.show(c), PL.show(span)))
            out.append((c, s, T))
            span = span + c * (T - 1)
        out.reverse()
        return out

    # ---- values ----
    def element(self, o, addr, ver):
        """resolve element addr of o after the first ver events: list of terms"""
        terms = []
        for i in range(ver - 1, -1, -1):
            ev = o.hist[i]
            r = self.match(addr, ev)
            if r is None: continue
            sub, off, free = r
            if ev.kind == 'fill':
                return terms
            if ev.kind == 'store':
                if free: raise Unresolved('store repeated by a loop')
                terms += self.value(ev.val, sub, ev)
                return terms
            if ev.kind == 'accum':
                if free: raise Unresolved('accumulation repeated by a loop')
                terms += self.value(ev.val, sub, ev)
                continue
            if ev.kind == 'kern':
                terms.append(self.kern(ev, sub, off, free))
                continue
            raise Unresolved(ev.kind)
        if o.init == 'zero': return terms
        if o.init == 'base':
            terms.append(('init', 1, o, addr))
            return terms
        raise Uninit('%s[%s]' % (o.name, PL.show(addr)))

    def value(self, v, sub, ev):
        if isinstance(v, int):
            return [] if v == 0 else [('const', v)]
        if not isinstance(v, Poly): raise Unresolved('value %r' % (v,))
        out = []
        for m, c in v.t.items():
            if m == ():
                out.append(('const', c))
                continue
            if len(m) == 1 and m[0] in self.e.atoms:
                a = self.e.atoms[m[0]]
                if a[0] != 'load': raise Unresolved('value atom %s' % a[0])
                ts = self.element(a[1], self.nsub(a[3], sub), a[2])
                if c != 1:
                    ts = [('init', c * t[1], t[2], t[3]) if t[0] == 'init' else ('const', c * t[1]) if t[0] == 'const' else ('scaled', c, t) for t in ts]
                out += ts
                continue
            raise Unresolved('value monomial')
        return out

    def kern(self, ev, sub, off, free):
        x = ev.x
        R, S, n, k = x['R'], x['S'], x['n'], x['k']
        i, j = self.digit(off, S)
        k = self.nsub(k, sub)
        a = self.nsub(x['a'], sub)
        b = self.nsub(x['b'], sub)
        kp = PL.sym('k%d' % len(PL.NAMES))
        kid = PL.symid(kp)
        fr = [(s, self.nsub(T, sub)) for s, T in free]
        n0 = len(self.ctx.scopes)
        self.ctx.scopes.extend(fr)
        self.ctx.scopes.append((kid, k))
        ks = frozenset([kid] + [s for s, _ in free])
        try:
            leaves = self.cases(lambda: (self.element(x['A'], a + kp * R + i, x['av']), self.element(x['B'], b + kp * n + j, x['bv'])), own=ks)
        finally:
            del self.ctx.scopes[n0:]
        return ('dot', [(g, ta, tb) for g, (ta, tb) in leaves], kid, k, fr)

# ------------------------------------------------------------------ specifications
def rowcol(rs, addr, W, H):
    """addr = row*W + col inside an H x W matrix"""
    q, rem = rs.digit(addr, W)
    if not rs.decide(mkcond('ge', q)) or not rs.decide(mkcond('ge', H - 1 - q)): raise Unresolved('row outside the matrix: %s' % PL.show(addr))
    return q, rem

def guard_range(rs, leafguards, sid, T):
    """the values of variable sid in [0,T) selected by guards linear in it (coefficient +-1): [lo, hi)"""
    lo, hi = 0, T
    for g in leafguards:
        gs = [g] if g.k != 'and' else list(g.a)
        for g in gs:
            if sid not in g.syms(): continue
            cr = PL.coeff_split(g.a, sid) if g.k in ('ge', 'eq') else None
            if cr is None or not isinstance(cr[0], int) or abs(cr[0]) != 1: raise Unresolved('guard on the depth index')
            if g.k == 'eq':
                v = -cr[1] if cr[0] == 1 else cr[1]
                cand = [(v, v + 1)]
            elif cr[0] == 1: cand = [(-cr[1], None)]
            else: cand = [(None, cr[1] + 1)]
            for l, h in cand:
                if l is not None and rs.decide(mkcond('ge', l - lo)): lo = l
                if h is not None and rs.decide(mkcond('ge', hi - h)): hi = h
    return lo, hi

def PL_csub(c, sid):
    return c.subst({sid: 0}) if isinstance(c, Cond) else c

class Mismatch(Exception):
    pass

def dot_intervals(rs, term, objA, objB, row, col, K, N, lda=None, transposed=False):
    """the intervals [lo,hi) of depth indices x contributing A[row,x]*B[x,col]"""
    _, leaves, kid, T, free = term
    out = []
    if isinstance(T, (int, Poly)) and not rs.decide(mkcond('ge', T - 1)): return out
    for g, ta, tb in leaves:
        if not ta or not tb: continue
        if len(ta) != 1 or len(tb) != 1 or ta[0][0] != 'init' or tb[0][0] != 'init':
            raise Mismatch('contribution is not a product of one element of A and one of B')
        if ta[0][1] != 1 or tb[0][1] != 1: raise Mismatch('scaled operand')
        if ta[0][2] is not objA or tb[0][2] is not objB: raise Mismatch('contribution from %s, %s' % (ta[0][2], tb[0][2]))
        aa, bb = ta[0][3], tb[0][3]
        if T == 1:
            aa, bb = PL.subst(aa, kid, 0), PL.subst(bb, kid, 0)
            g = [PL_csub(q, kid) for q in g]
            if not all(rs.decide(y) for y in g): continue
            g = []
        x = aa - row * K
        # A address: row*K + x, B address: x*N + col
        sc0, gd0 = len(rs.ctx.scopes), len(rs.ctx.guards)
        rs.ctx.scopes.extend(free)
        rs.ctx.scopes.append((kid, T))
        rs.ctx.guards.extend(g)
        try:
            try: same = rs_eq(rs, bb, x * N + col)
            except NeedOuter as n:
                if n.c.syms() & (frozenset([kid]) | frozenset(s for s, _ in free)): same = False
                else: raise
        finally:
            del rs.ctx.scopes[sc0:]
            del rs.ctx.guards[gd0:]
        if not same:
            raise Mismatch('A[%s] is multiplied with B[%s] for C[%s,%s]' % (PL.show(aa), PL.show(bb), PL.show(row), PL.show(col)))
        if T == 1: cr = (1, x)
        else: cr = PL.coeff_split(x, kid)
        if cr is None or cr[0] != 1: raise Mismatch('depth step')
        lo, hi = guard_range(rs, g, kid, T)
        for s, _ in free:
            if any(s in q.syms() for q in g): raise Unresolved('guard on a summed variable')
        if not rs.decide(mkcond('ge', hi - lo - 1)): continue
        b, ln = cr[1] + lo, hi - lo
        for s, Ts in reversed(free):
            c2 = PL.coeff_split(b, s)
            if c2 is None or s in syms(ln): raise Unresolved('summed variable')
            if not rs_eq(rs, c2[0], ln): raise Mismatch('K blocks do not tile: step %s, length %s' % (PL.show(c2[0]), PL.show(ln)))
            b, ln = c2[1], ln * Ts
        out.append((b, b + ln))
    return out

def rs_eq(rs, a, b):
    d = a - b
    return d == 0 if isinstance(d, int) else rs.decide(mkcond('eq', d)) if not rs.ctx.prove_eq(d) else True

def partition(rs, iv, K):
    """the intervals partition [0,K)"""
    cur = 0
    iv = list(iv)
    while iv:
        nxt = None
        for i, (l, h) in enumerate(iv):
            d = l - cur
            if (d == 0 if isinstance(d, int) else rs.ctx.prove_eq(d)):
                nxt = i
                break
        if nxt is None: raise Mismatch('depth intervals %s do not continue at %s' % ([(PL.show(a), PL.show(b)) for a, b in iv], PL.show(cur)))
        cur = iv.pop(nxt)[1]
    if not rs_eq(rs, cur, K): raise Mismatch('depth range ends at %s, not K' % PL.show(cur))

def check_gemm(e, A, B, C, M, N, K, accumulate=False):
    """every stored element of C has the right value; returns (number of cases, boxes)"""
    rs = Resolver(e)
    ctx = e.ctx
    boxes = []
    n = 0
    o = C.obj
    M, N, K = rs.norm(M), rs.norm(N), rs.norm(K)
    for idx, ev in enumerate(o.hist):
        if ev.kind != 'store': raise Unresolved('event %s on C' % ev.kind)
        ctx.scopes = [(b, rs.norm(T)) for b, T in ev.bvs]
        ctx.guards = [g for g in (g.subst(rs.eqmap) for g in ev.guards) if isinstance(g, Cond)]
        try:
            def one():
                row, col = rowcol(rs, rs.norm(ev.lo), N, M)
                terms = rs.value(ev.val, {}, ev)
                iv = []
                base = 0
                for t in terms:
                    if t[0] == 'dot': iv += dot_intervals(rs, t, A.obj, B.obj, row, col, K, N)
                    elif t[0] == 'init' and accumulate and t[2] is o and t[1] == 1 and rs_eq(rs, t[3], rs.norm(ev.lo)): base += 1
                    else: raise Mismatch('unexpected term %s' % (t[0],))
                partition(rs, iv, K)
                if accumulate and base != 1: raise Mismatch('previous value of C counted %d times' % base)
                return row, col
            res = rs.cases(one)
            n += len(res)
            if not res: continue
            boxes.append(box(rs, ev, res[0][1]))
        finally:
            ctx.scopes = []
            ctx.guards = []
    cover(e, boxes, M, N)
    return n, boxes

def box(rs, ev, rc):
    """the set of (row, col) written by the family, as a box"""
    row, col = rc
    bv = set(s for s, _ in ev.bvs)
    if syms(row) & syms(col) & bv: raise Unresolved('row and column share a variable')
    T = {b: rs.norm(t) for b, t in ev.bvs}
    out = []
    save = (rs.ctx.scopes, rs.ctx.guards)
    rs.ctx.scopes, rs.ctx.guards = [], []
    try:
        for p in (row, col):
            vs = [s for s in syms(p) & bv]
            dig = []
            base = p
            for s in vs:
                c, base = PL.coeff_split(base, s)
                dig.append((c, s, T[s]))
            span = 1
            while dig:
                for i, (c, s, t) in enumerate(dig):
                    d = c - span
                    if d == 0 or (isinstance(d, Poly) and rs.ctx.prove_eq(d)):
                        span = c * t
                        dig.pop(i)
                        break
                else: raise Unresolved('rows are not contiguous')
            out.append([base, base + span])
    finally:
        rs.ctx.scopes, rs.ctx.guards = save
    extra = []
    for g in ev.guards:
        g = g.subst(rs.eqmap)
        if g is True: continue
        if g is False: raise Unresolved('dead family')
        if not (g.syms() & bv):
            extra.append((None, g))
            continue
        if g.k != 'ge': raise Unresolved('guard %r' % g)
        done = False
        for which, p in ((0, row), (1, col)):
            for c in (-1, 1):
                q = g.a - c * p
                if not (syms(q) & bv):
                    extra.append((which, (c, q)))   # c*p + q >= 0
                    done = True
                    break
            if done: break
        if not done: raise Unresolved('guard is not a bound on the row or the column: %r' % g)
    return out, extra

def cover(e, boxes, M, N):
    """0 <= r < M, 0 <= c < N and (r,c) in no box is unsatisfiable"""
    import z3, time
    from .prover import zge, STATS
    ctx = e.ctx
    r, c = PL.sym('r'), PL.sym('c')
    facts = [r, M - 1 - r, c, N - 1 - c]
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 20000)
    prods = ctx._products()
    for a in prods.assertions(): s.add(a)
    for f in facts: s.add(zge(f))
    for f in facts:
        for g in ctx.base:
            if g.degree() == 1:
                q = f * g
                if isinstance(q, Poly): s.add(zge(q))
    for bx, extra in boxes:
        alts = []
        for p, (lo, hi) in zip((r, c), bx):
            alts.append(lo - 1 - p)
            alts.append(p - hi)
        for which, g in extra:
            if which is None:
                x = g.neg()
                if x.k == 'ge': alts.append(x.a)
                elif x.k == 'ne': alts += [x.a - 1, -x.a - 1]
                else: raise Unresolved('guard')
            else:
                cc, q = g
                alts.append(-(cc * (r, c)[which] + q) - 1)
        s.add(z3.Or([zge(a) for a in alts if isinstance(a, Poly)] + [z3.BoolVal(True) for a in alts if isinstance(a, int) and a >= 0]))
    t0 = time.time()
    STATS.queries += 1
    x = s.check()
    STATS.time += time.time() - t0
    if x == z3.unsat:
        STATS.unsat += 1
        return True
    raise Mismatch('some elements of C are not written (or coverage not proven: %s)' % x)
