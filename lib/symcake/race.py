"""Conflicting accesses of different iterations of one parallel loop.

The engine records, per iteration (concrete or one arbitrary symbolic iteration), the array ranges and scalar cells it
reads and writes outside its own storage.  Two iterations are independent when no location is written by one and accessed
by the other, except that both only write one equal value."""
from . import poly as PL
from .poly import Poly, syms
from .prover import Cond, mkcond
from .sym import POISON, HAVOC, Ptr

class Race:
    def __init__(self, desc, where, it1, it2):
        self.desc, self.where, self.it1, self.it2 = desc, where, it1, it2
    def __repr__(self): return '%s in %s (iterations %s, %s)' % (self.desc, self.where, self.it1, self.it2)

class Fam:
    __slots__ = ('k', 'lo', 'hi', 'bvs', 'guards', 'ev')
    def __init__(self, k, lo, hi, bvs, guards, ev):
        self.k, self.lo, self.hi, self.bvs, self.guards, self.ev = k, lo, hi, bvs, guards, ev
    def rename(self, keep, extra):
        """fresh bound variables (those not in keep); extra: substitution for the iteration number"""
        d = dict(extra)
        bv = []
        for s, T in self.bvs:
            T = PL.subst_many(T, d)
            if s in keep:
                if s not in d: bv.append((s, T))
                continue
            n = PL.sym('%s\'%d' % (PL.NAMES[s], len(PL.NAMES)))
            d[s] = n
            bv.append((PL.symid(n), T))
        gd = [g.subst(d) for g in self.guards]
        return Fam(self.k, PL.subst_many(self.lo, d), PL.subst_many(self.hi, d), bv, [g for g in gd if isinstance(g, Cond)], self.ev)

class Races:
    def __init__(self, e):
        self.e = e
        self.ctx = e.ctx
        self.pairs = 0
        self.proved = 0
        self.found = []

    # every query below runs with the union of both families' bound variables and guards in scope
    def span(self, p, bvs, up):
        """eliminate bound variables: an upper (or lower) bound of p"""
        for s, T in reversed(bvs):
            if isinstance(p, int) or s not in p.syms(): continue
            cr = PL.coeff_split(p, s)
            if cr is None: return None
            c, r = cr
            if self.ctx.prove_ge(c): pos = True
            elif self.ctx.prove_ge(-c): pos = False
            else: return None
            p = r + c * (T - 1) if pos == up else r
        return p

    def apart(self, a, b, outer):
        """the two families touch no common element"""
        ctx = self.ctx
        save = (ctx.scopes, ctx.guards)
        ctx.scopes = list(outer) + list(a.bvs) + list(b.bvs)
        ctx.guards = list(a.guards) + list(b.guards)
        try:
            for x, y in ((a, b), (b, a)):
                if ctx.prove_ge(y.lo - x.hi): return True
            # one family entirely below the other (bounds of all loop variables, without guards)
            ctx.guards = []
            ctx.scopes = list(outer)
            for x, y in ((a, b), (b, a)):
                h = self.span(x.hi, x.bvs, True)
                l = self.span(y.lo, y.bvs, False)
                if h is not None and l is not None and ctx.prove_ge(l - h): return True
            ctx.scopes = list(outer) + list(a.bvs) + list(b.bvs)
            ctx.guards = list(a.guards) + list(b.guards)
            # row / column decomposition by a common stride
            strides = []
            for f in (a, b):
                for s, T in list(outer) + f.bvs:
                    if isinstance(f.lo, int) or s not in f.lo.syms(): continue
                    cr = PL.coeff_split(f.lo, s)
                    if cr is None: continue
                    c = cr[0]
                    if isinstance(c, int):
                        continue
                    # the symbolic part of the stride
                    g = 0
                    import math
                    for m, k in c.t.items(): g = math.gcd(g, k)
                    cc = Poly({m: k // g for m, k in c.t.items()})
                    if cc not in strides: strides.append(cc)
            for S in strides:
                qa, ra = PL.divide(a.lo, S)
                qb, rb = PL.divide(b.lo, S)
                wa, wb = a.hi - a.lo, b.hi - b.lo
                fix = []
                for q, r, w in ((qa, ra, wa), (qb, rb, wb)):
                    ok = False
                    for _ in range(3):
                        if not ctx.prove_ge(r):
                            q, r = q - 1, r + S
                            continue
                        if ctx.prove_ge(S - r - w): ok = True
                        break
                    fix.append((ok, q, r, w))
                if not all(f[0] for f in fix): continue
                (_, qa, ra, wa), (_, qb, rb, wb) = fix
                def below(p, q):
                    if ctx.prove_ge(q - p): return True
                    sc, gd = ctx.scopes, ctx.guards
                    ctx.scopes, ctx.guards = list(outer), []
                    try:
                        h = self.span(p, a.bvs + b.bvs, True)
                        l = self.span(q, a.bvs + b.bvs, False)
                        return h is not None and l is not None and ctx.prove_ge(l - h)
                    finally: ctx.scopes, ctx.guards = sc, gd
                if below(qa + 1, qb) or below(qb + 1, qa): return True
                if below(ra + wa, rb) or below(rb + wb, ra): return True
            return False
        finally:
            ctx.scopes, ctx.guards = save

    def same_store(self, a, b, outer):
        """both are single-element stores of one equal constant value"""
        return a.ev is not None and b.ev is not None and a.ev.kind == b.ev.kind == 'store' and isinstance(a.ev.val, int) and a.ev.val == b.ev.val

    def families(self, it):
        by = {}
        for k, o, lo, hi, sc, gd, ev in it.arrs:
            by.setdefault(o, []).append(Fam(k, lo, hi, list(sc), list(gd), ev))
        return by

    def region(self, r):
        if getattr(r, 'single', False):
            return
        its = r.iters
        fams = [self.families(it) for it in its]
        if r.sym is None:
            for i in range(len(its)):
                for j in range(i + 1, len(its)):
                    self.pair(r, its[i], its[j], fams[i], fams[j], [], None, None, {}, ())
        else:
            sid, n = r.sym
            t = Poly({(sid,): 1})
            d = PL.sym('d%d' % len(PL.NAMES))
            did = PL.symid(d)
            outer = [(sid, n), (did, n - 1 - t)]
            sub = {sid: t + 1 + d}
            for i in range(len(its)):
                for j in range(len(its)):
                    self.pair(r, its[i], its[j], fams[i], fams[j], outer, sid, sub, sub, (sid,))

    def pair(self, r, it1, it2, f1, f2, outer, sid, sub, extra, keep):
        objs = set(o for o in f1 if any(f.k == 'W' for f in f1[o])) | set(o for o in f2 if any(f.k == 'W' for f in f2[o]))
        for o in sorted(objs, key=lambda o: o.id):
            if o not in f1 or o not in f2: continue
            for a in f1[o]:
                for b in f2[o]:
                    if a.k == 'R' and b.k == 'R': continue
                    self.pairs += 1
                    a1 = Fam(a.k, a.lo, a.hi, [x for x in a.bvs if x[0] != sid], a.guards, a.ev)
                    b1 = b.rename(keep, extra)
                    if self.apart(a1, b1, outer) or (a.k == b.k == 'W' and self.same_store(a, b, outer)):
                        self.proved += 1
                        continue
                    self.found.append(Race('%s[%s..%s) %s and [%s..%s) %s' % (o.name, PL.show(a.lo), PL.show(a.hi), 'written' if a.k == 'W' else 'read',
                        PL.show(b1.lo), PL.show(b1.hi), 'written' if b.k == 'W' else 'read'), r.fn, it1.it, it2.it))
                    if len(self.found) > 40: return
        # scalars
        for key in it1.order:
            if key not in it2.cells: continue
            o, off = key
            c1, c2 = it1.cells[key], it2.cells[key]
            if not c1[1] and not c2[1]: continue
            self.pairs += 1
            v = c1[1] + [self.ren(x, sub) for x in c2[1]]
            if c1[1] and c2[1] and not c1[0] and not c2[0] and all(self.eqv(v[0], x) for x in v[1:]):
                self.proved += 1
                continue
            if (not c1[1] or not c2[1]) or c1[0] or c2[0] or True:
                self.found.append(Race('%s+%s %s and %s' % (o.name, off if isinstance(off, int) else PL.show(off),
                    'written' if c1[1] else 'read', 'written' if c2[1] else 'read'), r.fn, it1.it, it2.it))

    def ren(self, v, sub):
        return PL.subst_many(v, sub) if isinstance(v, Poly) and sub else v
    def eqv(self, a, b):
        if a is b: return a is not POISON and a is not HAVOC
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj is b.obj and self.eqv(a.off, b.off)
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            d = a - b
            return d == 0 if isinstance(d, int) else self.ctx.prove_eq(d)
        return False

    def run(self):
        for r in self.e.regions: self.region(r)
        return self.found
