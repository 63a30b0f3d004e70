"""Microkernels: the code behind the dispatch adds exactly the outer-product sum of its panels to its tile."""
from .fnjob import setup
from .poly import Poly, syms
from .prover import mkcond
from .sym import NULL, Ptr, Unsupported
from . import poly as PL, resolve

def atomterm(e, s, init):
    a = e.atoms.get(s)
    if a is None or a[0] != 'load' or a[2] != 0: return None
    return a[1], a[3]

def contributions(e, v, own):
    """value = previous tile element (counted) + products; products as (A address, B address, index variable, trip count)"""
    base, out = 0, []
    def walk(p, t, T):
        nonlocal base
        if isinstance(p, int):
            if p != 0: raise resolve.Mismatch('constant %d added' % p)
            return
        for m, c in p.t.items():
            if c != 1: raise resolve.Mismatch('scaled contribution (%s)' % c)
            if len(m) == 1:
                a = e.atoms.get(m[0])
                if a and a[0] == 'sum':
                    if t is not None: raise Unsupported('nested sum')
                    walk(a[3], a[1], a[2])
                    continue
                x = atomterm(e, m[0], None)
                if x and x[0] is own[0] and t is None and (x[1] == own[1] if isinstance(x[1], int) else e.ctx.prove_eq(x[1] - own[1])):
                    base += 1
                    continue
            if len(m) != 2: raise resolve.Mismatch('contribution of %d factors' % len(m))
            x, y = atomterm(e, m[0], None), atomterm(e, m[1], None)
            if x is None or y is None: raise resolve.Mismatch('contribution is not a product of operand elements')
            out.append((x, y, t, T))
    walk(v, None, None)
    return base, out

@setup('kern')
def kern(j):
    f, e, w = j.f, j.e, j.w
    R, S = f['mr'], f['nr']
    e.kernels = {}
    e.unrollcap = max(e.unrollcap, 40)
    k = j.sym('k', 1, None, (1, 40))
    E = w.layout['enum']
    m0, mf, n0, nf, rows, cols = (E[x] for x in ('MR_MIN', 'MR_FACT', 'NR_MIN', 'NR_FACT', 'rows', 'cols'))
    a0, b0 = j.sym('a0', 0, rows - 1), j.sym('b0', 0, cols - 1)      # the tile the context had before
    j.sampler()
    A, B, C = j.s.array('A', k * R, const=True), j.s.array('B', k * S, const=True), j.s.array('C', R * S)
    B.obj.align = 64
    cn = j.s.cntx(mmap=a0, nmap=b0, mr=m0 + mf * a0, nr=n0 + nf * b0)
    j.config = lambda v: 'fn=kern mr=%d nr=%d k=%d mr0=%d nr0=%d' % (R, S, v['k'], m0 + mf * v['a0'], n0 + nf * v['b0'])
    def run():
        e.run_function(w.fn('update_mr_nr'), [cn, R, S])
        e.run_function(w.fn('cake_sgemm_ukernel'), [A, B, C, R, S, k, cn])
        done = {}
        for ev in C.obj.hist:
            if ev.kind not in ('store', 'accum') or ev.bvs or not isinstance(ev.lo, int): raise Unsupported('tile written inside a loop')
            v = ev.val
            if ev.kind == 'accum': v = v + e.atom(C.obj, 0, ev.lo) if ev.lo not in done else None
            if v is None: raise Unsupported('element written twice')
            done[ev.lo] = v
        for i in range(R):
            for c in range(S):
                v = done.get(i * S + c)
                d = 'C[%d][%d]' % (i, c)
                if v is None:
                    j.need(False, d + ' never written')
                    continue
                try:
                    base, con = contributions(e, v, (C.obj, i * S + c))
                    j.need(base == 1, d + ' previous value counted %d times' % base)
                    iv = {}
                    for (o1, a1), (o2, a2), t, T in con:
                        if o1 is B.obj: (o1, a1), (o2, a2) = (o2, a2), (o1, a1)
                        if o1 is not A.obj or o2 is not B.obj: raise resolve.Mismatch('product of %s and %s' % (o1.name, o2.name))
                        x = a1 - i
                        x = x if isinstance(x, Poly) else Poly({(): x} if x else {})
                        if not PL.content_divides(x, R): raise resolve.Mismatch('A element of another row: %s' % PL.show(a1))
                        x = PL.exact_div_int(x, R)
                        j.eq(a2, x * S + c, d + ' multiplies matching elements')
                        iv.setdefault((t, id(T)), [T, []])[1].append(x)
                    segs = []
                    for (t, _), (T, xs) in iv.items():
                        if t is None:
                            segs += [(x, x + 1) for x in xs]
                            continue
                        cs = [PL.coeff_split(x, t) if isinstance(x, Poly) else (0, x) for x in xs]
                        st = cs[0][0]
                        if any(q is None or q[0] != st for q in cs) or not isinstance(st, int) or st != len(xs): raise resolve.Mismatch('%s: %d products per step of %s' % (d, len(xs), st))
                        # the products of one step are consecutive
                        base0 = min((q[1] for q in cs), key=lambda q: q.t.get((), 0) if isinstance(q, Poly) else q)
                        offs = sorted((q[1] - base0) if isinstance(q[1] - base0, int) else 10**9 for q in cs)
                        if offs != list(range(st)): raise resolve.Mismatch('%s: depth indices of one step %s' % (d, offs))
                        segs.append((base0, base0 + st * T))
                    cur = 0
                    while segs:
                        for n, (l, h) in enumerate(segs):
                            z = l - cur
                            if (z == 0) if isinstance(z, int) else e.ctx.prove_eq(z):
                                cur = segs.pop(n)[1]
                                break
                        else: raise resolve.Mismatch('%s: depth ranges %s do not continue at %s' % (d, [(PL.show(a), PL.show(b)) for a, b in segs], PL.show(cur)))
                    j.eq(cur, k, d + ' depth range')
                except resolve.Mismatch as x:
                    e.nob += 1
                    e.fail('spec', '%s: %s' % (d, x))
                    return
    return run
