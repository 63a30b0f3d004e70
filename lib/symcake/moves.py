"""Functions that only move elements: packing and unpacking of C, transposition."""
from .fnjob import setup
from .poly import Poly, syms
from .prover import mkcond, Cond
from .sym import NULL, Ptr, Unsupported
from . import poly as PL, resolve, gemm
from .resolve import Resolver, Unresolved, Mismatch, Uninit, rowcol, rs_eq, box, cover

def check_move(e, src, dst, H, W, where, what):
    """after the call every element (r,c) of the H x W matrix dst is the old src[where(r,c)]; raises Mismatch otherwise"""
    rs = Resolver(e, 6000)
    ctx = e.ctx
    H, W = rs.norm(H), rs.norm(W)
    fams = []
    n = 0
    for ev in dst.obj.hist:
        if ev.kind != 'store': raise Unresolved('event %s on %s' % (ev.kind, what))
        ctx.scopes = [(b, rs.norm(T)) for b, T in ev.bvs]
        ctx.guards = [g for g in (g.subst(rs.eqmap) for g in ev.guards) if isinstance(g, Cond)]
        try:
            def one():
                row, col = rowcol(rs, rs.norm(ev.lo), W, H)
                terms = rs.value(ev.val, {}, ev)
                if len(terms) != 1 or terms[0][0] != 'init' or terms[0][1] != 1 or terms[0][2] is not src.obj: raise Mismatch('%s: not an element of the source' % what)
                if not rs_eq(rs, terms[0][3], rs.norm(where(row, col))): raise Mismatch('%s[%s,%s] is source element %s' % (what, PL.show(row), PL.show(col), PL.show(terms[0][3])))
                return row, col
            res = rs.cases(one)
            n += len(res)
            if res: fams.append((ev,) + res[0][1])
        finally:
            ctx.scopes = []
            ctx.guards = []
    try:
        boxes = [box(rs, *(f[0], f[1:])) for f in fams]
    except Unresolved:
        n += point_cover(e, rs, fams, H, W, what)
    else: cover(e, boxes, H, W)
    return n

def point_cover(e, rs, fams, H, W, what):
    """an arbitrary element (r,c) is written: digits of r and c in the strides of one of the families satisfy its guards"""
    ctx = e.ctx
    r, c = PL.sym('r'), PL.sym('c')
    for p in (r, H - 1 - r, c, W - 1 - c): ctx.add_ge(p)
    div, defs = {}, []
    def idiv(x, d):
        if isinstance(d, int) and d == 1: return x, 0
        k = (x if isinstance(x, int) else x.key(), d if isinstance(d, int) else d.key())
        if k not in div:
            div[k] = e.idiv(x, d)
            defs.append(((x, d), div[k]))
        q, m = div[k]
        return rs.norm(q), rs.norm(m)
    def order(cs):
        # constants last, largest first; symbolic strides by provable size
        out, rest = [], list(cs)
        while rest:
            for i, (x, s) in enumerate(rest):
                if all(j == i or ((x - y >= 0) if isinstance(x - y, int) else ctx.prove_ge(x - y)) for j, (y, _) in enumerate(rest)):
                    out.append(rest.pop(i))
                    break
            else: raise Unresolved('cannot order strides')
        return out
    plans = []
    for ev, row, col in fams:
        T = {b: rs.norm(t) for b, t in ev.bvs}
        eqs, sub = [], {}
        ok = True
        for p, tgt in ((row, r), (col, c)):
            base, cs = p, []
            for s in [x for x in syms(p) if x in T]:
                cr = PL.coeff_split(base, s)
                if cr is None: raise Unresolved('index not linear')
                cs.append((cr[0], s))
                base = cr[1]
            rest = tgt
            tail = [x for x in cs if isinstance(x[0], int) and x[0] == 1]
            for k, s in order([x for x in cs if not (isinstance(x[0], int) and x[0] == 1)]):
                q, rest = idiv(rest, k)
                sub[s] = q
            rest = rest - base
            if tail:
                if len(tail) > 1: raise Unresolved('two unit strides')
                sub[tail[0][1]] = rest
            else: eqs.append(rest)
        def full(x):
            for _ in range(4): x = PL.subst_many(x, sub) if isinstance(x, Poly) else x
            return rs.norm(x)
        conds = [mkcond('eq', q) if isinstance(q, Poly) else q == 0 for q in eqs]
        for b, t in ev.bvs:
            if b not in sub:
                conds.append(mkcond('ge', full(T[b]) - 1) if isinstance(T[b], Poly) else T[b] >= 1)
                sub[b] = 0
                continue
            for x in (sub[b], full(T[b]) - 1 - sub[b]): conds.append(mkcond('ge', x) if isinstance(x, Poly) else x >= 0)
        for g in ev.guards:
            g = g.subst(rs.eqmap)
            for _ in range(4): g = g.subst(sub) if isinstance(g, Cond) else g
            conds.append(g.subst(rs.eqmap) if isinstance(g, Cond) else g)
        plans.append((eqs, conds))
    import z3, time
    from .prover import zint, STATS
    def zc(x):
        if isinstance(x, bool): return z3.BoolVal(x)
        if x.k in ('and', 'or'): return (z3.And if x.k == 'and' else z3.Or)([zc(y) for y in x.a])
        p = zint(x.a)
        return p >= 0 if x.k == 'ge' else p == 0 if x.k == 'eq' else p != 0
    s = z3.Solver()
    s.set('timeout', 20000)
    for q in ctx.base:
        if q.degree() == 1: s.add(zint(rs.norm(q)) >= 0) if isinstance(rs.norm(q), Poly) else None
    for q in ctx.eqs:
        q = rs.norm(q)
        if isinstance(q, Poly): s.add(zint(q) == 0)
    for (q, m), (x, d) in ((v, k) for k, v in defs):
        for y in (m, d - 1 - m): s.add(zint(rs.norm(y)) >= 0) if isinstance(y, Poly) else None
        z = rs.norm(x - q * d - m)
        if isinstance(z, Poly): s.add(zint(z) == 0)
    for _, conds in plans: s.add(z3.Not(z3.And([zc(x) for x in conds])))
    t0 = time.time()
    STATS.queries += 1
    x = s.check()
    STATS.time += time.time() - t0
    if x == z3.unsat:
        STATS.unsat += 1
        return 1
    raise Mismatch('an element of %s is not written (or coverage not proven: %s)' % (what, x))

def verdict(j, fn):
    try: fn()
    except (Mismatch, Unresolved, Uninit) as x:
        j.e.ctx.scopes, j.e.ctx.guards = [], []
        j.e.nob += 1
        j.e.fail('spec', '%s: %s' % (type(x).__name__, x))
    else:
        j.e.nob += 1
        j.e.nok += 1

@setup('ctrip')
def ctrip(j):
    """pack_C into a buffer of the reported size and unpack_C into another matrix"""
    f, e, w, s = j.f, j.e, j.w, j.s
    p, mr, nr, sch = f['p'], f['mr'], f['nr'], f['sch']
    M, N = j.sym('M', 1, None, (1, 60 * p)), j.sym('N', 1, None, (1, 130))
    a, kc, b = j.sym('a', 1, None, (1, 3)), j.sym('kc', 1, 3, (1, 3)), j.sym('b', 1, None, (1, 2))
    j.sampler()
    mc, nc = mr * a, nr * b
    cn = s.cntx()
    C, D = s.array('C', M * N, const=True), s.array('D', M * N, init='uninit')
    off = w.layout['off']
    j.config = lambda v: 'fn=ctrip sch=%d p=%d mr=%d nr=%d M=%d N=%d mc=%d kc=%d nc=%d' % (sch, p, mr, nr, v['M'], v['N'], mr * v['a'], v['kc'], nr * v['b'])
    def h(e, args):
        q = e.heap('cache_dims', w.layout['size']['cache_dims_t'], 'uninit', 16)
        for n, v in (('m_c', mc), ('k_c', kc), ('n_c', nc), ('sch', sch)): e.store(('int', 32), v, Ptr(q.obj, off[('cache_dims_t', n)]))
        return q
    e.intercepts[w.fn('get_cache_dims')] = h
    x = Ptr(e.new_obj('x', 'heap', 'lazy', w.layout['size']['blk_dims_t']), 0)
    def run():
        e.run_function(w.fn('init_block_dims'), [M, N, kc, p, x, cn, sch, NULL, 4, mc, kc, nc])
        q = e.heap('packedC', e.run_function(w.fn('cake_sgemm_packed_C_size'), [M, N, p, x, cn, sch]), 'uninit', 64)
        e.run_function(w.fn('pack_C'), [C, q, M, N, p, x, cn, sch])
        e.run_function(w.fn('unpack_C'), [D, q, M, N, p, x, cn, sch])
        verdict(j, lambda: check_move(e, C, D, M, N, lambda r, c: r * N + c, 'C'))
    return run

@setup('tplain')
def tplain(j):
    """transpose(At, A, M, K)"""
    f, e, w, s = j.f, j.e, j.w, j.s
    M, K = j.sym('M', 1, None, (1, 40)), j.sym('K', 1, None, (1, 40))
    j.sampler()
    A, T = s.array('A', M * K, const=True), s.array('At', M * K, init='uninit')
    j.config = lambda v: 'fn=tplain M=%d K=%d' % (v['M'], v['K'])
    def run():
        e.run_function(w.fn('transpose'), [T, A, M, K])
        verdict(j, lambda: check_move(e, A, T, K, M, lambda r, c: c * K + r, 'At'))
    return run

@setup('tmat')
def tmat(j):
    """transpose_mat(A, At, K, N, Kt, Nt)"""
    f, e, w, s = j.f, j.e, j.w, j.s
    K, N = j.sym('K', 1, None, (1, 60)), j.sym('N', 1, None, (1, 60))
    Kt, Nt = f['Kt'], f['Nt']
    j.sampler()
    A, T = s.array('A', N * K, const=True), s.array('At', N * K, init='uninit')
    j.config = lambda v: 'fn=tmat K=%d N=%d Kt=%d Nt=%d' % (v['K'], v['N'], Kt, Nt)
    def run():
        e.run_function(w.fn('transpose_mat'), [A, T, K, N, Kt, Nt])
        if f.get('show'):
            for ev in T.obj.hist: print(ev.kind, PL.show(ev.lo), [(PL.show(PL.sym(PL.NAMES[b]) if 0 else b), PL.show(t)) for b, t in ev.bvs], ev.guards, ev.val if isinstance(ev.val,int) else PL.show(ev.val))
        verdict(j, lambda: check_move(e, A, T, N, K, lambda r, c: c * N + r, 'At'))
    return run
