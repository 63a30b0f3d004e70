"""Block dimensions: every field of blk_dims_t that the loops use describes one partition of the iteration space."""
from .fnjob import setup
from .poly import Poly
from .prover import mkcond
from .sym import NULL, Ptr
from . import gemm

def field(j, x, n):
    return j.e.load(('int', 32), Ptr(x.obj, j.w.layout['off'][('blk_dims_t', n)]))

def axis(j, total, unit, pad, blocks, what):
    """number of blocks along an axis: full ones, plus one iff something is left over"""
    e = j.e
    fb, rem = e.idiv(total, unit)
    some = e.decide(mkcond('ge', rem - 1)) if isinstance(rem, Poly) else rem >= 1
    j.eq(pad, 1 if some else 0, what + ' pad flag')
    j.eq(blocks, fb + (1 if some else 0), what + ' block count')
    return fb, rem, some

def split(j, amount, per, last, used, q, what):
    """`used` of q cores get `per` each, the last one `last`"""
    j.ge(used, 1, what + ' at least one core')
    j.ge(q, used, what + ' not more cores than there are')
    j.ge(last, 1, what + ' last core has work')
    j.ge(per, last, what + ' last core has no more than the others')
    j.eq((used - 1) * per + last, amount, what + ' shares add up')

def tiles(j, rem, r, n, what):
    """n register tiles cover rem rows"""
    j.ge(n * r, rem, what + ' tiles cover the remainder')
    j.ge(rem, n * r - r + 1, what + ' no tile to spare')

@setup('blk')
def blk(j):
    f, e, w = j.f, j.e, j.w
    p, mr, nr, sch = f['p'], f['mr'], f['nr'], f['sch']
    M, N, K = j.sym('M', 1, None, (1, 60 * p)), j.sym('N', 1, None, (1, 130)), j.sym('K', 1, None, (1, 12 * p))
    a, kc, b = j.sym('a', 1, None, (1, 3)), j.sym('kc', 1, None, (1, 5)), j.sym('b', 1, None, (1, 2))
    j.sampler()
    mc, nc = mr * a, nr * b
    cn = j.s.cntx(ncores=4)
    x = Ptr(e.new_obj('x', 'heap', 'lazy', w.layout['size']['blk_dims_t']), 0)
    j.config = lambda v: 'fn=blk sch=%d p=%d mr=%d nr=%d M=%d N=%d K=%d mc=%d kc=%d nc=%d' % (sch, p, mr, nr, v['M'], v['N'], v['K'], mr * v['a'], v['kc'], nr * v['b'])
    def run():
        e.run_function(w.fn('init_block_dims'), [M, N, K, p, x, cn, sch, NULL, 4, mc, kc, nc])
        g = lambda n: field(j, x, n)
        j.eq(g('m_c'), mc, 'm_c'); j.eq(g('k_c'), kc, 'k_c'); j.eq(g('n_c'), nc, 'n_c'); j.eq(g('sch'), sch, 'schedule')
        fb, rem, some = axis(j, N, nc, g('n_pad'), g('Nb'), 'N')
        if some:
            tiles(j, rem, nr, g('nr_rem'), 'N')
            j.eq(g('n_c1'), nr * g('nr_rem'), 'last N block width')
        j.eq(g('N_padded'), fb * nc + (nr * g('nr_rem') if some else 0), 'padded N')
        um = mc if sch == 1 else p * mc
        fb, rem, some = axis(j, M, um, g('m_pad'), g('Mb'), 'M')
        if some:
            tiles(j, rem, mr, g('mr_rem'), 'M')
            if sch == 0: split(j, mr * g('mr_rem'), g('m_c1'), g('m_c1_last_core'), g('p_l'), p, 'M')
            else: j.eq(g('m_c1'), mr * g('mr_rem'), 'last M block height')
        j.eq(g('M_padded'), fb * um + (mr * g('mr_rem') if some else 0), 'padded M')
        uk = kc if sch == 0 else p * kc
        fb, rem, some = axis(j, K, uk, g('k_pad'), g('Kb'), 'K')
        if some:
            if sch == 0: j.eq(g('k_c1'), rem, 'last K block depth')
            else: split(j, rem, g('k_c1'), g('k_c1_last_core'), g('p_l'), p, 'K')
    return run

@setup('blk2d')
def blk2d(j):
    f, e, w = j.f, j.e, j.w
    p, mr, nr = f['p'], f['mr'], f['nr']
    user = f['tiles'] == 'user'
    M, N, K = j.sym('M', 1, None, (1, 60 * p)), j.sym('N', 1, None, (1, 60 * p)), j.sym('K', 1, None, (1, 12))
    if user:
        a, kc = j.sym('a', 1, None, (1, 3)), j.sym('kc', 1, None, (1, 5))
        args = [mr * a, kc, nr]
    else: args = [0, 0, 0]
    j.sampler()
    cn = j.s.cntx(ncores=4, L1=f.get('L1', 32768), L2=f.get('L2', 1 << 20))
    x = Ptr(e.new_obj('x', 'heap', 'lazy', w.layout['size']['blk_dims_t']), 0)
    def config(v):
        s = 'fn=blk2d p=%d pn=%d mr=%d nr=%d L1=%d L2=%d M=%d N=%d K=%d' % (p, f['pn'], mr, nr, f.get('L1', 32768), f.get('L2', 1 << 20), v['M'], v['N'], v['K'])
        return s + (' mc=%d kc=%d nc=%d' % (mr * v['a'], v['kc'], nr) if user else '')
    j.config = config
    def realise(rnd):
        q = (f['pn'] / p) * (.6 + .9 * rnd.random()) * f['pn']
        M = rnd.randint(1, 40 * p)
        N = max(1, int(M * q) + rnd.randint(-3, 3))
        if gemm.grid_of(M, N, p)[1] != f['pn']: return None
        kc = rnd.randint(1, 5)
        v = dict(M=M, N=N, K=rnd.choice((1, kc, kc + 1, 2 * kc, rnd.randint(1, 15))))
        if user: v.update(a=rnd.randint(1, 3), kc=kc)
        return v
    j.realise = realise
    def part(total, blk, r, q, qv, pad, blocks, rrem, per, last, used, padded, what):
        n, rr = e.idiv(blk, r)
        j.eq(rr, 0, what + ' block is whole register tiles')
        j.ge(n, 1, what + ' block is not empty')
        fb, rem, some = axis(j, total, q * blk, pad, blocks, what)
        if some:
            tiles(j, rem, r, rrem, what)
            split(j, r * rrem, per, last, used, q, what)
        j.eq(padded, fb * q * blk + (r * rrem if some else 0), 'padded ' + what)
    # the grid asked for is any factorisation of p (decided on grid_dims_2d itself by C15)
    e.intercepts[w.fn('grid_dims_2d')] = lambda e, args: f['pn']
    def run():
        e.run_function(w.fn('init_block_dims_2d'), [M, N, K, p, x, cn, 0, NULL, 4] + args)
        g = lambda n: field(j, x, n)
        pm, pn = e.concretise(g('pm')), e.concretise(g('pn'))
        j.ge(pm, 1, 'grid rows'); j.ge(pn, 1, 'grid columns'); j.ge(p, pm * pn, 'grid larger than the thread count')
        part(M, g('m_c'), mr, pm, pm, g('m_pad'), g('Mb'), g('mr_rem'), g('m_c1'), g('m_c1_last_core'), g('pm_l'), g('M_padded'), 'M')
        part(N, g('n_c'), nr, pn, pn, g('n_pad'), g('Nb'), g('nr_rem'), g('n_c1'), g('n_c1_last_core'), g('pn_l'), g('N_padded'), 'N')
        j.ge(g('k_c'), 1, 'k_c')
        fb, rem, some = axis(j, K, g('k_c'), g('k_pad'), g('Kb'), 'K')
        if some: j.eq(g('k_c1'), rem, 'last K block depth')
    return run
