"""The machine query, the grid choice, the automatic tiles and the schedule derivation, executed symbolically.
The commands the query runs are external: their output is symbolic text (digits and a unit, or nothing at all)."""
import math
from .fnjob import setup
from . import poly as PL
from .poly import Poly
from .prover import mkcond
from .sym import NULL, Ptr, POISON, PathEnd, Unsupported
from .blocks import field

def byte(o, off):
    c = o.cells.get(off)
    return c[1] if c is not None and c[0] == 1 else None

def bytes_of(e, p):
    """the characters of a C string up to its NUL"""
    out, off = [], p.off
    if not isinstance(off, int): raise Unsupported('string at symbolic offset')
    while True:
        e.check_access(Ptr(p.obj, off), 1, False, 'string read')
        c = byte(p.obj, off)
        if c is None:
            if p.obj.init == 'zero': return out
            e.fail('uninit', 'string read reaches an uninitialised byte')
            raise PathEnd('uninit')
        if isinstance(c, int):
            if c == 0: return out
        elif not e.ctx.prove_ge(c - 1):
            if e.decide(mkcond('eq', c)): return out
        out.append(c)
        off += 1
        if len(out) > 4096: raise Unsupported('string')

def text(e, p):
    if ('text', p.obj.id) in e.texts: return e.texts[('text', p.obj.id)]
    b = bytes_of(e, p)
    if not all(isinstance(c, int) for c in b): raise Unsupported('symbolic command')
    return bytes(c & 255 for c in b).decode('latin1')

def put(e, p, chars):
    for i, c in enumerate(list(chars) + [0]): e.store(('int', 8), c, Ptr(p.obj, p.off + i))

class Shell:
    """popen, fgets, pclose and the string functions of libc"""
    def __init__(self, j, digits=4, units='KM'):
        self.j, self.e = j, j.e
        self.digits, self.units = digits, units
        self.open, self.asked, self.n = {}, [], 0
        e = self.e
        e.texts = {}
        for n in ('sprintf', 'snprintf', 'popen', 'pclose', 'fgets', 'atoi', 'strlen', 'strtol', 'atol', 'feof', 'fclose'):
            e.intercepts[n] = getattr(self, 'f_' + n)
    def f_sprintf(self, e, a):
        t = text(e, a[1])
        for v in a[2:]:
            if '%d' in t and isinstance(v, int): t = t.replace('%d', str(v), 1)
            elif '%s' in t and isinstance(v, Ptr): t = t.replace('%s', text(e, v), 1)
            else: raise Unsupported('sprintf')
        put(e, a[0], t.encode('latin1'))
        return len(t)
    def f_snprintf(self, e, a):
        n = a[1]
        t = text(e, a[2])
        for v in a[3:]:
            if '%d' in t and isinstance(v, int): t = t.replace('%d', str(v), 1)
            elif '%s' in t and isinstance(v, Ptr): t = t.replace('%s', text(e, v), 1)
            else: raise Unsupported('snprintf')
        put(e, a[0], t.encode('latin1')[:n - 1])
        return len(t)
    def kind(self, cmd):
        for k, w in (('cache', '--caches'), ('cpu', 'cpuinfo'), ('thr', 'Thread'), ('soc', 'Socket'), ('model', 'Model')):
            if w in cmd: return k
        raise Unsupported('unknown command ' + cmd[:60])
    def f_popen(self, e, a):
        k = self.kind(text(e, a[0]))
        o = e.new_obj('stream#%d' % len(e.objs), 'stream', 'cells', 8)
        self.open[o.id] = 'open'
        self.asked.append([k, None, o])
        return Ptr(o, 0)
    def stream(self, p, what):
        if not isinstance(p, Ptr) or p.obj is None or self.open.get(p.obj.id) != 'open':
            self.e.fail('heap', what + ' of a stream that is not open')
            raise PathEnd('stream')
        return p.obj.id
    def f_pclose(self, e, a):
        self.open[self.stream(a[0], 'close')] = 'closed'
        return 0
    f_fclose = f_pclose
    def f_feof(self, e, a):
        self.stream(a[0], 'use')
        return 0
    def f_fgets(self, e, a):
        """nothing, or one to `digits` digits, followed by a unit for cache sizes"""
        i = self.stream(a[2], 'read')
        rec = next(x for x in self.asked if x[2].id == i)
        k = rec[0]
        self.n += 1
        if rec[1] is not None:
            return NULL      # everything was read
        g = self.j.sym('%s%d_len' % (k, self.n), 0, self.digits)
        g = e.concretise(g)
        if g == 0:
            rec[1] = ('none',)
            return NULL
        ds = [self.j.sym('%s%d_d%d' % (k, self.n, x), 48, 57) for x in range(g)]
        v = 0
        for d in ds: v = v * 10 + (d - 48)
        u = None
        if k == 'cache':
            ui = e.concretise(self.j.sym('unit%d' % self.n, 0, len(self.units) - 1))
            u = self.units[ui]
            if isinstance(v, Poly): e.ctx.add_ge((1 << 31) // {'K': 1 << 10, 'M': 1 << 20, 'G': 1 << 30}[u] - 1 - v)   # sizes an int can hold
        out = ds + ([ord(u)] if u else [])
        lim = a[1]
        if not isinstance(lim, int): raise Unsupported('fgets size')
        out = out[:lim - 1]
        rec[1] = ('text', v, u)
        put(e, a[0], out)
        return a[0]
    def f_strlen(self, e, a): return len(bytes_of(e, a[0]))
    def f_atoi(self, e, a):
        v = 0
        for c in bytes_of(e, a[0]):
            if isinstance(c, int):
                if not 48 <= c <= 57: break
            elif not (e.ctx.prove_ge(c - 48) and e.ctx.prove_ge(57 - c)): raise Unsupported('atoi of arbitrary text')
            v = v * 10 + (c - 48)
        return v
    f_atol = f_atoi
    def f_strtol(self, e, a): return self.f_atoi(e, a)
    def closed(self):
        for i, s in self.open.items():
            self.e.oblige('heap', s == 'closed', 'a stream is left open')
    def line(self, v):
        """replay line: what each command printed"""
        def txt(r):
            if r[1] is None or r[1][0] == 'none': return '-'
            x = r[1][1]
            if isinstance(x, Poly):
                n = self.e.ctx.val(x, {PL.symid(s): v[k] for k, s in self.j.s.inputs.items()})
            else: n = x
            return '%d%s' % (n, r[1][2] or '')
        return ' '.join('%s=%s' % (r[0], txt(r)) for r in self.asked)

def printed(sh, k):
    """number a command printed (None: nothing)"""
    for r in sh.asked:
        if r[0] == k: return r[1][1] if r[1] and r[1][0] == 'text' else None
    return None

@setup('ncores')
def ncores(j):
    e = j.e
    j.sampler()
    sh = Shell(j, j.f.get('digits', 3))
    j.config = lambda v: 'fn=ncores ' + sh.line(v)
    def run():
        r = e.run_function(j.w.fn('get_num_physical_cores'), [])
        j.ge(r, 1, 'at least one core')
        sh.closed()
        cpu, thr, soc = (printed(sh, k) for k in ('cpu', 'thr', 'soc'))
        if cpu is None: cpu = 1
        if soc is None and (thr is None or e.decide(mkcond('ge', thr - 1))):
            t = 1 if thr is None else thr
            if e.decide(mkcond('ge', cpu - t)) if isinstance(cpu - t, Poly) else cpu >= t:
                j.ge(cpu, r * t, 'cores times threads per core within the processors')
                j.ge((r + 1) * t, cpu + 1, 'cores times threads per core covers the processors')
    return run

@setup('csize')
def csize(j):
    e, lv = j.e, j.f['level']
    j.sampler()
    sh = Shell(j, j.f.get('digits', 4))
    j.config = lambda v: 'fn=csize level=%d ' % lv + sh.line(v)
    UNIT = {'K': 1 << 10, 'M': 1 << 20, 'G': 1 << 30}
    def run():
        r = e.run_function(j.w.fn('get_cache_size'), [lv])
        sh.closed()
        got = [x for x in sh.asked if x[0] == 'cache']
        if got and got[0][1] and got[0][1][0] == 'text': j.eq(r, got[0][1][1] * UNIT[got[0][1][2]], 'cache size is the one printed')
        else: j.ge(r, 1024, 'fallback cache size')
    return run

@setup('query')
def query(j):
    e, w = j.e, j.w
    n, l = j.sym('nc', 1, 64), [j.sym('l%d' % i, 1, 1 << 28) for i in (1, 2, 3)]
    j.sampler()
    E, off = w.layout['enum'], w.layout['off']
    e.intercepts[w.fn('get_num_physical_cores')] = lambda e, a: n
    def cs(e, a):
        if not isinstance(a[0], int) or a[0] not in (1, 2, 3): raise Unsupported('cache level')
        return l[a[0] - 1]
    e.intercepts[w.fn('get_cache_size')] = cs
    torch = j.f['torch']
    j.config = lambda v: 'fn=query torch=%d L2=%d L3=%d' % (torch, v['l2'], v['l3'])
    def run():
        x = e.run_function(w.fn('cake_query_cntx_torch'), [l[1], l[2]]) if torch else e.run_function(w.fn('cake_query_cntx'), [])
        g = lambda f, sz=4: e.load(('int', 32) if sz == 4 else ('ptr',) if f == 'blis_cntx' else ('double',), Ptr(x.obj, off[('cake_cntx_t', f)]))
        have = {}
        for f in ('alpha_n', 'peak_dram_bw', 'peak_flops'):
            v = g(f, 8)
            e.oblige('uninit', v is not POISON, f + ' is set')
        for f in ('mr', 'nr', 'm_map', 'n_map', 'L1', 'L2', 'L3', 'ncores'):
            v = have[f] = g(f)
            e.oblige('uninit', v is not POISON, f + ' is set')
            if v is POISON: return
        b = g('blis_cntx', 8)
        e.oblige('uninit', b is not POISON, 'blis_cntx is set')
        j.eq(have['ncores'], n, 'core count')
        for i in (1, 2, 3): j.eq(have['L%d' % i], l[i - 1], 'L%d size' % i)
        kernel_index(j, have)
    return run

def kernel_index(j, have):
    """the register tile and the indices into the kernel table name the same kernel"""
    E = j.w.layout['enum']
    j.eq(have['m_map'] * E['MR_FACT'] + E['MR_MIN'], have['mr'], 'row index of the kernel')
    j.ge(have['m_map'], 0, 'row index of the kernel'); j.ge((E['MR_MAX'] - E['MR_MIN']) // E['MR_FACT'], have['m_map'], 'row index of the kernel') if 'MR_MAX' in E else None
    j.eq(have['n_map'] * E['NR_FACT'] + E['NR_MIN'], have['nr'], 'column index of the kernel')
    j.ge(have['n_map'], 0, 'column index of the kernel')

@setup('grid')
def grid(j):
    """the optimal column count is any non-negative integer here: the real value is the rounding of a square root"""
    e, p = j.e, j.f['p']
    M, N, K, c = j.sym('M', 1, None, (1, 400)), j.sym('N', 1, None, (1, 400)), j.sym('K', 1, None, (1, 40)), j.sym('cores', 1, 256, (1, 64))
    j.sampler()
    e.split_div, e.unrollcap = 300, 400
    j.config = lambda v: 'fn=grid p=%d M=%d N=%d K=%d cores=%d' % (p, v['M'], v['N'], v['K'], v['cores'])
    j.realise = lambda rnd: dict(M=rnd.choice((1, rnd.randint(1, 40), rnd.randint(1, 2000))), N=rnd.choice((1, rnd.randint(1, 40), rnd.randint(1, 2000))), K=rnd.randint(1, 9), cores=rnd.randint(1, 64))
    def run():
        r = e.concretise(e.run_function(j.w.fn('grid_dims_2d'), [M, N, K, p, c]))
        j.need(1 <= r <= p and p % r == 0, 'a column count of %s for %d threads' % (r, p))
    return run

@setup('auto')
def auto(j):
    """init_block_dims with tiles chosen from the caches"""
    f, e, w = j.f, j.e, j.w
    p, mr, nr, sch = f['p'], f['mr'], f['nr'], f['sch']
    M, N, K = j.sym('M', 1, 1 << 20, (1, 60 * p * mr)), j.sym('N', 1, 1 << 20, (1, 500)), j.sym('K', 1, 1 << 20, (1, 500))
    L2 = f['L2'] if 'L2' in f else j.sym('L2', 16384, 1 << 26, lambda r, env: r.choice((32768, 1 << 18, 1 << 20, r.randint(16384, 1 << 21))))
    L3 = f['L3'] if 'L3' in f else j.sym('L3', 1 << 16, 1 << 30, lambda r, env: r.choice((1 << 19, 1 << 23, r.randint(1 << 16, 1 << 25))))
    j.sampler()
    nco = f.get('ncores', 4)
    cn = j.s.cntx(ncores=nco, L2=L2, L3=L3)
    from . import gemm
    keep = gemm.fields(j.s, w, cn)
    x = Ptr(e.new_obj('x', 'heap', 'lazy', w.layout['size']['blk_dims_t']), 0)
    two = f.get('two')
    def config(v):
        return 'fn=auto two=%d sch=%d p=%d mr=%d nr=%d ncores=%d M=%d N=%d K=%d L1=32768 L2=%d L3=%d' % (1 if two else 0, sch, p, mr, nr, nco, v['M'], v['N'], v['K'], v.get('L2', L2), v.get('L3', L3))
    j.config = config
    j.spread = lambda r: {n: int(2 ** r.uniform(math.log2(lo), math.log2(hi + 1))) for n, lo, hi in (('M', 1, 1 << 20), ('N', 1, 1 << 20), ('K', 1, 1 << 20), ('L2', 16384, 1 << 26), ('L3', 1 << 16, 1 << 30))}
    if two: e.intercepts[w.fn('grid_dims_2d')] = lambda e, a: two
    def run():
        if f.get('only'):      # the tile choice alone
            q = e.run_function(w.fn('get_cache_dims'), [M, N, K, p, cn, sch, NULL, 4, 0, 0, 0])
            off = w.layout['off']
            g = lambda n: e.load(('int', 32), Ptr(q.obj, off[('cache_dims_t', n)]))
        else:
            e.run_function(w.fn('init_block_dims_2d' if two else 'init_block_dims'), [M, N, K, p, x, cn, sch, NULL, 4, 0, 0, 0])
            g = lambda n: field(j, x, n)
        if f.get('only') or not two:
            s = e.concretise(g('sch'))
            j.need(s == sch if sch != 3 else s in (0, 1, 2), 'schedule %s for a request of %d' % (s, sch))
        for n, r in (('m_c', mr), ('n_c', nr)):
            v = g(n)
            j.ge(v, r, n + ' holds a register tile')
            j.eq(e.idiv(v, r)[1], 0, n + ' is whole register tiles')
        j.ge(g('k_c'), 1, 'k_c')
        gemm.unchanged(j.s, w, cn)
    j.s.keep = keep
    return run
