"""Symbolic set-ups of CAKE's entry points."""
import os, re
from . import ir, stage, poly as PL
from .poly import Poly, syms
from .sym import Engine, Ptr, NULL, Fn, PathEnd, Unsupported, NotSummarisable
from .prover import mkcond

class World:
    """the code under test, regenerated from the working tree"""
    def __init__(self, d=None, ll=None, cores=4, machine='haswell', limits=None):
        self.d = d or stage.stage(cores, machine, limits)
        self.ll = ll or stage.build_ir(self.d)
        self.layout = stage.layout(self.d)
        self.text = open(self.ll).read()
        self.m = ir.Module(self.text)
        self.find_names()

    def find_names(self):
        self.byname = {}
        for f in self.m.functions:
            n = demangle_base(f) if '.' not in f else None
            if n: self.byname.setdefault(n, []).append(f)
    def fn(self, base):
        l = self.byname.get(base)
        if not l: raise Unsupported('no function ' + base)
        if len(l) > 1: l = sorted(l, key=len)[-1:]
        return l[0]
    def dense_kernels(self):
        """mangled name -> (R,S) for the generated dense kernels"""
        out = {}
        for f in self.m.functions:
            n = demangle_base(f)
            mm = re.match(r'cake_sgemm_(?:haswell|armv8)_(\d+)x(\d+)$', n or '')
            if mm: out[f] = (int(mm.group(1)), int(mm.group(2)))
        return out

def demangle_base(f):
    m = re.match(r'_Z(\d+)(.*)$', f)
    if m:
        n = int(m.group(1))
        return m.group(2)[:n]
    if f.startswith('_Z'): return None
    return f

class Setup:
    """symbolic arguments for a GEMM entry point"""
    def __init__(self, w, script=(), cats=('bounds', 'uninit', 'heap', 'div0', 'readonly', 'exit'), maxq=2, mrnr=(6, 16), p=2, **kw):
        PL.reset()
        from . import prover
        prover.reset_cache()
        self.w = w
        self.e = Engine(w.m, script, cats=cats, maxq=maxq, kernel_contract=w.dense_kernels())
        self.p = p
        self.mr, self.nr = mrnr
        self.inputs = {}

    def isym(self, name, lo=1, hi=None):
        s = PL.sym(name)
        self.e.ctx.add_ge(s - lo)
        if hi is not None: self.e.ctx.add_ge(hi - s)
        if hi is not None: self.e.ranges[PL.symid(s)] = (lo, hi)
        self.inputs[name] = s
        return s

    def cntx(self, mr=None, nr=None, ncores=4, L1=32768, L2=1 << 20, L3=8 << 20, alpha=1, mmap=None, nmap=None):
        e, w = self.e, self.w
        o = e.new_obj('cntx', 'param', 'cells', w.layout['size']['cake_cntx_t'])
        off = w.layout['off']
        E = w.layout['enum']
        mr, nr = mr or self.mr, nr or self.nr
        def put(f, v, sz=4):
            k = ('cake_cntx_t', f)
            if k in off: o.cells[off[k]] = (sz, v)
        put('blis_cntx', NULL, 8)
        put('alpha_n', alpha, 8)
        put('peak_dram_bw', 32 * 10**9, 8)
        put('peak_flops', 600 * 10**9, 8)
        put('mr', mr); put('nr', nr)
        put('m_map', (mr // E['MR_FACT']) - (E['MR_MIN'] // E['MR_FACT']) if mmap is None else mmap)
        put('n_map', (nr // E['NR_FACT']) - (E['NR_MIN'] // E['NR_FACT']) if nmap is None else nmap)
        put('L1', L1); put('L2', L2); put('L3', L3); put('ncores', ncores)
        return Ptr(o, 0)

    def array(self, name, elems, init='base', const=False):
        o = self.e.new_obj(name, 'param', 'array', elems * 4, init, 16)
        o.const = const
        return Ptr(o, 0)

def sampler_for(setup, ranges, want=40, seed=1):
    """concrete assignments of the inputs that satisfy the path facts: mutations of known ones, random ones, and solver models"""
    import random
    rnd = random.Random(seed)
    ids = {}
    st = {'z3': 0, 'seen': -1, 'old': []}
    def draw(n, env):
        r = ranges[n]
        return r(rnd, env) if callable(r) else rnd.randint(*r)
    def go(ctx):
        if st['seen'] == ctx.version: return
        if len(ids) != len(setup.inputs): ids.update({n: PL.symid(s) for n, s in setup.inputs.items()})
        st['seen'] = ctx.version
        found = 0
        have = {tuple(e[i] for i in ids.values()) for e in ctx.samples}
        def offer(env):
            k = tuple(env[i] for i in ids.values())
            if k in have: return False
            if ctx.consistent(env):
                have.add(k)
                ctx.samples.append(env)
                return True
            return False
        if not ctx.samples:
            for _ in range(400 if ctx.version < 60 else 60):
                env = {}
                for n, i in ids.items(): env[i] = draw(n, env)
                if offer(env):
                    found += 1
                    if found >= want: break
        if not ctx.samples and st['z3'] < 12:
            st['z3'] += 1
            m = ctx.model(timeout=1500, nolocal=True, bounds={i: (1, 4000) for i in ids.values()})
            if m is not None:
                if offer({i: m.get(i, 1) for i in ids.values()}): found += 1
        if ctx.samples and len(ctx.samples) < want:
            for _ in range(300):
                env = {i: rnd.choice(ctx.samples)[i] for i in ids.values()} if rnd.random() < .2 else {i: v for i, v in rnd.choice(ctx.samples).items() if i in ids.values()}
                for n in rnd.sample(list(ids), rnd.randint(1, min(2, len(ids)))):
                    env[ids[n]] = draw(n, env) if rnd.random() < .5 else max(1, env[ids[n]] + rnd.choice((-17, -7, -5, -3, -2, -1, 1, 2, 3, 5, 7, 17)))
                if offer(env):
                    found += 1
                    if len(ctx.samples) >= want: break
        if found: ctx.sver += 1
    return go
