"""The GEMM entry points as symbolic jobs: a family fixes the entry point, schedule, thread count, register tile and bounds;
one job explores one path of a family and decides the obligations asked for."""
import time, random, signal
from . import cakeh, resolve, race, prover, poly as PL
from .poly import Poly
from .prover import mkcond
from .sym import PathEnd, Unsupported, NotSummarisable, NULL, Ptr

ENTRY = {'sgemm': 'cake_sgemm', 'online': 'cake_sgemm_online', '2d': 'cake_sgemm_2d'}
DEF = dict(entry='sgemm', sch=0, p=2, mr=6, nr=16, maxq=1, tiles='user', beta=0, pa=0, pb=0, L1=32768, L2=1 << 20, L3=8 << 20,
           ncores=4, machine='haswell', facet=(), schret=None, grid=None, value=True, race=False, own=0, leak=0, stale=0, big=0, cats=('bounds', 'uninit', 'heap', 'div0', 'readonly', 'exit', 'spec'))

def fam(**kw):
    d = dict(DEF)
    d.update(kw)
    if d['entry'] == '2d' and 'L2' not in kw and d['tiles'] == 'user': d['L2'] = 1900
    return d

def show(f):
    if 'setup' in f: return ' '.join('%s=%s' % (k, f[k]) for k in f if k != 'cats')
    return ' '.join('%s=%s' % (k, f[k]) for k in ('entry', 'sch', 'p', 'mr', 'nr', 'maxq', 'tiles', 'beta', 'pa', 'pb', 'facet', 'schret', 'grid', 'own', 'stale', 'big', 'machine') if f[k] != DEF[k] or k in ('entry', 'sch', 'p', 'mr', 'nr'))

class PathTimeout(Exception):
    pass

def config(f, env):
    """replay line of an input assignment"""
    g = dict(entry=f['entry'], sch=f['sch'], p=f['p'], mr=f['mr'], nr=f['nr'], beta=f['beta'], pa=f['pa'], pb=f['pb'],
             L1=f['L1'], L2=f['L2'], L3=f['L3'], ncores=f['ncores'], M=env['M'], N=env['N'], K=env['K'])
    for k in ('own', 'leak', 'stale', 'big'):
        if f[k]: g[k] = f[k]
    if f['tiles'] != 'default': g.update(mc=f['mr'] * env['a'], kc=env['kc'], nc=f['nr'] * env['b'])
    return ' '.join('%s=%s' % kv for kv in g.items())

def start(w, f, script):
    s = cakeh.Setup(w, script, cats=f['cats'], maxq=f['maxq'], mrnr=(f['mr'], f['nr']), p=f['p'])
    e = s.e
    p, mr, nr = f['p'], f['mr'], f['nr']
    M, N, K = s.isym('M'), s.isym('N'), s.isym('K')
    rg = {'M': (1, 60 * mr * p // 12), 'N': (1, 80 * nr // 16), 'K': (1, 12)}
    args = [0, 0, 0]
    if f['tiles'] == 'user':
        a, kc, b = s.isym('a'), s.isym('kc'), s.isym('b')
        args = [mr * a, kc, nr * b]
        rg.update({'a': (1, 3), 'b': (1, 2), 'kc': (1, 6)})
        unit = {'M': mr * a * (p if f['sch'] != 1 else 1), 'N': nr * b, 'K': kc * (p if f['sch'] == 1 else 1)}
        for d, q in f['facet']:
            e.ctx.add_ge({'M': M, 'N': N, 'K': K}[d] - q * unit[d])
            rg[d] = (1, 4 * (q + 1) * {'M': mr * p, 'N': nr, 'K': 4 * (p if f['sch'] == 1 else 1)}[d])
    else:
        for d, lo, hi in f['facet']:
            x = {'M': M, 'N': N, 'K': K}[d]
            e.ctx.add_ge(x - lo)
            e.ctx.add_ge(hi - x)
            rg[d] = (lo, hi)
    e.ctx.sampler = cakeh.sampler_for(s, rg)
    A = s.array('A', M * K, const=True)
    B = s.array('B', K * N, const=True)
    C = s.array('C', M * N)
    cn = s.cntx(L1=f['L1'], L2=f['L2'], L3=f['L3'], ncores=f['ncores'])
    s.ABC = (A, B, C, M, N, K)
    if f['stale']: s.keep = fields(s, w, cn)
    if f['own']:        # no context given: the entry queries the machine (C19 decides the query itself)
        def query(e, args, c=cn):
            q = e.heap('own_cntx', w.layout['size']['cake_cntx_t'], 'uninit', 16)
            q.obj.mode = 'cells'
            q.obj.cells.update(c.obj.cells)
            return q
        e.intercepts[w.fn('cake_query_cntx')] = query
        cn = NULL
    s.cn = cn
    s.args = [A, B, C, M, N, K, p, cn, NULL, f['pa'], f['pb'], 1, f['beta'], f['sch']] + args
    s.tiles = args
    if f['tiles'] == 'contract': (grid_contract if f['entry'] == '2d' else tile_contract)(s, w, f, rg)
    if f['big']: limit(s, f)
    return s, s.args

TOP = 2 ** 31 - 1
def limit(s, f):
    """operands, result and tiles, padded to whole register tiles, have fewer than 2^31 elements"""
    e, v, p, mr, nr = s.e, s.inputs, f['p'], f['mr'], f['nr']
    M, N, K = v['M'] + mr - 1, v['N'] + nr - 1, v['K']
    q = [M * K, K * N, M * N]
    if 'a' in v:
        mc, nc, kc = mr * v['a'], nr * v['b'], v['kc']
        q += [p * mc * kc, p * kc * nc, p * mc * nc]
    for x in q: e.ctx.add_ge(TOP - x)

CN = {'peak_dram_bw': 8, 'peak_flops': 8, 'blis_cntx': 8, 'mr': 4, 'nr': 4, 'm_map': 4, 'n_map': 4, 'L1': 4, 'L2': 4, 'L3': 4, 'ncores': 4}
def fields(s, w, cn):
    """a context that was used before: the scratch field holds anything (reading it before it is rewritten is an error)"""
    off = w.layout['off']
    o = cn.obj
    o.cells.pop(off[('cake_cntx_t', 'alpha_n')])
    return {n: o.cells[off[('cake_cntx_t', n)]] for n in CN if ('cake_cntx_t', n) in off}

def unchanged(s, w, cn):
    e, off = s.e, w.layout['off']
    for n, v in s.keep.items():
        now = cn.obj.cells.get(off[('cake_cntx_t', n)])
        if now is not None and now[0] == v[0] and (now[1] is v[1] or now[1] == v[1]):
            e.nob += 1
            e.nok += 1
        else: e.fail('spec', 'the context field %s was changed' % n)

def grid_contract(s, w, f, rg):
    """init_block_dims_2d returns the block structure of a pm x pn grid with any tiles (decided on its own code by C14)"""
    e = s.e
    pm, pn = f['grid']
    mr, nr = f['mr'], f['nr']
    M, N, K = s.inputs['M'], s.inputs['N'], s.inputs['K']
    a, kc, b = s.isym('a'), s.isym('kc'), s.isym('b')
    rg.update({'a': (1, 3), 'b': (1, 2), 'kc': (1, 6), 'M': (1, 60 * mr * pm // 12), 'N': (1, 80 * nr * pn // 32)})
    off = w.layout['off']
    def part(x, unit, r, q):
        """full blocks, remainder, tiles in the remainder, tiles per core, cores used, tiles of the last core"""
        fb, rem = e.idiv(x, unit)
        pad = 1 if e.decide(mkcond('ge', rem - 1)) else 0
        if not pad: return fb, 0, 0, 0, 0, 0, 0
        rr = e.idiv(rem + r - 1, r)[0]
        per = e.idiv(rr + q - 1, q)[0]
        for ql in range(1, q + 1):
            if ql == q or e.decide(mkcond('ge', per * ql - rr)): break
        def fix(y):
            if isinstance(y, int): return y
            for v in (1, 2, 3):
                if e.ctx.prove_ge(v - y) and e.ctx.prove_ge(y - v): return v
            return y
        if ql < q: rr, per = fix(rr), fix(per)
        return fb, rem, pad, rr, per, ql, per - (ql * per - rr)
    def h(e, args):
        x = args[4]
        mc, nc = mr * a, nr * b
        mf, mrem, mp, mrr, mper, ml, mlast = part(M, pm * mc, mr, pm)
        nf, nrem, np_, nrr, nper, nl, nlast = part(N, pn * nc, nr, pn)
        kf, krem = e.idiv(K, kc)
        kp = 1 if e.decide(mkcond('ge', krem - 1)) else 0
        v = dict(m_c=mc, k_c=kc, n_c=nc, m_c1=mper * mr, k_c1=krem if kp else 0, n_c1=nper * nr, m_c1_last_core=mlast * mr, n_c1_last_core=nlast * nr,
                 mr_rem=mrr, nr_rem=nrr, pm_l=ml, pn_l=nl, pm=pm, pn=pn, m_pad=mp, k_pad=kp, n_pad=np_, Mb=mf + mp, Kb=kf + kp, Nb=nf + np_,
                 M_padded=mr * mrr + mf * pm * mc, N_padded=nr * nrr + nf * pn * nc, sch=args[6])
        for n, y in v.items():
            if ('blk_dims_t', n) in off: e.store(('int', 32), y, Ptr(x.obj, x.off + off[('blk_dims_t', n)]))
        return None
    e.intercepts[w.fn('init_block_dims_2d')] = h

def prepack(s, w, f):
    """what a caller that passes packed operands does: the library's block dims, sizes and packing functions"""
    e = s.e
    A, B, C, M, N, K = s.ABC
    p = f['p']
    off = w.layout['off']
    x = Ptr(e.new_obj('callers_x', 'heap', 'lazy', w.layout['size']['blk_dims_t']), 0)
    c2 = s.cntx(L1=f['L1'], L2=f['L2'], L3=f['L3'], ncores=f['ncores'])
    e.run_function(w.fn('init_block_dims'), [M, N, K, p, x, c2, f['sch'], NULL, 4] + s.tiles)
    sch = e.load(('int', 32), Ptr(x.obj, off[('blk_dims_t', 'sch')]))
    if f['pa']:
        q = e.heap('packedA', e.run_function(w.fn('cake_sgemm_packed_A_size'), [M, K, p, x, c2, sch]), 'uninit', 64)
        e.run_function(w.fn('pack_A'), [A, q, M, K, p, x, c2, sch])
        q.obj.const = True
        s.args[0] = q
    if f['pb']:
        q = e.heap('packedB', e.run_function(w.fn('cake_sgemm_packed_B_size'), [K, N, p, x, c2]), 'uninit', 64)
        e.run_function(w.fn('pack_B'), [B, q, K, N, p, x, c2, sch])
        q.obj.const = True
        s.args[1] = q

def tile_contract(s, w, f, rg):
    """get_cache_dims returns any positive multiples of the register tile (decided on its own code by C06/C16)"""
    e = s.e
    a, kc, b = s.isym('a'), s.isym('kc'), s.isym('b')
    rg.update({'a': (1, 3), 'b': (1, 2), 'kc': (1, 6)})
    off = w.layout['off']
    def h(e, args):
        q = e.heap('cache_dims', w.layout['size']['cache_dims_t'], 'uninit', 16)
        for n, v in (('m_c', f['mr'] * a), ('k_c', kc), ('n_c', f['nr'] * b), ('sch', f['sch'] if f['schret'] is None else f['schret'])):
            e.store(('int', 32), v, Ptr(q.obj, off[('cache_dims_t', n)]))
        return q
    e.intercepts[w.fn('get_cache_dims')] = h

def grid_of(M, N, p):
    """the grid the 2-D entry asks for: the factor of p nearest to sqrt(pN/M)"""
    import math
    v = math.sqrt(p * N / M)
    pn = min(p, max(1, int(math.floor(v + .5))))
    if p % pn == 0: return p // pn, pn
    hi = next(i for i in range(pn + 1, p + 1) if p % i == 0)
    lo = next(i for i in range(pn - 1, 0, -1) if p % i == 0)
    pn = hi if hi - pn < pn - lo else lo
    return p // pn, pn

def dims2d(M, N, p, mr, nr, mc):
    """grid and tiles of the 2-D entry for caller tiles (a guess used to aim replays; nothing is concluded from it)"""
    pm, pn = grid_of(M, N, p)
    up = lambda x, r: -(-x // r) * r
    Mp, Np = up(M, mr), up(N, nr)
    if Mp == pm * mr: mc, pm = mr, 1
    elif Mp < pm * mc:
        a = Mp // pm
        if a < mr: mc, pm = mr, Mp // mr
        else: mc = up(a, mr)
    nc = up(mc, nr)
    if Np == pn * nr: nc, pn = nr, 1
    elif Np < pn * nc:
        a = Np // pn
        if a < nr: nc, pn = nr, Np // nr
        else: nc = up(a, nr)
    return pm, pn, mc, nc

def realise2d(s, f, e, want, tries, rnd):
    """calls of the real 2-D entry whose grid and tiles lie on this path"""
    ids = {n: PL.symid(x) for n, x in s.inputs.items()}
    mr, nr, p = f['mr'], f['nr'], f['p']
    out = []
    for _ in range(tries):
        pm, pn = f['grid']
        a0 = rnd.choice((1, 1, 1, 2, 2, 3))
        kc = rnd.randint(1, 6)
        M = rnd.choice((rnd.randint(1, 5 * pm * mr * a0), pm * mr * a0 * rnd.randint(1, 3) + rnd.randint(-7, 7)))
        if M < 1: continue
        w = p * M // max(1, pm * pm)
        N = rnd.choice((rnd.randint(1, 8 * pn * nr), pn * nr * rnd.randint(1, 4) + rnd.randint(-17, 17), int(M * pn * pn / p * (.7 + .7 * rnd.random()))))
        if N < 1: continue
        K = rnd.choice((1, kc, kc + 1, 2 * kc, rnd.randint(1, 15)))
        g = dims2d(M, N, p, mr, nr, mr * a0)
        if (g[0], g[1]) != tuple(f['grid']): continue
        env = dict(M=M, N=N, K=K, a=g[2] // mr, b=g[3] // nr, kc=kc)
        if e.ctx.consistent({ids[n]: v for n, v in env.items()}):
            d = dict(env)
            d['a'] = a0
            if d not in out: out.append(d)
            if len(out) >= want: break
    return out

def envs(s, f, pts):
    out = []
    for e in pts:
        d = {}
        for n, x in s.inputs.items():
            v = e.get(PL.symid(x))
            if v is None: break
            d[n] = v
        else: out.append(d)
    return out

def explore(w, f, script, tmax=150, ncex=16):
    """one path: dict of what was decided, alternative scripts, witnesses and counterexample candidates"""
    st0 = (prover.STATS.queries, prover.STATS.unsat, prover.STATS.time)
    t0 = time.time()
    r = dict(script=list(script), fam=f, status='ok', msg='', nob=0, nok=0, bad=[], value=None, race=None, alts=[], wit=[], cex=[], funcs=[], trace=[])
    def onalarm(*a): raise PathTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(tmax)
    s = e = None
    try:
        s, args = start(w, f, script)
        e = s.e
        try:
            if f['pa'] or f['pb']: prepack(s, w, f)
            have = len(e.objs)
            e.run_function(w.fn(ENTRY[f['entry']]), args)
            if f['leak']:
                for o in e.objs[have:]:
                    if o.kind == 'heap' and not o.supp:
                        if o.freed:
                            e.nob += 1
                            e.nok += 1
                        else: e.fail('heap', 'not released: %s allocated at %s' % (o.name, o.site))
            if f['stale']: unchanged(s, w, s.cn)
        except PathEnd as x:
            r['status'], r['msg'] = 'end', '%s %s' % (x.kind, x.msg)
            r['kind'] = x.kind
        except (Unsupported, NotSummarisable) as x:
            r['status'], r['msg'] = 'unsupported', '%s @%s' % (x, e.stack[-1:])
        if r['status'] == 'ok':
            A, B, C, M, N, K = s.ABC
            if f['value']:
                try:
                    n, boxes = resolve.check_gemm(e, A, B, C, M, N, K, accumulate=f['beta'] != 0)
                    r['value'] = 'proved'
                    r['ncases'] = n
                except (resolve.Unresolved, resolve.Mismatch, resolve.Uninit, Unsupported) as x:
                    r['value'] = '%s: %s' % (type(x).__name__, str(x)[:300])
                e.ctx.scopes, e.ctx.guards = [], []
            if f['race']:
                rc = race.Races(e)
                rc.run()
                r['race'] = (rc.pairs, rc.proved)
                r['races'] = [repr(x)[:300] for x in rc.found[:6]]
                r['regions'] = len(e.regions)
    except PathTimeout:
        r['status'], r['msg'] = 'timeout', ''
    except RecursionError:
        r['status'], r['msg'] = 'unsupported', 'recursion'
    except Exception as x:
        r['status'], r['msg'] = 'unsupported', 'internal %s %s' % (type(x).__name__, str(x)[:200])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if e is not None:
        r['nob'], r['nok'] = e.nob, e.nok
        r['alts'] = e.alts
        r['funcs'] = sorted(e.funcs_seen)
        r['trace'] = e.trace_paths
        r['bounds'] = sorted(e.bounds_assumed)
        try:
            signal.signal(signal.SIGALRM, onalarm)
            signal.alarm(30)
            try:
                e.ctx.scopes, e.ctx.guards = [], []
                if not e.ctx.samples: e.ctx.seek()
                wit = envs(s, f, e.ctx.samples)
                failing = r['status'] in ('unsupported', 'timeout') or e.obligs or (r['value'] or 'proved') != 'proved' or r.get('races') or (r['status'] == 'end' and r.get('kind') not in ('infeasible', 'bound'))
                if f['big']: wit = []
                elif f['entry'] == '2d' and f['tiles'] == 'contract':
                    rnd = random.Random(11)
                    wit = realise2d(s, f, e, ncex if failing else 1, 30000 if failing else 1500, rnd)
                r['wit'] = [config(f, x) for x in wit[:2]]
                for o in e.obligs[:4]:
                    r['bad'].append('%s: %s in %s' % (o.cat, o.desc, o.where))
                if f['big']:
                    if failing: r['cex'] = huge(s, f, e)
                elif failing and f['entry'] == '2d' and f['tiles'] == 'contract':
                    r['cex'] = [config(f, x) for x in wit]
                elif failing:
                    cex = []
                    for o in e.obligs[:4]:
                        e.ctx.scopes, e.ctx.guards = list(o.scopes), list(o.guards)
                        pts = e.ctx.points()
                        hit = [x for x in pts if all(e.ctx.cval(c, x) for c in o.neg)]
                        cex += envs(s, f, hit[:4])
                    e.ctx.scopes, e.ctx.guards = [], []
                    for o in e.obligs[:2]:
                        e.ctx.scopes, e.ctx.guards = list(o.scopes), list(o.guards)
                        m = e.ctx.model(conds=list(o.neg), bounds={PL.symid(x): (1, 300) for x in s.inputs.values()}, timeout=2000)
                        if m: cex += envs(s, f, [m])
                    e.ctx.scopes, e.ctx.guards = [], []
                    cex += wit
                    # more members of this path: mutations of the known ones
                    more = widen(s, f, e, wit, ncex)
                    seen, out = set(), []
                    for x in cex + more:
                        k = config(f, x)
                        if k not in seen:
                            seen.add(k)
                            out.append(k)
                    r['cex'] = out[:ncex * 2]
            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
        except PathTimeout:
            pass
        except Exception as x:
            r['msg'] += ' (witness search: %s)' % x
    st1 = (prover.STATS.queries, prover.STATS.unsat, prover.STATS.time)
    r['queries'], r['unsat'], r['ztime'] = st1[0] - st0[0], st1[1] - st0[1], st1[2] - st0[2]
    r['time'] = time.time() - t0
    return r

def huge(s, f, e, want=4, tries=6000):
    """operands near the size bound on this path that break a failed obligation, smallest first"""
    rnd = random.Random(17)
    ids = {n: PL.symid(x) for n, x in s.inputs.items()}
    p, mr, nr = f['p'], f['mr'], f['nr']
    out = {}
    up = lambda x, r: max(1, -(-x // r))
    for i in range(tries):
        big = 1 << rnd.choice((27, 28, 29, 29, 30, 30))
        s1 = 1 << rnd.randint(0, 27)
        d = [s1, max(1, big // s1), rnd.choice((1, 2, 3, nr, nr + 1))]
        rnd.shuffle(d)
        M, N, K = (max(1, x + rnd.randint(-2, 40)) for x in d)
        if 1.0 * M * K + 1.0 * K * N + 1.0 * M * N > 1.4e9: continue
        t = lambda x, q, r: up(int(x * rnd.choice((.3, .5, .6, .9, 1, 1.2, 2))) // q, r)
        b = dict(M=M, N=N, K=K)
        if 'a' in ids:
            if rnd.random() < .3: b.update(a=rnd.randint(1, 16), b=rnd.randint(1, 8), kc=rnd.randint(1, 200))
            else: b.update(a=t(M, p if f['sch'] != 1 else 1, mr), b=t(N, 1 if f['entry'] != '2d' else p, nr), kc=t(K, p if f['sch'] else 1, 1))
        env = {ids[n]: v for n, v in b.items()}
        if not e.ctx.consistent(env): continue
        out[config(f, b)] = (M * K + K * N + M * N, env)
        if len(out) > 60: break
    hit = []
    for o in e.obligs[:3] or [None]:
        for c, (n, env) in sorted(out.items(), key=lambda x: x[1][0]):
            if o is None: ok = True
            else:
                e.ctx.scopes, e.ctx.guards = list(o.scopes), list(o.guards)
                ok = e.ctx.model(conds=list(o.neg), bounds={k: (v, v) for k, v in env.items()}, timeout=400)
            if ok: hit.append((n, c))
            if len(hit) >= want: break
        if len(hit) >= want: break
    e.ctx.scopes, e.ctx.guards = [], []
    return [c for _, c in hit]

def widen(s, f, e, wit, want):
    if not wit: return []
    rnd = random.Random(7)
    ids = {n: PL.symid(x) for n, x in s.inputs.items()}
    out = []
    for _ in range(600):
        b = dict(rnd.choice(wit))
        for n in rnd.sample(list(b), rnd.randint(1, 3)):
            b[n] = max(1, b[n] + rnd.choice((-17, -6, -3, -2, -1, 1, 2, 3, 5, 6, 16, 31, 48)) if rnd.random() < .8 else rnd.randint(1, 90))
        if b in out or b in wit: continue
        env = {ids[n]: v for n, v in b.items()}
        if e.ctx.consistent(env):
            out.append(b)
            if len(out) >= want: break
    return out
