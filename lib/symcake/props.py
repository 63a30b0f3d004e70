"""The checks, one per property."""
import os, sys, time, random, itertools
from . import stage, cakeh, gemm, drive, replay, prover
from .gemm import fam
from .drive import Report

CHECKS = {}
def check(pid):
    def d(fn):
        CHECKS[pid] = fn
        return fn
    return d

def run(pid, tier):
    rep = Report(pid, tier)
    CHECKS[pid](rep, tier)
    return rep.finish()

# ------------------------------------------------------------------ GEMM paths
def summarise(rep, res, left, rest, extra=None):
    ok = [r for r in res if r['status'] == 'ok']
    ends = [r for r in res if r['status'] == 'end']
    fams = {}
    for r in res:
        k = gemm.show(r['fam'])
        x = fams.setdefault(k, dict(paths=0, proved=0, empty=0, bound=0, open=0, obligations=0, discharged=0))
        x['paths'] += 1
        x['obligations'] += r['nob']
        x['discharged'] += r['nok']
        if r['status'] == 'end' and r.get('kind') == 'infeasible': x['empty'] += 1
        elif r['status'] == 'end' and r.get('kind') == 'bound': x['bound'] += 1
        elif good(r): x['proved'] += 1
        else: x['open'] += 1
    funcs = sorted(set(f for r in res for f in r['funcs']))
    openp = [dict(family=gemm.show(r['fam']), path=r['trace'][:20], why=(r['msg'] or '') + ' ' + '; '.join(r['bad'][:3]) + ' ' + (r['value'] or '') + ' ' + '; '.join(r.get('races') or [])) for r in res if r['status'] in ('ok', 'unsupported', 'timeout') and not good(r) or r['status'] == 'end' and r.get('kind') not in ('infeasible', 'bound')]
    rep.cov.update(
        states=len(res), transitions=sum(len(r['script']) for r in res),
        paths_proved=sum(x['proved'] for x in fams.values()), paths_open=len(openp), paths_unexplored=left,
        obligations=sum(r['nob'] for r in res), discharged=sum(r['nok'] for r in res),
        solver_queries=sum(r['queries'] for r in res), solver_unsat=sum(r['unsat'] for r in res), solver_s=round(sum(r['ztime'] for r in res), 1),
        families=fams, functions_encoded=funcs, bounds=sorted(set(b for r in res for b in r.get('bounds', []))),
        inconclusive=openp[:20])
    rep.cov['samples'] = [dict(family=gemm.show(r['fam']), path=r['trace'], cases=r.get('ncases'), witness=r['wit'][:1]) for r in res if good(r)][:3]
    rep.cov['summary'] = '%d paths proved, %d open, %d unexplored, %d/%d obligations, %d queries' % (rep.cov['paths_proved'], len(openp), left, rep.cov['discharged'], rep.cov['obligations'], rep.cov['solver_queries'])
    return openp

def good(r):
    return r['status'] == 'ok' and r['nob'] == r['nok'] and (r['value'] in (None, 'proved')) and not r.get('races')

def replays(rep, res, bld, extra=(), maxw=400, maxc=600, budget=150, keep=None, jobs=8, driver=None):
    """replay counterexample candidates and path witnesses on the real code"""
    exe = bld.wait()
    LAST_BUILD['exe'] = exe
    if exe is None:
        rep.cov['replay_error'] = str(bld.err)
        rep.cov['traces_validated_against_impl'] = 0
        return
    cex, wit = [], []
    seen = set()
    for r in res:
        for c in r['cex']:
            if c not in seen: seen.add(c); cex.append(c)
    for r in res:
        for c in r['wit'][:1]:
            if c not in seen: seen.add(c); wit.append(c)
    rnd = random.Random(rep.seed)
    if len(cex) > maxc: cex = rnd.sample(cex, maxc)
    if len(wit) > maxw: wit = rnd.sample(wit, maxw)
    ext = [c for c in extra if c not in seen]
    allc = cex + ext + wit
    if not allc:
        rep.cov['traces_validated_against_impl'] = 0
        return
    t0 = time.time()
    out, notes = replay.run(exe, allc, deadline=time.time() + budget, jobs=jobs)
    done = [x for x in out if x[1] is not None]
    bad = [(c, m) for c, m in done if m != 'ok']
    rep.cov['traces_validated_against_impl'] = len(done)
    rep.cov['replay' if driver is None else 'replay_' + driver] = dict(candidates=len(cex), witnesses=len(wit), structured_models=len(ext), ran=len(done), failed=len(bad), seconds=round(time.time() - t0, 1))
    hung = [c for c, m in bad if m == 'killed by signal 14']
    if hung:        # a slow machine is not a hang: again, alone, with more time
        again, _ = replay.run(exe, hung[:2], lim=150, jobs=1)
        still = {c for c, m in again if m == 'killed by signal 14'}
        bad = [(c, m if c not in still else 'does not terminate') for c, m in bad if c not in hung or c in still]
    for c, m in bad:
        if keep is not None and not keep(c, m): continue
        rep.violation('%s: %s%s' % (c, m, (' | ' + notes[0]) if notes else ''), c)

def models(entry, sch, seed, ps=(1, 2, 3, 4, 5, 7, 8), tiles=((6, 16), (8, 16), (6, 32), (8, 32)), n=120, **kw):
    """block-structured models: integer solutions of 'M is qm full blocks and a remainder rm' etc., one per structure"""
    rnd = random.Random(seed * 7919 + sch * 31 + len(entry))
    out = []
    while len(out) < n:
        p = rnd.choice(ps)
        mr, nr = rnd.choice(tiles)
        a, b, kc = rnd.choice((1, 1, 2, 3)), rnd.choice((1, 1, 2)), rnd.choice((1, 2, 3, 5, 8))
        um = mr * a * (1 if sch == 1 else p)
        uk = kc * (p if sch == 1 else 1)
        un = nr * b
        def dim(u, full, sub, cap):
            q = rnd.choice((0, 0, 1, 1, 2, 3, 4))
            r = rnd.choice((0, 1, sub - 1, sub, sub + 1, u - 1, u - sub, rnd.randrange(u)))
            v = q * u + max(0, min(u - 1, r))
            return max(1, v if v <= cap else rnd.randint(1, cap))
        g = dict(entry=entry, sch=sch, p=p, mr=mr, nr=nr, beta=0, pa=0, pb=0, L1=32768, L2=1 << 20, L3=8 << 20, ncores=rnd.choice((p, 4, 8)),
                 M=dim(um, 0, mr, 400), N=dim(un, 0, nr, 300), K=dim(uk, 0, 1 if sch != 1 else kc, 60), mc=mr * a, kc=kc, nc=nr * b)
        if len(out) % 2: g['mr0'], g['nr0'] = rnd.choice(tiles)
        g.update(kw)
        if not kw.get('stale'): g['hist'] = len(out) % 30 // 3 + 1 if len(out) % 3 == 2 else 0
        out.append(' '.join('%s=%s' % kv for kv in g.items()))
    return out

ASSUME = [
    'float data are uninterpreted: sums are exact, so reassociation of the K sum is not distinguished',
    'tiles given by the caller are positive multiples of the register tile (mc = a*mr, nc = b*nr, kc >= 1)',
    'integers are mathematical integers here (no operand reaches 2^31 elements); malloc, calloc and posix_memalign succeed',
    'the microkernels are used through their contract C[RxS] += sum_k A[k]*B[k], decided separately on their own code (C09)',
    'the BLAS-like packing, kernel and OpenMP outlined functions are taken from clang -O0 IR of the current tree, one arbitrary loop iteration at a time',
]

QB = {'quick': 200, 'thorough': 3000}

def gemm_check(rep, fams, ext=(), kind='asan', tier='quick', extra=None, maxw=300, keep=None):
    """explores the families, replays what the solver left open (and its witnesses) on the real code"""
    rep.assume = list(ASSUME)
    w = cakeh.World()
    bld = replay.Build(w.d, kind=kind)
    if extra is not None: extra(w)
    res, left, rest = drive.explore(w, fams, QB[tier])
    summarise(rep, res, left, rest)
    replays(rep, res, bld, list(ext), maxw=maxw, keep=keep)
    return res

def mixed_check(rep, fams, ext, fext, tier, budget):
    """entry points and single functions together; each replays on its own driver"""
    w = cakeh.World()
    b1, b2 = replay.Build(w.d), replay.Build(w.d, driver='fns.cpp')
    res, left, rest = drive.explore(w, fams, budget if tier == 'quick' else QB[tier])
    summarise(rep, res, left, rest)
    n = 0
    for b, fn, x in ((b1, False, ext), (b2, True, fext)):
        replays(rep, [r for r in res if ('setup' in r['fam']) == fn], b, x, maxw=150, driver='functions' if fn else None)
        n += rep.cov.get('traces_validated_against_impl', 0)
    rep.cov['traces_validated_against_impl'] = n
    return res

def threads(entry, sch, tier, **kw):
    """caller-given tiles through the real block sizing at one thread count; other counts over the tile contract"""
    f = [fam(entry=entry, sch=sch, p=2, **kw)]
    f += [fam(entry=entry, sch=sch, p=p, tiles='contract', **kw) for p in ((1, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6))]
    if tier != 'quick':
        f += [fam(entry=entry, sch=sch, p=p, **kw) for p in (1, 3, 4)]
        f += [fam(entry=entry, sch=sch, p=2, tiles='contract', maxq=q, **kw) for q in (2, 3)]
        f += [fam(entry=entry, sch=sch, p=2, tiles='contract', mr=mr, nr=nr, **kw) for mr, nr in ((6, 32), (8, 16), (8, 32))]
    return f

GRIDS = {'quick': ((1, 1, 1), (2, 1, 2), (4, 2, 2), (6, 2, 3)),
         'thorough': ((1, 1, 1), (2, 1, 2), (2, 2, 1), (3, 1, 3), (3, 3, 1), (4, 2, 2), (4, 1, 1), (4, 1, 4), (4, 4, 1), (4, 1, 2), (4, 2, 1), (6, 2, 3), (6, 3, 2), (5, 1, 5), (5, 5, 1), (8, 2, 4), (8, 4, 2), (9, 3, 3))}
def grids(tier, which=None, **kw):
    return [fam(entry='2d', p=p, grid=(pm, pn), tiles='contract', **kw) for p, pm, pn in (which or GRIDS[tier])]

for pid, entry, sch in (('C01', 'sgemm', 0), ('C02', 'sgemm', 1), ('C03', 'sgemm', 2), ('C04', 'online', 0)):
    def mk(pid, entry, sch):
        @check(pid)
        def go(rep, tier):
            gemm_check(rep, threads(entry, sch, tier), models(entry, sch, rep.seed, n=100 if tier == 'quick' else 1500), tier=tier)
    mk(pid, entry, sch)

@check('C05')
def c05(rep, tier):
    P = range(1, 17) if tier == 'quick' else range(1, 129)
    f = grids(tier) + [dict(setup='grid', p=p) for p in P] + [dict(setup='blk2d', p=4, pn=2, tiles='user', mr=6, nr=16, maxq=1)]
    ext = models('2d', 0, rep.seed, n=100 if tier == 'quick' else 1500, ps=(1, 2, 3, 4, 6, 8, 9))
    rnd = random.Random(rep.seed + 98)
    for l in models('2d', 0, rep.seed + 99, n=60 if tier == 'quick' else 600, ps=(2, 3, 4, 5, 6, 7, 8, 12, 13)):      # far from square
        d = dict(t.split('=') for t in l.split())
        m, n = rnd.choice(((rnd.randint(1, 9), rnd.randint(200, 900)), (rnd.randint(200, 900), rnd.randint(1, 17)), (rnd.randint(1, 3), rnd.randint(1, 40))))
        d.update(M=m, N=n, K=rnd.randint(1, 9))
        ext.append(' '.join('%s=%s' % kv for kv in d.items()))
    rep.assume = list(ASSUME)
    mixed_check(rep, f, ext, grid_models(rep.seed + 97, P, 400), tier, 200)

def grid_models(seed, P, n):
    rnd, out = random.Random(seed), []
    d = lambda: rnd.choice((1, rnd.randint(1, 40), rnd.randint(1, 4000), rnd.randint(1, 2000000)))
    for _ in range(n): out.append('fn=grid p=%d M=%d N=%d K=%d cores=%d' % (rnd.choice(P), d(), d(), d(), rnd.randint(1, 64)))
    return out

ENTRIES = (('sgemm', 0), ('sgemm', 1), ('sgemm', 2), ('online', 0), ('2d', 0))

def everywhere(tier, **kw):
    f = []
    f += [fam(entry=e, sch=s, p=2, **kw) for e, s in ENTRIES if e != '2d']
    f += grids(tier, ((4, 2, 2), (6, 2, 3)) if tier == 'quick' else None, **kw)
    f += [fam(entry=e, sch=s, p=p, tiles='contract', **kw) for e, s in ENTRIES if e != '2d' for p in ((3,) if tier == 'quick' else (1, 2, 3, 4, 5))]
    f += [fam(entry='sgemm', sch=s, p=2, tiles='contract', beta=1, **kw) for s in (1, 2)]
    return f

@check('C07')
def c07(rep, tier):
    ext = []
    for e, s in ENTRIES: ext += models(e, s, rep.seed + 1, n=50 if tier == 'quick' else 400, nocheck=1)
    gemm_check(rep, everywhere(tier, value=False), ext, tier=tier)

@check('C08')
def c08(rep, tier):
    ext = []
    for e, s in ENTRIES: ext += models(e, s, rep.seed + 2, n=10 if tier == 'quick' else 100)
    res = gemm_check(rep, everywhere(tier, value=False, race=True, cats=()), ext, kind='tsan', tier=tier, maxw=80)
    rep.cov['conflict_pairs'] = sum(r['race'][0] for r in res if r.get('race'))
    rep.cov['conflict_pairs_disjoint'] = sum(r['race'][1] for r in res if r.get('race'))

TILES = ((8, 32), (6, 32), (8, 16))
@check('C10')
def c10(rep, tier):
    f = []
    for i, (e, s) in enumerate(ENTRIES):
        for mr, nr in (TILES if tier != 'quick' else (TILES[0], TILES[1 + i % 2])):
            if e == '2d': f.append(fam(entry=e, p=2, grid=(1, 2) if nr == 32 else (2, 1), tiles='contract', mr=mr, nr=nr))
            else: f.append(fam(entry=e, sch=s, p=2 if (e, s) == ('sgemm', 0) else 3, tiles='contract', mr=mr, nr=nr))
    ext = []
    for e, s in ENTRIES: ext += models(e, s, rep.seed + 3, n=40 if tier == 'quick' else 400, tiles=TILES)
    f = [dict(setup='kern', mr=mr, nr=nr) for mr in (6, 8) for nr in (16, 32)] + f
    rep.assume = list(ASSUME)
    T = ((6, 16), (6, 32), (8, 16), (8, 32))
    mixed_check(rep, f, ext, ['fn=kern mr=%d nr=%d k=%d mr0=%d nr0=%d' % (a, b, k, c, d) for a, b in T for c, d in T for k in (1, 4, 9)], tier, 200)

@check('C11')
def c11(rep, tier):
    f, ext = [], []
    combos = ((1, 1), (1, 0), (0, 1))
    for s in (0, 1, 2):
        for pa, pb in (combos if tier != 'quick' else ((1, 1), combos[1 + s % 2])):
            f.append(fam(entry='sgemm', sch=s, p=2, pa=pa, pb=pb))
        if tier != 'quick': f += [fam(entry='sgemm', sch=s, p=p, pa=1, pb=1, tiles='contract') for p in (1, 3, 4)]
        for pa, pb in combos: ext += models('sgemm', s, rep.seed + 4, n=20 if tier == 'quick' else 200, pa=pa, pb=pb)
    gemm_check(rep, f, ext, tier=tier)

@check('C12')
def c12(rep, tier):
    f, ext = [], []
    for s in (1, 2):
        f.append(fam(entry='sgemm', sch=s, p=2, beta=1))
        f += [fam(entry='sgemm', sch=s, p=p, beta=1, tiles='contract') for p in ((3,) if tier == 'quick' else (1, 3, 4, 5))]
        f.append(fam(entry='sgemm', sch=s, p=2, beta=1, tiles='contract', mr=8, nr=32))
        ext += models('sgemm', s, rep.seed + 5, n=60 if tier == 'quick' else 600, beta=1)
    res = gemm_check(rep, f, ext, tier=tier)
    findings(rep, {
        'kfirst-beta': ['entry=%s sch=0 p=2 mr=6 nr=16 L1=32768 L2=1048576 L3=8388608 ncores=4 M=7 N=17 K=5 mc=6 kc=2 nc=16 beta=1' % e for e in ('sgemm', 'online', '2d')],
        'beta-scale': ['entry=sgemm sch=%d p=2 mr=6 nr=16 L1=32768 L2=1048576 L3=8388608 ncores=4 M=7 N=17 K=5 mc=6 kc=2 nc=16 beta=2' % s for s in (1, 2)],
        'alpha': ['entry=%s sch=%d p=2 mr=6 nr=16 L1=32768 L2=1048576 L3=8388608 ncores=4 M=7 N=17 K=5 mc=6 kc=2 nc=16 alpha=2' % (e, s) for e, s in ENTRIES]})

def findings(rep, cases):
    """replays the listed findings: a listed one that still fails is printed, one that no longer fails is silent"""
    listed = {}
    try:
        for l in open(os.path.join(replay.VERIF, 'known-findings.txt')):
            if l.startswith('known: property=%s key=' % rep.pid):
                k, _, t = l.split('key=', 1)[1].partition(' ')
                listed[k] = t.strip()
    except OSError: pass
    exe = LAST_BUILD.get('exe')
    if exe is None: return
    for k, cs in cases.items():
        out, _ = replay.run(exe, cs)
        bad = [(c, m) for c, m in out if m not in ('ok', None)]
        if not bad: continue
        if k in listed: rep.known.append(listed[k])
        else:
            for c, m in bad: rep.violation('%s: %s' % (c, m), c)
LAST_BUILD = {}

LEAKS = ['the memory and streams counted are those of malloc, calloc, posix_memalign and popen', 'with no context given, the entry gets a heap context from the query, whose own code is a family here']
@check('C20')
def c20(rep, tier):
    kw = dict(value=False, leak=1, cats=('heap', 'uninit'), tiles='contract')
    f, ext = [], []
    for e, s in ENTRIES:
        for own in (0, 1):
            for p in ((2,) if tier == 'quick' else (1, 2, 3, 4)):
                if e == '2d': f.append(fam(entry=e, p=2 * p, grid=(2, p), own=own, **kw))
                else: f.append(fam(entry=e, sch=s, p=p, own=own, **kw))
        for l in models(e, s, rep.seed + 51, n=25 if tier == 'quick' else 250, leak=1): ext.append(l)
        ext += models(e, s, rep.seed + 54, n=25 if tier == 'quick' else 250, leak=1, own=1, tiles=((6, 16),))
    f += [fam(entry='sgemm', sch=s, p=2, beta=1, own=1, **kw) for s in (1, 2)]
    f += [fam(entry='sgemm', sch=s, p=2, pa=pa, pb=pb, **dict(kw, tiles='user')) for s in (0, 1, 2) for pa, pb in (((1, 0), (0, 1)) if tier == 'quick' else ((1, 0), (0, 1), (1, 1)))]
    for s in (0, 1, 2):
        for pa, pb in ((1, 0), (0, 1)): ext += models('sgemm', s, rep.seed + 52, n=10, leak=1, pa=pa, pb=pb)
        if s: ext += models('sgemm', s, rep.seed + 53, n=10, leak=1, beta=1)
    q = [dict(setup='ncores', digits=2)] + [dict(setup='csize', level=l, digits=2) for l in (1, 2, 3)]
    rep.assume = ASSUME[-1:] + LEAKS
    mixed_check(rep, q + f, ext, ['fn=ncores', 'fn=csize level=1', 'fn=csize level=3', 'fn=query torch=0', 'fn=query torch=1'], tier, 200)

@check('C22')
def c22(rep, tier):
    kw = dict(value=False, stale=1, cats=('uninit', 'spec'), tiles='contract')
    f, ext, e2 = [], [], []
    for s in (0, 1, 2, 3): f.append(dict(setup='auto', p=4, sch=s, mr=6, nr=16, only=1))
    for e, s in ENTRIES:
        if e == '2d': f.append(fam(entry=e, p=4, grid=(2, 2), **kw))
        else: f.append(fam(entry=e, sch=s, p=2 if tier == 'quick' else 3, **kw))
        for l in models(e, s, rep.seed + 61, n=40 if tier == 'quick' else 250, stale=1): ext += [l, l[:-1] + '2 hist=%d' % (len(ext) // 2 % 10 + 1)]
    f += [dict(setup='auto', p=4, sch=0, two=2, mr=6, nr=16, L2=1 << 20)]
    f += [fam(entry='sgemm', sch=s, p=2, **dict(kw, tiles='user')) for s in (0, 1, 2)]
    rep.assume = list(ASSUME)
    mixed_check(rep, f, ext, auto_models(rep.seed + 62, 150 if tier == 'quick' else 1500), tier, 150)

@check('C16')
def c16(rep, tier):
    """the schedule asked for is the one executed; for NA the one derived"""
    f, ext = [], []
    for s in (0, 1, 2):
        f.append(fam(entry='sgemm', sch=3, p=2 if tier == 'quick' else 3, tiles='contract', schret=s))
    f = [dict(setup='auto', p=p, sch=s, mr=6, nr=16, only=1) for p in ((3,) if tier == 'quick' else (1, 2, 3, 4, 8, 16)) for s in (0, 1, 2, 3)] + f
    f += [dict(setup='blk', p=2, sch=s, mr=6, nr=16, maxq=1) for s in (0, 1, 2)]
    ext = models('sgemm', 3, rep.seed + 6, n=60 if tier == 'quick' else 600)
    rep.assume = list(ASSUME)
    mixed_check(rep, f, ext, auto_models(rep.seed + 63, 100), tier, 150)

@check('C21')
def c21(rep, tier):
    """every int operation of a multiplication, for all operands within the size bound"""
    kw = dict(value=False, big=1, cats=('overflow',))
    f = []
    for e, s in ENTRIES:
        for p in ((3,) if tier == 'quick' else (1, 2, 3, 4, 5, 8)):
            if e == '2d': f.append(fam(entry=e, p=p + 1, grid=(2, (p + 1) // 2), tiles='contract', **kw))
            else: f.append(fam(entry=e, sch=s, p=p, tiles='contract', **kw))
    f.append(fam(entry='sgemm', sch=0, p=2, **kw))
    for s in (1, 2):
        f.append(fam(entry='sgemm', sch=s, p=2, beta=1, tiles='contract', **kw))
        if tier != 'quick': f.append(fam(entry='sgemm', sch=s, p=2, **kw))
    for s in ((0, 2) if tier == 'quick' else (0, 1, 2, 3)):
        f.append(dict(setup='auto', p=4, sch=s, mr=6, nr=16, only=1, cats=('overflow',)))
    if tier != 'quick': f += [dict(setup='auto', p=4, sch=0, two=2, mr=6, nr=16, cats=('overflow',))]
    rep.assume = ['operands, result and one block of each, padded to whole register tiles, have fewer than 2^31 elements', 'sizes in bytes are computed in size_t (64 bits)', 'for tiles chosen from the caches: M, N, K up to 2^20, caches of 16 KB to 64 MB (L2) and 64 KB to 1 GB (L3)', 'packed operands given by the caller, transposition and the checkers are not part of the bound']
    w = cakeh.World()
    b1, b2 = replay.Build(w.d), replay.Build(w.d, driver='fns.cpp')
    res, left, rest = drive.explore(w, f, 220 if tier == 'quick' else QB[tier])
    summarise(rep, res, left, rest)
    g = [r for r in res if 'setup' not in r['fam']]
    for r in g: r['wit'] = []
    replays(rep, g, b1, ['entry=%s sch=%d p=4 mr=6 nr=16 big=1 M=%d N=%d K=%d L1=32768 L2=1048576 L3=8388608 ncores=4' % c for c in (('sgemm', 0, 45000, 3, 12000), ('sgemm', 1, 7, 45000, 12000), ('online', 0, 12000, 5, 45000))],
            maxc=6, budget=240, jobs=2)
    n = rep.cov.get('traces_validated_against_impl', 0)
    replays(rep, [r for r in res if 'setup' in r['fam']], b2, auto_models(rep.seed + 64, 100))
    rep.cov['traces_validated_against_impl'] += n

# ------------------------------------------------------------------ single functions
FN_ASSUME = [
    'integers are mathematical integers; doubles of integers are exact and division, ceil and sqrt are their real counterparts (exact below 2^53)',
    'functions are taken from clang -O0 IR of the current tree',
]
def fn_check(rep, fams, ext=(), tier='quick', assume=FN_ASSUME, driver='fns.cpp', kind='asan'):
    rep.assume = list(assume)
    w = cakeh.World()
    bld = replay.Build(w.d, driver=driver, kind=kind)
    res, left, rest = drive.explore(w, fams, QB[tier])
    summarise(rep, res, left, rest)
    replays(rep, res, bld, list(ext))
    return res

def blk_models(seed, n):
    out = []
    for s in (0, 1, 2):
        for l in models('sgemm', s, seed + 21, n=n): out.append('fn=blk ' + ' '.join(t for t in l.split() if not t.startswith('entry=')))
    for l in models('2d', 0, seed + 22, n=n): out.append('fn=blk2d ' + ' '.join(t for t in l.split() if not t.startswith('entry=')))
    return out

@check('C14')
def c14(rep, tier):
    f = []
    if tier == 'quick':
        for s, p in ((0, 3), (1, 3), (2, 3)): f.append(dict(setup='blk', p=p, sch=s, mr=6, nr=16, maxq=1))
        for p, pn, t in ((1, 1, 'user'), (4, 2, 'user')): f.append(dict(setup='blk2d', p=p, pn=pn, tiles=t, mr=6, nr=16, maxq=1))
        f.append(dict(setup='blk2d', p=6, pn=2, tiles='default', L2=1900, mr=6, nr=16, maxq=1))
    else:
        for p in (1, 2, 3, 4, 5, 6, 7, 8):
            for s in (0, 1, 2):
                for mr, nr in ((6, 16), (8, 32)): f.append(dict(setup='blk', p=p, sch=s, mr=mr, nr=nr, maxq=2))
            for pn in range(1, p + 1):
                if p % pn == 0:
                    f.append(dict(setup='blk2d', p=p, pn=pn, tiles='user', mr=6, nr=16, maxq=1))
                    f.append(dict(setup='blk2d', p=p, pn=pn, tiles='default', L2=1900, mr=8, nr=32, maxq=1))
                    f.append(dict(setup='blk2d', p=p, pn=pn, tiles='default', mr=6, nr=16, maxq=1))
    fn_check(rep, f, blk_models(rep.seed, 100 if tier == 'quick' else 1000), tier=tier)

@check('C09')
def c09(rep, tier):
    f = [dict(setup='kern', mr=mr, nr=nr) for mr in (6, 8) for nr in (16, 32)]
    fn_check(rep, f, ['fn=kern mr=%d nr=%d k=%d' % (mr, nr, k) for mr in (6, 8) for nr in (16, 32) for k in range(1, 18 if tier == 'quick' else 200)], tier=tier,
             assume=['sums are exact: the order of the additions over the depth is not distinguished', 'vector instructions of the clang IR act lane-wise; fmadd is a*b+c', 'depth k >= 1; integers are mathematical integers'])

MOVE_ASSUME = ['float elements are opaque values that are moved; arithmetic on them would be reported', 'integers are mathematical integers', 'parallel loops are taken one arbitrary iteration at a time']
@check('C13')
def c13(rep, tier):
    f, ext = [], []
    for s in (0, 1, 2):
        for p, q, mr, nr in (((3, 1, 6, 16), (2, 2, 8, 32)) if tier == 'quick' else [(p, q, mr, nr) for p in (1, 2, 3, 4, 5, 8) for q in (1, 2) for mr, nr in ((6, 16), (8, 32), (6, 32), (8, 16))]):
            f.append(dict(setup='ctrip', sch=s, p=p, maxq=q, mr=mr, nr=nr))
        for l in models('sgemm', s, rep.seed + 31, n=100 if tier == 'quick' else 1000): ext.append('fn=ctrip ' + ' '.join(t for t in l.split() if not t.startswith('entry=')))
    fn_check(rep, f, ext, tier=tier, assume=MOVE_ASSUME + ['tiles are positive multiples of the register tile'])

@check('C17')
def c17(rep, tier):
    T = ((8, 8), (7, 16), (16, 1)) if tier == 'quick' else [(a, b) for a in (1, 7, 8, 9, 15, 16, 17) for b in (1, 8, 12, 16)]
    f = [dict(setup='tplain')] + [dict(setup='tmat', Kt=a, Nt=b, maxq=1) for a, b in T]
    rnd = random.Random(rep.seed + 41)
    ext = []
    for _ in range(150 if tier == 'quick' else 2000):
        ext.append('fn=tplain M=%d K=%d' % (rnd.randint(1, 40), rnd.randint(1, 40)))
        ext.append('fn=tmat K=%d N=%d Kt=%d Nt=%d' % tuple(max(1, 8 * rnd.randint(0, 5) + rnd.choice((0, 0, 1, -1, 3, 7))) for _ in range(4)))
    fn_check(rep, f, ext, tier=tier, assume=MOVE_ASSUME + ['block sizes Kt, Nt are fixed per family; the matrix sizes are symbolic'])

def auto_models(seed, n):
    rnd = random.Random(seed)
    out = []
    for _ in range(n):
        p, (mr, nr) = rnd.choice((1, 2, 3, 4, 5, 6, 8, 12, 16)), rnd.choice(((6, 16), (8, 16), (6, 32), (8, 32)))
        d = lambda: rnd.choice((1, 2, mr, nr, p * mr, rnd.randint(1, 60), rnd.randint(1, 3000), rnd.randint(1, 60000)))
        out.append('fn=auto two=%d sch=%d p=%d mr=%d nr=%d ncores=%d M=%d N=%d K=%d L1=%d L2=%d L3=%d' % (rnd.random() < .25, rnd.choice((0, 1, 2, 3)), p, mr, nr, rnd.choice((p, 1, 4, 8, 64)), d(), d(), d(),
            rnd.choice((16384, 32768, 49152)), rnd.choice((32768, 1 << 18, 1 << 19, 1 << 20, 2 << 20, rnd.randint(16384, 1 << 21))), rnd.choice((1 << 19, 1 << 20, 8 << 20, 32 << 20, rnd.randint(1 << 17, 1 << 26)))))
    return out

@check('C06')
def c06(rep, tier):
    f = []
    T = ((4, 6, 16, 4), (3, 8, 32, 8)) if tier == 'quick' else [(p, mr, nr, c) for p in (1, 2, 3, 4, 6, 8, 16) for mr, nr in ((6, 16), (8, 32), (6, 32), (8, 16)) for c in (1, 4, 16, 64)]
    for p, mr, nr, c in T:
        for s in (0, 1, 2, 3): f.append(dict(setup='auto', p=p, sch=s, mr=mr, nr=nr, ncores=c, only=1))
    for s in (0, 1, 2): f.append(fam(entry='sgemm', sch=s, p=2, tiles='contract'))
    f.append(dict(setup='auto', p=2, sch=0, mr=6, nr=16, two=1))
    f.append(dict(setup='auto', p=4, sch=0, mr=6, nr=16, two=2))
    ext, e2 = auto_models(rep.seed + 71, 200 if tier == 'quick' else 3000), []
    rnd = random.Random(rep.seed + 72)
    for e, s in ENTRIES + (('sgemm', 3),):
        for l in models(e, s, rep.seed + 73, n=40 if tier == 'quick' else 400):      # caches small enough that the blocks are smaller than the operands
            l = ' '.join(t for t in l.split() if t.split('=')[0] not in ('mc', 'kc', 'nc', 'L1', 'L2', 'L3'))
            e2.append(l + ' L1=%d L2=%d L3=%d' % (rnd.choice((16384, 32768)), rnd.choice((5000, 6000, 8192, 16384, 65536)), rnd.choice((20000, 65536, 262144, 1 << 20))))
    rep.assume = list(ASSUME) + ['caches of 16 KB to 64 MB (L2) and 64 KB to 1 GB (L3), float tiles; square roots are bounded by interval arithmetic with outward rounding']
    mixed_check(rep, f, e2, ext, tier, 180)

@check('C15')
def c15(rep, tier):
    P = list(range(1, 41)) + [48, 49, 60, 64, 100] if tier == 'quick' else list(range(1, 257))
    ext = grid_models(rep.seed + 81, P, 2000 if tier == 'quick' else 20000)
    fn_check(rep, [dict(setup='grid', p=p) for p in P], ext, tier=tier,
             assume=['the rounded square root the choice starts from is an arbitrary non-negative integer, which includes the real one', 'thread counts as listed; shapes arbitrary'])

@check('C19')
def c19(rep, tier):
    D = 3 if tier == 'quick' else 4
    f = [dict(setup='query', torch=t) for t in (0, 1)] + [dict(setup='csize', level=l, digits=D + 1) for l in (1, 2, 3)] + [dict(setup='ncores', digits=D)]
    rnd = random.Random(rep.seed + 91)
    ext = ['fn=query torch=0', 'fn=query torch=1 L2=1048576 L3=8388608', 'fn=ncores', 'fn=csize level=1', 'fn=csize level=2', 'fn=csize level=3']
    for _ in range(300 if tier == 'quick' else 3000):
        n = lambda hi: rnd.choice(('-', '0', str(rnd.randint(1, hi)), str(rnd.randint(1, 9))))
        ext.append('fn=ncores cpu=%s thr=%s soc=%s' % (n(512), n(8), n(8)))
        ext.append('fn=csize level=%d model=%s cache=%s' % (rnd.choice((1, 2, 3)), n(200), rnd.choice(('-', '%dK' % rnd.randint(1, 99999), '%dM' % rnd.randint(1, 2047)))))
    fn_check(rep, f, ext, tier=tier, assume=['popen succeeds; a command prints nothing or digits (at most %d; cache sizes followed by K or M), the language its own filters leave' % (D + 1), 'integers are mathematical integers', 'libc string functions behave as specified'])

@check('C18')
def c18(rep, tier):
    import struct
    f = []
    for M, N in ((1, 1), (1, 2), (2, 1), (1, 3), (2, 2)) if tier == 'quick' else ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (2, 3)): f.append(dict(setup='data', what='matequals', M=M, N=N))
    for M, N, p in ((1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 1, 3), (2, 2, 2)) if tier == 'quick' else ((1, 1, 1), (1, 2, 1), (1, 2, 2), (2, 1, 3), (1, 3, 2), (2, 2, 2), (1, 1, 4), (2, 2, 4)): f.append(dict(setup='data', what='addcheck', M=M, N=N, p=p))
    for M, N, K in ((1, 1, 1), (1, 2, 3), (2, 1, 2), (1, 3, 1), (3, 1, 2), (2, 2, 1), (2, 2, 3)) if tier == 'quick' else [(a, b, c) for a in (1, 2, 3) for b in (1, 2, 3) for c in (1, 2, 3, 4) if a * b <= 6]: f.append(dict(setup='data', what='gemmcheck', M=M, N=N, K=K))
    rnd = random.Random(rep.seed + 95)
    ext = []
    bit = lambda v: str(struct.unpack('<I', struct.pack('<f', v))[0])
    for _ in range(400 if tier == 'quick' else 4000):
        hi = rnd.choice((7, 7, 7, 20, 70))
        M, N, K, p = rnd.randint(1, hi), rnd.randint(1, hi), rnd.randint(1, 6), rnd.randint(1, 4)
        val = lambda n: [float(rnd.randint(-5, 5)) for _ in range(n)]
        off = lambda x, q=rnd.choice((.02, .1, .1, 1.5)): [v + (0 if rnd.random() > min(q, 1.5 / max(1, len(x))) else rnd.choice((1.0, -1.0, .01, -.01, 5e-4, -5e-4, float('nan'), float('inf')))) for v in x]
        s = lambda n, x: n + '=' + ','.join(bit(v) for v in x)
        what = rnd.choice(('matequals', 'addcheck', 'gemmcheck'))
        if what == 'matequals':
            d = val(M * N)
            t = [s('C', off(d)), s('D', d)]
        elif what == 'addcheck':
            xs = [val(M * N) for _ in range(p)]
            t = [s('C', off([sum(c) for c in zip(*xs)]))] + [s('X%d' % i, x) for i, x in enumerate(xs)]
        else:
            a, b = val(M * K), val(K * N)
            t = [s('C', off([sum(a[i * K + k] * b[k * N + j] for k in range(K)) for i in range(M) for j in range(N)])), s('A', a), s('B', b)]
        ext.append('fn=%s M=%d N=%d K=%d p=%d ' % (what, M, N, K, p) + ' '.join(t))
    fn_check(rep, f, ext, tier=tier, assume=['mat_equals and add_checker: contents are all IEEE single values (one summand); with two or more summands, and for the product checker, contents are exact reals', 'shapes are fixed and small, as listed per family', 'a difference within 5 % of the tolerance 0.001 may be judged either way; parallel loops run as one thread'])

# ------------------------------------------------------------------ other builds of the same tree
def worlds_check(rep, parts, tier, budget):
    """parts: (name, World arguments, families, {driver: extra replay lines}); each is staged, generated and compiled on its own"""
    t0 = time.time()
    tot, names, reps = [], {}, 0
    for n, (name, wa, fams, ext) in enumerate(parts):
        for f in fams:
            if f.get('machine') is None or 'setup' in f: f['machine'] = name
        w = cakeh.World(**wa)
        bl = {d: replay.Build(w.d, driver=d) for d in ext}
        b = max(20, (budget - (time.time() - t0)) / (len(parts) - n))
        res, left, rest = drive.explore(w, fams, b)
        tot.append((res, left, bl))
    summarise(rep, [r for x in tot for r in x[0]], sum(x[1] for x in tot), [])
    for (name, wa, fams, ext), (res, left, bl) in zip(parts, tot):
        for d, b in bl.items():
            replays(rep, [r for r in res if ('setup' in r['fam']) == (d == 'fns.cpp')], b, ext[d], maxw=120, driver=name + ' ' + d)
            reps += rep.cov.get('traces_validated_against_impl', 0)
    rep.cov['traces_validated_against_impl'] = reps

def tiles_of(machine, m, n):
    m0, n0, fn = (8, 12, 12) if machine == 'armv8' else (6, 16, 16)
    return [(a, b) for a in range(m0, m + 1, 2) for b in range(n0, n + 1, fn)]

@check('C25')
def c25(rep, tier):
    lim = {'haswell': ((14, 64), (9, 47)), 'armv8': ((14, 48), (8, 12), (11, 47))} if tier == 'quick' else {'haswell': ((24, 128), (6, 16), (9, 47), (6, 96), (20, 16)), 'armv8': ((24, 96), (8, 12), (10, 24), (11, 47), (8, 96), (20, 12))}
    parts = []
    rnd = random.Random(rep.seed + 111)
    for mach, ls in lim.items():
        for m, n in ls:
            T = tiles_of(mach, m, n)
            ext = ['fn=kern mr=%d nr=%d k=%d mr0=%d nr0=%d' % ((a, b, k) + rnd.choice(T)) for a, b in T for k in (1, 2, 3, 4, 5, 7, 9, 16)]
            parts.append(('%s %d %d' % (mach, m, n), dict(machine=mach, limits=(m, n)), [dict(setup='kern', mr=a, nr=b) for a, b in T], {'fns.cpp': ext}))
    worlds_check(rep, parts, tier, QB[tier])
    rep.assume = ['sums are exact: the order of the additions over the depth is not distinguished', 'vector instructions of the clang IR (AVX for haswell, NEON on the aarch64 target for armv8) act lane-wise; fma is a*b+c', 'depth k >= 1; integers are mathematical integers', 'counterexamples on armv8 are replayed on the host with a portable stand-in for the NEON intrinsics']

@check('C26')
def c26(rep, tier):
    T = tiles_of('armv8', 10, 24)
    g = lambda **kw: fam(machine='armv8', **kw)
    f = [g(entry='sgemm', sch=0, p=2, mr=8, nr=12), g(entry='sgemm', sch=1, p=3, mr=10, nr=24, tiles='contract'), g(entry='sgemm', sch=2, p=2, mr=10, nr=12, tiles='contract'),
         g(entry='online', p=2, mr=10, nr=24, tiles='contract'), g(entry='2d', p=4, grid=(2, 2), mr=8, nr=24, tiles='contract')]
    if tier != 'quick':
        f += [g(entry=e, sch=s, p=p, mr=a, nr=b, tiles='contract') for e, s in ENTRIES if e != '2d' for p in (1, 2, 3, 4) for a, b in T]
        f += [g(entry=e, sch=s, p=2, mr=8, nr=12, own=1) for e, s in ENTRIES if e != '2d']
        f += [g(entry='2d', p=p, grid=q, mr=a, nr=b, tiles='contract') for p, q in ((1, (1, 1)), (2, (1, 2)), (6, (2, 3))) for a, b in T]
    f += [dict(setup='kern', mr=a, nr=b) for a, b in T] + [dict(setup='query', torch=t) for t in (0, 1)] + [dict(setup='csize', level=l, digits=3) for l in (1, 2, 3)] + [dict(setup='ncores', digits=2)]
    f += [dict(setup='blk', p=3, sch=s, mr=10, nr=24, maxq=1) for s in (0, 1, 2)]
    ext = []
    n = 30 if tier == 'quick' else 400
    for e, s in ENTRIES: ext += models(e, s, rep.seed + 121, n=n, tiles=T)
    fx = ['fn=query torch=0', 'fn=query torch=1 L2=1048576 L3=8388608', 'fn=ncores'] + ['fn=csize level=%d' % l for l in (1, 2, 3)]
    fx += ['fn=kern mr=%d nr=%d k=%d mr0=%d nr0=%d' % (a, b, k, c, d) for a, b in T for c, d in T for k in (1, 4, 9)]
    worlds_check(rep, [('armv8', dict(machine='armv8'), f, {'gemm.cpp': ext, 'fns.cpp': fx})], tier, QB[tier])
    rep.assume = ASSUME + ['the code is lowered for the aarch64 target with the macros of the armv8 build; the host\'s C and C++ headers serve (same type sizes)', 'counterexamples are replayed on the host with a portable stand-in for the NEON intrinsics and unsigned char']
