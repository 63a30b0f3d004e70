"""Symbolic jobs for single functions: a family names a set-up (symbolic arguments and the property after the call);
one job explores one path and decides the obligations of that path for every input on it."""
import time, signal, random
from . import cakeh, prover, poly as PL
from .poly import Poly
from .prover import mkcond
from .sym import PathEnd, Unsupported, NotSummarisable

SETUPS = {}
def setup(name):
    def d(fn):
        SETUPS[name] = fn
        return fn
    return d

class Job:
    """filled in by a set-up"""
    def __init__(self, w, f, script):
        self.w, self.f = w, f
        self.s = cakeh.Setup(w, script, cats=f.get('cats', ('align', 'spec', 'bounds', 'uninit', 'heap', 'div0', 'readonly', 'exit')), maxq=f.get('maxq', 3), mrnr=(f.get('mr', 6), f.get('nr', 16)), p=f.get('p', 1))
        self.e = self.s.e
        self.ranges = {}
        self.config = None          # env -> replay line
        self.realise = None         # rnd -> env of a real call, when the path's own models may not be real calls
        self.spread = None          # rnd -> env over the whole input range, for paths the sampler does not reach
    def sym(self, name, lo, hi=None, rng=None):
        v = self.s.isym(name, lo, hi)
        self.ranges[name] = rng or (lo, (hi if hi is not None else lo + 60))
        return v
    def sampler(self):
        self.e.ctx.sampler = cakeh.sampler_for(self.s, self.ranges)
    def need(self, cond, desc):
        self.e.oblige('spec', cond, desc)
    def eq(self, a, b, desc):
        d = a - b
        self.need(d == 0 if isinstance(d, int) else mkcond('eq', d), desc)
    def ge(self, a, b, desc):
        d = a - b
        self.need(d >= 0 if isinstance(d, int) else mkcond('ge', d), desc)

class Timeout(Exception):
    pass

def explore(w, f, script, tmax=60):
    st0 = (prover.STATS.queries, prover.STATS.unsat, prover.STATS.time)
    t0 = time.time()
    r = dict(script=list(script), fam=f, status='ok', msg='', nob=0, nok=0, bad=[], value=None, race=None, alts=[], wit=[], cex=[], funcs=[], trace=[])
    def onalarm(*a): raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(tmax)
    j = e = None
    try:
        j = Job(w, f, script)
        e = j.e
        run = SETUPS[f['setup']](j)
        try:
            run()
        except PathEnd as x:
            r['status'], r['msg'], r['kind'] = 'end', '%s %s' % (x.kind, x.msg), x.kind
        except (Unsupported, NotSummarisable) as x:
            r['status'], r['msg'] = 'unsupported', '%s @%s' % (x, e.stack[-1:])
    except Timeout:
        r['status'] = 'timeout'
    except RecursionError:
        r['status'], r['msg'] = 'unsupported', 'recursion'
    except Exception as x:
        r['status'], r['msg'] = 'unsupported', 'internal %s %s' % (type(x).__name__, str(x)[:200])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if e is not None:
        r['nob'], r['nok'], r['alts'], r['funcs'], r['trace'] = e.nob, e.nok, e.alts, sorted(e.funcs_seen), e.trace_paths
        r['bounds'] = sorted(e.bounds_assumed)
        for o in e.obligs[:4]: r['bad'].append('%s: %s in %s' % (o.cat, o.desc, o.where))
        if j.config is not None:
            try:
                signal.signal(signal.SIGALRM, onalarm)
                signal.alarm(25)
                try:
                    ctx = e.ctx
                    ctx.scopes, ctx.guards = [], []
                    if not ctx.samples: ctx.seek()
                    def envs(pts):
                        out = []
                        for p in pts:
                            d = {n: p.get(PL.symid(x)) for n, x in j.s.inputs.items()}
                            if None not in d.values(): out.append(d)
                        return out
                    wit = envs(ctx.samples)
                    r['wit'] = [j.config(x) for x in wit[:2]]
                    failing = r['status'] in ('unsupported', 'timeout') or e.obligs or (r['status'] == 'end' and r.get('kind') not in ('infeasible', 'bound'))
                    if failing and j.realise is not None:
                        rnd = random.Random(5)
                        ids = {n: PL.symid(x) for n, x in j.s.inputs.items()}
                        out = []
                        for _ in range(20000):
                            b = j.realise(rnd)
                            if b is None: continue
                            env = {ids[k]: v for k, v in b.items()}
                            if ctx.consistent(env): out.append(b)
                            if len(out) >= 16: break
                        r['cex'] = [j.config(x) for x in out]
                    elif failing:
                        cex = []
                        for o in e.obligs[:4]:
                            ctx.scopes, ctx.guards = list(o.scopes), list(o.guards)
                            cex += envs([x for x in ctx.points() if all(ctx.cval(c, x) for c in o.neg)][:6])
                        ctx.scopes, ctx.guards = [], []
                        for o in e.obligs[:3]:
                            ctx.scopes, ctx.guards = list(o.scopes), list(o.guards)
                            m = ctx.model(conds=list(o.neg), bounds={PL.symid(x): (0, 5000) for x in j.s.inputs.values()}, timeout=2000)
                            if m: cex += envs([m])
                        ctx.scopes, ctx.guards = [], []
                        cex += wit
                        if wit:
                            rnd = random.Random(3)
                            ids = {n: PL.symid(x) for n, x in j.s.inputs.items()}
                            for _ in range(400):
                                b = dict(rnd.choice(wit))
                                n = rnd.choice(list(b))
                                b[n] = max(0, b[n] + rnd.choice((-17, -6, -3, -2, -1, 1, 2, 3, 6, 17)))
                                if ctx.consistent({ids[k]: v for k, v in b.items()}): cex.append(b)
                                if len(cex) > 40: break
                    if failing and j.realise is None:
                        seen = []
                        for x in cex:
                            k = j.config(x)
                            if k not in seen: seen.append(k)
                        r['cex'] = seen[:24]
                        if j.spread is not None:        # far from the sampled shapes: what the path says of the inputs, at every scale
                            rnd = random.Random(7)
                            ids = {n: PL.symid(x) for n, x in j.s.inputs.items()}
                            far, t1 = [], time.time()
                            while len(far) < 120 and time.time() - t1 < 6:
                                b = j.spread(rnd)
                                if ctx.consistent({ids[n]: b[n] for n in ids}): far.append(j.config(b))
                            r['cex'] += [x for x in dict.fromkeys(far) if x not in r['cex']]
                finally:
                    signal.alarm(0)
                    signal.signal(signal.SIGALRM, old)
            except Timeout: pass
            except Exception as x: r['msg'] += ' (witness search: %s)' % x
    st1 = (prover.STATS.queries, prover.STATS.unsat, prover.STATS.time)
    r['queries'], r['unsat'], r['ztime'] = st1[0] - st0[0], st1[1] - st0[1], st1[2] - st0[2]
    r['time'] = time.time() - t0
    return r
