"""Checkers: executed for small concrete shapes with symbolic contents, either as IEEE single precision values (z3 floating
point) or as exact reals (for the product, whose sums are not the subject).  Every branch on data forks the path."""
import time, signal
from fractions import Fraction
import z3
from . import cakeh, prover, poly as PL
from .sym import Engine, Ptr, NULL, Fn, POISON, HAVOC, BoolInt, PathEnd, Unsupported, NotSummarisable
from .prover import Cond

RNE = z3.RNE()
F32, F64 = z3.Float32(), z3.Float64()
isz = lambda x: isinstance(x, z3.ExprRef)

def sub(a, b):
    """a - b with one circuit for both orders (only the sign of a zero can differ, which no comparison sees)"""
    if a.get_id() > b.get_id(): return z3.fpNeg(z3.fpSub(RNE, b, a))
    return z3.fpSub(RNE, a, b)

class DataEngine(Engine):
    def setup(self, real):
        self.real = real
        self.pc = z3.Solver()
        self.pc.set('timeout', 20000)
        self.nq = 0
        self.unknown = False
        self.ext, self.keep = {}, []
        self.splitf = False
        self.par_hint = None
        self.fidx = 0
    # every loop has a concrete bound here
    def run_from(self, fr, block, prev, stop, region):
        n = 0
        while True:
            r = self.exec_block(fr, block, prev)
            if r[0] == 'ret': return r
            prev, block = block, r[1]
            n += 1
            if n > 20000: raise Unsupported('loop')
    def ask(self, *c):
        t = time.time()
        r = self.pc.check(*c)
        prover.STATS.queries += 1
        prover.STATS.time += time.time() - t
        if r == z3.unsat: prover.STATS.unsat += 1
        if r == z3.unknown: self.unknown = True
        return r
    def decide(self, c, why=''):
        if isinstance(c, ZB): c = c.c
        if not isz(c): return Engine.decide(self, c, why)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.spos < len(self.script):
            r = self.script[self.spos]
            self.spos += 1
            self.pc.add(c if r else z3.Not(c))
            return r
        yes, no = self.ask(c), self.ask(z3.Not(c))
        if yes == z3.unsat and no == z3.unsat: raise PathEnd('infeasible')
        r = yes != z3.unsat
        if yes != z3.unsat and no != z3.unsat: self.alts.append(self.script[:self.spos] + [False])
        self.script.append(r)
        self.spos += 1
        self.pc.add(c if r else z3.Not(c))
        return r
    def num2(self, x, like):
        if isz(x): return x
        if isinstance(x, bool): x = int(x)
        if self.real: return z3.RealVal(Fraction(x))
        f = Fraction(x)
        return z3.FPVal(float(f), like.sort())
    def single(self, c):
        x = z3.simplify(z3.fpToFP(RNE, c, F32))
        return x if z3.is_true(z3.simplify(z3.fpEQ(z3.fpToFP(RNE, x, F64), c))) else None
    def fbin(self, op, a, b):
        if a is POISON or b is POISON: return POISON
        if isinstance(a, tuple): return tuple(self.fbin(op, x, y) for x, y in zip(a, b))
        if not isz(a) and not isz(b): return Engine.fbin(self, op, a, b)
        a, b = self.num2(a, b), self.num2(b, a)
        if self.real: return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
        if op == 'fsub' and a.sort() == b.sort(): return sub(a, b)
        return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, a, b)
    def fcmp(self, pred, a, b):
        if a is POISON or b is POISON: return POISON
        if not isz(a) and not isz(b): return Engine.fcmp(self, pred, a, b)
        a, b = self.num2(a, b), self.num2(b, a)
        k = pred[1:]
        x, y = self.ext.get(a.get_id()), self.ext.get(b.get_id())     # widened singles: compared as singles
        if x is not None and y is not None: a, b = x, y
        elif x is not None and z3.is_fp_value(b) and self.single(b) is not None: a, b = x, self.single(b)
        elif y is not None and z3.is_fp_value(a) and self.single(a) is not None: a, b = self.single(a), y
        if self.real:
            return {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'no': lambda: z3.BoolVal(False), 'rd': lambda: z3.BoolVal(True)}[k]()
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == 'uno': return un
        if pred == 'ord': return z3.Not(un)
        c = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}.get(k, lambda x, y: z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y), z3.fpEQ(x, y))) )(a, b)
        return z3.Or(un, c) if pred[0] == 'u' else c
    def icmp(self, pred, t, a, b):
        if isinstance(a, ZB) or isinstance(b, ZB) or isz(a) or isz(b):
            if not (isinstance(a, ZB) or isz(a)): a, b = b, a
            c = a.c if isinstance(a, ZB) else a
            if isinstance(b, (ZB,)) or isz(b):
                d = b.c if isinstance(b, ZB) else b
                return c == d if pred == 'eq' else c != d
            if pred in ('eq', 'ne') and b in (0, 1): return c if (pred == 'eq') == bool(b) else z3.Not(c)
            raise Unsupported('icmp of data')
        return Engine.icmp(self, pred, t, a, b)
    def toint(self, v):
        if isinstance(v, ZB) or isz(v) and z3.is_bool(v): return int(self.decide(v))
        return Engine.toint(self, v)
    def cast(self, op, t, a, t2):
        if isinstance(a, ZB): return a.c if op == 'trunc' and t2 == ('int', 1) else a if op in ('zext', 'trunc') else Engine.cast(self, op, t, self.toint(a), t2)
        if isz(a):
            if z3.is_bool(a):
                if op == 'zext': return ZB(a)
                return Engine.cast(self, op, t, int(self.decide(a)), t2)
            if op in ('fpext', 'fptrunc'):
                if self.real: return a
                if op == 'fptrunc' and a.get_id() in self.ext: return self.ext[a.get_id()]
                x = z3.fpToFP(RNE, a, F64 if t2[0] == 'double' else F32)
                if op == 'fpext':
                    self.ext[x.get_id()] = a
                    self.keep.append(x)
                return x
            if op == 'bitcast' or op == 'freeze': return a
            raise Unsupported('cast of data ' + op)
        return Engine.cast(self, op, t, a, t2)
    def boolop(self, op, a, b):
        if any(isinstance(x, ZB) or isz(x) for x in (a, b)):
            f = lambda x: x.c if isinstance(x, ZB) else x if isz(x) else z3.BoolVal(bool(x))
            a, b = f(a), f(b)
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b)
        return Engine.boolop(self, op, a, b)
    def binop(self, op, t, a, b, flags=()):
        if any(isinstance(x, ZB) or isz(x) and z3.is_bool(x) for x in (a, b)):
            if op in ('and', 'or', 'xor'): return ZB(self.boolop(op, a, b))
            a, b = (int(self.decide(x)) if isinstance(x, ZB) or isz(x) else x for x in (a, b))
        return Engine.binop(self, op, t, a, b, flags)
    def exec_block(self, fr, block, prev):
        return Engine.exec_block(self, fr, block, prev)
    def external(self, name, args):
        if name.startswith('llvm.fabs') or name in ('fabs', 'fabsf'):
            a = args[0]
            if isz(a):
                if self.real: return z3.If(a < 0, -a, a)
                x = z3.fpAbs(a)
                if a.get_id() in self.ext:
                    self.ext[x.get_id()] = z3.fpAbs(self.ext[a.get_id()])
                    self.keep.append(x)
                return x
        if name.startswith('llvm.fma') or name in ('fma', 'fmaf'):
            return self.fbin('fadd', self.fbin('fmul', args[0], args[1]), args[2])
        if name in ('calloc', 'malloc'):
            o = self.new_obj(name, 'heap', 'cells', args[0] * (args[1] if name == 'calloc' else 1), 'zero' if name == 'calloc' else 'uninit', 16)
            return Ptr(o, 0)
        return Engine.external(self, name, args)
    def fork_call(self, args):
        self.call_outlined(args[2].name, args[3:])
    def static_init(self, args, w):
        """one thread runs all iterations: the race check is C08's and the iterations of these loops write their own rows"""
        self.store(('int', 32), 1, args[3])
    def run_function(self, name, args):
        return Engine.run_function(self, name, args)

class ZB:
    """a data-dependent bit used as an integer"""
    def __init__(self, c): self.c = c

class Timeout(Exception): pass

def arr(e, name, n, vars, real):
    o = e.new_obj(name, 'param', 'cells', 4 * n, 'uninit', 16)
    for i in range(n):
        v = z3.Real('%s_%d' % (name, i)) if real else z3.FP('%s_%d' % (name, i), F32)
        vars.append((name, i, v))
        o.cells[4 * i] = (4, v)
    o.const = name != 'out'
    return Ptr(o, 0), [o.cells[4 * i][1] for i in range(n)]

def bits(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_real(x):
        import struct
        q = x.as_fraction() if z3.is_rational_value(x) else Fraction(x.approx(20).as_fraction())
        return '%d' % struct.unpack('<I', struct.pack('<f', max(-3e38, min(3e38, float(q)))))[0]
    return '%d' % z3.simplify(z3.fpToIEEEBV(x)).as_long() if not z3.is_true(z3.simplify(z3.fpIsNaN(x))) else '%d' % 0x7fc00000

def job(w, f, script, tmax=60):
    st0 = (prover.STATS.queries, prover.STATS.unsat, prover.STATS.time)
    t0 = time.time()
    r = dict(script=list(script), fam=f, status='ok', msg='', nob=0, nok=0, bad=[], value=None, race=None, alts=[], wit=[], cex=[], funcs=[], trace=[], bounds=['shape M=%d N=%d K=%d p=%d' % (f['M'], f['N'], f.get('K', 0), f.get('p', 0))])
    def onalarm(*a): raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(tmax)
    e = None
    vars = []
    def line(m):
        by = {}
        for n, i, v in vars: by.setdefault(n, []).append(bits(m, v))
        return 'fn=%s M=%d N=%d K=%d p=%d ' % (f['what'], f['M'], f['N'], f.get('K', 1), f.get('p', 1)) + ' '.join('%s=%s' % (n, ','.join(b)) for n, b in by.items())
    try:
        PL.reset()
        prover.reset_cache()
        e = DataEngine(w.m, script, cats=('bounds', 'uninit', 'heap', 'div0', 'readonly', 'exit', 'spec'), maxq=1)
        real = f['what'] == 'gemmcheck' or f['what'] == 'addcheck' and f['p'] > 1
        e.setup(real)
        M, N, K, p = f['M'], f['N'], f.get('K', 1), f.get('p', 1)
        C, cs = arr(e, 'C', M * N, vars, real)
        if f['what'] == 'matequals':
            D, ds = arr(e, 'D', M * N, vars, real)
            ret = e.run_function(w.fn('mat_equals'), [C, D, M, N])
        elif f['what'] == 'addcheck':
            rows = [arr(e, 'X%d' % i, M * N, vars, real) for i in range(p)]
            o = e.new_obj('rows', 'param', 'cells', 8 * p)
            for i, x in enumerate(rows): o.cells[8 * i] = (8, x[0])
            ds = []
            for i in range(M * N):
                t = z3.RealVal(0) if real else z3.FPVal(0, F32)
                for x in rows: t = t + x[1][i] if real else z3.fpAdd(RNE, t, x[1][i])
                ds.append(t)
            ret = e.run_function(w.fn('add_checker'), [Ptr(o, 0), C, M, N, p])
        else:
            A, as_ = arr(e, 'A', M * K, vars, real)
            B, bs = arr(e, 'B', K * N, vars, real)
            ds = [sum((as_[i * K + k] * bs[k * N + j] for k in range(K)), z3.RealVal(0)) for i in range(M) for j in range(N)]
            ret = e.run_function(w.fn('cake_sgemm_checker'), [A, B, C, N, M, K])
        if isinstance(ret, (ZB, z3.ExprRef)) or isinstance(ret, (BoolInt, Cond)): ret = e.decide(ret)
        ret = bool(ret)
        lo, hi = Fraction(95, 100000), Fraction(105, 100000)
        over, under = [], []
        for a, b in zip(cs, ds):
            if real:
                d = z3.If(a < b, b - a, a - b)
                over.append(d > z3.RealVal(hi)); under.append(d < z3.RealVal(lo))
            else:
                d = z3.fpAbs(sub(a, b))
                nan = z3.Xor(z3.fpIsNaN(a), z3.fpIsNaN(b))
                both = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
                over.append(z3.Or(nan, z3.And(z3.Not(both), z3.Not(z3.fpEQ(a, b)), z3.fpGT(d, z3.FPVal(float(hi), F32)))))
                under.append(z3.And(z3.Not(both), z3.Or(z3.fpEQ(a, b), z3.fpLT(d, z3.FPVal(float(lo), F32)))))
        broken = z3.Or(over) if not ret else z3.And(under)
        e.nob += 1
        q = e.ask(broken)
        if q == z3.unsat: e.nok += 1
        else:
            e.obligs.append(None)
            r['bad'].append('the checker answers %s although the matrices %s' % (('different', 'agree') if ret else ('equal', 'differ')) if q == z3.sat else 'undecided')
            if q == z3.sat:
                m = e.pc.model()
                # ordinary numbers make the clearer failure
                r['cex'].append(line(m))
                nice = [z3.And(v >= -4, v <= 4) if real else z3.And(z3.fpLEQ(z3.fpAbs(v), z3.FPVal(4, F32))) for n, i, v in vars]
                if e.ask(broken, *nice) == z3.sat: r['cex'].append(line(e.pc.model()))
        if e.ask() == z3.sat: r['wit'].append(line(e.pc.model()))
        for o in e.obligs:
            if o is not None: r['bad'].append('%s: %s in %s' % (o.cat, o.desc, o.where))
        if (e.obligs or r['bad']) and not r['cex']: r['cex'] += r['wit']
    except PathEnd as x:
        r['status'], r['msg'], r['kind'] = 'end', '%s %s' % (x.kind, x.msg), x.kind
    except (Unsupported, NotSummarisable) as x:
        r['status'], r['msg'] = 'unsupported', '%s @%s' % (x, e.stack[-1:] if e else '')
    except Timeout:
        r['status'] = 'timeout'
    except Exception as x:
        r['status'], r['msg'] = 'unsupported', 'internal %s %s' % (type(x).__name__, str(x)[:200])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if e is not None:
        r['nob'], r['nok'], r['alts'], r['funcs'] = e.nob, e.nok, e.alts, sorted(e.funcs_seen)
        r['trace'] = [repr(bool(x)) for x in e.script]
        if r['status'] == 'end' and r.get('kind') not in ('infeasible', 'bound'):
            try:
                if e.pc.check() == z3.sat: r['cex'].append(line(e.pc.model()))
            except Exception: pass
    st1 = (prover.STATS.queries, prover.STATS.unsat, prover.STATS.time)
    r['queries'], r['unsat'], r['ztime'] = st1[0] - st0[0], st1[1] - st0[1], st1[2] - st0[2]
    r['time'] = time.time() - t0
    return r
