"""Symbolic executor over LLVM IR with loop summarisation.

Integers are polynomials over symbols (mathematical integers; wrap-around is a separate obligation), pointers are
(object, byte-offset polynomial), float data are polynomials over load atoms.  Loops with a symbolic trip count are
summarised by affine recurrences (guessed from one iteration, verified inductively on an arbitrary iteration) and their
memory effects become event families quantified over the iteration number."""
import re
import math
from fractions import Fraction
from . import ir, poly as PL
from .poly import Poly, syms, mk
from .prover import Ctx, Cond, mkcond, STATS

class Unsupported(Exception):
    pass
class NotSummarisable(Exception):
    pass
class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg
class NeedSummary(Exception):
    pass

class _Poison:
    def __repr__(self): return 'POISON'
POISON = _Poison()
class _Havoc:
    def __repr__(self): return 'HAVOC'
HAVOC = _Havoc()

class BoolInt:
    __slots__ = ('c',)
    def __init__(self, c): self.c = c
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj = obj
        self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.obj.name if self.obj else None, PL.show(self.off) if not isinstance(self.off, int) else self.off)
NULL = Ptr(None, 0)
class Fn:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
class FR:
    """exact rational num/den of polynomials (den > 0)"""
    __slots__ = ('n', 'd')
    def __init__(self, n, d):
        self.n = n
        self.d = d
class FX:
    """opaque real"""
    __slots__ = ('name', 'nonneg', 'args')
    def __init__(self, name, nonneg=False, args=()):
        self.name = name
        self.nonneg = nonneg
        self.args = args
class Rows:
    pass

class Obj:
    __slots__ = ('id', 'name', 'kind', 'mode', 'size', 'cells', 'hist', 'init', 'freed', 'align', 'owner', 'const', 'site', 'supp')
    def __init__(self, i, name, kind, mode, size, init='uninit', align=16):
        self.id = i
        self.name = name
        self.kind = kind        # stack heap global param
        self.mode = mode        # cells / array
        self.size = size        # bytes
        self.cells = {}
        self.hist = []
        self.init = init        # uninit / zero / base
        self.freed = False
        self.align = align
        self.owner = None
        self.const = False
        self.site = None
    def __repr__(self): return self.name

class Event:
    __slots__ = ('kind', 'obj', 'lo', 'hi', 'bvs', 'guards', 'val', 'it', 'seq', 'x')
    # store: lo = element address, hi = lo+1 ; fill: [lo,hi) ; kern: C tile
    def __init__(self, kind, obj, lo, hi, bvs, guards, val, it, seq, x=None):
        self.kind, self.obj, self.lo, self.hi = kind, obj, lo, hi
        self.bvs, self.guards, self.val, self.it, self.seq, self.x = bvs, guards, val, it, seq, x

class Obligation:
    __slots__ = ('cat', 'desc', 'neg', 'scopes', 'guards', 'where')
    def __init__(self, cat, desc, neg, scopes, guards, where):
        self.cat, self.desc, self.neg, self.scopes, self.guards, self.where = cat, desc, neg, scopes, guards, where

class Frame:
    __slots__ = ('fn', 'regs', 'allocas', 'loops')

class LocalScript:
    __slots__ = ('script', 'pos', 'alts')
    def __init__(self, script):
        self.script = script
        self.pos = 0
        self.alts = []

MATHFN = {'sqrt', 'sqrtf', 'llvm.sqrt.f64', 'llvm.sqrt.f32'}

class Engine:
    def __init__(self, module, script=(), cats=('bounds',), maxq=2, unroll=4, concrete=False, kernel_contract=None):
        self.m = module
        self.ctx = Ctx()
        self.script = list(script)
        self.spos = 0
        self.alts = []                # alternative scripts to explore
        self.cats = set(cats)
        self.maxq = maxq
        self.U = unroll
        self.objs = []
        self.globals = {}
        self.journal = []
        self.obligs = []              # failed obligations
        self.nob = 0                  # number of obligations checked
        self.nok = 0
        self.seq = 0
        self.suppress = 0             # >0: discovery (no effects recorded)
        self.local = []
        self.atoms = {}               # symid -> (obj, ver, addr) | ('sum',..) | ('acc',..)
        self.atomkey = {}
        self.divs = {}                # (key,d) -> symbol
        self.divlist = []
        self.par = None               # current parallel region iteration
        self.regions = []
        self.calldepth = 0
        self.funcs_seen = set()
        self.steps = 0
        self.kernels = kernel_contract or {}   # function name -> (R,S)
        self.intercepts = {}
        self.bounds_assumed = set()
        self.exits = []
        self.stack = []
        self.popens = 0
        self.trace_paths = []
        self.unrollcap = 12
        self.fx = 0
        self.havoc_reads = 0
        self.log_accesses = True
        self.files = []
        self.prefer = set()
        self.ranges = {}              # symbol -> (lo, hi) as declared
        self.split_div = 0            # divisors proved to lie in 0..split_div are case split

    # ------------------------------------------------------------ objects
    def new_obj(self, name, kind, mode, size, init='uninit', align=16):
        o = Obj(len(self.objs), name, kind, mode, size, init, align)
        o.owner = self.par
        o.supp = self.suppress > 0
        self.objs.append(o)
        return o

    def global_obj(self, name):
        if name in self.globals: return self.globals[name]
        if name in self.m.functions or name in self.m.declares or name not in self.m.globals:
            v = Fn(name)
        else:
            t, init, const = self.m.globals[name]
            o = self.new_obj('@' + name, 'global', 'cells', self.m.types.size(t), 'uninit', 16)
            o.owner = None
            o.const = const
            v = Ptr(o, 0)
            self.globals[name] = v
            if init is not None and not (self.leftover and name in self.written_globals()): self._init(o, 0, t, init)
        self.globals[name] = v
        return v

    leftover = True      # writable globals hold what earlier calls left there: anything

    def written_globals(self):
        """non-constant globals some instruction stores to or hands on by address"""
        w = getattr(self.m, '_written', None)
        if w is None:
            w = self.m._written = set()
            mut = {n for n, (t, init, const) in self.m.globals.items() if not const}
            name = r'(?:[-\w.$]+|"[^"]*")'
            der = {}
            for l in self.m.text.splitlines():
                if l.startswith('define'): der = {}
                if l[:1] not in ' \t': continue
                used = {g.strip('"') for g in re.findall('@(%s)' % name, l)} & mut
                for v in re.findall('%%(%s)' % name, l): used |= der.get(v, set())
                if not used: continue
                m = re.match(r'\s*%%(%s) = (load|getelementptr|bitcast) ' % name, l)
                if not m: w |= used
                elif m.group(2) != 'load': der[m.group(1)] = used
        return w

    def _init(self, o, off, t, v):
        ty = self.m.types
        t = ty.resolve(t)
        k = v[0]
        if k == 'agg':
            if t[0] == 'arr':
                es = ty.size(t[2])
                for i, (et, ev) in enumerate(v[1]): self._init(o, off + i * es, et, ev)
            elif t[0] == 'vec':
                es = ty.size(t[2])
                for i, (et, ev) in enumerate(v[1]): self._init(o, off + i * es, et, ev)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    fo, ft = ty.field(t, i)
                    self._init(o, off + fo, ft, ev)
        elif k == 'str':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
        elif k == 'zero':
            self._zero(o, off, t)
        else:
            o.cells[off] = (ty.size(t), self.const(t, v))

    def _zero(self, o, off, t):
        ty = self.m.types
        t = ty.resolve(t)
        if t[0] == 'arr':
            es = ty.size(t[2])
            if t[1] > 4096: raise Unsupported('large zero global')
            for i in range(t[1]): self._zero(o, off + i * es, t[2])
        elif t[0] == 'struct':
            for i in range(len(t[1])):
                fo, ft = ty.field(t, i)
                self._zero(o, off + fo, ft)
        elif t[0] == 'ptr': o.cells[off] = (8, NULL)
        else: o.cells[off] = (ty.size(t), 0)

    # ------------------------------------------------------------ constants/operands
    def const(self, t, v):
        k = v[0]
        if k == 'const': return v[1]
        if k == 'fconst':
            x = v[1]
            return int(x) if x.denominator == 1 else x
        if k == 'null': return NULL
        if k == 'undef':
            rt = self.m.types.resolve(t)
            if rt[0] == 'vec': return (POISON,) * rt[1]
            return POISON
        if k == 'glob': return self.global_obj(v[1])
        if k == 'zero':
            rt = self.m.types.resolve(t)
            if rt[0] == 'vec': return (0,) * rt[1]
            if rt[0] == 'ptr': return NULL
            return 0
        if k == 'agg':
            return tuple(self.const(et, ev) for et, ev in v[1])
        if k == 'cgep':
            ops = v[2]
            base = self.const(ops[0][0], ops[0][1])
            return self.gep(v[1], base, [(it, self.const(it, iv)) for it, iv in ops[1:]])
        if k == 'splat':
            rt = self.m.types.resolve(t)
            return (self.const(rt[2], v[1]),) * rt[1]
        if k == 'fspecial':
            return FX('special', v[1] > 0)
        raise Unsupported('const %r' % (v,))

    def val(self, fr, t, v):
        if v[0] == 'reg':
            return fr.regs[v[1]]
        if v[0] == 'const': return v[1]
        return self.const(t, v)

    # ------------------------------------------------------------ obligations
    def oblige(self, cat, cond, desc):
        """cond must hold here"""
        if self.suppress or cat not in self.cats: return True
        self.nob += 1
        if cond is True or (cond is not False and self.ctx.prove(cond)):
            self.nok += 1
            return True
        neg = [] if cond is False else [cond.neg()]
        self.obligs.append(Obligation(cat, desc, neg, list(self.ctx.scopes), list(self.ctx.guards), self.where()))
        return False

    def where(self):
        return self.stack[-1] if self.stack else '?'

    # ------------------------------------------------------------ decisions
    def bvsyms(self):
        return [s for s, _ in self.ctx.scopes]

    def simplify(self, c):
        if isinstance(c, bool): return c
        if c is POISON: return c
        return c

    def undecided(self, c):
        if isinstance(c, BoolInt): c = c.c
        return isinstance(c, Cond) and not self.ctx.prove(c) and not self.ctx.prove(c.neg())

    def decide(self, c, why=''):
        if c is True or c is False: return c
        if c is POISON or c is HAVOC:
            if c is HAVOC: raise NotSummarisable('branch on havoc')
            if self.suppress: raise NotSummarisable('branch on poison in discovery')
            self.fail('uninit', 'branch depends on uninitialised value ' + why)
            raise PathEnd('uninit')
        if isinstance(c, BoolInt): c = c.c
        if isinstance(c, (int,)): return bool(c)
        if self.ctx.prove(c): return True
        n = c.neg()
        if self.ctx.prove(n): return False
        cs = c.syms()
        bv = self.bvsyms()
        if self.local and (self.suppress or any(s in cs for s in bv)):
            ls = self.local[-1]
            if ls.pos < len(ls.script):
                r = ls.script[ls.pos]
            else:
                r = True
                ls.alts.append(ls.script[:ls.pos] + [False])
                ls.script.append(True)
            ls.pos += 1
            self.ctx.guards.append(c if r else n)
            return r
        # global fork
        if self.spos < len(self.script):
            r = self.script[self.spos]
        else:
            r = True
            self.alts.append(self.script[:self.spos] + [False])
            self.script.append(True)
        self.spos += 1
        self.ctx.add(c if r else n)
        self.trace_paths.append(repr(c if r else n))
        if self.ctx.infeasible: raise PathEnd('infeasible')
        self.feasible()
        return r

    def feasible(self):
        """end the path if its facts have no integer solution"""
        c = self.ctx
        if c.samples: return
        c.seek()
        if c.samples or c.sampler is None: return
        r = c.sat()
        if r is False: raise PathEnd('infeasible')

    def fail(self, cat, desc, neg=()):
        if self.suppress: raise NotSummarisable('failure during discovery: ' + desc)
        if cat in self.cats:
            self.nob += 1
            self.obligs.append(Obligation(cat, desc, list(neg), list(self.ctx.scopes), list(self.ctx.guards), self.where()))

    # ------------------------------------------------------------ memory: cells
    def cell_write(self, o, off, size, v):
        cells = o.cells
        old = cells.get(off)
        self.journal.append((o, off, old))
        if old is not None and old[0] != size:
            # overlapping differently sized cells
            self._split_overlap(o, off, size)
        elif old is None and size > 4:
            self._split_overlap(o, off, size)
        cells[off] = (size, v)
        if self.par is not None and o.owner is not self.par: self._log_cell('W', o, off, v)

    def _split_overlap(self, o, off, size):
        for k in [k for k in o.cells if k < off + size and k + o.cells[k][0] > off and k != off]:
            s, v = o.cells[k]
            self.journal.append((o, k, o.cells[k]))
            if isinstance(v, tuple) and s == 4 * len(v):
                del o.cells[k]
                for i, x in enumerate(v):
                    if not (off <= k + 4 * i < off + size):
                        self.journal.append((o, k + 4 * i, o.cells.get(k + 4 * i)))
                        o.cells[k + 4 * i] = (4, x)
            else:
                del o.cells[k]

    def cell_read(self, o, off, size, t):
        c = o.cells.get(off)
        if self.par is not None and o.owner is not self.par and not o.const: self._log_cell('R', o, off, None)
        if c is not None and c[0] == size:
            return c[1]
        rt = self.m.types.resolve(t)
        if c is not None and isinstance(c[1], tuple) and c[0] == 4 * len(c[1]) and size < c[0] and size % 4 == 0:
            n = size // 4
            if rt[0] == 'vec': return c[1][:n]
            return c[1][0]
        if rt[0] == 'vec':
            es = self.m.types.size(rt[2])
            return tuple(self.cell_read1(o, off + i * es, es, rt[2]) for i in range(rt[1]))
        return self.cell_read1(o, off, size, t)

    def cell_read1(self, o, off, size, t):
        c = o.cells.get(off)
        if c is not None and c[0] == size and not isinstance(c[1], tuple): return c[1]
        for k in (off - 4, off - 8, off - 12, off - 16, off - 20, off - 24, off - 28, off):
            c = o.cells.get(k)
            if c is not None and isinstance(c[1], tuple) and k <= off < k + c[0] and size == 4:
                return c[1][(off - k) // 4]
        if c is not None and c[0] == size: return c[1]
        if o.init == 'zero' and c is None: return 0
        if o.init == 'base' and c is None:
            return self.atom(o, 0, off // 4 if off % 4 == 0 else off)
        if size == 1 and c is not None and isinstance(c[1], (int, BoolInt)): return c[1]
        return POISON

    def _log_cell(self, k, o, off, v):
        if self.suppress or o.kind == 'thread': return
        if o.const: return
        self.par.cell(k, o, off, v, tuple(self.ctx.scopes), tuple(self.ctx.guards))

    def rollback(self, mark):
        j = self.journal
        while len(j) > mark:
            o, off, old = j.pop()
            if off == 'hist':
                del o.hist[old:]
            elif off == 'freed':
                o.freed = old
            elif old is None:
                o.cells.pop(off, None)
            else:
                o.cells[off] = old

    # ------------------------------------------------------------ memory: typed access
    def check_access(self, p, nbytes, write, what=''):
        o = p.obj
        if o is None:
            self.fail('bounds', 'null pointer access ' + what)
            raise PathEnd('null')
        if o.freed:
            self.fail('bounds', 'use after free of %s' % o.name)
        if self.suppress: return
        if isinstance(p.off, int) and isinstance(o.size, int):
            if not (0 <= p.off and p.off + nbytes <= o.size):
                self.fail('bounds', '%s of %d bytes at offset %d outside %s (size %d)' % ('write' if write else 'read', nbytes, p.off, o.name, o.size))
                if o.mode == 'cells': raise PathEnd('oob')
            else:
                self.nob += 1
                self.nok += 1
        else:
            d = '%s of %d bytes at %s outside %s (size %s)' % ('write' if write else 'read', nbytes, PL.show(p.off), o.name, PL.show(o.size))
            self.oblige('bounds', mkcond('ge', p.off), d + ' [below]')
            self.oblige('bounds', mkcond('ge', o.size - p.off - nbytes), d + ' [above]')
        if write and o.const:
            self.fail('readonly', 'write to read-only object %s' % o.name)

    def concretise(self, p, limit=64):
        """case split an integer expression into its possible values"""
        if isinstance(p, int): return p
        if p is POISON:
            self.fail('uninit', 'uninitialised value used as address')
            raise PathEnd('uninit')
        lo = None
        for v in range(-4, limit):
            if self.ctx.prove_ge(p - v): lo = v
            else: break
        if lo is None: raise Unsupported('cannot bound ' + PL.show(p))
        for v in range(lo, lo + limit):
            if self.decide(mkcond('eq', p - v)): return v
            if self.ctx.prove_ge(v - p): break
        raise Unsupported('concretise ' + PL.show(p))

    def settle(self, o, t):
        """a heap block of constant size is an array of floats or a record, by its first typed access"""
        rt = self.m.types.resolve(t)
        if rt[0] == 'vec': rt = self.m.types.resolve(rt[2])
        o.mode = 'array' if rt[0] == 'float' else 'cells'

    def load(self, t, p, align=1):
        if p is POISON:
            if self.suppress: raise NotSummarisable('poison addr')
            self.fail('uninit', 'load through uninitialised pointer')
            raise PathEnd('uninit')
        if p is HAVOC: raise NotSummarisable('load through havoc pointer')
        if isinstance(p, Fn): raise Unsupported('load from function')
        ty = self.m.types
        n = ty.size(t)
        o = p.obj
        if o is not None and o.mode == 'lazy': self.settle(o, t)
        if o is not None and o.mode == 'cells' and not isinstance(p.off, int):
            es = n
            off = p.off
            if off is POISON:
                self.fail('uninit', 'uninitialised index')
                raise PathEnd('uninit')
            if isinstance(off, Poly) and self.par is None and any(x in off.syms() for x in self.bvsyms()):
                raise NotSummarisable('load from an iteration-dependent slot')
            # bounds first, so that the case split stays inside the object
            self.check_access(p, n, False)
            off = self.concretise_off(off, o, n)
            p = Ptr(o, off)
        self.check_access(p, n, False)
        if align >= 32: self.align_check(p, align)
        if o.mode == 'cells':
            return self.cell_read(o, p.off, n, t)
        rt = ty.resolve(t)
        if rt[0] == 'vec':
            return tuple(self.arr_load(o, p.off + 4 * i) for i in range(rt[1]))
        if rt[0] != 'float':
            raise Unsupported('typed load %r from array %s' % (rt, o.name))
        return self.arr_load(o, p.off)

    def concretise_off(self, off, o, n):
        if isinstance(o.size, int) and n and isinstance(off, Poly) and PL.content_divides(off - off.t.get((), 0), n):
            base = off.t.get((), 0) % n
            idx = PL.exact_div_int(off - base, n)
            cnt = o.size // n
            # in-bounds values only (out-of-bounds is a recorded obligation failure)
            for v in range(cnt):
                if self.decide(mkcond('eq', idx - v)): return base + v * n
                if self.ctx.prove_ge(v - idx): break
            self.fail('bounds', 'index outside %s' % o.name)
            raise PathEnd('oob')
        return self.concretise(off, 4096)

    def align_check(self, p, al):
        if isinstance(p.off, int):
            self.oblige('align', p.off % al == 0 and p.obj.align >= al, 'aligned access to %s+%d' % (p.obj.name, p.off))
        else:
            ok = PL.content_divides(p.off, al) and p.obj.align >= al
            self.oblige('align', bool(ok), 'aligned (%d) access to %s + %s' % (al, p.obj.name, PL.show(p.off)))

    def elem(self, off):
        if isinstance(off, int):
            if off % 4: raise Unsupported('misaligned element')
            return off // 4
        if not PL.content_divides(off, 4): raise Unsupported('misaligned element poly')
        return PL.exact_div_int(off, 4)

    def atom(self, o, ver, addr):
        k = (o.id, ver, addr if isinstance(addr, int) else addr.key())
        a = self.atomkey.get(k)
        if a is None:
            a = PL.sym('%s[%s]@%d' % (o.name, PL.show(addr), ver))
            self.atoms[PL.symid(a)] = ('load', o, ver, addr)
            self.atomkey[k] = a
        return a

    def arr_load(self, o, off):
        addr = self.elem(off)
        if not self.suppress and self.par is not None and o.owner is not self.par and self.log_accesses:
            self.par.arr('R', o, addr, addr + 1, tuple(self.ctx.scopes), tuple(self.ctx.guards), None)
        return self.atom(o, len(o.hist), addr)

    def store(self, t, v, p, align=1):
        if p is POISON:
            if self.suppress: raise NotSummarisable('poison addr')
            self.fail('uninit', 'store through uninitialised pointer')
            raise PathEnd('uninit')
        if p is HAVOC: raise NotSummarisable('store through havoc pointer')
        ty = self.m.types
        n = ty.size(t)
        o = p.obj
        if p.off is POISON or p.off is HAVOC:
            if p.off is HAVOC: raise NotSummarisable('havoc index')
            self.fail('uninit', 'uninitialised index')
            raise PathEnd('uninit')
        if o is not None and o.mode == 'lazy': self.settle(o, t)
        if o is not None and o.mode == 'cells' and not isinstance(p.off, int):
            if isinstance(p.off, Poly) and any(x in p.off.syms() for x in self.bvsyms()) and (self.par is None or o.owner is self.par):
                raise NotSummarisable('store at an iteration-dependent slot')
            self.check_access(p, n, True)
            p = Ptr(o, self.concretise_off(p.off, o, n))
        self.check_access(p, n, True)
        if align >= 32: self.align_check(p, align)
        if o.mode == 'cells':
            self.cell_write(o, p.off, n, v)
            return
        rt = ty.resolve(t)
        if rt[0] == 'vec':
            for i in range(rt[1]): self.arr_store(o, p.off + 4 * i, v[i])
        elif rt[0] == 'float':
            self.arr_store(o, p.off, v)
        else:
            raise Unsupported('typed store %r to array %s' % (rt, o.name))

    def add_event(self, e):
        if self.suppress: return
        o = e.obj
        self.journal.append((o, 'hist', len(o.hist)))
        o.hist.append(e)
        if self.par is not None and o.owner is not self.par and self.log_accesses:
            self.par.arr('W', o, e.lo, e.hi, e.bvs, e.guards, e)

    def arr_store(self, o, off, v):
        if self.suppress: return
        addr = self.elem(off)
        self.seq += 1
        kind = 'store'
        if isinstance(v, Poly):
            # accumulation: v = old + rest
            a = self.atomkey.get((o.id, len(o.hist), addr if isinstance(addr, int) else addr.key()))
            if a is not None and v.t.get((PL.symid(a),), 0) == 1:
                rest = v - a
                if not any(self.reads_obj(s, o) for s in syms(rest)):
                    kind = 'accum'
                    v = rest
        self.add_event(Event(kind, o, addr, addr + 1, tuple(self.ctx.scopes), tuple(self.ctx.guards), v,
                             self.par.it if self.par else None, self.seq))

    def reads_obj(self, s, o):
        a = self.atoms.get(s)
        if a is None: return False
        if a[0] == 'load': return a[1] is o
        if a[0] == 'sum': return any(self.reads_obj(x, o) for x in syms(a[3]))
        return False

    def fill(self, p, val, nbytes):
        o = p.obj
        if o is None:
            self.fail('bounds', 'memset null')
            raise PathEnd('null')
        d = 'memset of %s bytes at %s in %s (size %s)' % (PL.show(nbytes), PL.show(p.off), o.name, PL.show(o.size))
        self.oblige('bounds', mkcond('ge', p.off), d)
        self.oblige('bounds', mkcond('ge', o.size - p.off - nbytes), d)
        if o.mode == 'lazy':
            if isinstance(nbytes, int) and p.off == 0 and nbytes == o.size and val == 0 and not self.suppress:
                o.init = 'zero'
                return
            o.mode = 'array' if nbytes != 8 else 'cells'
        if o.mode == 'cells':
            if isinstance(nbytes, int) and isinstance(p.off, int):
                if val != 0: raise Unsupported('memset value')
                for k in list(o.cells):
                    if p.off <= k < p.off + nbytes:
                        self.journal.append((o, k, o.cells[k]))
                        s, v = o.cells[k]
                        o.cells[k] = (s, NULL if isinstance(v, Ptr) else ((0,) * len(v) if isinstance(v, tuple) else 0))
                if p.off == 0 and nbytes == o.size: o.init = 'zero'
                else:
                    for k in range(p.off, p.off + nbytes, 4):
                        if k not in o.cells:
                            self.journal.append((o, k, None))
                            o.cells[k] = (4, 0)
                return
            raise Unsupported('symbolic memset on cells')
        if self.suppress: return
        if val != 0: raise Unsupported('memset value')
        lo = self.elem(p.off)
        hi = lo + self.elem(nbytes)
        self.seq += 1
        self.add_event(Event('fill', o, lo, hi, tuple(self.ctx.scopes), tuple(self.ctx.guards), 0,
                             self.par.it if self.par else None, self.seq))

    # ------------------------------------------------------------ integer arithmetic
    def toint(self, v):
        if isinstance(v, BoolInt):
            return 1 if self.decide(v.c) else 0
        if isinstance(v, Cond):
            return 1 if self.decide(v) else 0
        if v is True: return 1
        if v is False: return 0
        return v

    def idiv(self, x, d, want='q'):
        """truncating division of integers; returns (q, r)"""
        if x is HAVOC or d is HAVOC: raise NotSummarisable('div havoc')
        if x is POISON or d is POISON: return POISON, POISON
        if isinstance(x, int) and isinstance(d, int):
            if d == 0:
                self.fail('div0', 'division by zero')
                raise PathEnd('div0')
            q = abs(x) // abs(d)
            if (x < 0) != (d < 0): q = -q
            return q, x - q * d
        if isinstance(d, int):
            if d == 0:
                self.fail('div0', 'division by zero')
                raise PathEnd('div0')
            if d < 0: raise Unsupported('negative divisor')
        else:
            if self.split_div and not self.suppress and self.ctx.prove_ge(self.split_div - d) and self.ctx.prove_ge(d):
                return self.idiv(x, self.concretise(d), want)
            if not self.ctx.prove_ge(d - 1):
                self.oblige('div0', mkcond('ne', d), 'division by %s' % PL.show(d))
                if not self.decide(mkcond('ge', d - 1)):
                    raise Unsupported('non-positive divisor %s' % PL.show(d))
        if not isinstance(x, int) and not self.ctx.prove_ge(x):
            if self.ctx.prove_ge(-x):
                q, r = self.fdivpos(-x, d)
                return -q, -r
            if not self.decide(mkcond('ge', x)):
                q, r = self.fdivpos(-x, d)
                return -q, -r
        if isinstance(x, int) and x < 0:
            q, r = self.fdivpos(-x, d)
            return -q, -r
        return self.fdivpos(x, d)

    def fdivpos(self, x, d):
        """floor division, x >= 0 known, d > 0 known"""
        if isinstance(x, int) and x == 0: return 0, 0
        if isinstance(d, int):
            if d == 1: return x, 0
            q0, rest = PL.split_int(x, d)
            if isinstance(rest, int):
                return q0, rest
            if self.ctx.prove_ge(rest) and self.ctx.prove_ge(d - 1 - rest):
                return q0, rest
            q = self.divsym(rest, d)
            self.ctx.int_bounds(q0 + q, 4)
            return q0 + q, rest - q * d
        e = PL.exact_div(x, d)
        if e is not None: return e, 0
        if not isinstance(x, int):
            q0, r0 = PL.divide(x, d)
            if not (isinstance(q0, int) and q0 == 0):
                if self.ctx.prove_ge(r0) and self.ctx.prove_ge(d - 1 - r0):
                    return q0, r0
        # symbolic divisor: case split on the quotient
        xs = syms(x) | syms(d)
        bound = any(s in xs for s in self.bvsyms())
        limit = self.maxq
        for q in range(self.maxq, 9):
            if self.ctx.prove(mkcond('ge', d * (q + 1) - 1 - x)):
                limit = q
                break
        for q in range(0, limit + 1):
            c = mkcond('ge', d * (q + 1) - 1 - x)
            if self.ctx.prove(c): return q, x - d * q
            if q == limit and not bound and not self.suppress:
                self.bounds_assumed.add('quotient <= %d' % limit)
                self.ctx.add(c)
                if self.ctx.infeasible: raise PathEnd('infeasible')
                return q, x - d * q
            if self.decide(c): return q, x - d * q
        raise NotSummarisable('quotient split')

    def divsym(self, rest, d):
        """symbol for floor(rest/d), d int > 0"""
        k = (rest.key(), d)
        q = self.divs.get(k)
        if q is not None: return q
        bv = set(self.bvsyms())
        if bv & rest.syms():
            raise NotSummarisable('floor division depends on a loop variable')
        for (q2, r2, d2) in self.divlist:
            if d2 == d:
                # floor(rest/d) = q2 + c for a small constant c ?
                df = rest - r2
                if isinstance(df, Poly) and not (df.syms() & (r2.syms())): continue
                for c in (0, 1, -1):
                    if self.ctx.prove_ge(rest - (q2 + c) * d) and self.ctx.prove_ge((q2 + c) * d + d - 1 - rest):
                        self.divs[k] = q2 + c
                        return q2 + c
        q = PL.sym('q%d' % len(PL.NAMES))
        def value(env, rest=rest, d=d, ctx=self.ctx):
            v = ctx.val(rest, env)
            return None if v is None else v // d
        self.ctx.defs[PL.symid(q)] = value
        self.ctx.add_ge(rest - q * d)
        self.ctx.add_ge(q * d + (d - 1) - rest)
        if self.ctx.prove_ge(rest): self.ctx.add_ge(q)
        self.divs[k] = q
        self.divlist.append((q, rest, d))
        return q

    # ------------------------------------------------------------ gep
    def gep(self, bt, base, idx):
        if base is POISON: return POISON
        if base is HAVOC: return HAVOC
        ty = self.m.types
        off = base.off
        t = bt
        first = True
        for it, iv in idx:
            if iv is POISON:
                return Ptr(base.obj, POISON)
            if iv is HAVOC: raise NotSummarisable('havoc index')
            if isinstance(iv, (BoolInt, Cond)): iv = self.toint(iv)
            if first:
                sz = ty.size(t)
                off = off + iv * sz if not (isinstance(iv, int) and iv == 0) else off
                first = False
                continue
            rt = ty.resolve(t)
            if rt[0] == 'struct':
                fo, ft = ty.field(rt, iv)
                off = off + fo
                t = ft
            elif rt[0] in ('arr', 'vec'):
                t = rt[2]
                sz = ty.size(t)
                if not (isinstance(iv, int) and iv == 0): off = off + iv * sz
            else:
                raise Unsupported('gep into %r' % (rt,))
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ floats
    def fbin(self, op, a, b):
        if isinstance(a, tuple) and b is HAVOC or isinstance(b, tuple) and a is HAVOC:
            raise NotSummarisable('havoc vector')
        if isinstance(a, tuple):
            return tuple(self.fbin(op, x, y) for x, y in zip(a, b))
        if a is HAVOC or b is HAVOC:
            return HAVOC
        if a is POISON or b is POISON: return POISON
        if isinstance(a, FX) or isinstance(b, FX):
            return self.fxop(op, a, b)
        if op == 'fmul':
            if isinstance(a, FR) or isinstance(b, FR):
                an, ad = (a.n, a.d) if isinstance(a, FR) else (a, 1)
                bn, bd = (b.n, b.d) if isinstance(b, FR) else (b, 1)
                return self.mkfr(an * bn, ad * bd)
            return self.num(a) * self.num(b) if not (isinstance(a, Fraction) or isinstance(b, Fraction)) else self.frac('*', a, b)
        if op in ('fadd', 'fsub'):
            s = 1 if op == 'fadd' else -1
            if isinstance(a, FR) or isinstance(b, FR):
                an, ad = (a.n, a.d) if isinstance(a, FR) else (a, 1)
                bn, bd = (b.n, b.d) if isinstance(b, FR) else (b, 1)
                return self.mkfr(an * bd + bn * ad * s, ad * bd)
            if isinstance(a, Fraction) or isinstance(b, Fraction): return self.frac('+', a, b * s)
            return a + b * s
        if op == 'fdiv':
            an, ad = (a.n, a.d) if isinstance(a, FR) else (a, 1)
            bn, bd = (b.n, b.d) if isinstance(b, FR) else (b, 1)
            if isinstance(an, Fraction): ad, an = ad * an.denominator, an.numerator
            if isinstance(bn, Fraction): bd, bn = bd * bn.denominator, bn.numerator
            n, d = an * bd, ad * bn
            if isinstance(d, int) and d == 0: return self.fxop(op, a, b)
            if isinstance(d, int) and d < 0: n, d = -n, -d
            if isinstance(d, Poly) and not self.ctx.prove_ge(d - 1):
                return self.fxop(op, a, b)
            return self.mkfr(n, d)
        raise Unsupported(op)

    def num(self, a): return a
    def frac(self, op, a, b):
        if isinstance(a, Fraction) and not isinstance(b, (Fraction, int)):
            a, b = b, a
        # Fraction with Poly -> FR
        fa = self.asfr(a)
        fb = self.asfr(b)
        if op == '*': return self.mkfr(fa[0] * fb[0], fa[1] * fb[1])
        return self.mkfr(fa[0] * fb[1] + fb[0] * fa[1], fa[1] * fb[1])
    def asfr(self, a):
        if isinstance(a, FR): return a.n, a.d
        if isinstance(a, Fraction): return a.numerator, a.denominator
        return a, 1
    def mkfr(self, n, d):
        if isinstance(n, int) and isinstance(d, int):
            f = Fraction(n, d)
            return int(f) if f.denominator == 1 else f
        e = PL.exact_div(n, d)
        if e is not None: return e
        return FR(n, d)
    def fxop(self, op, a, b):
        def nn(x):
            if isinstance(x, FX): return x.nonneg
            if isinstance(x, (int, Fraction)): return x >= 0
            if isinstance(x, Poly): return self.ctx.prove_ge(x)
            if isinstance(x, FR): return self.ctx.prove_ge(x.n)
            return False
        return FX(op, op in ('fmul', 'fadd', 'fdiv') and nn(a) and nn(b), (a, b))

    def fptosi(self, a):
        if a is POISON or a is HAVOC: return a
        if isinstance(a, (int, Poly)): return a
        if isinstance(a, Fraction):
            return int(a)
        if isinstance(a, FR):
            return self.idiv(a.n, a.d)[0]
        if isinstance(a, FX):
            k = ('fptosi', id(a))
            q = self.divs.get(k)
            if q is None:
                q = PL.sym('fi%d' % len(PL.NAMES))
                def value(env, a=a):
                    v = self.fval(a, env)
                    return None if v is None else int(v)
                self.ctx.defs[PL.symid(q)] = value
                self.divs[k] = q
                self.divs[('keep', id(a))] = a
                if a.nonneg: self.ctx.add_ge(q)
                iv = self.finterval(a)
                if iv is not None:      # rounding can move a value across an integer: the bounds are widened first
                    for s, v in ((1, iv[0]), (-1, iv[1])):
                        if v is not None and abs(v) < 1e15: self.ctx.add_ge((q - int(math.floor(v - abs(v) * 1e-6 - 1e-6))) * s if s > 0 else int(math.ceil(v + abs(v) * 1e-6 + 1e-6)) - q)
            return q
        raise Unsupported('fptosi')

    def finterval(self, a):
        """bounds of a real-valued term from the declared ranges of the integers in it (None: unbounded)"""
        if isinstance(a, (int, Fraction)): return float(a), float(a)
        if isinstance(a, Poly):
            tot = [0.0, 0.0]
            for m, c in a.t.items():
                iv = [1.0, 1.0]
                for s in m:
                    r = self.ranges.get(s)
                    if r is None: return None
                    q = [x * y for x in iv for y in r]
                    iv = [min(q), max(q)]
                q = sorted((iv[0] * c, iv[1] * c))
                tot[0] += q[0]; tot[1] += q[1]
            return tuple(tot)
        if isinstance(a, FR): return self.fivop('fdiv', self.finterval(a.n), self.finterval(a.d))
        if isinstance(a, FX):
            xs = [self.finterval(x) for x in a.args]
            if any(x is None for x in xs): return None
            if a.name == 'sqrt': return (math.sqrt(max(0, xs[0][0])), math.sqrt(max(0, xs[0][1])))
            if a.name in ('ceil', 'floor', 'round'): return (xs[0][0] - 1, xs[0][1] + 1)
            if a.name in ('fadd', 'fsub', 'fmul', 'fdiv'): return self.fivop(a.name, xs[0], xs[1])
        return None
    def fivop(self, op, x, y):
        if x is None or y is None: return None
        if op == 'fadd': return x[0] + y[0], x[1] + y[1]
        if op == 'fsub': return x[0] - y[1], x[1] - y[0]
        if op == 'fdiv':
            if y[0] <= 0 <= y[1]: return None
            y = (1 / y[1], 1 / y[0])
        q = [a * b for a in x for b in y]
        return min(q), max(q)

    def fval(self, a, env):
        """numeric value of a real-valued term under a concrete assignment"""
        if isinstance(a, (int, Fraction)): return float(a)
        if isinstance(a, Poly):
            v = self.ctx.val(a, env)
            return None if v is None else float(v)
        if isinstance(a, FR):
            n, d = self.fval(a.n, env), self.fval(a.d, env)
            return None if n is None or not d else n / d
        if isinstance(a, FX):
            xs = [self.fval(x, env) for x in a.args]
            if any(x is None for x in xs): return None
            try:
                n = a.name
                if n == 'sqrt': return math.sqrt(xs[0])
                if n == 'fadd': return xs[0] + xs[1]
                if n == 'fsub': return xs[0] - xs[1]
                if n == 'fmul': return xs[0] * xs[1]
                if n == 'fdiv': return xs[0] / xs[1]
                if n == 'ceil': return float(math.ceil(xs[0]))
                if n == 'floor': return float(math.floor(xs[0]))
                if n == 'round': return float(math.floor(xs[0] + .5))
                if n == 'fabs': return abs(xs[0])
            except (ValueError, ZeroDivisionError, OverflowError): return None
        return None

    def ceil(self, a):
        if isinstance(a, (int, Poly)) or a is POISON or a is HAVOC: return a
        if isinstance(a, Fraction): return -((-a.numerator) // a.denominator)
        if isinstance(a, FR):
            if self.ctx.prove_ge(a.n):
                return self.idiv(a.n + a.d - 1, a.d)[0]
            return -self.idiv(-a.n, a.d)[0] if self.ctx.prove_ge(-a.n) else self.fxop('ceil', a, 0)
        return FX('ceil', a.nonneg, (a,))
    def floor(self, a):
        if isinstance(a, (int, Poly)) or a is POISON or a is HAVOC: return a
        if isinstance(a, Fraction): return a.numerator // a.denominator
        if isinstance(a, FR) and self.ctx.prove_ge(a.n):
            return self.idiv(a.n, a.d)[0]
        return FX('floor', getattr(a, 'nonneg', False), (a,))

    # ------------------------------------------------------------ instructions
    def run_function(self, name, args):
        f = self.m.functions.get(name)
        if f is None: raise Unsupported('no body for ' + name)
        if self.calldepth > 40: raise Unsupported('recursion')
        self.calldepth += 1
        self.funcs_seen.add(name)
        self.stack.append(name)
        fr = Frame()
        fr.fn = f
        fr.regs = {}
        fr.allocas = []
        fr.loops = ir.analyse(f)
        for (t, n), a in zip(f.params, args):
            fr.regs[n] = a
        try:
            r = self.run_from(fr, f.entry, None, None, None)
        finally:
            self.calldepth -= 1
            self.stack.pop()
        for o in fr.allocas: o.freed = True
        return r[1]

    def run_from(self, fr, block, prev, stop, region):
        """run until return -> ('ret', v); or arrival at block `stop` -> ('stop', prev);
        or leaving `region` (set of blocks) -> ('exit', block, prev)"""
        loops = fr.loops
        while True:
            if region is not None and block not in region:
                return ('exit', block, prev)
            if block in loops and (prev is None or prev not in loops[block]) and not (block == stop and prev is None):
                r = self.handle_loop(fr, block, prev)
                if r[0] == 'ret': return r
                block, prev = r[1], r[2]
                if block == stop: return ('stop', prev)
                continue
            r = self.exec_block(fr, block, prev)
            if r[0] == 'ret': return r
            prev, block = block, r[1]
            if block == stop:
                return ('stop', prev)

    def exec_block(self, fr, block, prev):
        regs = fr.regs
        ins = fr.fn.blocks[block]
        ty = self.m.types
        # phis in parallel
        i = 0
        n = len(ins)
        if ins[0][0] == 'phi':
            vals = []
            while ins[i][0] == 'phi':
                I = ins[i]
                vals.append((I[1], self.val(fr, I[2], I[3][prev])))
                i += 1
            for k, v in vals: regs[k] = v
        while i < n:
            I = ins[i]
            i += 1
            op = I[0]
            self.steps += 1
            if op == 'load':
                regs[I[1]] = self.load(I[2], self.val(fr, None, I[3]), I[4])
            elif op == 'store':
                self.store(I[2], self.val(fr, I[2], I[3]), self.val(fr, None, I[4]), I[5])
            elif op == 'gep':
                idx = [(t, self.val(fr, t, v)) for t, v in I[4]]
                regs[I[1]] = self.gep(I[2], self.val(fr, None, I[3]), idx)
            elif op == 'bin':
                regs[I[1]] = self.binop(I[2], I[3], self.val(fr, I[3], I[4]), self.val(fr, I[3], I[5]), I[6])
            elif op == 'icmp':
                regs[I[1]] = self.icmp(I[2], I[3], self.val(fr, I[3], I[4]), self.val(fr, I[3], I[5]))
            elif op == 'cast':
                regs[I[1]] = self.cast(I[2], I[3], self.val(fr, I[3], I[4]), I[5])
            elif op == 'br':
                return ('br', I[2])
            elif op == 'condbr':
                c = self.val(fr, None, I[2])
                if isinstance(c, int): c = bool(c)
                t, f = I[3], I[4]
                self.cur_branch = (fr, block, t, f)
                if getattr(self, 'exitwatch', None):
                    w = self.exitwatch[-1]
                    if w and w[0] is fr and (t not in w[1] or f not in w[1]) and not isinstance(c, bool):
                        raise NeedSummary()
                    if w and w[0] is fr and w[2] and not isinstance(c, (bool, int)) and not self.local and c is not POISON and c is not HAVOC and self.undecided(c):
                        raise NeedSummary()
                return ('br', t if self.decide(c) else f)
            elif op == 'alloca':
                cnt = 1
                if I[3] is not None:
                    cnt = self.val(fr, ('int', 64), I[3])
                sz = ty.size(I[2])
                o = None
                total = cnt * sz if not (isinstance(cnt, int) and cnt == 1) else sz
                o = self.new_obj('%s.%s' % (fr.fn.name[:40], I[1]), 'stack', 'cells' if isinstance(total, int) else 'array', total)
                o.align = 64
                fr.allocas.append(o)
                regs[I[1]] = Ptr(o, 0)
            elif op == 'call':
                r = self.call(fr, I)
                if I[1] is not None: regs[I[1]] = r
            elif op == 'ret':
                return ('ret', None if I[2] is None else self.val(fr, I[2], I[3]))
            elif op == 'switch':
                v = self.val(fr, I[2], I[3])
                if v is HAVOC: raise NotSummarisable('switch on havoc')
                if v is POISON:
                    self.fail('uninit', 'switch on uninitialised value')
                    raise PathEnd('uninit')
                v = self.toint(v)
                tgt = None
                for cv, b in I[5]:
                    if isinstance(v, int):
                        if v == cv:
                            tgt = b
                            break
                    elif self.decide(mkcond('eq', v - cv)):
                        tgt = b
                        break
                return ('br', tgt if tgt is not None else I[4])
            elif op == 'select':
                c = self.val(fr, None, I[2])
                if isinstance(c, tuple): raise Unsupported('vector select')
                a, b = self.val(fr, I[3], I[4]), self.val(fr, I[3], I[5])
                if isinstance(c, int): c = bool(c)
                if isinstance(c, Cond) and I[3] == ('int', 1):
                    # logical and/or forms
                    if a is False or a == 0 and not isinstance(a, Poly): pass
                regs[I[1]] = a if self.decide(c) else b
            elif op == 'fneg':
                v = self.val(fr, I[2], I[3])
                regs[I[1]] = self.fbin('fsub', tuple([0] * len(v)) if isinstance(v, tuple) else 0, v)
            elif op == 'fcmp':
                regs[I[1]] = self.fcmp(I[2], self.val(fr, I[3], I[4]), self.val(fr, I[3], I[5]))
            elif op == 'insertelement':
                v = list(self.val(fr, I[2], I[3]))
                ix = self.val(fr, None, I[5])
                v[ix] = self.val(fr, None, I[4])
                regs[I[1]] = tuple(v)
            elif op == 'extractelement':
                v = self.val(fr, I[2], I[3])
                regs[I[1]] = v[self.val(fr, None, I[4])]
            elif op == 'shufflevector':
                a = self.val(fr, I[2], I[3])
                b = self.val(fr, I[2], I[4])
                mt = ty.resolve(I[5])
                mask = self.val(fr, I[5], I[6])
                both = tuple(a) + tuple(b)
                regs[I[1]] = tuple(POISON if x is POISON else both[x] for x in mask)
            elif op == 'unreachable':
                raise PathEnd('unreachable')
            elif op == 'nop':
                pass
            elif op == 'extractvalue':
                v = self.val(fr, I[2], I[3])
                for k in I[4]: v = v[k]
                regs[I[1]] = v
            elif op == 'insertvalue':
                v = self.val(fr, I[2], I[3])
                rt = ty.resolve(I[2])
                n2 = len(rt[1]) if rt[0] == 'struct' else rt[1]
                if not isinstance(v, tuple): v = (POISON,) * n2
                v = list(v)
                if len(I[5]) != 1: raise Unsupported('nested insertvalue')
                v[I[5][0]] = self.val(fr, None, I[4])
                regs[I[1]] = tuple(v)
            else:
                raise Unsupported('instruction %r' % (I[:3],))
        raise Unsupported('fell off block')

    def binop(self, op, t, a, b, flags=()):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if op[0] == 'f':
                return self.fbin(op, a, b)
            return tuple(self.binop(op, t[2], x, y, flags) for x, y in zip(a, b))
        if op[0] == 'f':
            return self.fbin(op, a, b)
        if a is HAVOC or b is HAVOC: return HAVOC
        if a is POISON or b is POISON: return POISON
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj: return a.off - b.off
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr): return Ptr(a.obj, a.off + b)
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and a.obj and a.obj.align > b:
                return self.binop('and', t, a.off, b)
            raise Unsupported('pointer arithmetic ' + op)
        if isinstance(a, (BoolInt, Cond)) or isinstance(b, (BoolInt, Cond)):
            if op in ('xor', 'and', 'or') and (t == ('int', 1) or isinstance(a, Cond) or isinstance(b, Cond)):
                return self.boolop(op, a, b)
            a = self.toint(a)
            b = self.toint(b)
        if a is True or a is False: a = int(a)
        if b is True or b is False: b = int(b)
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul': r = a * b
        elif op in ('sdiv', 'udiv'):
            return self.idiv(a, b)[0]
        elif op in ('srem', 'urem'):
            return self.idiv(a, b)[1]
        elif op == 'shl' and isinstance(b, int): r = a * (1 << b)
        elif op in ('ashr', 'lshr') and isinstance(b, int):
            if isinstance(a, int): return a >> b
            return self.idiv(a, 1 << b)[0]
        elif op in ('and', 'or', 'xor') and isinstance(a, int) and isinstance(b, int):
            r = {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            if t == ('int', 1): return r
            return r
        elif op == 'and' and isinstance(b, int) and b > 0 and (b & (b + 1)) == 0:
            if self.ctx.prove_ge(a): return self.idiv(a, b + 1)[1]
            raise Unsupported('and on possibly negative')
        elif op == 'and' and isinstance(b, int) and b < 0 and ((-b) & (-b - 1)) == 0:
            # a & ~(2^k-1)
            if self.ctx.prove_ge(a): return a - self.idiv(a, -b)[1]
            raise Unsupported('and on possibly negative')
        elif op == 'xor' and isinstance(b, int) and b == -1: r = -a - 1
        elif op == 'or' and isinstance(b, int) and b == 0: r = a
        else:
            raise Unsupported('int op %s' % op)
        if 'overflow' in self.cats and not self.suppress and t[0] == 'int' and t[1] >= 32 and op in ('add', 'sub', 'mul', 'shl'):
            if t[1] == 32:
                if isinstance(r, int):
                    self.oblige('overflow', -2**31 <= r < 2**31, 'int overflow %d' % r)
                elif 'nsw' in flags:
                    self.oblige('overflow', mkcond('ge', 2**31 - 1 - r), 'signed int overflow: %s %s %s' % (PL.show(a), op, PL.show(b)))
                    self.oblige('overflow', mkcond('ge', r + 2**31), 'signed int underflow: %s %s %s' % (PL.show(a), op, PL.show(b)))
        return r

    def boolop(self, op, a, b):
        def c(x):
            if isinstance(x, BoolInt): return x.c
            if isinstance(x, int): return bool(x)
            return x
        a, b = c(a), c(b)
        if op == 'xor':
            if b is True: return a.neg() if isinstance(a, Cond) else (not a)
            if a is True: return b.neg() if isinstance(b, Cond) else (not b)
            if b is False: return a
            if a is False: return b
            x = self.decide(a)
            return self.boolop('xor', x, b)
        if op == 'and':
            if a is False or b is False: return False
            if a is True: return b
            if b is True: return a
            return Cond('and', (a, b))
        if a is True or b is True: return True
        if a is False: return b
        if b is False: return a
        return Cond('or', (a, b))

    def icmp(self, pred, t, a, b):
        if a is HAVOC or b is HAVOC: raise NotSummarisable('compare havoc')
        if a is POISON or b is POISON: return POISON
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) or isinstance(b, Fn):
                same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
                return same if pred == 'eq' else not same
            if not isinstance(a, Ptr): a = NULL
            if not isinstance(b, Ptr): b = NULL
            if a.obj is not b.obj:
                if pred == 'eq': return False
                if pred == 'ne': return True
                raise Unsupported('pointer compare')
            a, b = a.off, b.off
        if isinstance(a, Cond): a = BoolInt(a)
        if isinstance(b, Cond): b = BoolInt(b)
        if isinstance(a, BoolInt) or isinstance(b, BoolInt):
            if isinstance(b, BoolInt): a, b = b, a
            if isinstance(b, int) and pred in ('eq', 'ne') and b in (0, 1):
                pos = (pred == 'eq') == (b == 1)
                c = a.c
                if isinstance(c, bool): return c == pos
                return c if pos else c.neg()
            a = self.toint(a)
            b = self.toint(b)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, FX) or isinstance(b, FX): raise Unsupported('icmp fx')
        d = a - b
        if isinstance(d, int):
            return {'eq': d == 0, 'ne': d != 0, 'slt': d < 0, 'sle': d <= 0, 'sgt': d > 0, 'sge': d >= 0,
                    'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0}[pred]
        if pred == 'eq': return mkcond('eq', d)
        if pred == 'ne': return mkcond('ne', d)
        if pred in ('slt', 'ult'): return mkcond('ge', -d - 1)
        if pred in ('sle', 'ule'): return mkcond('ge', -d)
        if pred in ('sgt', 'ugt'): return mkcond('ge', d - 1)
        return mkcond('ge', d)

    def fcmp(self, pred, a, b):
        if a is HAVOC or b is HAVOC: raise NotSummarisable('fcmp havoc')
        if a is POISON or b is POISON: return POISON
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            d = a - b
            k = pred[1:] if pred[0] in 'ou' else pred
            return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0, 'rd': True, 'no': False}[k]
        c = Cond('op', (True, FCmp(pred, a, b)))
        return c

    def cast(self, op, t, a, t2):
        if isinstance(a, tuple):
            if op == 'bitcast': return a
            return tuple(self.cast(op, t[2], x, t2[2]) for x in a)
        if a is HAVOC or a is POISON: return a
        if op in ('sext',):
            if isinstance(a, (Cond, bool)):
                return -self.toint(a) if not isinstance(a, Cond) else -self.toint(a)
            if t == ('int', 1): return -self.toint(a)
            return a
        if op == 'zext':
            if isinstance(a, Cond): return BoolInt(a)
            if isinstance(a, bool): return int(a)
            return a
        if op == 'trunc':
            if t2 == ('int', 1):
                if isinstance(a, BoolInt): return a.c
                if isinstance(a, int): return bool(a & 1)
                if isinstance(a, Poly): return mkcond('ne', a)   # only used on 0/1 bytes
                return a
            if isinstance(a, int) and t2[0] == 'int':
                n = t2[1]
                v = a & ((1 << n) - 1)
                if v >= (1 << (n - 1)) and n > 8: v -= 1 << n
                return v
            if 'overflow' in self.cats and not self.suppress and isinstance(a, Poly) and t2 == ('int', 32):
                self.oblige('overflow', mkcond('ge', 2**31 - 1 - a), 'truncation to int: %s' % PL.show(a))
            return a
        if op in ('sitofp', 'uitofp'):
            if isinstance(a, (BoolInt, Cond)): a = self.toint(a)
            return a
        if op in ('fptosi', 'fptoui'):
            q = self.fptosi(a)
            if 'overflow' in self.cats and not self.suppress and t2 == ('int', 32) and isinstance(q, (int, Poly)):
                for c in (2**31 - 1 - q, q + 2**31):
                    self.oblige('overflow', c >= 0 if isinstance(c, int) else mkcond('ge', c), 'conversion to int leaves its range: %s' % PL.show(q) if not isinstance(q, int) else 'conversion to int of %d' % q)
            return q
        if op in ('fpext', 'fptrunc', 'freeze'):
            return a
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return a
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ calls
    def call(self, fr, I):
        callee = I[3]
        args = [self.val(fr, t, v) for t, v in I[4]]
        if callee[0] == 'glob':
            name = callee[1]
        else:
            c = self.val(fr, None, callee)
            if isinstance(c, Fn): name = c.name
            elif c is POISON:
                self.fail('uninit', 'call through uninitialised pointer')
                raise PathEnd('uninit')
            else: raise Unsupported('indirect call')
        return self.do_call(name, args, I)

    def do_call(self, name, args, I=None):
        h = self.intercepts.get(name)
        if h is not None:
            return h(self, args)
        if name in self.kernels:
            return self.kernel_call(name, args)
        if name in self.m.functions:
            return self.run_function(name, args)
        return self.external(name, args)

    def kernel_call(self, name, args):
        R, S = self.kernels[name]
        A, B, C, m, n, k = args[:6]
        for x in (A, B, C):
            if x is POISON or x is HAVOC: raise NotSummarisable('kernel on poison') if self.suppress else PathEnd('uninit')
        for x in (n, k):
            if x is HAVOC: raise NotSummarisable('kernel arg')
            if x is POISON:
                self.fail('uninit', 'kernel called with uninitialised size')
                raise PathEnd('uninit')
        if self.suppress: return None
        if not isinstance(n, int): raise Unsupported('symbolic kernel width')
        for x in (A, B, C):
            if x.obj is not None and x.obj.mode == 'lazy': x.obj.mode = 'array'
            if x.obj is None or x.obj.mode != 'array': raise Unsupported('kernel on non array')
            if x.obj.freed: self.fail('bounds', 'use after free')
        a, b, c = self.elem(A.off), self.elem(B.off), self.elem(C.off)
        if isinstance(k, int) and k <= 0: 
            klen = 0
        else:
            klen = k
        # k >= 0 is required; footprint obligations
        self.oblige('bounds', mkcond('ge', k) if isinstance(k, Poly) else k >= 0, 'kernel depth negative')
        na = klen * R
        def rng(o, lo, hi, what):
            d = 'kernel %s range [%s, %s) outside %s (size %s bytes)' % (what, PL.show(lo), PL.show(hi), o.name, PL.show(o.size))
            self.oblige('bounds', mkcond('ge', lo), d)
            self.oblige('bounds', mkcond('ge', o.size - hi * 4), d)
        if not (isinstance(klen, int) and klen == 0):
            rng(A.obj, a, a + na, 'A')
            # last B row is S wide, rows are n apart
            rng(B.obj, b, b + (klen - 1) * n + S, 'B')
        rng(C.obj, c, c + R * S, 'C')
        if 'align' in self.cats:
            self.align_check(Ptr(B.obj, B.off), 32)
            self.oblige('align', n % 8 == 0, 'kernel row stride alignment')
        if C.obj.const: self.fail('readonly', 'kernel writes %s' % C.obj.name)
        self.seq += 1
        sc, gd = tuple(self.ctx.scopes), tuple(self.ctx.guards)
        x = dict(name=name, R=R, S=S, n=n, k=klen, A=A.obj, a=a, av=len(A.obj.hist), B=B.obj, b=b, bv=len(B.obj.hist))
        if A.obj is C.obj or B.obj is C.obj: raise Unsupported('kernel aliasing')
        if self.par is not None and self.log_accesses:
            if A.obj.owner is not self.par: self.par.arr('R', A.obj, a, a + na, sc, gd, None)
            if B.obj.owner is not self.par: self.par.arr('R', B.obj, b, b + klen * n, sc, gd, None)
        self.add_event(Event('kern', C.obj, c, c + R * S, sc, gd, None, self.par.it if self.par else None, self.seq, x))
        return None

    def heap(self, name, size, init, align):
        if size is POISON:
            self.fail('uninit', 'allocation of uninitialised size')
            raise PathEnd('uninit')
        if size is HAVOC: raise NotSummarisable('alloc')
        mode = 'lazy' if isinstance(size, int) else 'array'
        if not isinstance(size, int):
            self.oblige('bounds', mkcond('ge', size), 'allocation size negative: %s' % PL.show(size))
        o = self.new_obj('%s#%d' % (name, len(self.objs)), 'heap', mode, size, init, align)
        o.site = self.where()
        return Ptr(o, 0)

    def external(self, name, args):
        if name in ('malloc', '_Znwm', '_Znam'):
            return self.heap('malloc', args[0], 'uninit', 16)
        if name == 'calloc':
            return self.heap('calloc', args[0] * args[1], 'zero', 16)
        if name in ('posix_memalign',):
            p = self.heap('memalign', args[2], 'uninit', args[1] if isinstance(args[1], int) else 16)
            self.store(('ptr',), p, args[0])
            return 0
        if name in ('aligned_alloc', 'memalign'):
            return self.heap('memalign', args[1], 'uninit', args[0] if isinstance(args[0], int) else 16)
        if name in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'):
            p = args[0]
            if self.suppress: return None
            if p is POISON:
                self.fail('uninit', 'free of uninitialised pointer')
                raise PathEnd('uninit')
            if p.obj is None: return None
            if p.obj.kind != 'heap' or not (isinstance(p.off, int) and p.off == 0):
                self.fail('heap', 'free of a pointer that is not a heap block: %s' % p.obj.name)
                raise PathEnd('badfree')
            if p.obj.freed:
                self.fail('heap', 'double free of %s' % p.obj.name)
                raise PathEnd('badfree')
            self.journal.append((p.obj, 'freed', False))
            p.obj.freed = True
            return None
        if name.startswith('llvm.memset') or name == 'memset':
            self.fill(args[0], args[1], args[2])
            return args[0]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            return self.memcpy(args[0], args[1], args[2])
        if name.startswith('llvm.ceil') or name in ('ceil', 'ceilf'):
            return self.ceil(args[0])
        if name.startswith('llvm.floor') or name in ('floor', 'floorf'):
            return self.floor(args[0])
        if name in MATHFN:
            a = args[0]
            if a is POISON or a is HAVOC: return a
            if isinstance(a, (int, Fraction)) and a >= 0: return self.mkfr(*Fraction(math.sqrt(a)).as_integer_ratio())
            return FX('sqrt', True, (a,))
        if name.startswith('llvm.round') or name in ('roundf', 'round', 'rintf', 'rint'):
            a = args[0]
            if isinstance(a, (int, Poly)): return a
            nn = a.nonneg if isinstance(a, FX) else (self.ctx.prove_ge(a.n) if isinstance(a, FR) else False)
            return FX('round', nn, (a,))
        if name.startswith('llvm.fabs') or name in ('fabs', 'fabsf'):
            return FX('fabs', True, (args[0],))
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma') or name in ('fma', 'fmaf'):
            return self.fbin('fadd', self.fbin('fmul', args[0], args[1]), args[2])
        if name in ('omp_set_num_threads', 'omp_set_dynamic', 'omp_set_nested'): return None
        if name == 'clock_gettime' or name == 'gettimeofday':
            p = args[1] if name == 'clock_gettime' else args[0]
            if isinstance(p, Ptr) and p.obj is not None:
                self.cell_write(p.obj, p.off, 8, 0)
                self.cell_write(p.obj, p.off + 8, 8, 0)
            return 0
        if name in ('printf', 'puts', 'putchar', 'fprintf', 'fflush', 'srand', 'perror'): return 0
        if name == 'time': return 0
        if name.startswith('llvm.stacksave'): return NULL
        if name.startswith('llvm.stackrestore') or name.startswith('llvm.lifetime') or name.startswith('llvm.dbg'): return None
        if name.startswith('llvm.assume'): return None
        if name in ('exit', 'abort', '_exit'):
            if self.suppress: raise NotSummarisable('exit in loop')
            self.fail('exit', '%s called' % name)
            raise PathEnd('exit')
        if name.startswith('__kmpc_'):
            return self.kmpc(name, args)
        if name.startswith('llvm.smax') or name.startswith('llvm.smin') or name.startswith('llvm.umax') or name.startswith('llvm.umin'):
            a, b = args[0], args[1]
            ge = self.decide(self.icmp('sge', ('int', 32), a, b))
            return (a if ge else b) if 'max' in name else (b if ge else a)
        raise Unsupported('external ' + name)

    def memcpy(self, d, s, n):
        if d.obj is None or s.obj is None:
            self.fail('bounds', 'memcpy null')
            raise PathEnd('null')
        self.oblige('bounds', mkcond('ge', d.obj.size - d.off - n), 'memcpy destination')
        self.oblige('bounds', mkcond('ge', s.obj.size - s.off - n), 'memcpy source')
        self.oblige('bounds', mkcond('ge', d.off), 'memcpy destination')
        self.oblige('bounds', mkcond('ge', s.off), 'memcpy source')
        for x, y in ((d.obj, s.obj), (s.obj, d.obj)):
            if x.mode == 'lazy': x.mode = 'array' if y.mode != 'cells' else 'cells'
        if d.obj.mode == 'cells' and s.obj.mode == 'cells' and isinstance(n, int) and isinstance(d.off, int) and isinstance(s.off, int):
            for k in sorted(s.obj.cells):
                if s.off <= k and k + s.obj.cells[k][0] <= s.off + n:
                    sz, v = s.obj.cells[k]
                    self.cell_write(d.obj, d.off + k - s.off, sz, v)
            return d
        if d.obj.mode == 'array' and s.obj.mode == 'array':
            # element-wise copy as an event family
            cnt = self.elem(n)
            if isinstance(cnt, int) and cnt == 0: return d
            if self.suppress: return d
            if d.obj is s.obj: raise Unsupported('memcpy within one array')
            t = PL.sym('cp%d' % len(PL.NAMES))
            self.push_scope(t, cnt)
            self.arr_store(d.obj, d.off + 4 * t, self.arr_load(s.obj, s.off + 4 * t))
            self.pop_scope()
            return d
        raise Unsupported('memcpy')

    def push_scope(self, t, T):
        sid = PL.symid(t)
        self.ctx.scopes.append((sid, T))
        return sid
    def pop_scope(self):
        self.ctx.scopes.pop()

    # ------------------------------------------------------------ OpenMP
    def kmpc(self, name, args):
        if name == '__kmpc_fork_call':
            return self.fork_call(args)
        if name in ('__kmpc_global_thread_num',): return 0
        if name in ('__kmpc_push_num_threads', '__kmpc_for_static_fini', '__kmpc_serialized_parallel', '__kmpc_end_serialized_parallel'): return None
        if name == '__kmpc_barrier':
            if self.par is not None: self.par.phase += 1
            return None
        if name in ('__kmpc_for_static_init_4', '__kmpc_for_static_init_4u', '__kmpc_for_static_init_8', '__kmpc_for_static_init_8u'):
            return self.static_init(args, 8 if '_8' in name else 4)
        if name in ('__kmpc_dispatch_init_4', '__kmpc_dispatch_init_4u', '__kmpc_dispatch_init_8'):
            return self.dispatch_init(args, 8 if '_8' in name else 4)
        if name in ('__kmpc_dispatch_next_4', '__kmpc_dispatch_next_4u', '__kmpc_dispatch_next_8'):
            return self.dispatch_next(args, 8 if '_8' in name else 4)
        raise Unsupported(name)

    def fork_call(self, args):
        fn = args[2].name
        cap = args[3:]
        if self.par is not None: raise Unsupported('nested parallel region')
        region = Region(len(self.regions), fn)
        if not self.suppress: self.regions.append(region)
        # first run: discover the iteration space
        mark = len(self.journal)
        saved = self.save_effects()
        self.par = Iter(region, None)
        self.forced = None
        self.probe = True
        self.suppress += 1
        lc = len(self.ctx.guards)
        try:
            space = None
            try:
                self.call_outlined(fn, cap)
            except IterSpace as e:
                space = e
        finally:
            self.suppress -= 1
            self.probe = False
            self.par = None
        self.rollback(mark)
        self.restore_effects(saved)
        if space is None:
            # no worksharing loop (or zero-trip): run once as a single thread
            it = Iter(region, ('single',))
            self.par = it
            self.forced = 'none'
            try:
                self.call_outlined(fn, cap)
            finally:
                self.par = None
                self.forced = None
            region.iters.append(it)
            region.single = True
            return None
        lb, ub, inc = space.lb, space.ub, space.inc
        n = ub - lb + 1
        if isinstance(n, int) and n <= 16:
            for v in range(n):
                it = Iter(region, v)
                self.par = it
                self.forced = (lb + v, lb + v, 1 if v == n - 1 else 0)
                try:
                    self.call_outlined(fn, cap)
                finally:
                    self.par = None
                    self.forced = None
                if not self.suppress: region.iters.append(it)
        else:
            t = PL.sym('pt%d' % len(PL.NAMES))
            if not self.decide(mkcond('ge', n - 1) if isinstance(n, Poly) else n >= 1): return None
            sid = self.push_scope(t, n)
            region.sym = (sid, n)
            mark = len(self.journal)
            try:
                # explore local paths of the body
                todo = [[]]
                base_guards = len(self.ctx.guards)
                first = True
                while todo:
                    ls = LocalScript(todo.pop())
                    self.local.append(ls)
                    it = Iter(region, ('sym', sid))
                    self.par = it
                    self.forced = (lb + t, lb + t, 0)
                    m2 = len(self.journal)
                    try:
                        self.call_outlined(fn, cap)
                    finally:
                        self.par = None
                        self.forced = None
                        self.local.pop()
                        del self.ctx.guards[base_guards:]
                    # shared scalars written by a symbolic number of iterations: forget their values
                    for (o, off, old) in self.journal[m2:]:
                        if off not in ('hist', 'freed') and o.kind != 'thread' and not o.freed:
                            if o.owner is not it and off in o.cells and o.cells[off][1] is not HAVOC:
                                self.havoc_after.append((o, off))
                    if not self.suppress: region.iters.append(it)
                    todo.extend(ls.alts)
                    if len(todo) > 64: raise Unsupported('too many local paths')
            finally:
                self.ctx.scopes.pop()
            for o, off in self.havoc_after:
                if off in o.cells:
                    self.journal.append((o, off, o.cells[off]))
                    o.cells[off] = (o.cells[off][0], HAVOC)
            del self.havoc_after[:]
        return None
    havoc_after = []

    def call_outlined(self, fn, cap):
        g = self.new_obj('gtid', 'thread', 'cells', 4)
        g.cells[0] = (4, 0)
        b = self.new_obj('btid', 'thread', 'cells', 4)
        b.cells[0] = (4, 0)
        self.run_function(fn, [Ptr(g, 0), Ptr(b, 0)] + list(cap))

    def static_init(self, args, w):
        plast, plb, pub, pst, inc = args[3], args[4], args[5], args[6], args[7]
        lb = self.load(('int', 8 * w), plb)
        ub = self.load(('int', 8 * w), pub)
        if getattr(self, 'probe', False):
            raise IterSpace(lb, ub, inc)
        if self.forced == 'none' or self.forced is None:
            raise Unsupported('second worksharing loop in a parallel region')
        f = self.forced
        if self.par.ws: raise Unsupported('second worksharing loop in a parallel region')
        self.par.ws = True
        self.store(('int', 8 * w), f[0], plb)
        self.store(('int', 8 * w), f[1], pub)
        self.store(('int', 32), f[2], plast)
        return None

    def dispatch_init(self, args, w):
        # (loc, gtid, sched, lb, ub, st, chunk)
        lb, ub = args[3], args[4]
        if getattr(self, 'probe', False):
            raise IterSpace(lb, ub, args[5])
        if self.forced == 'none' or self.forced is None or self.par.ws:
            raise Unsupported('second worksharing loop in a parallel region')
        self.par.ws = True
        self.par.disp = True
        return None
    def dispatch_next(self, args, w):
        # (loc, gtid, plast, plb, pub, pst)
        if not self.par.disp: return 0
        self.par.disp = False
        f = self.forced
        self.store(('int', 32), f[2], args[2])
        self.store(('int', 8 * w), f[0], args[3])
        self.store(('int', 8 * w), f[1], args[4])
        return 1

    def save_effects(self):
        return (len(self.obligs), self.nob, self.nok, self.seq, len(self.regions), len(self.ctx.guards), len(self.exits))
    def restore_effects(self, s):
        del self.obligs[s[0]:]
        self.nob, self.nok, self.seq = s[1], s[2], s[3]
        del self.regions[s[4]:]
        del self.ctx.guards[s[5]:]
        del self.exits[s[6]:]

    # ------------------------------------------------------------ loops
    def handle_loop(self, fr, header, prev):
        body = fr.loops[header]
        key = (fr.fn.name, header)
        # attempt A: concrete unrolling for short concrete trips
        mark = len(self.journal)
        sv = self.save_effects()
        regs0 = dict(fr.regs)
        plog = self.par.mark() if self.par else None
        if not hasattr(self, 'exitwatch'): self.exitwatch = []
        cap = self.U
        if key not in self.prefer:
            self.exitwatch.append((fr, body, self.leaf(fr, header, body)))
            try:
                b, pv = header, prev
                n = 0
                while True:
                    r = self.run_iter(fr, header, pv, body)
                    if r[0] in ('ret',): return r
                    if r[0] == 'exit': return ('exit', r[1], r[2])
                    pv = r[1]
                    n += 1
                    if n > cap: raise NeedSummary()
            except NeedSummary:
                self.prefer.add(key)
            finally:
                self.exitwatch.pop()
            if self.par: self.par.reset(plog)
            self.rollback(mark)
            self.restore_effects(sv)
            fr.regs = dict(regs0)
        self.exitwatch.append(None)
        try:
            try:
                return self.summarise(fr, header, prev, body)
            except NotSummarisable as e:
                self.last_ns = (key, str(e))
                if self.suppress: raise
                if self.par: self.par.reset(plog)
                self.rollback(mark)
                self.restore_effects(sv)
                fr.regs = dict(regs0)
                # attempt C: unroll with case splits
                pv = prev
                n = 0
                nsym = 0
                while True:
                    sp = self.spos
                    r = self.exec_block(fr, header, pv)
                    if r[0] == 'br' and (nsym > self.maxq or self.spos != sp and nsym >= self.maxq) and n > self.maxq and r[1] in body and r[1] != header:
                        # a block loop with an undetermined trip count: at most maxq+1 iterations are explored
                        self.bounds_assumed.add('at most %d iterations of a block loop' % (self.maxq + 1))
                        raise PathEnd('bound', 'loop %s' % (key,))
                    if r[0] != 'ret' and r[1] != header: r = self.run_from(fr, r[1], header, header, body)
                    elif r[0] != 'ret': r = ('stop', header)
                    if self.spos != sp: nsym += 1
                    if r[0] == 'ret': return r
                    if r[0] == 'exit': return ('exit', r[1], r[2])
                    pv = r[1]
                    n += 1
                    if n > self.unrollcap: raise Unsupported('loop %s not summarisable (%s) and does not finish within %d iterations' % (key, e, self.unrollcap))
        finally:
            self.exitwatch.pop()

    def leaf(self, fr, header, body):
        """an innermost loop without calls"""
        k = ('leaf', header)
        v = fr.fn.info.get(k)
        if v is None:
            v = fr.fn.info[k] = not any(h != header and h in body for h in fr.loops) and not any(I[0] == 'call' for b in body for I in fr.fn.blocks[b])
        return v

    def run_iter(self, fr, header, prev, body):
        """execute from the header until it is reached again ('stop'), the loop is left, or return"""
        r = self.exec_block(fr, header, prev)
        if r[0] == 'ret': return r
        nb = r[1]
        if nb == header: return ('stop', header)
        return self.run_from(fr, nb, header, header, body)

    def loop_cells(self, mark):
        out = {}
        for (o, off, old) in self.journal[mark:]:
            if off in ('hist', 'freed'): continue
            if o.freed and o.kind == 'stack': continue
            if (o, off) not in out: out[(o, off)] = old
        return out

    def summarise(self, fr, header, prev, body):
        regs0 = dict(fr.regs)
        mark = len(self.journal)
        sv = self.save_effects()
        nobj = len(self.objs)
        # ---- pass 1: discover modified cells
        self.suppress += 1
        deltas = {}
        initial = {}
        bad = set()
        try:
            todo = [[]]
            g0 = len(self.ctx.guards)
            npaths = 0
            while todo:
                ls = LocalScript(todo.pop())
                self.local.append(ls)
                try:
                    r = self.run_iter(fr, header, prev, body)
                finally:
                    self.local.pop()
                if r[0] == 'stop':
                    npaths += 1
                    for (o, off), old in self.loop_cells(mark).items():
                        if o.id >= nobj: continue
                        new = o.cells.get(off)
                        initial[(o, off)] = old
                        d = self.delta(old, new)
                        k = (o, off)
                        if d is None: bad.add(k)
                        elif k in deltas and deltas[k] != d: bad.add(k)
                        else: deltas[k] = d
                elif r[0] == 'ret':
                    raise NotSummarisable('return inside loop')
                self.rollback(mark)
                self.restore_effects(sv)
                fr.regs = dict(regs0)
                del self.ctx.guards[g0:]
                todo.extend(ls.alts)
                if len(todo) > 32: raise NotSummarisable('too many paths')
        finally:
            self.suppress -= 1
            self.rollback(mark)
            self.restore_effects(sv)
            fr.regs = dict(regs0)
        if npaths == 0:
            # the body is never completed: execute plainly (zero-trip or exits)
            r = self.run_iter(fr, header, prev, body)
            if r[0] == 'stop': raise NotSummarisable('first iteration diverges')
            return r if r[0] == 'ret' else ('exit', r[1], r[2])
        affine = {k: d for k, d in deltas.items() if k not in bad}
        havoc = set(bad)
        accs = {}
        rounds = 0
        latch = next(iter([b for b in body if header in fr.fn.info['succ'][b]]))
        t = PL.sym('t%d' % len(PL.NAMES))
        tid = PL.symid(t)
        while True:
            rounds += 1
            if rounds > 6: raise NotSummarisable('no stable summary')
            self.rollback(mark)
            self.restore_effects(sv)
            fr.regs = dict(regs0)
            # generic state
            self.set_generic(affine, havoc, accs, initial, t)
            # header
            r = self.header_cond(fr, header, prev, body)
            cond, inb, outb = r
            if isinstance(cond, bool):
                raise NotSummarisable('constant loop condition')
            T, entry = self.tripcount(cond, t)
            # does the loop run at all?
            e = self.decide(entry)
            if not e:
                self.rollback(mark)
                fr.regs = dict(regs0)
                cond, inb, outb = self.header_cond(fr, header, prev, body)
                return ('exit', outb, header)
            if callable(T): T = T()
            if self.suppress == 0 and isinstance(T, int) and T <= self.U:
                # known short trip: execute it
                self.rollback(mark)
                fr.regs = dict(regs0)
                return self.counted(fr, header, prev, body, T)
            if self.suppress:
                # discovery of an enclosing loop: the guess is enough, the enclosing pass 2 verifies it
                self.rollback(mark)
                fr.regs = dict(regs0)
                if isinstance(T, int) and T <= self.U: return self.counted(fr, header, prev, body, T)
                for k in affine: self.setcell(k, self.affine_val(initial[k], affine[k], T))
                for k in havoc: self.setcell(k, HAVOC)
                cond, inb, outb = self.header_cond(fr, header, latch, body)
                return ('exit', outb, header)
            m1 = len(self.journal)
            self.ctx.scopes.append((tid, T))
            ends = []
            stable = True
            havoc_before = set(havoc)
            try:
                todo = [[]]
                g0 = len(self.ctx.guards)
                loads = None
                while todo:
                    ls = LocalScript(todo.pop())
                    self.local.append(ls)
                    mp = len(self.journal)
                    gpath = None
                    try:
                        r = self.run_from(fr, inb, header, header, body)
                        gpath = list(self.ctx.guards[g0:])
                    finally:
                        self.local.pop()
                    if r[0] != 'stop': raise NotSummarisable('loop has another exit')
                    endvals = {}
                    for (o, off), old in self.loop_cells(mp).items():
                        if o.id >= nobj: continue
                        endvals[(o, off)] = (old, o.cells.get(off))
                    ends.append((gpath, endvals))
                    # undo cell changes of this path, keep array events
                    self.undo_cells(mp)
                    fr.regs = dict(regs0)
                    del self.ctx.guards[g0:]
                    todo.extend(ls.alts)
                    if len(todo) > 32: raise NotSummarisable('too many paths')
                # verify the recurrences
                for gp, ev in ends:
                    for k, (old, new) in ev.items():
                        if k in havoc: continue
                        if k in accs:
                            a = accs[k]
                            d = self.accdelta(a, new, accs)
                            if d is None or (k in self.accd and self.accd[k] != d):
                                havoc.add(k)
                                accs.pop(k)
                                stable = False
                            else:
                                self.accd[k] = d
                            continue
                        if k not in affine:
                            havoc.add(k)
                            stable = False
                            continue
                        exp = self.affine_val(initial[k], affine[k], t + 1)
                        if not self.same(exp, new):
                            stable = False
                            # float accumulator?
                            havoc.add(k)
                            affine.pop(k, None)
                    for k in list(affine):
                        if k not in ev and not self.zero_delta(affine[k]):
                            # not modified on this path
                            havoc.add(k)
                            affine.pop(k)
                            stable = False
                    for k in list(accs):
                        if k not in ev: raise NotSummarisable('conditional accumulation')
            except NotSummarisable as ex:
                self.ctx.scopes.pop()
                # maybe a havoc'd float cell is an accumulator
                cand = [k for k in havoc if k not in accs and k not in self.acc_tried and self.is_floaty(initial.get(k))]
                if cand and rounds <= 4 and 'havoc' in str(ex):
                    for k in cand:
                        accs[k] = None
                        self.acc_tried.add(k)
                        havoc.discard(k)
                    self.accd = {}
                    continue
                self.acc_tried = set()
                raise
            self.ctx.scopes.pop()
            if stable: break
            self.accd = {}
        self.acc_tried = set()
        if self.suppress == 0: self.loop_memory_check(m1, tid, T)
        # ---- final state
        single = len(ends) == 1
        for k in affine:
            self.setcell(k, self.affine_val(initial[k], affine[k], T))
        for k in accs:
            self.setcell(k, self.acc_final(k, initial[k], self.accd.get(k), tid, T))
        for k in havoc:
            v = HAVOC
            vals = []
            for gp, ev in ends:
                if k in ev and ev[k][1] is not None: vals.append(ev[k][1])
                else: vals.append(None)
            if vals and all(x is not None for x in vals) and all(self.samecell(x, vals[0]) for x in vals):
                v = self.subst_val(vals[0][1], tid, T - 1)
            self.setcell(k, v)
        fr.regs = dict(regs0)
        cond, inb, outb = self.header_cond(fr, header, latch, body)
        return ('exit', outb, header)

    accd = {}
    acc_tried = set()

    def counted(self, fr, header, prev, body, T):
        pv = prev
        for i in range(T):
            cond, inb, outb = self.header_cond(fr, header, pv, body)
            r = self.run_from(fr, inb, header, header, body)
            if r[0] == 'ret': return r
            if r[0] == 'exit': return ('exit', r[1], r[2])
            pv = r[1]
        cond, inb, outb = self.header_cond(fr, header, pv, body)
        return ('exit', outb, header)

    def header_cond(self, fr, header, prev, body):
        """execute the header block up to its conditional branch"""
        ins = fr.fn.blocks[header]
        term = ins[-1]
        if term[0] != 'condbr': raise NotSummarisable('loop without header exit')
        a, b = term[3], term[4]
        if (a in body) == (b in body): raise NotSummarisable('loop without header exit')
        save = fr.fn.blocks[header]
        fr.fn.blocks[header] = ins[:-1] + [('br', None, a)]
        try:
            self.exec_block(fr, header, prev)
        finally:
            fr.fn.blocks[header] = save
        c = self.val(fr, None, term[2])
        if isinstance(c, int) and not isinstance(c, bool): c = bool(c)
        if c is POISON: raise NotSummarisable('uninitialised loop condition')
        if a in body: return c, a, b
        return (c.neg() if isinstance(c, Cond) else (not c)), b, a

    def tripcount(self, cond, t):
        """condition of iteration t (t = 0,1,...) holds up to the trip count; returns (T or thunk, entry condition)"""
        if cond.k == 'and': raise NotSummarisable('compound loop condition')
        if cond.k not in ('ge', 'ne'): raise NotSummarisable('loop condition %s' % cond.k)
        tid = PL.symid(t)
        cr = PL.coeff_split(cond.a, tid)
        if cr is None: raise NotSummarisable('non-linear loop condition')
        c, r = cr
        if isinstance(c, int) and c == 0: raise NotSummarisable('loop condition does not progress')
        if cond.k == 'ge':
            # c*t + r >= 0 with c < 0
            if not self.ctx.prove_ge(-c - 1): raise NotSummarisable('loop step sign')
            entry = mkcond('ge', r)
            if not isinstance(r, Poly): entry = r >= 0
            def T():
                return self.idiv(r, -c)[0] + 1
            return T, entry
        # c*t + r != 0 : leaves at t = -r/c
        if isinstance(c, int) and c in (1, -1):
            n = -r if c == 1 else r
        else:
            n = PL.exact_div(-r, c) if not isinstance(c, int) else (PL.exact_div_int(-r, c) if PL.content_divides(r, abs(c)) else None)
            if n is None: raise NotSummarisable('!= loop condition')
        entry = mkcond('ge', n - 1) if isinstance(n, Poly) else n >= 1
        def T2():
            return n
        # if n < 0 the loop would run away: require n >= 0
        if isinstance(n, Poly) and not self.ctx.prove_ge(n):
            raise NotSummarisable('!= loop may run away')
        return T2, entry

    def set_generic(self, affine, havoc, accs, initial, t):
        for k in affine:
            self.setcell(k, self.affine_val(initial[k], affine[k], t))
        for k in havoc:
            self.setcell(k, HAVOC)
        for k in accs:
            v = initial[k][1]
            if isinstance(v, tuple):
                a = tuple(self.accatom(k, i) for i in range(len(v)))
            else:
                a = self.accatom(k, 0)
            accs[k] = a
            self.setcell(k, a)

    def accatom(self, k, i):
        kk = ('acc', k[0].id, k[1], i, len(self.ctx.scopes))
        a = self.atomkey.get(kk)
        if a is None:
            a = PL.sym('acc_%s_%s_%d' % (k[0].name, k[1], i))
            self.atoms[PL.symid(a)] = ('acc',)
            self.atomkey[kk] = a
        return a

    def accdelta(self, a, new, accs):
        allacc = set()
        for x in accs.values():
            for y in (x if isinstance(x, tuple) else (x,)):
                if y is not None: allacc.add(PL.symid(y))
        if new is None: return None
        new = new[1]
        if isinstance(a, tuple):
            if not isinstance(new, tuple) or len(new) != len(a): return None
            out = []
            for x, y in zip(a, new):
                if not isinstance(y, (int, Poly)): return None
                d = y - x
                if syms(d) & allacc: return None
                out.append(d)
            return tuple(out)
        if not isinstance(new, (int, Poly)): return None
        d = new - a
        if syms(d) & allacc: return None
        return d

    def acc_final(self, k, init, d, tid, T):
        v = init[1]
        if isinstance(v, tuple):
            return tuple(self.sumatom(x, y, tid, T) for x, y in zip(v, d))
        return self.sumatom(v, d, tid, T)

    def sumatom(self, base, d, tid, T):
        if d is None: return HAVOC
        if isinstance(d, int) and d == 0: return base
        a = PL.sym('sum%d' % len(PL.NAMES))
        self.atoms[PL.symid(a)] = ('sum', tid, T, d, tuple(self.ctx.scopes), tuple(self.ctx.guards))
        return base + a

    def is_floaty(self, c):
        if c is None: return False
        v = c[1]
        if isinstance(v, tuple): return all(isinstance(x, (int, Poly)) for x in v)
        return isinstance(v, Poly) and any(s in self.atoms for s in syms(v)) or (isinstance(v, int))

    def setcell(self, k, v):
        o, off = k
        old = o.cells.get(off)
        self.journal.append((o, off, old))
        o.cells[off] = (old[0] if old else 4, v)

    def undo_cells(self, mark):
        """revert cell writes after mark but keep array events"""
        keep = []
        j = self.journal
        while len(j) > mark:
            o, off, old = j.pop()
            if off == 'hist':
                keep.append((o, off, old))
            elif off == 'freed':
                o.freed = old
            elif old is None: o.cells.pop(off, None)
            else: o.cells[off] = old
        j.extend(reversed(keep))

    def delta(self, old, new):
        if old is None or new is None or old[0] != new[0]: return None
        a, b = old[1], new[1]
        if isinstance(a, bool) or isinstance(b, bool): return None
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            d = b - a
            if isinstance(d, Poly) and any(s in self.atoms for s in d.syms()): return None
            return ('i', d if isinstance(d, int) else d)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.off is not POISON and b.off is not POISON:
            return ('p', b.off - a.off)
        if a is b: return ('k', 0)
        if isinstance(a, tuple) and isinstance(b, tuple): return None
        return None
    def zero_delta(self, d):
        return isinstance(d[1], int) and d[1] == 0
    def affine_val(self, init, d, t):
        v = init[1]
        if d[0] == 'i': return v + d[1] * t
        if d[0] == 'p': return Ptr(v.obj, v.off + d[1] * t)
        return v
    def same(self, exp, cell):
        if cell is None: return False
        v = cell[1]
        if isinstance(exp, (int, Poly)) and isinstance(v, (int, Poly)): return exp == v
        if isinstance(exp, Ptr) and isinstance(v, Ptr): return exp.obj is v.obj and exp.off == v.off
        return exp is v
    def samecell(self, a, b):
        x, y = a[1], b[1]
        if isinstance(x, (int, Poly)) and isinstance(y, (int, Poly)): return x == y
        if isinstance(x, Ptr) and isinstance(y, Ptr): return x.obj is y.obj and x.off == y.off
        return x is y
    def subst_val(self, v, s, e):
        if isinstance(v, Poly):
            if any(x in self.atoms for x in v.syms()): return HAVOC
            return PL.subst(v, s, e)
        if isinstance(v, Ptr) and isinstance(v.off, (int, Poly)): return Ptr(v.obj, PL.subst(v.off, s, e))
        if isinstance(v, int) or v is POISON or isinstance(v, Fn): return v
        if isinstance(v, BoolInt) and isinstance(v.c, bool): return v
        return HAVOC

    def loop_memory_check(self, m1, tid, T):
        """loads inside a summarised loop must not read what another iteration of the same loop stores"""
        evs = {}
        for (o, off, old) in self.journal[m1:]:
            if off == 'hist': evs.setdefault(o, old)
        for o, start in evs.items():
            stores = [e for e in o.hist[min(start, len(o.hist)):] if e.kind in ('store', 'fill')]
            allw = o.hist[start:]
            # any value using a load of o made after the loop began?
            for w in self.written_values(m1):
                for s in syms(w.val) if isinstance(w.val, Poly) else ():
                    a = self.atoms.get(s)
                    if a and a[0] == 'load' and a[1] is o and a[2] >= start:
                        for e in allw:
                            if e.kind == 'accum' and e is w: continue
                            if not self.disjoint_fams(a[3], a[3] + 1, w.bvs, e.lo, e.hi, e.bvs):
                                raise NotSummarisable('loop-carried memory dependence on %s' % o.name)
            for w in self.kern_events(m1):
                for oo, ver in ((w.x['A'], w.x['av']), (w.x['B'], w.x['bv'])):
                    if oo is o and ver >= start:
                        raise NotSummarisable('loop-carried dependence through kernel operand')

    def written_values(self, m1):
        seen = {}
        for (o, off, old) in self.journal[m1:]:
            if off == 'hist': seen.setdefault(o, old)
        for o, st in seen.items():
            for e in o.hist[st:]: yield e
    def kern_events(self, m1):
        for e in self.written_values(m1):
            if e.kind == 'kern': yield e

    def rename_bvs(self, p, bvs):
        pass

    def disjoint_fams(self, lo1, hi1, bv1, lo2, hi2, bv2):
        """interval hulls of two event families are disjoint"""
        a = self.hull(lo1, hi1, bv1)
        b = self.hull(lo2, hi2, bv2)
        if a is None or b is None: return False
        sc = self.ctx.scopes
        self.ctx.scopes = []
        try:
            return self.ctx.prove_ge(b[0] - a[1]) or self.ctx.prove_ge(a[0] - b[1])
        finally:
            self.ctx.scopes = sc

    def hull(self, lo, hi, bvs):
        """[lo_min, hi_max) of an event family, with all bound variables eliminated"""
        mn, mx = lo, hi
        for s, T in reversed(bvs):
            for which in (0, 1):
                p = mn if which == 0 else mx
                if isinstance(p, int) or s not in p.syms(): continue
                cr = PL.coeff_split(p, s)
                if cr is None: return None
                c, r = cr
                sc = self.ctx.scopes
                self.ctx.scopes = []
                try:
                    if self.ctx.prove_ge(c): up = True
                    elif self.ctx.prove_ge(-c): up = False
                    else: return None
                finally:
                    self.ctx.scopes = sc
                end = r + c * (T - 1)
                if which == 0: mn = r if up else end
                else: mx = end if up else r
        return mn, mx


class FCmp:
    __slots__ = ('pred', 'a', 'b', 'csyms')
    def __init__(self, pred, a, b):
        self.pred, self.a, self.b = pred, a, b
        self.csyms = frozenset()
        for x in (a, b):
            if isinstance(x, Poly): self.csyms |= x.syms()

class IterSpace(Exception):
    def __init__(self, lb, ub, inc):
        self.lb, self.ub, self.inc = lb, ub, inc

class Region:
    def __init__(self, i, fn):
        self.id = i
        self.fn = fn
        self.iters = []
        self.sym = None
        self.single = False

class Iter:
    """accesses of one iteration (thread) of a parallel loop"""
    def __init__(self, region, it):
        self.region = region
        self.it = it
        self.arrs = []       # (kind, obj, lo, hi, bvs, guards, event)
        self.cells = {}      # (obj, off) -> [first kind, read_before_write, values written]
        self.order = []
        self.phase = 0
        self.ws = False
        self.disp = False
    def cell(self, k, o, off, v, sc, gd):
        e = self.cells.get((o, off))
        if e is None:
            self.cells[(o, off)] = [k == 'R', [v] if k == 'W' else []]
            self.order.append((o, off))
        elif k == 'W':
            e[1].append(v)
    def arr(self, k, o, lo, hi, sc, gd, ev):
        self.arrs.append((k, o, lo, hi, sc, gd, ev))
    def mark(self):
        return (len(self.arrs), {k: (v[0], list(v[1])) for k, v in self.cells.items()}, len(self.order))
    def reset(self, m):
        del self.arrs[m[0]:]
        self.cells = {k: [v[0], list(v[1])] for k, v in m[1].items()}
        del self.order[m[2]:]
