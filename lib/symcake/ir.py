"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) used by the checks."""
import re, struct
from fractions import Fraction

class IRError(Exception):
    pass

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\.)*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<global>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<fnum>[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)
 | (?P<num>-?[0-9]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*|:])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in ' \t\r\n':
            i += 1
            continue
        if c == ';':
            break
        if s.startswith('...', i):
            out.append(('dots', '...'))
            i += 3
            continue
        m = TOK.match(s, i)
        if not m:
            raise IRError('tok: ' + s[i:i + 40])
        out.append((m.lastgroup, m.group()))
        i = m.end()
    return out

# ---- types --------------------------------------------------------------
class Types:
    def __init__(self):
        self.named = {}
    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t
    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            n = (t[1] + 7) // 8
            a = 1
            while a < n: a *= 2
            return min(a, 16)
        if k == 'float': return 4
        if k == 'double': return 8
        if k == 'ptr': return 8
        if k == 'vec':
            return self.size(t)
        if k == 'arr': return self.align(t[2])
        if k == 'struct':
            return max([self.align(x) for x in t[1]] or [1])
        raise IRError('align %r' % (t,))
    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            n = (t[1] + 7) // 8
            a = 1
            while a < n: a *= 2
            return a
        if k == 'float': return 4
        if k == 'double': return 8
        if k == 'ptr': return 8
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'struct':
            off = 0
            for x in t[1]:
                a = self.align(x)
                off = (off + a - 1) // a * a + self.size(x)
            a = self.align(t)
            return (off + a - 1) // a * a
        raise IRError('size %r' % (t,))
    def field(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, x in enumerate(t[1]):
            a = self.align(x)
            off = (off + a - 1) // a * a
            if j == i:
                return off, x
            off += self.size(x)
        raise IRError('field')

SKIPWORDS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'zeroext', 'signext',
             'inreg', 'returned', 'immarg', 'nofree', 'readnone', 'nest', 'swiftself', 'noreturn', 'nounwind',
             'captures', 'local_unnamed_addr', 'unnamed_addr', 'dso_local', 'internal', 'private', 'linkonce_odr',
             'weak_odr', 'hidden', 'constant', 'global', 'external', 'available_externally', 'linkonce', 'weak',
             'common', 'thread_local', 'inbounds', 'nsw', 'nuw', 'exact', 'tail', 'notail', 'musttail', 'fast',
             'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'fastcc', 'ccc', 'coldcc',
             'nneg', 'disjoint', 'comdat', 'allocptr', 'allocalign', 'immarg', 'mustprogress', 'noinline', 'optnone'}
PARENATTR = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'range', 'nofpclass', 'memory',
             'captures', 'elementtype', 'preallocated', 'inalloca', 'byref'}

class P:
    def __init__(self, toks, types):
        self.t = toks
        self.i = 0
        self.ty = types
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)
    def next(self):
        x = self.peek()
        self.i += 1
        return x
    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise IRError('expected %r got %r in %r' % (v, x, self.t))
    def skip_attrs(self):
        seen = []
        while True:
            k, v = self.peek()
            if v == 'align' and self.peek(1)[0] == 'num':
                self.i += 2
                continue
            if k == 'word' and v in PARENATTR and self.peek(1)[1] == '(':
                self.i += 1
                d = 0
                while True:
                    w = self.next()[1]
                    if w == '(': d += 1
                    if w == ')':
                        d -= 1
                        if d == 0: break
                continue
            if k == 'word' and v in SKIPWORDS:
                seen.append(v)
                self.i += 1
                continue
            if k == 'attr':
                self.i += 1
                continue
            if k == 'meta':
                self.i += 1
                if self.peek()[0] == 'meta':
                    self.i += 1
                continue
            return seen
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.peek()[1] == 'addrspace':
                    self.i += 4
                return ('ptr',)
            if v in ('float', 'double', 'void', 'metadata', 'label', 'half', 'token', 'x86_fp80'):
                return (v,)
            if v[0] == 'i' and v[1:].isdigit():
                return ('int', int(v[1:]))
            raise IRError('type %r' % v)
        if k == 'local':
            return ('named', v)
        if v == '[':
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if v == '<':
            if self.peek()[1] == '{':
                self.next()
                fs = []
                while not self.accept('}'):
                    fs.append(self.type())
                    self.accept(',')
                self.expect('>')
                return ('struct', tuple(fs))
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        if v == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            return ('struct', tuple(fs))
        raise IRError('type %r' % ((k, v),))
    def functype_suffix(self):
        # skip "(args...)" of a function type
        if self.peek()[1] == '(':
            d = 0
            while True:
                w = self.next()[1]
                if w == '(': d += 1
                if w == ')':
                    d -= 1
                    if d == 0: return True
        return False
    def value(self, t):
        """operand: ('reg',name) ('glob',name) ('const',value) ..."""
        k, v = self.next()
        rt = self.ty.resolve(t) if t[0] == 'named' else t
        if k == 'local':
            return ('reg', v)
        if k == 'global':
            return ('glob', v[1:].strip('"'))
        if k == 'num':
            if rt[0] in ('float', 'double'):
                return ('fconst', Fraction(int(v)))
            return ('const', int(v))
        if k == 'fnum':
            return ('fconst', Fraction(float(v)))
        if k == 'hex':
            if v[2] in 'KLMHR':
                return ('undef',)
            d = struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0]
            if d != d or d in (float('inf'), float('-inf')):
                return ('fspecial', d)
            return ('fconst', Fraction(d))
        if k == 'str':
            return ('str', decode_str(v))
        if v == 'true': return ('const', 1)
        if v == 'false': return ('const', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'none': return ('undef',)
        if v == 'zeroinitializer': return ('zero', t)
        if v == 'getelementptr':
            self.skip_attrs()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                self.skip_attrs()
                ot = self.type()
                self.skip_attrs()
                ops.append((ot, self.value(ot)))
                if not self.accept(','): break
            self.expect(')')
            return ('cgep', bt, ops)
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            self.expect('(')
            t1 = self.type()
            x = self.value(t1)
            self.expect('to')
            self.type()
            self.expect(')')
            return x
        if v == '<' or v == '[' or v == '{':
            close = {'<': '>', '[': ']', '{': '}'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                close = '}'
            els = []
            while not self.accept(close):
                et = self.type()
                els.append((et, self.value(et)))
                self.accept(',')
            if v == '<' and close == '}':
                self.expect('>')
            return ('agg', els)
        if v == 'splat':
            self.expect('(')
            et = self.type()
            x = self.value(et)
            self.expect(')')
            return ('splat', x)
        raise IRError('value %r in %r' % ((k, v), self.t))

def decode_str(v):
    if v[0] == 'c': v = v[1:]
    v = v[1:-1]
    out = bytearray()
    i = 0
    while i < len(v):
        if v[i] == '\\':
            if v[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(v[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(v[i])); i += 1
    return bytes(out)

class Function:
    __slots__ = ('name', 'params', 'rtype', 'blocks', 'order', 'entry', 'loops', 'succ', 'headers', 'info', 'ninstr')
    def __init__(self):
        self.blocks = {}
        self.order = []
        self.info = {}

class Module:
    def __init__(self, text):
        self.text = text
        self.types = Types()
        self.functions = {}
        self.globals = {}
        self.declares = set()
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        pending = []
        while i < n:
            ln = lines[i]
            if not ln or ln[0] in ';!' or ln.startswith('source_filename') or ln.startswith('target') or ln.startswith('attributes') or ln.startswith('$') or ln.startswith('module asm'):
                i += 1
                continue
            if ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                if rest.strip() == 'opaque':
                    self.types.named[nm] = ('struct', ())
                else:
                    self.types.named[nm] = P(tokenize(rest), self.types).type()
                i += 1
                continue
            if ln.startswith('@'):
                pending.append(ln)
                i += 1
                continue
            if ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', ln)
                self.declares.add(m.group(1).strip('"'))
                i += 1
                continue
            if ln.startswith('define'):
                body = []
                hdr = ln
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                f = self._func(hdr, body)
                self.functions[f.name] = f
                continue
            i += 1
        for ln in pending:
            try:
                self._global(ln)
            except IRError:
                nm = ln.split(' ', 1)[0][1:].strip('"')
                self.globals[nm] = (('arr', 0, ('int', 8)), None, False)

    def _global(self, ln):
        nm, rest = ln.split(' = ', 1)
        toks = tokenize(rest)
        p = P(toks, self.types)
        seen = p.skip_attrs()
        t = p.type()
        init = None
        if 'external' not in seen and p.i < len(p.t) and p.peek()[1] not in (',', None):
            init = p.value(t)
        self.globals[nm[1:].strip('"')] = (t, init, 'constant' in seen)

    def _func(self, hdr, body):
        f = Function()
        toks = tokenize(hdr)
        p = P(toks, self.types)
        p.expect('define')
        p.skip_attrs()
        f.rtype = p.type()
        p.skip_attrs()
        f.name = p.next()[1][1:].strip('"')
        p.expect('(')
        f.params = []
        while not p.accept(')'):
            if p.peek()[0] == 'dots':
                p.next()
                continue
            t = p.type()
            p.skip_attrs()
            k, v = p.peek()
            if k == 'local':
                p.next()
                f.params.append((t, v))
            else:
                f.params.append((t, None))
            p.accept(',')
        cnt = 0
        # implicit numbering of unnamed params and entry block
        for idx, (t, v) in enumerate(f.params):
            if v is None:
                f.params[idx] = (t, '%' + str(cnt))
            if f.params[idx][1][1:].isdigit():
                cnt = int(f.params[idx][1][1:]) + 1
        cur = str(cnt)
        f.entry = None
        k = 0
        raw = []
        while k < len(body):
            ln = body[k]
            k += 1
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = m.group(1).strip('"')
                if cur not in f.blocks:
                    f.blocks[cur] = []
                    f.order.append(cur)
                    if f.entry is None: f.entry = cur
                continue
            if s.startswith('switch'):
                while ']' not in s:
                    s += ' ' + body[k].strip()
                    k += 1
            if f.entry is None:
                f.entry = cur
                f.blocks[cur] = []
                f.order.append(cur)
            try:
                f.blocks[cur].append(self._instr(s))
            except IRError as e:
                f.blocks[cur].append(('unsupported', s, str(e)))
        f.ninstr = sum(len(b) for b in f.blocks.values())
        return f

    def _instr(self, s):
        p = P(tokenize(s), self.types)
        res = None
        if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
            res = p.next()[1]
            p.next()
        p_seen = p.skip_attrs()
        op = p.next()[1]
        if op == 'alloca':
            p.skip_attrs()
            t = p.type()
            cnt = None
            if p.accept(','):
                if p.peek()[1] != 'align':
                    ct = p.type()
                    cnt = p.value(ct)
            return ('alloca', res, t, cnt)
        if op == 'load':
            p.skip_attrs()
            if p.peek()[1] == 'atomic': p.next()
            t = p.type()
            p.expect(',')
            pt = p.type()
            a = p.value(pt)
            al = 1
            if p.accept(','):
                while p.peek()[0] is not None:
                    if p.peek()[1] == 'align':
                        p.next()
                        al = int(p.next()[1])
                    else:
                        p.next()
            return ('load', res, t, a, al)
        if op == 'store':
            p.skip_attrs()
            if p.peek()[1] == 'atomic': p.next()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            a = p.value(pt)
            al = 1
            if p.accept(','):
                while p.peek()[0] is not None:
                    if p.peek()[1] == 'align':
                        p.next()
                        al = int(p.next()[1])
                    else:
                        p.next()
            return ('store', None, t, v, a, al)
        if op == 'getelementptr':
            p.skip_attrs()
            bt = p.type()
            p.expect(',')
            pt = p.type()
            base = p.value(pt)
            idx = []
            while p.accept(','):
                p.skip_attrs()
                if p.peek()[0] is None: break
                it = p.type()
                idx.append((it, p.value(it)))
            return ('gep', res, bt, base, idx)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('bin', res, op, t, a, b, tuple(fl))
        if op == 'fneg':
            p.skip_attrs()
            t = p.type()
            return ('fneg', res, t, p.value(t))
        if op in ('icmp', 'fcmp'):
            p.skip_attrs()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return (op, res, pred, t, a, b)
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast',
                  'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            t2 = t
            if p.accept('to'):
                t2 = p.type()
            return ('cast', res, op, t, a, t2)
        if op == 'phi':
            p.skip_attrs()
            t = p.type()
            inc = []
            while p.accept('['):
                v = p.value(t)
                p.expect(',')
                b = p.next()[1][1:].strip('"')
                p.expect(']')
                inc.append((v, b))
                p.accept(',')
            return ('phi', res, t, dict((b, v) for v, b in inc))
        if op == 'select':
            p.skip_attrs()
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            return ('select', res, c, t, a, b, ct)
        if op == 'br':
            t = p.type()
            if t[0] == 'label':
                return ('br', None, p.next()[1][1:].strip('"'))
            c = p.value(t)
            p.expect(',')
            p.type()
            a = p.next()[1][1:].strip('"')
            p.expect(',')
            p.type()
            b = p.next()[1][1:].strip('"')
            return ('condbr', None, c, a, b)
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            d = p.next()[1][1:].strip('"')
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.type()
                cases.append((cv[1], p.next()[1][1:].strip('"')))
            return ('switch', None, t, v, d, cases)
        if op == 'ret':
            t = p.type()
            if t[0] == 'void':
                return ('ret', None, None, None)
            return ('ret', None, t, p.value(t))
        if op == 'unreachable':
            return ('unreachable', None)
        if op in ('call', 'invoke'):
            p.skip_attrs()
            t = p.type()
            if p.peek()[1] == '(':   # function type given
                p.functype_suffix()
            p.skip_attrs()
            k, v = p.peek()
            if v == 'asm':
                raise IRError('inline asm')
            callee = p.value(('ptr',))
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                al = 1
                # remember alignment attribute
                j = p.i
                p.skip_attrs()
                if at[0] == 'metadata':
                    d = 0
                    while p.peek()[1] not in (',', ')'):
                        p.next()
                    args.append((at, ('undef',)))
                else:
                    args.append((at, p.value(at)))
                p.accept(',')
            return ('call', res, t, callee, args)
        if op == 'extractelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            it = p.type()
            return ('extractelement', res, t, v, p.value(it))
        if op == 'insertelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            p.expect(',')
            it = p.type()
            return ('insertelement', res, t, v, e, p.value(it))
        if op == 'shufflevector':
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            p.expect(',')
            mt = p.type()
            m = p.value(mt)
            return ('shufflevector', res, t, a, b, mt, m)
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            ix = []
            while p.accept(','):
                if p.peek()[0] != 'num': break
                ix.append(int(p.next()[1]))
            return ('extractvalue', res, t, v, ix)
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            ix = []
            while p.accept(','):
                if p.peek()[0] != 'num': break
                ix.append(int(p.next()[1]))
            return ('insertvalue', res, t, v, e, ix)
        if op == 'fence':
            return ('nop', None)
        if op == 'atomicrmw':
            p.skip_attrs()
            aop = p.next()[1]
            pt = p.type()
            a = p.value(pt)
            p.expect(',')
            t = p.type()
            v = p.value(t)
            return ('atomicrmw', res, aop, t, a, v)
        raise IRError('op ' + op)

# ---- control flow -----------------------------------------------------
def successors(term):
    k = term[0]
    if k == 'br': return [term[2]]
    if k == 'condbr': return [term[3], term[4]]
    if k == 'switch': return [term[4]] + [b for _, b in term[5]]
    return []

def analyse(f):
    """natural loops: header -> set of blocks"""
    if 'loops' in f.info:
        return f.info['loops']
    succ = {b: successors(f.blocks[b][-1]) for b in f.order}
    pred = {b: [] for b in f.order}
    for b in f.order:
        for s in succ[b]:
            pred[s].append(b)
    # dominators (iterative)
    rpo = []
    seen = set()
    stack = [(f.entry, iter(succ[f.entry]))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            stack.pop()
            rpo.append(b)
    rpo.reverse()
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for q in pred[b]:
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        x, y = q, new
                        while x != y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if s in idom and dom(s, b):
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(pred[x])
    f.info['loops'] = loops
    f.info['succ'] = succ
    return loops
