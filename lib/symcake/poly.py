"""Multivariate integer polynomials.  Constants are plain Python ints; everything symbolic is a Poly."""

class Poly:
    __slots__ = ('t', '_k', '_s')
    def __init__(self, t):
        self.t = t
        self._k = None
        self._s = None
    # -- construction helpers
    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k
    def __hash__(self):
        return hash(self.key())
    def __eq__(self, o):
        if isinstance(o, int):
            return False if self.t else o == 0
        if not isinstance(o, Poly):
            return NotImplemented
        return self.t == o.t
    def __ne__(self, o):
        return not self == o
    def syms(self):
        if self._s is None:
            s = set()
            for m in self.t:
                s.update(m)
            self._s = frozenset(s)
        return self._s
    def __add__(self, o):
        if isinstance(o, int):
            if o == 0: return self
            t = dict(self.t)
            c = t.get((), 0) + o
            if c: t[()] = c
            else: t.pop((), None)
            return mk(t)
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        t = dict(a)
        for m, c in b.items():
            v = t.get(m, 0) + c
            if v: t[m] = v
            else: del t[m]
        return mk(t)
    __radd__ = __add__
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) - c
            if v: t[m] = v
            else: del t[m]
        return mk(t)
    def __rsub__(self, o):
        return (-self) + o
    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0: return 0
            if o == 1: return self
            return Poly({m: c * o for m, c in self.t.items()})
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                if not m1: m = m2
                elif not m2: m = m1
                else: m = tuple(sorted(m1 + m2))
                v = t.get(m, 0) + c1 * c2
                t[m] = v
        t = {m: c for m, c in t.items() if c}
        return mk(t)
    __rmul__ = __mul__
    def degree(self):
        return max(len(m) for m in self.t)
    def __repr__(self):
        return show(self)

def mk(t):
    if not t: return 0
    if len(t) == 1 and () in t: return t[()]
    return Poly(t)

NAMES = []
def reset():
    del NAMES[:]
def sym(name):
    NAMES.append(name)
    return Poly({(len(NAMES) - 1,): 1})
def symid(p):
    (m,) = p.t
    return m[0]
def is_sym(p):
    return isinstance(p, Poly) and len(p.t) == 1 and next(iter(p.t.items()))[1] == 1 and len(next(iter(p.t))) == 1

def show(p):
    if isinstance(p, int): return str(p)
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (-len(x[0]), x[0])):
        s = '*'.join(NAMES[i] for i in m)
        if not m: out.append('%+d' % c)
        elif c == 1: out.append('+' + s)
        elif c == -1: out.append('-' + s)
        else: out.append('%+d*%s' % (c, s))
    return ' '.join(out)

def syms(p):
    return p.syms() if isinstance(p, Poly) else frozenset()

def coeff_split(p, s):
    """p = c*s + r with r free of s; None if p is not linear in s"""
    if isinstance(p, int): return 0, p
    c, r = {}, {}
    for m, k in p.t.items():
        n = m.count(s)
        if n == 0: r[m] = k
        elif n == 1:
            mm = list(m)
            mm.remove(s)
            c[tuple(mm)] = k
        else: return None
    return mk(c), mk(r)

def subst(p, s, v):
    """replace symbol id s by v"""
    if isinstance(p, int) or s not in p.syms(): return p
    out = 0
    rest = {}
    byn = {}
    for m, k in p.t.items():
        n = m.count(s)
        if n == 0: rest[m] = k
        else:
            mm = tuple(x for x in m if x != s)
            d = byn.setdefault(n, {})
            d[mm] = d.get(mm, 0) + k
    out = mk(rest)
    for n, d in byn.items():
        q = mk({m: c for m, c in d.items() if c})
        for _ in range(n): q = q * v
        out = out + q
    return out

def subst_many(p, d):
    if isinstance(p, int): return p
    ss = p.syms()
    hit = [s for s in d if s in ss]
    if not hit: return p
    # simultaneous substitution
    out = 0
    for m, k in p.t.items():
        term = k
        rest = []
        for x in m:
            if x in d:
                term = term * d[x]
            else:
                rest.append(x)
        if rest:
            term = Poly({tuple(rest): 1}) * term
        out = out + term
    return out

def content_divides(p, n):
    if isinstance(p, int): return p % n == 0
    return all(c % n == 0 for c in p.t.values())

def exact_div_int(p, n):
    if isinstance(p, int): return p // n
    return mk({m: c // n for m, c in p.t.items()})

def split_int(p, n):
    """p = n*q + r, where r collects the terms whose coefficient is not divisible (r's const in [0,n))"""
    if isinstance(p, int):
        return p // n, p % n
    q, r = {}, {}
    for m, c in p.t.items():
        if m == ():
            a, b = divmod(c, n)
            if a: q[m] = a
            if b: r[m] = b
        else:
            if c % n == 0: q[m] = c // n
            else: r[m] = c
    return mk(q), mk(r)

def _order(m):
    return (len(m), m)

def divide(p, d, trunc=False):
    """multivariate division p = q*d + r by leading monomial of d; integer quotients (floor) of coefficients"""
    if isinstance(d, int):
        if isinstance(p, int):
            return p // d, p % d
        q, r = {}, {}
        for m, c in p.t.items():
            a = c // d if not trunc else (abs(c) // abs(d)) * (1 if (c > 0) == (d > 0) else -1)
            b = c - a * d
            if a: q[m] = a
            if b: r[m] = b
        return mk(q), mk(r)
    if isinstance(p, int):
        return 0, p
    lm = max(d.t, key=_order)
    lc = d.t[lm]
    q = 0
    rest = p
    out_r = 0
    steps = 0
    while not isinstance(rest, int) and steps < 200:
        steps += 1
        # pick the largest monomial of rest
        m = max(rest.t, key=_order)
        c = rest.t[m]
        dm = _mono_div(m, lm)
        a = c // lc if dm is not None else 0
        if dm is not None and a != 0:
            f = mk({dm: a})
            q = q + f
            rest = rest - f * d
            c2 = rest.t.get(m, 0) if isinstance(rest, Poly) else 0
            if c2:
                out_r = out_r + mk({m: c2})
                rest = rest - mk({m: c2})
        else:
            out_r = out_r + mk({m: c})
            rest = rest - mk({m: c})
    return q, out_r + rest

def _mono_div(m, d):
    m = list(m)
    for x in d:
        if x in m: m.remove(x)
        else: return None
    return tuple(m)

def exact_div(p, d):
    """p/d if d divides p as polynomials, else None"""
    if isinstance(d, int):
        if d == 0: return None
        return exact_div_int(p, d) if content_divides(p, d) else None
    if isinstance(p, int):
        return 0 if p == 0 else None
    q, r = divide(p, d)
    if isinstance(r, int) and r == 0:
        return q
    return None

def evaluate(p, env):
    if isinstance(p, int): return p
    s = 0
    for m, c in p.t.items():
        v = c
        for x in m: v *= env[x]
        s += v
    return s
