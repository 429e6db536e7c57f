"""Normal forms of value terms: polynomials over opaque atoms, with the laws of logarithm, exponential, sums and products.
Two terms with the same normal form denote the same real number wherever both are defined. Nothing is evaluated."""
import math
import re
from fractions import Fraction

from .values import Term

TRANSPARENT = {'np.asarray', 'np.array', 'np.reshape', 'np.ravel', 'np.squeeze', 'np.float64', 'np.float_', 'float', 'np.atleast_1d', 'np.ascontiguousarray',
               'np.copy', 'np.asfarray', 'pandas.Series', 'pandas.DataFrame', 'np.asarray_chkfinite', 'np.broadcast_to'}
LOGPAIRS = {'pdf': 'logpdf', 'cdf': 'logcdf', 'sf': 'logsf', 'pmf': 'logpmf'}
UNLOG = {v: k for k, v in LOGPAIRS.items()}
LOGFUN = {'scipy.special.gamma': 'scipy.special.gammaln', 'scipy.special.ndtr': 'scipy.special.log_ndtr',
          'scipy.special.beta': 'scipy.special.betaln'}
SAMELOG = {'scipy.special.loggamma': 'scipy.special.gammaln', 'math.lgamma': 'scipy.special.gammaln', 'math.gamma': 'scipy.special.gamma'}
UNLOGFUN = {v: k for k, v in LOGFUN.items()}
MAXTERMS = 60


class Unknown(Exception):
    pass


class P:
    """a polynomial: {monomial: coefficient}, a monomial being a frozenset of (atom, exponent)"""
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = {m: c for m, c in d.items() if c != 0}
        if len(self.d) > MAXTERMS:
            raise Unknown('size')
        self._h = None

    def __eq__(self, o):
        return isinstance(o, P) and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __repr__(self):
        def mono(m):
            return '*'.join(sorted('%s%s' % (fmt(a), '' if e == 1 else '^%s' % (e,)) for a, e in m))
        return ' + '.join(sorted(('%s*%s' % (c, mono(m))) if m and c != 1 else (mono(m) or str(c)) for m, c in self.d.items())) or '0'

    def const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if not m:
                return c
        return None


def fmt(a):
    return '%s(%s)' % (a[0], ', '.join(map(str, a[1:]))) if isinstance(a, tuple) else str(a)


ONE = frozenset()


def num(c):
    return P({ONE: Fraction(c)})


def atom(*a):
    return P({frozenset([(a, Fraction(1))]): Fraction(1)})


def add(a, b, k=1):
    d = dict(a.d)
    for m, c in b.d.items():
        d[m] = d.get(m, 0) + k * c
    return P(d)


def monomul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    exps = [(a, e) for a, e in d.items() if a[0] == 'exp' and e != 0]
    if exps and (len(exps) > 1 or exps[0][1] != 1):
        s = num(0)
        for a, e in exps:
            s = add(s, a[1], e)
            d.pop(a)
        if s.d:
            d[('exp', s)] = Fraction(1)
    return frozenset((a, e) for a, e in d.items() if e != 0)


def mul(a, b):
    d = {}
    for m, c in a.d.items():
        for n, k in b.d.items():
            x = monomul(m, n)
            d[x] = d.get(x, 0) + c * k
    return P(d)


def content(p):
    """p = (coefficient, monomial, rest) with the rest free of common factors and its leading coefficient positive and 1-normed"""
    ms = list(p.d)
    com = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for a in list(com):
            if a in dm and (dm[a] > 0) == (com[a] > 0):
                com[a] = min(com[a], dm[a], key=abs)
            else:
                com.pop(a)
    inv = frozenset((a, -e) for a, e in com.items())
    com = frozenset(com.items())
    lead = p.d[ONE] if ONE in p.d and not com else p.d[min(ms, key=lambda m: repr(sorted(map(repr, m))))]
    rest = P({monomul(m, inv): c / lead for m, c in p.d.items()})
    return lead, com, rest


def power(p, e):
    """p ** e for a rational e"""
    if not p.d:
        if e > 0:
            return p
        raise Unknown('zero')
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 or e.denominator == 1:
            return P({powmono(m, e): c ** int(e) if e.denominator == 1 else Fraction(1)})
        if c < 0:
            # a root of what must be positive as a whole
            return mul(root(-c, e), P({frozenset([(('poly', P({m: Fraction(-1)})), e)]): Fraction(1)}))
        return mul(root(c, e), P({powmono(m, e): Fraction(1)}))
    if e.denominator == 1 and 0 < e <= 3:
        r = p
        for _ in range(int(e) - 1):
            r = mul(r, p)
        return r
    lead, com, rest = content(p)
    if lead < 0 and e.denominator != 1:
        rest, lead = P({m: -c for m, c in rest.d.items()}), -lead
    r = P({powmono(com, e): Fraction(1)})
    if lead != 1:
        r = mul(r, num(lead ** int(e)) if e.denominator == 1 else root(lead, e))
    if len(rest.d) == 1:
        return mul(r, power(rest, e))
    return mul(r, P({frozenset([(('poly', rest), e)]): Fraction(1)}))


def root(c, e):
    """c ** e for a positive rational c"""
    if e.denominator == 2:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fraction(n, d) ** e.numerator)
    return num(1) if c == 1 else atom('pow', num(c), num(e))


def powmono(m, e):
    r = ONE
    for a, k in m:
        if a[0] == 'exp':
            r = monomul(r, frozenset([(('exp', mul(a[1], num(k * e))), Fraction(1))]))
        else:
            r = monomul(r, frozenset([(a, k * e)]))
    return r


def exp(p):
    """exp of a polynomial: the log atoms with rational coefficients come out as powers"""
    out, rest = num(1), {}
    for m, c in p.d.items():
        if len(m) == 1:
            (a, e), = m
            if a[0] == 'log' and e == 1:
                out = mul(out, power(a[1], c))
                continue
            if e == 1 and a[0] == 'call':
                h, _, t = a[1].rpartition('.')
                f = UNLOGFUN.get(a[1]) or (h + '.' + UNLOG[t] if t in UNLOG else None) or ('meth:' + UNLOG[t[5:]] if t[:5] == 'meth:' and t[5:] in UNLOG else None)
                if f is not None:
                    out = mul(out, power(atom('call', f, *a[2:]), c))
                    continue
            if e == 1 and c == 1 and a[0] == 'set':
                out = mul(out, atom('set', exp(a[1]), a[2], exp(a[3])))
                continue
            if a[0] == 'c' and a[1] in ('nan', 'inf', '-inf') and e == 1 and c == 1:
                out = mul(out, num(0) if a[1] == '-inf' else atom(*a))
                continue
            if a[0] == 'agg' and a[1] == 'sum' and e == 1 and c.denominator == 1 and len(a[2].d) == 1:
                (m2, c2), = a[2].d.items()
                if c2 == 1 and len(m2) == 1:
                    (a2, e2), = m2
                    if a2[0] == 'log' and e2 == 1:
                        out = mul(out, power(atom('agg', 'prod', a2[1], a[3]), c))
                        continue
        rest[m] = c
    if rest:
        out = mul(out, atom('exp', P(rest)))
    return out


def logmono(m, c):
    s = num(0)
    if c < 0:
        # the sign belongs to the factors: log(-log(u)) is a good number
        if not m:
            return atom('c', 'nan')
        s, m, c = atom('log', P({m: Fraction(-1)})), ONE, -c
    if c != 1:
        s = add(s, atom('log', num(c)))
        if c.numerator != 1 and c.denominator != 1:
            s = add(atom('log', num(c.numerator)), atom('log', num(c.denominator)), -1)
        elif c.denominator != 1:
            s = add(num(0), atom('log', num(c.denominator)), -1)
    for a, e in m:
        s = add(s, logatom(a), e)
    return s


def logatom(a):
    if a[0] == 'c':
        if a[1] in ('nan', 'inf'):
            return atom(*a)
    if a[0] == 'set':
        return atom('set', log(a[1]), a[2], log(a[3]))
    if a[0] == 'exp':
        return a[1]
    if a[0] == 'pow':
        return mul(a[2], log(a[1]))
    if a[0] == 'poly':
        return atom('log', a[1])
    if a[0] == 'agg' and a[1] == 'prod':
        return agg('sum', log(a[2]), a[3])
    if a[0] == 'call':
        f = a[1]
        if f in LOGFUN:
            return atom('call', LOGFUN[f], *a[2:])
        h, _, t = f.rpartition('.')
        if f.startswith('meth:') and f[5:] in LOGPAIRS:
            return atom('call', 'meth:' + LOGPAIRS[f[5:]], *a[2:])
        if t in LOGPAIRS:
            return atom('call', h + '.' + LOGPAIRS[t], *a[2:])
    return atom('log', P({frozenset([(a, Fraction(1))]): Fraction(1)}))


def log(p):
    if not p.d:
        return atom('c', '-inf')
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return logmono(m, c)
    lead, com, rest = content(p)
    if lead < 0:
        # the coefficient of the rest that was normed; its sign says nothing about the sign of the whole
        rest, lead = P({m: -c for m, c in rest.d.items()}), -lead
    s = logmono(com, lead)
    if len(rest.d) == 1:
        (m, c), = rest.d.items()
        return add(s, logmono(m, c))
    return add(s, atom('log', rest))


LOOP = ('x', 'each iteration')


def gen(p):
    """the element of a list built by a comprehension"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1:
            (a, e), = m
            if a[0] == 'gen' and e == 1:
                return a[1]
    return None


def agg(kind, p, ax):
    g = gen(p)
    if g is not None and ax == num(0):
        return agg(kind, g, LOOP)
    if kind == 'sum':
        s = num(0)
        for m, c in p.d.items():
            s = add(s, P({frozenset([(('agg', 'sum', P({m: Fraction(1)}), ax), Fraction(1))]): c}))
        return s
    return atom('agg', kind, p, ax)


def cid(x):
    """an argument that is not a term, without node and frame numbers"""
    if isinstance(x, tuple):
        return tuple(cid(y) for y in x if not (isinstance(y, int) and not isinstance(y, bool)) or x[0] not in ('o', 'loop', 'fn', 'it'))
    if isinstance(x, str) and x.startswith('('):
        return ID.sub('', x)
    return x


ID = re.compile(r'\d{2,}')


class Normal:
    def __init__(self, ip=None, st=None, pre=None):
        """ip, st, pre: the interpreter, the state after the call and the one before it; they tell what the objects in the terms are"""
        self.st, self.pre, self.ip = st, pre, ip
        self.gens = ip.term_shapes if ip is not None else {}
        self.recur = ip.recur if ip is not None else {}
        self.wholes = ip.wholes if ip is not None else {}
        self.selfs = {}
        self.memo = {}
        self.open = set()

    def __call__(self, t):
        if t is None:
            raise Unknown('none')
        r = self.memo.get(t.id)
        if r is None:
            if t.id in self.open:
                raise Unknown('cycle')
            try:
                r = self.norm(t)
            except Unknown as e:
                self.memo[t.id] = e
                raise
            self.memo[t.id] = r
        if isinstance(r, Unknown):
            raise r
        return r

    def arg(self, a):
        if isinstance(a, Term):
            try:
                return self(a)
            except Unknown:
                return ('opaque', a.id)
        return ('x', repr(cid(a)))

    def loop(self, t):
        """a variable changed by a loop: a sum or product over the iterations, or the recurrence as it is"""
        if t in self.selfs:
            return atom('self', self.selfs[t])
        init, back = self.recur.get(t, (None, None))
        if init is None or back is None:
            return atom('phi', t.id)
        x = ('self', len(self.selfs))
        self.selfs[t] = x[1]
        memo, self.memo = self.memo, {}
        try:
            p = self(back)
        finally:
            self.selfs.pop(t)
            self.memo = memo
        me = frozenset([(x, Fraction(1))])
        i = self(init)
        if p.d.get(me) == 1:
            r = P({m: c for m, c in p.d.items() if m != me})
            if not mentions(r, x):
                return add(i, agg('sum', r, LOOP))
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if (x, Fraction(1)) in m:
                r = P({m - {(x, Fraction(1))}: c})
                if not mentions(r, x):
                    return mul(i, agg('prod', r, LOOP))
        return atom('rec', i, p)

    def norm(self, t):
        w = self.wholes.get(t)
        if w is not None:
            t = w
        op, a = t.op, t.args
        if op == 'const':
            c = a[0]
            if isinstance(c, bool) or not isinstance(c, (int, float)):
                return atom('c', repr(c))
            if c != c or c in (float('inf'), float('-inf')):
                return atom('c', repr(float(c)))
            return num(Fraction(c).limit_denominator(10 ** 9))
        if op in ('add', 'np.add'):
            return add(self(a[0]), self(a[1]))
        if op in ('sub', 'np.subtract'):
            return add(self(a[0]), self(a[1]), -1)
        if op in ('neg', 'np.negative'):
            return mul(num(-1), self(a[0]))
        if op == 'pos':
            return self(a[0])
        if op in ('mul', 'np.multiply'):
            return mul(self(a[0]), self(a[1]))
        if op in ('div', 'np.divide', 'np.true_divide'):
            return mul(self(a[0]), power(self(a[1]), Fraction(-1)))
        if op in ('pow', 'np.power', 'math.pow'):
            b, e = self(a[0]), self(a[1])
            k = e.const()
            if k is not None and k.denominator <= 4 and abs(k) <= 12:
                return power(b, k)
            if len(b.d) == 1 and next(iter(b.d.values())) == 1:
                (m, _), = b.d.items()
                if len(m) == 1:
                    (x, n), = m
                    if x[0] == 'exp':
                        return exp(mul(mul(x[1], num(n)), e))
            return exp(mul(e, log(b)))
        if op in ('np.square',):
            return power(self(a[0]), Fraction(2))
        if op in ('np.sqrt', 'math.sqrt'):
            return power(self(a[0]), Fraction(1, 2))
        if op in ('np.reciprocal',):
            return power(self(a[0]), Fraction(-1))
        if op in ('np.exp', 'math.exp') and len(a) == 1:
            return exp(self(a[0]))
        if op in ('np.expm1', 'math.expm1') and len(a) == 1:
            return add(exp(self(a[0])), num(1), -1)
        if op in ('np.log', 'math.log') and len(a) == 1:
            return log(self(a[0]))
        if op in ('np.log1p', 'math.log1p') and len(a) == 1:
            return log(add(num(1), self(a[0])))
        if op in ('scipy.special.logsumexp',) and a:
            w, ax = None, None
            for x in a[1:]:
                if isinstance(x, Term) and x.op == 'kw':
                    if x.args[0] == 'b':
                        w = self(x.args[1])
                    elif x.args[0] == 'axis':
                        ax = self.arg(x.args[1])
                    else:
                        raise Unknown('logsumexp')
                else:
                    ax = self.arg(x)
            p = self(a[0])
            g = gen(p)
            if g is not None and ax == num(0) and w is None:
                return log(agg('sum', exp(g), LOOP))
            e = exp(p)
            return log(agg('sum', e if w is None else mul(w, e), ax))
        if op in ('np.sum', 'np.prod') and a:
            ax = None
            for x in a[1:]:
                if isinstance(x, Term) and x.op == 'kw':
                    if x.args[0] != 'axis':
                        raise Unknown(op)
                    x = x.args[1]
                ax = self.arg(x)
            return agg(op[3:], self(a[0]), ax)
        if op in TRANSPARENT and a and isinstance(a[0], Term):
            return self(a[0])
        if op == 'np.repeat' and len(a) == 2 and isinstance(a[0], Term) and a[0].op == 'const':
            return self(a[0])
        if op == 'np.full' and len(a) >= 2:
            return self(a[1])
        if op in ('np.ones', 'np.ones_like'):
            return num(1)
        if op in ('np.zeros', 'np.zeros_like'):
            return num(0)
        if op == 'setitem' and len(a) == 3:
            return atom('set', self(a[0]), self.arg(a[1]), self(a[2]))
        if op in SAMELOG:
            op = SAMELOG[op]
        if op == 'stack':
            return atom('gen', self(a[0]))
        if op == 'ref' and a[0] in self.gens:
            return atom('gen', self(self.gens[a[0]]))
        if op == 'ref':
            if self.pre is not None and a[0] in self.pre.heap:
                return atom('obj', repr(cid(a[0])))
            o = self.ip.obj(self.st, a[0]) if self.st is not None else None
            if o is not None and o.kind == 'list' and o.elts is not None and not o.summary:
                return atom('call', 'list', *[self.arg(v.term()) if v.term() is not None else ('opaque', id(v)) for v in o.elts])
            return atom('ref', t.id)
        if op == 'it':
            return atom('it', a[1])
        if op == 'phi':
            return self.loop(t)
        if op == 'res':
            # what the function's own log flag does is a property of that function
            for x in a:
                if isinstance(x, Term) and x.op == 'kw' and x.args[0] == 'log':
                    f = x.args[1]
                    if not isinstance(f, Term) or f.op != 'const' or f.args[0] not in (True, False):
                        return atom('reslog', t.id)
                    b = atom('call', op, *[self.arg(y) for y in a if y is not x])
                    return log(b) if f.args[0] else b
        if op in ('p', 'sym'):
            return atom('v', repr(cid(a[0])))
        return atom('call', op, *[self.arg(x) for x in a])


def cleared(p):
    """p with its polynomial denominators multiplied out: zero exactly if p is zero"""
    for _ in range(6):
        den = {}
        for m in p.d:
            for a, e in m:
                if a[0] == 'poly' and e < 0 and e.denominator == 1:
                    den[a] = min(den.get(a, 0), e)
        num_ = {a for m in p.d for a, e in m if a[0] == 'poly' and e > 0 and e.denominator == 1}
        if not den and not num_:
            return p
        out = num(0)
        for m, c in p.d.items():
            dm = dict(m)
            r = num(c)
            for a in set(den) | (num_ & set(dm)):
                k = dm.pop(a, Fraction(0)) - den.get(a, 0)
                if k > 6:
                    raise Unknown('power')
                if k.denominator != 1:
                    r = mul(r, P({frozenset([(a, k)]): Fraction(1)}))
                    continue
                for _i in range(int(k)):
                    r = mul(r, a[1])
            out = add(out, mul(r, P({frozenset(dm.items()): Fraction(1)})))
        p = out
    return p


def atoms_of(p, out=None):
    out = set() if out is None else out
    for m in p.d:
        for a, _ in m:
            walk(a, out)
    return out


def opaque_in(p, names, out=None):
    """the atoms of these kinds in a normal form"""
    out = set() if out is None else out
    if isinstance(p, P):
        for m in p.d:
            for a, _ in m:
                opaque_in(a, names, out)
    elif isinstance(p, tuple):
        if p and p[0] in names:
            out.add(p)
        for x in p[1:]:
            opaque_in(x, names, out)
    return out


def walk(a, out):
    if isinstance(a, P):
        atoms_of(a, out)
    elif isinstance(a, tuple):
        out.add(a[0] if a[0] not in ('call',) else a[1])
        for x in a[1:]:
            if isinstance(x, (P, tuple)):
                walk(x, out)


def mentions(p, x):
    if isinstance(p, P):
        return any(mentions(a, x) for m in p.d for a, _ in m)
    if isinstance(p, tuple):
        return p == x or any(mentions(y, x) for y in p[1:])
    return False


# functions that no identity of the ones above relates to each other: a result that uses one where the other does not is a different result
PAIRED = set(LOGPAIRS) | set(UNLOG)
APART = {'np.mean', 'np.max', 'np.min', 'np.median', 'np.std', 'np.var', 'scipy.special.gamma', 'scipy.special.gammaln', 'scipy.special.digamma', 'np.sin', 'np.cos', 'np.arctan', 'np.log', 'np.exp'}


def calls_in(p, out=None):
    """the names of the functions a normal form is built with"""
    out = set() if out is None else out
    if isinstance(p, P):
        for m in p.d:
            for a, _ in m:
                calls_in(a, out)
    elif isinstance(p, tuple):
        if p and p[0] == 'call':
            out.add(p[1])
        elif p and p[0] in ('set', 'rec'):
            out.add(p[0])
        elif p and p[0] == 'agg' and len(p) == 4 and p[3] not in (None, LOOP) and not (isinstance(p[3], P) and p[3].const() is not None and p[3].const() >= 0):
            out.add('axis')
        for x in p[1:]:
            calls_in(x, out)
    return out


def comparable(p, q):
    """whether a difference of these normal forms is one of the numbers: nothing on one side only that could be another way to write what is on the other"""
    return not any(n not in APART and re.split('[.:]', n)[-1] not in PAIRED for n in calls_in(p) ^ calls_in(q))


def blind(p):
    """p with sum(m) read as m times a mark: what does not vary along the axis may stand inside or outside"""
    out = num(0)
    for m, c in p.d.items():
        r = num(c)
        for a, e in m:
            if a[0] == 'agg' and a[1] == 'sum' and e == 1:
                r = mul(r, mul(blind(a[2]), atom('mark')))
            else:
                r = mul(r, P({frozenset([(a, e)]): Fraction(1)}))
        out = add(out, r)
    return out


def verdict(l, f, opaque):
    """of two normal forms that differ: 'no' if the numbers differ, '?' if that is not known"""
    try:
        if opaque_in(l, opaque) != opaque_in(f, opaque) or not comparable(l, f) or blind(l) == blind(f):
            return '?'
    except Unknown:
        return '?'
    return 'no'
