"""Interval classes of numbers: what is assumed about the elements of some symbolic arguments, and what conditions follow from it.
A value is described by classes (lo, lo_strict, hi, hi_strict); every class of an array is attained by at least one of its elements."""
from .values import Term

INF = float('inf')
TRANSPARENT = {'np.asarray', 'np.array', 'np.reshape', 'np.ravel', 'np.squeeze', 'np.float64', 'np.float_', 'float', 'np.atleast_1d', 'np.atleast_2d',
               'np.ascontiguousarray', 'np.copy', 'np.asfarray', 'np.asarray_chkfinite', 'builtins.float', 'pandas.DataFrame', 'pandas.Series', 'np.transpose',
               'builtins.list', 'builtins.tuple', 'np.asanyarray'}
NAN = ('nan',)


def point(c):
    return NAN if c != c else (c, False, c, False)


def between(lo, hi, ls=False, hs=False):
    return (lo, ls, hi, hs)


class D:
    """kind 'num' or 'bool'; xs: the classes; how: 's' one number, 'a' array whose classes all occur, 'c' some number of one of the classes;
    base: what the classes are classes of"""
    __slots__ = ('kind', 'xs', 'how', 'base')

    def __init__(self, kind, xs, how, base=None):
        self.kind, self.xs, self.how, self.base = kind, tuple(xs), how, base


def lt(a, b):
    if a == NAN or b == NAN:
        return False
    if a[2] < b[0] or (a[2] == b[0] and (a[3] or b[1])):
        return True
    if a[0] >= b[2]:
        return False
    return None


def le(a, b):
    if a == NAN or b == NAN:
        return False
    if a[2] <= b[0]:
        return True
    if a[0] > b[2] or (a[0] == b[2] and (a[1] or b[3])):
        return False
    return None


def eq(a, b):
    if a == NAN or b == NAN:
        return False
    if a[0] == a[2] == b[0] == b[2]:
        return True
    if lt(a, b) or lt(b, a):
        return False
    return None


def no(r):
    return None if r is None else not r


CMP = {'lt': lt, 'le': le, 'eq': eq, 'ne': lambda a, b: no(eq(a, b)), 'gt': lambda a, b: lt(b, a), 'ge': lambda a, b: le(b, a),
       'np.less': lt, 'np.less_equal': le, 'np.equal': eq, 'np.not_equal': lambda a, b: no(eq(a, b)),
       'np.greater': lambda a, b: lt(b, a), 'np.greater_equal': lambda a, b: le(b, a)}


def band(a, b):
    return False if a is False or b is False else (True if a and b else None)


def bor(a, b):
    return True if a is True or b is True else (False if a is False and b is False else None)


def bxor(a, b):
    return None if a is None or b is None else a != b


def iadd(a, b):
    if NAN in (a, b):
        return NAN
    return (a[0] + b[0], a[1] or b[1], a[2] + b[2], a[3] or b[3])


def ineg(a):
    return NAN if a == NAN else (-a[2], a[3], -a[0], a[1])


def iabs(a):
    if a == NAN:
        return a
    if a[0] >= 0:
        return a
    if a[2] <= 0:
        return ineg(a)
    n = ineg(a)
    hi, hs = max((a[2], not a[3]), (n[2], not n[3]))
    return (0, False, hi, not hs)


def imul(a, b):
    if NAN in (a, b):
        return NAN
    for x, y in ((a, b), (b, a)):
        if x[0] == x[2] and x[0] not in (INF, -INF):
            c = x[0]
            if c == 0:
                return None if y[0] == -INF or y[2] == INF else point(0)
            if c > 0:
                return (y[0] * c, y[1], y[2] * c, y[3])
            return (y[2] * c, y[3], y[0] * c, y[1])
    return None


BIN = {'add': iadd, 'np.add': iadd, 'sub': lambda a, b: iadd(a, ineg(b)), 'np.subtract': lambda a, b: iadd(a, ineg(b)), 'mul': imul, 'np.multiply': imul,
       'div': lambda a, b: imul(a, point(1 / b[0])) if b != NAN and b[0] == b[2] and b[0] not in (0, INF, -INF) else None}
LOG = {'and': band, 'or': bor, 'xor': bxor, 'np.logical_and': band, 'np.logical_or': bor, 'np.bitwise_and': band, 'np.bitwise_or': bor, 'bitand': band,
       'bitor': bor, 'bool_and': band, 'bool_or': bor}


def isfinite(a):
    if a == NAN:
        return False
    if (a[0] > -INF or a[1]) and (a[2] < INF or a[3]):
        return True
    return False if a[0] == a[2] else None


UN = {'neg': ('num', ineg), 'np.negative': ('num', ineg), 'pos': ('num', lambda a: a), 'np.abs': ('num', iabs), 'np.absolute': ('num', iabs), 'np.fabs': ('num', iabs),
      'builtins.abs': ('num', iabs), 'abs': ('num', iabs), 'np.isnan': ('bool', lambda a: a == NAN), 'math.isnan': ('bool', lambda a: a == NAN),
      'np.isfinite': ('bool', isfinite), 'math.isfinite': ('bool', isfinite), 'pandas.isna': ('bool', lambda a: a == NAN),
      'np.isinf': ('bool', lambda a: False if a == NAN else no(isfinite(a))), 'np.square': ('num', lambda a: None)}
NOT = {'inv', 'np.logical_not', 'np.invert', 'not', 'np.bitwise_not'}
ANY = {'np.any', 'builtins.any', 'np.sometrue'}
ALL = {'np.all', 'builtins.all', 'np.alltrue'}
MAX = {'np.max': 1, 'np.amax': 1, 'builtins.max': 1, 'np.nanmax': 1, 'np.min': -1, 'np.amin': -1, 'builtins.min': -1, 'np.nanmin': -1}


class Domain(dict):
    """{term of an argument: D}"""

    def __init__(self):
        self.memo = {}
        self.both = set()
        self.sizes = {}

    def assume(self, term, xs, how, size=None):
        self.sizes[term] = size
        self[term] = D('num', xs, how, term)
        self.memo.clear()

    def truth(self, t):
        """True, False or None; terms that can be shown to be either way for the same argument are kept in `both`"""
        d = self.of(t)
        if d is None:
            return None
        xs = set(d.xs)
        if d.how == 'a':
            return None
        if d.kind == 'num':
            xs = {no(eq(x, point(0))) if x != NAN else True for x in xs}
        if xs == {True}:
            return True
        if xs == {False}:
            return False
        if xs == {True, False}:
            self.both.add(t)
        return None

    def of(self, t):
        if not isinstance(t, Term):
            return None
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self.get(t) or self.build(t)
        return self.memo[t]

    def build(self, t):
        op, a = t.op, t.args
        if op == 'const':
            c = a[0]
            if isinstance(c, bool):
                return D('bool', [c], 's')
            if isinstance(c, (int, float)):
                return D('num', [point(c)], 's')
            return None
        if op == 'attr' and len(a) == 2 and isinstance(a[0], Term) and a[0].op == 'np.finfo' and str(a[1]).strip("'") in ('eps', 'tiny'):
            return D('num', [point(2.220446049250313e-16 if 'eps' in str(a[1]) else 2.2250738585072014e-308)], 's')
        if op in TRANSPARENT and a:
            return self.of(a[0])
        if op == 'astype':
            return self.of(a[0])
        if op == 'np.repeat' and len(a) >= 1 or op in ('np.full', 'np.full_like') and len(a) >= 2:
            d = self.of(a[0] if op == 'np.repeat' else a[1])
            return D(d.kind, d.xs, 'a', t) if d is not None and d.how == 's' and len(d.xs) == 1 else None
        if op in ('np.ones', 'np.zeros', 'np.ones_like', 'np.zeros_like'):
            return D('num', [point(1 if 'ones' in op else 0)], 'a', t)
        if op in UN and len(a) == 1:
            d = self.of(a[0])
            if d is None or d.kind != 'num':
                return None
            xs = [UN[op][1](x) for x in d.xs]
            return None if UN[op][0] == 'num' and None in xs else D(UN[op][0], xs, d.how, d.base)
        if op in NOT and len(a) == 1:
            d = self.of(a[0])
            if d is None or d.kind != 'bool':
                return None
            return D('bool', [no(x) for x in d.xs], d.how, d.base)
        f, kind, want = (CMP.get(op), 'bool', 'num') if op in CMP else ((BIN.get(op), 'num', 'num') if op in BIN else (LOG.get(op), 'bool', 'bool'))
        if f is not None and len(a) >= 2:
            ds = [self.of(x) for x in a]
            if any(d is not None and d.kind != want for d in ds):
                return None
            if want == 'bool' and len([d for d in ds if d is None]) < len(ds):
                # a known operand may decide the whole
                for d in ds:
                    if d is not None and d.how == 's' and len(d.xs) == 1 and d.xs[0] is not None and f(d.xs[0], None) is not None:
                        return D('bool', [f(d.xs[0], None)], 's')
            if any(d is None for d in ds):
                return None
            r = ds[0]
            for d in ds[1:]:
                r = self.pair(f, kind, r, d)
                if r is None:
                    return None
            return r
        if (op in ANY or op in ALL or op in MAX) and len(a) >= 1:
            d = self.of(a[0])
            if d is None:
                return None
            if any(isinstance(x, Term) for x in a[1:]):
                return None if len(d.xs) > 1 or d.how != 'a' else D(d.kind, d.xs, 'a', t)
            if op in MAX:
                if d.kind != 'num' or NAN in d.xs:
                    return None
                if d.how != 'a':
                    return d
                xs = d.xs if MAX[op] == 1 else [ineg(x) for x in d.xs]
                lo = max((x[0], x[1]) for x in xs)
                hi, hk = max((x[2], not x[3]) for x in xs)
                m = (lo[0], lo[1], hi, not hk)
                return D('num', [m if MAX[op] == 1 else ineg(m)], 's')
            xs = d.xs
            if d.kind == 'num':
                xs = [no(eq(x, point(0))) if x != NAN else True for x in xs]
            if d.how != 'a':
                return D('bool', xs, d.how, d.base)
            g = bor if op in ANY else band
            r = xs[0]
            for x in xs[1:]:
                r = g(r, x)
            return D('bool', [r], 's')
        if op in ('np.sum', 'builtins.sum', 'math.fsum') and len(a) == 1:
            d = self.of(a[0])
            if d is None or d.kind != 'num' or d.how != 'a' or NAN in d.xs or any(x[0] != x[2] for x in d.xs):
                return None
            n = self.sizes.get(d.base)
            if n is None or len(d.xs) not in (1, n):
                return None
            return D('num', [point(sum(x[0] for x in d.xs) * (n // len(d.xs)))], 's')
        if op in ('np.isclose', 'math.isclose', 'np.allclose') and len(a) == 2:
            ds = [self.of(x) for x in a]
            if all(d is not None and d.kind == 'num' and d.how == 's' and len(d.xs) == 1 and d.xs[0] != NAN and d.xs[0][0] == d.xs[0][2] for d in ds):
                x, y = ds[0].xs[0][0], ds[1].xs[0][0]
                return D('bool', [abs(x - y) <= 1e-8 + 1e-5 * abs(y)], 's')
        if op == 'np.allclose' and len(a) >= 2 and isinstance(a[1], Term) and a[1].op == 'np.transpose' and a[1].args[0] is a[0]:
            return D('bool', [True], 's')  # the matrices considered are symmetric
        if op == 'item' and len(a) == 2:
            return self.item(t, a[0], a[1])
        if op == 'setitem' and len(a) == 3:
            return None
        return None

    def pair(self, f, kind, x, y):
        if x.how == 's' and len(x.xs) == 1:
            xs = [f(x.xs[0], v) for v in y.xs]
            how, base = y.how, y.base
        elif y.how == 's' and len(y.xs) == 1:
            xs = [f(v, y.xs[0]) for v in x.xs]
            how, base = x.how, x.base
        elif y.how == 'a' and len(y.xs) == 1:
            xs = [f(v, y.xs[0]) for v in x.xs]
            how, base = x.how, x.base
        elif x.how == 'a' and len(x.xs) == 1:
            xs = [f(x.xs[0], v) for v in y.xs]
            how, base = y.how, y.base
        elif x.base is not None and x.base is y.base and len(x.xs) == len(y.xs) and x.how == y.how:
            xs = [f(v, w) for v, w in zip(x.xs, y.xs)]
            how, base = x.how, x.base
        else:
            return None
        return None if kind == 'num' and None in xs else D(kind, xs, how, base)

    def item(self, t, b, i):
        lo = None
        if isinstance(i, Term) and i.op == 'slice' and all(isinstance(x, Term) and x.op == 'const' for x in i.args):
            lo, hi, step = (list(x.args[0] for x in i.args) + [None, None, None])[:3]
            if hi is None and step is None and (lo is None or isinstance(lo, int) and lo >= 0):
                lo = lo or 0
            else:
                return None
            if b.op in BIN and len(b.args) == 2:
                x, y = b.args
                if x.op == 'const' or y.op == 'const':
                    d, e = (self.of(x) if x.op == 'const' else self.item(t, x, i)), (self.of(y) if y.op == 'const' else self.item(t, y, i))
                    return self.pair(BIN[b.op], 'num', d, e) if d is not None and e is not None else None
            if b.op == 'setitem' and b.args[1].op == 'const' and isinstance(b.args[1].args[0], int) and 0 <= b.args[1].args[0] < lo:
                return self.item(t, b.args[0], i)
            d = self.of(b)
            if d is None:
                return None
            return d if lo == 0 or len(d.xs) == 1 else D(d.kind, d.xs, 'c', d.base)
        d = self.of(b)
        if d is None:
            return None
        return D(d.kind, d.xs, 'c' if len(d.xs) > 1 else 's', t) if isinstance(i, Term) and i.op == 'const' and isinstance(i.args[0], int) else None
