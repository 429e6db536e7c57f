"""Algebra on normal forms: substitution, derivatives, rational simplification, and the alternatives a masked or guarded expression stands for."""
import cmath
import math
from fractions import Fraction
from functools import cmp_to_key

from . import algebra as A
from .algebra import P, Unknown, add, mul, num, power

ONE = A.ONE


def var(name):
    return ('v', name)


def rebuild(p, f, depth=0):
    """p put together again with every atom a for which f(a) is a normal form replaced by it, from the inside out"""
    if depth > 60:
        raise Unknown('depth')
    out = num(0)
    for m, c in p.d.items():
        r = num(c)
        for a, e in sorted(m, key=repr):
            r = mul(r, power(atom(a, f, depth + 1), e))
        out = add(out, r)
    return cancel(out)


def atom(a, f, depth):
    r = f(a)
    if r is not None:
        return r
    k = a[0]
    if k == 'exp':
        return A.exp(rebuild(a[1], f, depth))
    if k == 'log':
        return A.log(rebuild(a[1], f, depth))
    if k == 'poly':
        return rebuild(a[1], f, depth)
    if k == 'pow':
        b, e = rebuild(a[1], f, depth), rebuild(a[2], f, depth)
        x = e.const()
        return power(b, x) if x is not None else A.exp(mul(e, A.log(b)))
    if k == 'agg':
        return A.agg(a[1], rebuild(a[2], f, depth), a[3])
    if k == 'call':
        args = tuple(inner(x, f, depth) for x in a[2:])
        return call(a[1], args)
    if k == 'set':
        return A.atom('set', rebuild(a[1], f, depth), inner(a[2], f, depth), rebuild(a[3], f, depth))
    return A.atom(*a)


def inner(x, f, depth):
    if isinstance(x, P):
        return rebuild(x, f, depth)
    return x


INVERSE = {'np.sin': 'np.arcsin', 'np.cos': 'np.arccos', 'np.tan': 'np.arctan', 'np.sinh': 'np.arcsinh', 'np.cosh': 'np.arccosh', 'np.tanh': 'np.arctanh'}
MATH = {'math.sin': 'np.sin', 'math.asin': 'np.arcsin', 'math.cos': 'np.cos', 'math.acos': 'np.arccos', 'math.tan': 'np.tan', 'math.atan': 'np.arctan',
        'np.asin': 'np.arcsin', 'np.acos': 'np.arccos', 'np.atan': 'np.arctan'}


def call(name, args):
    name = MATH.get(name, name)
    if name in INVERSE and len(args) == 1 and isinstance(args[0], P) and len(args[0].d) == 1:
        (m, c), = args[0].d.items()
        if c == 1 and len(m) == 1:
            (a, e), = m
            if e == 1 and a[0] == 'call' and a[1] == INVERSE[name] and len(a) == 3:
                return a[2]
    return A.atom('call', name, *args)


def subst(p, a, q):
    return rebuild(p, lambda x: q if x == a else None)


# ---------------------------------------------------------------- rational simplification
def cmp_p(p, q):
    d = add(p, q, -1)
    if not d.d:
        return 0
    m = max(d.d, key=lambda m: sorted(map(repr, m)))
    return 1 if d.d[m] > 0 else -1


def cmp_mono(m, n):
    q = dict(A.monomul(m, frozenset((a, -e) for a, e in n)))
    if not q:
        return 0
    ex = [(a, e) for a, e in q.items() if a[0] == 'exp']
    rest = sorted(((repr(a), e) for a, e in q.items() if a[0] != 'exp'))
    if ex:
        # exp(s) ** e: an element of the ordered group of polynomials
        s = num(0)
        for a, e in ex:
            s = add(s, a[1], e)
        c = cmp_p(s, num(0))
        if c:
            return c
    return (1 if rest[0][1] > 0 else -1) if rest else 0


def lead(p):
    m = max(p.d, key=cmp_to_key(cmp_mono))
    return m, p.d[m]


def divide(n, d, steps=40):
    """n / d when it is a polynomial, else None"""
    q = num(0)
    dm, dc = lead(d)
    inv = frozenset((a, -e) for a, e in dm)
    for _ in range(steps):
        if not n.d:
            return q
        nm, nc = lead(n)
        t = P({A.monomul(nm, inv): nc / dc})
        q = add(q, t)
        n = add(n, mul(t, d), -1)
        if len(n.d) > 24:
            return None
    return None


def cancel(p):
    """p over one denominator, common factors taken out"""
    dens = {}
    for m in p.d:
        for a, e in m:
            if a[0] == 'poly' and e.denominator == 1 and e < 0:
                dens[a] = max(dens.get(a, 0), int(-e))
    if not dens:
        return p
    n = num(0)
    for m, c in p.d.items():
        dm = dict(m)
        r = num(c)
        for a, k in dens.items():
            e = dm.pop(a, Fraction(0))
            if e.denominator != 1:
                r = mul(r, P({frozenset([(a, e)]): Fraction(1)}))
                e = Fraction(0)
            for _ in range(int(k + e)):
                r = mul(r, a[1])
        n = add(n, mul(r, P({frozenset(dm.items()): Fraction(1)})))
    if not n.d:
        return n
    for a in list(dens):
        while dens[a] > 0:
            q = divide(n, a[1])
            if q is None:
                break
            n, dens[a] = q, dens[a] - 1
    den = num(1)
    for a, k in dens.items():
        if k:
            den = mul(den, P({frozenset([(a, Fraction(-k))]): Fraction(1)}))
    return mul(n, den)


def same(p, q):
    """whether the two are the same function"""
    d = rebuild(add(p, q, -1), lambda a: None)
    if not d.d:
        return True
    return not A.cleared(d).d


# ---------------------------------------------------------------- derivatives
def diff(p, x):
    """derivative with respect to the atom x"""
    out = num(0)
    for m, c in p.d.items():
        for a, e in m:
            if not A.mentions(a, x):
                continue
            rest = P({m - {(a, e)}: c})
            outer = mul(num(e), P({frozenset([(a, e - 1)]): Fraction(1)})) if e != 1 else num(1)
            out = add(out, mul(mul(rest, outer), datom(a, x)))
    return out


RULES = {'np.sin': lambda u: A.atom('call', 'np.cos', u), 'np.cos': lambda u: mul(num(-1), A.atom('call', 'np.sin', u)),
         'np.arcsin': lambda u: power(add(num(1), mul(u, u), -1), Fraction(-1, 2)),
         'np.arccos': lambda u: mul(num(-1), power(add(num(1), mul(u, u), -1), Fraction(-1, 2))),
         'np.arctan': lambda u: power(add(num(1), mul(u, u)), Fraction(-1)),
         'np.tan': lambda u: add(num(1), mul(A.atom('call', 'np.tan', u), A.atom('call', 'np.tan', u)))}


def datom(a, x):
    if a == x:
        return num(1)
    k = a[0]
    if k == 'exp':
        return mul(A.atom(*a), diff(a[1], x))
    if k == 'log':
        return mul(power(a[1], Fraction(-1)), diff(a[1], x))
    if k == 'poly':
        return diff(a[1], x)
    if k == 'pow':
        return diff(A.exp(mul(a[2], A.log(a[1]))), x)
    if k == 'call':
        n = MATH.get(a[1], a[1])
        if n in RULES and len(a) == 3 and isinstance(a[2], P):
            return mul(RULES[n](a[2]), diff(a[2], x))
        if n == 'D1':
            u = a[2]
            return mul(add(power(add(A.exp(u), num(1), -1), Fraction(-1)), mul(A.atom(*a), power(u, Fraction(-1))), -1), diff(u, x))
        if n == 'D2':
            u = a[2]
            return mul(add(mul(num(2), power(add(A.exp(u), num(1), -1), Fraction(-1))), mul(mul(num(2), A.atom(*a)), power(u, Fraction(-1))), -1), diff(u, x))
    if k == 'agg' and a[1] == 'sum':
        return A.agg('sum', diff(a[2], x), a[3])
    raise Unknown('derivative of ' + str(k))


# ---------------------------------------------------------------- alternatives
def find(p, test):
    """the first atom in p (innermost last) that passes"""
    if isinstance(p, P):
        for m in sorted(p.d, key=lambda m: sorted(map(repr, m))):
            for a, _ in sorted(m, key=repr):
                r = find(a, test)
                if r is not None:
                    return r
    elif isinstance(p, tuple):
        if p and isinstance(p[0], str) and test(p):
            return p
        for x in p[1:]:
            if isinstance(x, (P, tuple)):
                r = find(x, test)
                if r is not None:
                    return r
    return None


def whole(i):
    """an index that takes every element, or the elements of a mask"""
    if isinstance(i, P):
        if i.const() is not None:
            return False
        if len(i.d) == 1:
            (m, c), = i.d.items()
            if c == 1 and len(m) == 1:
                (a, e), = m
                if a[0] == 'c':
                    return a[1] in ("None", 'Ellipsis')
                if a[0] == 'call':
                    if a[1] in ('tup', 'list'):
                        return all(whole(x) for x in a[2:])
                    if a[1] == 'slice':
                        return all(whole(x) for x in a[2:])
                    return a[1] in ('lt', 'le', 'eq', 'ne', 'inv', 'not', 'and', 'or', 'np.isnan', 'np.isfinite', 'np.isinf', 'np.less', 'np.less_equal',
                                    'np.greater', 'np.greater_equal', 'np.all', 'np.any', 'np.logical_not', 'np.logical_and', 'np.logical_or', 'np.isclose')
        return False
    return False


SIGNS = ('set', 'np.where', 'np.sign', 'np.maximum', 'np.minimum', 'np.abs')


def splits(p, kinds=('set', 'np.where'), limit=64):
    """{expression: whether it only stands for elements that no assignment reaches}: what p is at single elements, masks (and what else is named in kinds) resolved"""
    todo, out = [(p, False)], {}
    while todo:
        p, base = todo.pop()
        it = find(p, lambda a: a[0] == 'call' and a[1] == 'item' and len(a) == 4 and isinstance(a[2], P) and whole(a[3]))
        if it is not None:
            todo.append((replace(p, it, it[2]), base))
            continue
        a = find(p, lambda a: a[0] in kinds or a[0] == 'call' and a[1] in kinds)
        if a is None:
            q = rebuild(p, lambda a: None)
            out[q] = base and out.get(q, True)
        elif a[0] == 'set':
            vals, x = [], a
            while True:
                if not whole(x[2]):
                    raise Unknown('index')
                vals.append(x[3])
                if not assigned(x[1]):
                    break
                x = next(iter(next(iter(x[1].d))))[0]
            todo += [(replace(p, a, v), base) for v in vals]
            todo.append((replace(p, a, x[1]), base or not all(map(constant, vals))))
        elif a[1] == 'np.where' and len(a) == 5:
            todo += [(replace(p, a, a[3]), base), (replace(p, a, a[4]), base)]
        elif a[1] == 'np.sign':
            todo += [(replace(p, a, num(1)), base), (replace(p, a, num(-1)), base)]
        elif a[1] in ('np.maximum', 'np.minimum', 'np.fmax') and len(a) == 4:
            todo += [(replace(p, a, x), base) for x in a[2:4]]
        elif a[1] == 'np.abs' and len(a) == 3:
            todo += [(replace(p, a, a[2]), base), (replace(p, a, mul(num(-1), a[2])), base)]
        else:
            raise Unknown(a[1])
        if len(todo) + len(out) > limit:
            raise Unknown('alternatives')
    return out


def assigned(p):
    """an array with parts assigned to"""
    if isinstance(p, P) and len(p.d) == 1:
        (m, c), = p.d.items()
        return c == 1 and len(m) == 1 and next(iter(m))[0][0] == 'set'
    return False


def constant(p):
    """a number, infinity or NaN"""
    return isinstance(p, P) and all(all(a[0] == 'c' for a, e in m) for m in p.d)


def replace(p, a, q):
    if not isinstance(q, P):
        raise Unknown('value')
    return subst(p, a, q)


# ---------------------------------------------------------------- evaluation of a normal form at a point
class NoValue(Exception):
    pass


def debye(n, x):
    if abs(x) < 1e-12:
        return 1.0
    k = 400
    f = lambda t: t ** n / math.expm1(t) if t else (1.0 if n == 1 else 0.0)
    h = x / k
    s = f(0.0) + f(x) + sum((4 if i % 2 else 2) * f(i * h) for i in range(1, k))
    return n / x ** n * s * h / 3


FUN = {'np.sin': math.sin, 'np.cos': math.cos, 'np.tan': math.tan, 'np.arcsin': math.asin, 'np.arccos': math.acos, 'np.arctan': math.atan,
       'np.sinh': math.sinh, 'np.cosh': math.cosh, 'np.tanh': math.tanh, 'np.arcsinh': math.asinh, 'np.arctanh': math.atanh,
       'np.abs': abs, 'np.sign': lambda x: (x > 0) - (x < 0), 'D1': lambda x: debye(1, x), 'D2': lambda x: debye(2, x),
       'np.maximum': max, 'np.minimum': min}


def value(p, env):
    """the number p stands for when its variables are as in env; NoValue when it says too little or is not defined there"""
    try:
        s = evaluate(p, env, None)
    except (ValueError, OverflowError, ZeroDivisionError, TypeError):
        raise NoValue('domain')
    return real(s)


def real(s):
    if abs(s.imag) > 1e-9 * max(1.0, abs(s)) or s != s or abs(s) == math.inf:
        raise NoValue('domain')
    return s.real


def evaluate(p, env, col):
    s = 0j
    for m, c in p.d.items():
        r = complex(float(c))
        for a, e in m:
            r *= value_atom(a, env, col) ** (int(e) if e.denominator == 1 else float(e))
        s += r
    return s


def value_atom(a, env, col):
    # the logarithm of a negative factor: the imaginary parts cancel where the whole is defined
    if a in env:
        x = env[a]
        if isinstance(x, tuple):
            if col is None:
                raise NoValue('rows')
            return complex(x[col])
        return complex(x)
    k = a[0]
    if k == 'exp':
        return cmath.exp(evaluate(a[1], env, col))
    if k == 'log':
        return cmath.log(evaluate(a[1], env, col))
    if k == 'poly':
        return evaluate(a[1], env, col)
    if k == 'pow':
        return evaluate(a[1], env, col) ** evaluate(a[2], env, col)
    if k == 'agg' and a[1] in ('sum', 'prod') and isinstance(a[3], P) and a[3].const() in (1, -1):
        xs = [evaluate(a[2], env, j) for j in range(env[None])]
        return sum(xs) if a[1] == 'sum' else math.prod(xs)
    if k == 'agg' and a[1] in ('sum', 'prod') and isinstance(a[2], P):
        # over a range of integers
        r = find(a[2], lambda b: b[0] == 'call' and b[1] in ('np.arange', 'range'))
        ends = [x.const() if isinstance(x, P) else None for x in r[2:]] if r is not None else [None]
        if None in ends or len(ends) > 3 or any(x.denominator != 1 for x in ends) or col is not None:
            raise NoValue('agg')
        xs = [evaluate(a[2], env | {r: float(j)}, None) for j in range(*map(int, ends))]
        return complex(sum(xs) if a[1] == 'sum' else math.prod(xs))
    if k == 'call' and a[1] in FUN and all(isinstance(x, P) for x in a[2:]):
        return complex(FUN[a[1]](*[real(evaluate(x, env, col)) for x in a[2:]]))
    raise NoValue(str(k))


def differ(p, q, envs):
    """the first point at which both have a value and the values differ; None when they agree at every one, NoValue when there is no point at all"""
    seen = False
    for env in envs:
        try:
            x, y = value(p, env), value(q, env)
        except NoValue:
            continue
        seen = True
        if abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)):
            return env
    if not seen:
        raise NoValue('points')
    return None
