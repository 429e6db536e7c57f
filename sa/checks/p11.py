"""P11: queries produce a value or raise, never a placeholder."""
from ..check import *


def sentinel(v):
    return any(isinstance(a, Ext) and a.name in ('builtins.NotImplemented', 'builtins.NotImplementedError', 'builtins.Ellipsis') for a in v.atoms())


class CHECK(Rule):
    """Return-value analysis over every abstract path: no function of the package returns the NotImplemented sentinel (or an exception
    class) instead of raising, none returns a value on some paths and falls off its end (None) on others, and no public query, property or function
    documented to return something ends without returning it.  The bounds of MarginalCopula and GaussianMixtureCopula, documented as not meaningful, are exempt, as are Python's
    binary special methods."""
    pid = 'P11'
    dims = (2, 3)
    MIN = {'returns': 3000}

    FIXTURE = '''
import numpy as np

def bad_sentinel(x):
    return NotImplemented

def bad_class(x, flag=True):
    if flag:
        return NotImplementedError
    return np.asarray(x)

def bad_fall(x, method='a'):
    if method == 'a':
        return np.asarray(x)

def bad_nothing(x):
    """
    Returns
    -------
    ndarray
    """
    np.asarray(x)

def good_raise(x):
    raise NotImplementedError

def good_none(x, flag=True):
    if flag:
        return None
    return np.asarray(x)

def good_all(x, method='a'):
    if method == 'a':
        return 1
    elif method == 'b':
        return 2
    raise ValueError
'''

    ends = {}

    def exempt(self, fn):
        n = fn.name or ''
        if n.startswith('__') and n.endswith('__') and n not in ('__str__', '__repr__', '__getitem__', '__len__', '__iter__', '__call__'):
            return True
        return n == 'bounds' and fn.owner is not None and fn.owner.name in ('MarginalCopula', 'GaussianMixtureCopula')

    def on_leave(self, fn, rets, cx, node, **k):
        self.count['returns'] += len(rets)
        if rets and all(n is None for _, _, n in rets) and isinstance(fn.node, ast.FunctionDef) and not is_gen(fn.node):
            self.ends[id(fn.node)] = cx
        if self.phase is None or fn.name == 'warn_no_convergence':
            return
        ex = self.exempt(fn)
        val = False
        for v, _, n in rets:
            if n is None or isinstance(n, (ast.FunctionDef,)):
                continue
            if not ex and sentinel(v):
                self.report(n, cx, 'placeholder', 'returns a placeholder instead of raising [%s]' % src(n))
            if not (v.const()[0] and v.const()[1] is None):
                val = True
        if val and not ex and isinstance(fn.node, ast.FunctionDef) and any(n is None for _, _, n in rets) and not is_gen(fn.node):
            self.report(fn.node, cx, 'falls off the end', 'returns a value on some paths and nothing on others')

    def pre_call(self, c):
        self.ends = {}

    def post_call(self, c):
        if c.out.value is None or self.phase not in ('query', 'function'):
            return
        if getattr(c, 'inst', None) is not None and c.kind not in ('call', 'prop'):
            return
        if not any(isinstance(a, Const) and a.v is None for a in c.out.value.atoms()):
            return
        fn = self.entry_fn(c)
        if fn is not None and id(fn.node) in self.ends:
            cx = self.ends[id(fn.node)]
            if getattr(c, 'inst', None) is None and 'Returns' not in (ast.get_docstring(fn.node) or ''):
                return
            self.report(fn.node, cx, 'returns nothing', 'the public call ends without returning a value')

    def entry_fn(self, c):
        fv = getattr(c, 'fv', None)
        if fv is None and getattr(c, 'inst', None) is not None:
            fv = self.ip.lookup_cls(c.inst.cls, c.name, c.pre)
        a = fv.single() if fv is not None else None
        for _ in range(10):
            if isinstance(a, Fn):
                return a
            if isinstance(a, Wrapt):
                a = a.wrapped.single() if a.wrapped is not None else None
            elif isinstance(a, Desc):
                a = a.get.single() if a.get is not None else None
            elif isinstance(a, Bound):
                a = a.fn
            else:
                return None


def is_gen(n):
    for x in ast.walk(n):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False
