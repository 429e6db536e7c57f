"""P12: log=True is the logarithm of log=False, and log_lik the sum of the log density."""
from ..check import *
from ..values import Term
from ..surface import FCall
from .. import algebra as A
from .p11 import CHECK as P11

OPAQUE = {'opaque', 'phi', 'ref', 'reslog'}
OUTSIDE = [A.atom('c', '-inf'), A.atom('c', 'nan')]  # what log_lik returns where there is no density


class CHECK(Rule):
    """Every query and function that takes a log flag is interpreted with True and with False on the same symbolic arguments; the results of all
    branches are reduced to normal forms (polynomials over atoms; laws of log, exp, powers, sums and products) and every branch of one form must be the
    logarithm of some branch of the other. log_lik is compared with the sum of the log density in the same way."""
    pid = 'P12'
    dims = (2, 3)
    walks = ('copulas', 'functions')
    MIN = {'pairs': 40, 'decided': 25}
    FIXTURE = {'__init__.py': '''
import numpy as np


def good_split(x, y, log=False):
    if log:
        return np.log(x) + 2 * np.log1p(y)
    return x * (1 + y) ** 2


def good_mask(x, y, log=False):
    r = np.repeat(np.nan, len(x))
    m = x > y
    r[m] = 0 if log else 1
    return r


def good_exp(x, y, log=False):
    a = y * np.log(x) - (1 + y) * x
    return a if log else np.exp(a)


def good_sums(x, y, log=False):
    return np.log(x).sum(1) if log else x.prod(1)


def bad_same(x, y, log=False):
    if y == 0:
        return x
    return np.log(x * y) if log else x * y


def bad_factor(x, y, log=False):
    if log:
        return np.log(x) + np.log1p(y)
    return x * (1 + y) ** 2


def bad_const(x, y, log=False):
    r = np.repeat(np.nan, len(x))
    m = x > y
    r[m] = 1
    a = np.log(x)
    if y > 3:
        return r
    return a if log else np.exp(a)


def bad_mix(x, y, log=False):
    return y * np.log(x) + np.log(y) if log else x * y + y
'''}

    def walk_copula(self, S, name, dim):
        for inst in new(S, name, dim):
            calls = query_calls(S, inst, inst.st, full=True)
            self.pairs(S, calls)
            self.loglik(S, [c for c in calls if c.name == 'log_lik'])

    def do_func(self, c):
        if c.kw.get('log') is not None and c.kw['log'].const() == (True, True):
            self.pair(c)

    def run_fixture(self, S):
        for n, v in sorted(S.public('copulae').items()):
            if n.startswith(('bad_', 'good_')):
                for c in func_calls(S, 'copulae', n, v):
                    self.do_func(c)

    def custom_units(self, tier):
        return ['internal']

    def custom(self, S, unit):
        """functions with a log flag that are not public themselves: densities behind public ones"""
        seen = {f.node for c in all_func_calls(S, full=False) for f in underlying(c.fv)}
        for m in sorted(S.p.modules):
            if '.tests' in m or not m.startswith('copulae'):
                continue
            for node in S.p.modules[m].tree.body:
                if not isinstance(node, ast.FunctionDef) or node in seen or node.name.startswith('__'):
                    continue
                a = node.args
                names = [p.arg for p in a.args]
                fv = S.ip.base_frames.get(('mod', m), {}).get(node.name)
                free = names[:len(names) - len(a.defaults)]
                if 'log' not in names or a.vararg or a.kwarg or fv is None:
                    continue
                if not all(n in ('x', 'alpha', 'beta', 'gamma', 'delta', 'u', 'theta') for n in free):
                    continue
                args = [S.num('%s.%s' % (node.name, n)) for n in free]
                self.count['internal'] += 1
                self.pair(FCall(S, m, node.name, fv, 'log=True', args, {'log': const(True)}, S.state()))

    def pairs(self, S, calls):
        for c in calls:
            if c.kw.get('log') is not None and c.kw['log'].const() == (True, True):
                self.pair(c)

    def pair(self, c):
        old = c.kw
        k = self.do(c, 'query')
        c.kw = dict(old, log=const(False))
        o = self.do(c, 'query')
        c.kw = old
        if k.value is None or o.value is None or k.budget or o.budget:
            return
        self.count['pairs'] += 1
        ls = self.forms(A.Normal(self.ip, k.st, c.pre), k.value)
        es = self.forms(A.Normal(self.ip, o.st, c.pre), o.value)
        signs = (1, -1) if c.name == 'dipsi' else (1,)

        def rel(l, e):
            r = None
            for s in signs:
                d = self.diff(l, lambda: A.log(A.mul(A.num(s), e)))
                if d is None:
                    return 'ok'
                r = d if r is None or r == 'no' else r
            return r
        self.match(c, ls, es, rel, 'log flag of ' + c.name, 'with log=True it returns %s where log=False returns %s')

    def loglik(self, S, calls):
        for c in calls:
            if c.kw.get('to_pobs') is None or c.kw['to_pobs'].const() != (True, False) or len(c.args) != 1:
                continue
            k = self.do(c, 'query')
            p = Call(S, c.inst, 'pdf', 'log=False', 'call', list(c.args), {'log': const(False)}, c.pre)
            o = self.do(p, 'query')
            if k.value is None or o.value is None or k.budget or o.budget:
                continue
            self.count['pairs'] += 1

            def rel(l, e):
                if l in OUTSIDE:
                    return 'ok'
                d = self.diff(l, lambda: A.agg('sum', A.log(e), None))
                return 'ok' if d is None or self.diff(l, lambda: A.log(e)) is None else d
            self.match(c, self.forms(A.Normal(self.ip, k.st, c.pre), k.value), self.forms(A.Normal(self.ip, o.st, c.pre), o.value), rel, 'log_lik against pdf', 'it returns %s where pdf returns %s')

    def forms(self, nf, v):
        """normal forms of the alternatives of a result; None for an unknown one"""
        out = {}
        for a, t in v.alts:
            if isinstance(a, (Arr, Num, Const)):
                try:
                    out[nf(t)] = 1
                except A.Unknown:
                    out[None] = 1
            else:
                out[None] = 1
        return list(out)

    def diff(self, l, f):
        """None: equal; 'no': different; '?': cannot tell. Compared as they are, and as exponentials with the denominators multiplied out"""
        try:
            f = f()
            d = A.add(l, f, -1)
            if not d.d or not A.cleared(A.add(A.exp(l), A.exp(f), -1)).d:
                return None
        except A.Unknown:
            return '?'
        return A.verdict(l, f, OPAQUE)

    def match(self, c, ls, es, rel, construct, msg):
        if None in ls or None in es:
            self.count['unknown'] += 1
        L, E = [x for x in ls if x is not None], [x for x in es if x is not None]
        m = {(l, e): rel(l, e) for l in L for e in E}
        fl = [l for l in L if not any(m[l, e] == 'ok' for e in E)]
        fe = [e for e in E if not any(m[l, e] == 'ok' for l in L)]
        self.count['decided'] += len(L) - len(fl)
        for l in fl:
            if None in es or not E:
                continue
            cand = fe or E
            if all(m[l, e] == 'no' for e in cand):
                self.flag(c, construct, msg % (self.cut(l), self.cut(cand[0])))
                return
        for e in fe:
            if None in ls or not L:
                continue
            cand = fl or L
            if all(m[l, e] == 'no' for l in cand):
                self.flag(c, construct, msg % (self.cut(cand[0]), self.cut(e)))
                return

    def cut(self, p):
        s = str(p)
        return s if len(s) < 160 else s[:150] + ' ...'

    def flag(self, c, construct, msg):
        fn = P11.entry_fn(self, c)
        if fn is None:
            self.report_at('?', 0, c.name, construct, msg)
        else:
            self.report_at(self.S.p.modules[fn.mod].rel, fn.node.lineno, (fn.owner.name + '.' if fn.owner is not None else '') + fn.name, construct, msg)
