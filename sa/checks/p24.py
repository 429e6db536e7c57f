"""P24: shapes - one value per observation, one column per dimension."""
from ..check import *
from ..values import Term, show_term
from .p11 import CHECK as P11

SAME = {'psi', 'ipsi', 'dipsi', 'itau', 'irho', 'A', 'pobs', 'to_marginals', 'drho', 'dtau'}
ARCHI = ('ClaytonCopula', 'FrankCopula', 'GumbelCopula')
ELLIP = ('GaussianCopula', 'StudentCopula')
FSAME = {'sinpi', 'sinpi2', 'cospi', 'cospi2', 'tanpi', 'tanpi2', 'log1mexp', 'log1pexp', 'debye_1', 'debye_2', 'clausen', 'dilog', 'poly_log',
         'pseudo_obs', 'rank_data', 'cov2corr', 'corr2cov', 'near_psd', 'comb', 'perm', 'skew_stable.pdf', 'skew_stable.logpdf'}
CORR = {'corr', 'pearson_rho', 'kendall_tau', 'spearman_rho'}
SYM = 'sym'


def base(t):
    """a dimension that is the size of an argument, as opposed to a computed one"""
    return isinstance(t, Term) and t.op in ('p', 'sym')


def sizes(st, vals):
    """the terms that stand for the size of an argument of this call"""
    out = set()
    for v in vals:
        for a in v.atoms():
            if isinstance(a, Arr) and a.shape is not None:
                out |= {d for d in a.shape if base(d)}
            elif isinstance(a, Num):
                t = v.term()
                if base(t):
                    out.add(t)
    return out


def clash(a, b, own):
    """two dimensions that differ for some input"""
    if a is None or b is None or a == b:
        return False
    fa, fb = isinstance(a, int) or a in own, isinstance(b, int) or b in own
    return fa and fb


class CHECK(Rule):
    """Symbolic array shapes (rank, and each dimension as an integer or as the size of an argument) are inferred for the result of every query and every
    numeric function.  A result alternative whose shape is known and cannot be the documented one, or a result that is a single number on every path
    where one value per observation is due, is reported; alternatives of unknown shape are not."""
    pid = 'P24'
    dims = (2, 3)
    walks = ('copulas', 'functions')
    MIN = {'shapes': 800, 'decided': 900}
    FIXTURE = None

    def post_call(self, c):
        if self.phase not in ('query', 'function') or c.out.budget or c.out.value is None or getattr(c, 'kind', None) == 'set':
            return
        e = self.expected(c)
        if e is None:
            return
        exp, many = e
        own = sizes(c.pre, list(c.args) + list(c.kw.values()))
        self.count['shapes'] += 1
        arr = False
        for a in c.out.value.atoms():
            if isinstance(a, Arr):
                if a.shape is None:
                    arr = True
                    self.count['unknown'] += 1
                    continue
                self.count['decided'] += 1
                if not exp and a.shape and not any(clash(d, 1, own) for d in a.shape):
                    if all(d == 1 for d in a.shape) and getattr(c, 'inst', None) is not None:
                        self.bad(c, exp, a.shape)
                        return
                    continue
                if len(a.shape) == 0 or all(d == 1 for d in a.shape) and len(exp) != len(a.shape):
                    arr = arr or not exp
                    if exp and not many:
                        self.bad(c, exp, a.shape)
                        return
                    continue
                arr = True
                if not self.fits(a.shape, exp, many, own):
                    self.bad(c, exp, a.shape)
                    return
            elif isinstance(a, (Num, Const)) and (not isinstance(a, Const) or isinstance(a.v, (int, float, complex)) or a.v is None):
                self.count['decided'] += 1
                if exp and not many and not (isinstance(a, Const) and a.v is None):
                    self.bad(c, exp, ())
                    return
                if isinstance(a, Const) and a.v is None:
                    arr = True
            else:
                arr = True
        if exp and not arr:
            self.bad(c, exp, ())

    def fits(self, sh, exp, many, own):
        if len(sh) == len(exp):
            return not any(clash(x, y, own) for x, y in zip(sh, exp))
        # squeezed: the dimensions of size 1 are gone
        if not many or len(sh) > len(exp):
            return False
        rest = list(sh)
        for d in exp:
            if rest and not clash(rest[0], d, own):
                rest.pop(0)
            elif isinstance(d, int) and d != 1:
                return False
        return not rest

    def bad(self, c, exp, sh):
        fn = P11.entry_fn(self, c)
        if fn is None:
            return
        m = self.ip.p.modules.get(fn.mod)
        q = (fn.owner.name + '.' if fn.owner is not None else '') + fn.name
        self.report_at(m.rel if m else str(fn.mod), fn.node.lineno, q, 'shape of ' + c.name,
                       'the result has shape %s where %s is due' % (self.say(sh), self.say(exp)))

    def say(self, sh):
        return '(%s)' % ', '.join('?' if d is None else show_term(d) if isinstance(d, Term) else str(d) for d in sh) if sh else 'a single number'

    # ---- the documented shapes
    def arg(self, c, i, name):
        v = c.args[i] if i < len(c.args) else c.kw.get(name)
        if v is None:
            return None
        sh = set()
        for a in v.atoms():
            if isinstance(a, Arr):
                sh.add(a.shape)
            elif isinstance(a, Num) or isinstance(a, Const) and isinstance(a.v, (int, float)):
                sh.add(())
            else:
                return None
        return sh.pop() if len(sh) == 1 else None

    def expected(self, c):
        """(shape, may lose dimensions of size 1) or None when nothing is documented"""
        inst = getattr(c, 'inst', None)
        if inst is not None:
            r = self.of_member(c, inst)
        else:
            r = self.of_function(c)
        if r is None:
            return None
        return r, any(not isinstance(d, int) for d in r) and c.name not in ('random', 'random_uniform')

    def of_member(self, c, inst):
        d, n = inst.dim, c.name
        if c.kind == 'prop':
            if n == 'sigma':
                return (d, d)
            if n in ('tau', 'rho') or n == 'params' and inst.name != 'StudentCopula':
                if inst.name in ELLIP:
                    return (d * (d - 1) // 2,)
                return () if inst.name in ARCHI and n in ('tau', 'rho') else None
            if n == 'data' and inst.name == 'EmpiricalCopula':
                return (None, d)
            return None
        if c.kind != 'call':
            return None
        if n in ('pdf', 'cdf'):
            a = self.arg(c, 0, None)
            if a is None:
                v = c.args[0] if c.args else None
                return (None,) if v is not None and all(isinstance(x, Ref) for x in v.atoms()) else None
            return a[:1] if len(a) == 2 else () if len(a) == 1 else None
        if n == 'log_lik':
            return ()
        if n == 'random':
            v = c.args[0] if c.args else c.kw.get('n')
            if v is None:
                return None
            k = v.const()
            return (k[1] if k[0] else v.term(), d)
        if n in SAME:
            if n in ('pobs', 'to_marginals'):
                return self.arg(c, 0, None)
            a = self.arg(c, 0, None)
            return a
        return None

    def of_function(self, c):
        n = c.name
        if '.' in n and any(isinstance(a, Arr) or isinstance(a, Ref) for v in c.kw.values() for a in v.atoms()):
            return None
        if n in FSAME:
            shs = [self.arg(c, i, None) for i in range(len(c.args))]
            if n == 'cov2corr' and self.kwconst(c, 'return_std') is True:
                return None
            if n == 'corr2cov':
                return shs[0] if shs and len(shs) > 1 and shs[1] in ((), shs[0][:1] if shs[0] else None) else None
            if not shs or any(s is None for s in shs):
                return None
            top = max(shs, key=len)
            if any(s != () and s is not top and len(s) != len(top) for s in shs):
                return None
            if n.startswith('skew_stable') and any(s != () for s in shs[1:]):
                return None
            if n == 'rank_data' and len(top) < 2 and 'axis' in c.kw:
                return None
            return top
        if n in CORR:
            a = self.arg(c, 0, None)
            if a is None:
                return None
            if c.kw.get('y') is None or self.kwconst(c, 'y') is None:
                return (a[1], a[1]) if len(a) == 2 else None
            b = self.arg(c, 1, 'y')
            return (2, 2) if len(a) == 1 and b is not None and len(b) == 1 else None
        if n == 'random_uniform':
            v = [x.const()[1] if x.const()[0] else x.term() for x in c.args[:2]]
            return tuple(v) if len(v) == 2 else None
        if n in ('multivariate_t.pdf', 'multivariate_t.logpdf'):
            a = self.arg(c, 0, None)
            return a[:1] if a is not None and len(a) == 2 else None
        if n == 'emp_dist_func':
            a = self.arg(c, 0, None)
            return a[:1] if a is not None and len(a) == 2 else None
        if n in ('is_psd', 'is_symmetric', 'eulerian', 'stirling_first', 'stirling_second', 'find_root'):
            return ()
        if n == 'create_cov_matrix':
            return (None, None)
        if n == 'log_sum':
            a = self.arg(c, 0, None)
            if a is None or 'offset' in c.kw:
                return None
            return () if len(a) == 1 else a[1:] if len(a) == 2 else None
        if n == 'random_log_series_ln1p' and 'size' in c.kw:
            v = c.kw['size']
            return (v.const()[1] if v.const()[0] else v.term(),) if self.arg(c, 0, None) == () else None
        return None

    def kwconst(self, c, k):
        v = c.kw.get(k)
        return v.const()[1] if v is not None and v.const()[0] else None
