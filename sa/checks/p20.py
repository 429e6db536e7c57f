"""P20: the functions of a copula belong together - generator and inverse, derivatives, distribution, density, dependence measures."""
from fractions import Fraction as F
import math

from .. import algebra as A, cas as C
from ..check import *
from ..surface import FCall
from .p11 import CHECK as P11
from .p15 import CHECK as P15

ARCH = ('ClaytonCopula', 'FrankCopula', 'GumbelCopula')
ELLIP = ('GaussianCopula', 'StudentCopula')
TH = ('v', repr('P.p'))
V1, V2, V3 = [A.atom('v', 'u%d' % i) for i in (1, 2, 3)]
# ranges of the parameter over which a copula may use different expressions; the first is the one all dimensions have
POINTS = {'ClaytonCopula': ((0.6, 1.7, 3.1), (-0.4, -0.25)), 'FrankCopula': ((0.7, 2.3), (-1.9, -0.8), (-40.0, -45.0)), 'GumbelCopula': ((1.3, 2.6),)}
US = (0.31, 0.62, 0.83)
N, Q, theta = A.num, A.power, A.atom(*TH)


def lin(*cs):
    """sum of coefficient * expression"""
    r = N(0)
    for k, e in cs:
        r = A.add(r, A.mul(N(k), e))
    return r


def over(a, b):
    return A.mul(a, Q(b, F(-1)))


D1, D2 = A.atom('call', 'D1', theta), A.atom('call', 'D2', theta)
TAU = {'ClaytonCopula': over(theta, lin((1, theta), (1, N(2)))), 'GumbelCopula': lin((1, N(1)), (-1, Q(theta, F(-1)))),
       'FrankCopula': lin((1, N(1)), (4, over(lin((1, D1), (-1, N(1))), theta)))}
RHO = {'FrankCopula': lin((1, N(1)), (12, over(lin((1, D2), (-1, D1)), theta)))}
two = lambda e: A.exp(A.mul(e, A.log(N(2))))
TAIL = {'ClaytonCopula': (two(over(N(-1), theta)), N(0)), 'GumbelCopula': (N(0), lin((1, N(2)), (-1, two(over(N(1), theta))))), 'FrankCopula': (N(0), N(0))}
one_less = lambda z: lin((1, N(1)), (-1, z))
POLYLOG = {F(1): lambda z: A.mul(N(-1), A.log(one_less(z))), F(0): lambda z: over(z, one_less(z)), F(-1): lambda z: over(z, Q(one_less(z), F(2))),
           F(-2): lambda z: over(lin((1, z), (1, A.mul(z, z))), Q(one_less(z), F(3)))}
PI = N(F(math.pi).limit_denominator(10 ** 9))


class Undecided(Exception):
    pass


class CHECK(Rule):
    """The value each function returns is read off the source as a normal form (a polynomial over exp, log, powers and named special functions of its
    arguments and the parameters). Normal forms are put into each other and differentiated: psi after ipsi has to be the identity, dipsi the derivatives of
    ipsi, the cdf psi of the sum of the ipsi, the density its mixed derivative, itau (irho) after tau (rho) the parameter, dtau and drho the derivatives of
    tau and rho, dAdu those of A, tail dependence and tau those of the family. An expression is reported only if it is elementary, its normal form differs
    from every admissible one, and so does its value at some point; what contains a function the algebra does not know is counted as undecided."""
    pid = 'P20'
    dims = (2, 3)
    walks = ('copulas',)
    classes = ARCH + ELLIP
    MIN = {'relations': 40, 'equal': 60, 'proved': 40}
    FIXTURE = {'__init__.py': '''
import numpy as np


class Arch:
    def __init__(self):
        self._t = 1.0

    @property
    def params(self):
        return self._t

    @params.setter
    def params(self, t):
        self._t = float(t)

    def psi(self, s):
        return (1 + s) ** (-1 / self._t)

    def ipsi(self, u):
        return u ** -self._t - 1

    def dipsi(self, u, degree=1):
        if degree == 1:
            return -self._t * u ** (-self._t - 1)
        return self._t * (self._t + 1) * u ** (-self._t - 2)

    def itau(self, tau):
        return 2 * tau / (1 - tau)

    @property
    def tau(self):
        return self._t / (self._t + 2)

    def dtau(self, x=None):
        x = self._t if x is None else x
        return 2 / (x + 2) ** 2

    def cdf(self, u):
        return self.psi(self.ipsi(u).sum(1))


class Other(Arch):
    def psi(self, s):
        return np.exp(-np.log1p(s) / self._t)

    def ipsi(self, u):
        r = np.expm1(-self._t * np.log(u))
        r[u == 0] = np.inf
        return r

    def dtau(self, x=None):
        x = self._t if x is None else x
        return (1 - x / (x + 2)) / (x + 2)


class Psi(Arch):
    def psi(self, s):
        return (1 + s) ** (1 / self._t)


class Ipsi(Arch):
    def ipsi(self, u):
        return (u ** -self._t - 1) / self._t


class Dipsi(Arch):
    def dipsi(self, u, degree=1):
        return -self._t * u ** (-self._t)


class Tau(Arch):
    def itau(self, tau):
        return 2 * tau / (1 + tau)


class Dtau(Arch):
    def dtau(self, x=None):
        x = self._t if x is None else x
        return 2 / (x + 2)


class Cdf(Arch):
    def cdf(self, u):
        return self.psi(self.ipsi(u).prod(1))


def good_plain():
    return Arch


def good_other():
    return Other


def bad_psi():
    return Psi


def bad_ipsi():
    return Ipsi


def bad_dipsi():
    return Dipsi


def bad_tau():
    return Tau


def bad_dtau():
    return Dtau


def bad_cdf():
    return Cdf
'''}
    fix = None

    # ------------------------------------------------------------ fixtures
    def run_fixture(self, S):
        for n, v in sorted(S.public('copulae').items()):
            if n.startswith(('good_', 'bad_')):
                k = FCall(S, 'copulae', n, v, '', [], {}, S.state()).run().value.single()
                o = S.call(mk(k), [], {}, S.state(), S.label('new'))
                self.fix = n
                self.archimedean(S, Inst(k.cls, 'ClaytonCopula', 2, '', o.value, o.st), 2)
        self.fix = None

    fixture_flags = P15.fixture_flags

    # ------------------------------------------------------------ the copulas
    def walk_copula(self, S, name, dim):
        inst = self.construct(S, name, dim)[0]
        (self.archimedean if name in ARCH else self.elliptical)(S, inst, dim)

    def given(self, S, inst, v):
        c = Call(S, inst, 'params', 'P', 'set', [v], {}, inst.st)
        o = self.do(c, 'mutator')
        return None if o.value is None or o.budget else o.st

    def ask(self, S, inst, st, name, args=(), kw=None, kind='call'):
        """([(atom, normal form or None)], call) of what the call returns"""
        c = Call(S, inst, name, '', kind, list(args), dict(kw or {}), st)
        o = self.do(c, 'query')
        if o.value is None or o.budget:
            return None, c
        nf = A.Normal(self.ip, o.st, c.pre)
        out = {}
        for a, t in o.value.alts:
            p = None
            if isinstance(a, (Arr, Num, Const)):
                try:
                    p = self.named(nf(t))
                except A.Unknown:
                    pass
            elif isinstance(a, (Ref, Tup)):
                p = self.pair(o, a, nf)
            out[p] = 1
        return list(out), c

    def pair(self, o, a, nf):
        """the two normal forms of a pair"""
        es = a.elts if isinstance(a, Tup) else None
        if es is None:
            x = self.ip.obj(o.st, a.oid)
            es = x.elts if x is not None and x.elts is not None else None
            if es is None and x is not None and x.fields and 'lower' in x.fields and 'upper' in x.fields:
                es = [x.fields['lower'], x.fields['upper']]
        if es is None or len(es) != 2:
            return None
        out = []
        for v in es:
            ps = []
            for b, t in v.alts:
                try:
                    ps.append(self.named(nf(t)))
                except A.Unknown:
                    ps.append(None)
            out.append(tuple(dict.fromkeys(ps)))
        return tuple(out)

    @staticmethod
    def named(p):
        """the special functions the algebra has rules for"""
        def f(a):
            if a[0] == 'call':
                flat = [x for x in a[1:] if isinstance(x, str)] + [x[1] for x in a[2:] if isinstance(x, tuple) and len(x) == 2 and x[0] == 'x']
                arg = [x[3] if x[0] == 'call' and x[1] == 'kw' else None for x in a[2:] if isinstance(x, tuple) and len(x) == 4]
                ps = [x for x in a[2:] if isinstance(x, A.P)] + [x for x in arg if isinstance(x, A.P)]
                for x in a[2:]:
                    if isinstance(x, A.P) and len(x.d) == 1:
                        (m, c), = x.d.items()
                        if c == 1 and len(m) == 1 and next(iter(m))[0][:2] == ('call', 'kw'):
                            k = next(iter(m))[0]
                            ps = [y for y in ps if y is not x] + ([k[3]] if "'x'" in repr(k[2]) else [])
                if any(str(s).strip("'").rpartition('.')[2] == 'poly_log' for s in flat):
                    kw = dict(CHECK.kwarg(x) for x in a[2:] if isinstance(x, A.P) and CHECK.kwarg(x) is not None)
                    pos = [x for x in a[2:] if isinstance(x, A.P) and CHECK.kwarg(x) is None]
                    z, o = kw.get('z') or (pos[0] if pos else None), kw.get('s') or (pos[1] if len(pos) > 1 else None)
                    k = o.const() if o is not None else None
                    if z is not None and k in POLYLOG:
                        return POLYLOG[k](z)
                for n, d in (('debye1', 'D1'), ('debye_1', 'D1'), ('debye2', 'D2'), ('debye_2', 'D2')):
                    if any(str(s).strip("'").rpartition('.')[2] == n for s in flat) and len(ps) == 1:
                        return A.atom('call', d, ps[0])
            return None
        return C.rebuild(p, f)

    def arg(self, S, v):
        return A.Normal(self.ip, None, None)(v.term())

    # ------------------------------------------------------------ archimedean
    def archimedean(self, S, inst, dim):
        st = self.given(S, inst, S.num('P.p'))
        if st is None:
            self.count['impossible'] += 1
            return
        name = inst.name
        new = lambda n, r, cols=None: S.nd(n, r, cols, 'f')
        u, s, x, t, w, z = new('P.u', 1), new('P.s', 1), new('P.x', 2, dim), new('P.t', 1), new('P.w', 1), new('P.z', 1)
        s2 = st.copy()
        au, as_, ax, at, aw, az = [next(iter(next(iter(A.Normal(self.ip)(v.term()).d))))[0] for v in (u, s, x, t, w, z)]
        F_ = lambda n, *a, **k: self.ask(S, inst, st, n, a, k)
        psi, cpsi = F_('psi', s)
        ipsi, cipsi = F_('ipsi', u)
        env = lambda p, q: {TH: p, au: q, as_: q, at: q, aw: q, az: q, None: dim, ax: US[:dim], ('v', 'u1'): US[0], ('v', 'u2'): US[1], ('v', 'u3'): US[2]}
        gs = [[env(p, q) for p in ps for q in (0.23, 0.57)] for k, ps in enumerate(POINTS[name]) if not k or dim == 2]
        me = A.atom(*au)
        psis, ipsis = self.elements(psi) or {}, self.elements(ipsi) or {}
        fwd, inv = [p for p in psis if p is not None and A.mentions(p, as_)], [q for q in ipsis if q is not None and A.mentions(q, au)]
        if fwd and inv:
            self.rel(cipsi, 'psi(ipsi(u)) = u', self.main(ipsis, au), lambda q: [(lambda p=p: C.subst(p, as_, q), me) for p in fwd], None in psis, gs, None in ipsis)
            self.rel(cpsi, 'psi(ipsi(u)) = u', self.main(psis, as_), lambda p: [(lambda q=q: C.subst(p, as_, q), me) for q in inv], None in ipsis, gs, None in psis)
        pairs = [(p, q) for p in fwd for q in inv if self.equal(lambda: C.subst(p, as_, q), me, gs[0]) in ('proved', 'agree')]
        # derivatives of the inverse generator
        for deg in (1, 2):
            d, c = F_('dipsi', u, degree=const(deg))
            d = self.elements(d) or {}

            def der(q):
                for _ in range(deg):
                    q = C.diff(q, au)
                return q
            if inv:
                self.rel(c, 'dipsi(u, %d) is the derivative of ipsi' % deg, self.main(d, au), lambda e: [(e, lambda q=q: der(q)) for q in inv], None in ipsis, gs)
        # distribution
        cdf, c = F_('cdf', x)
        full, fullp = [q for q in ipsi or () if q is not None], [p for p in psi or () if p is not None]
        if cdf and pairs:
            what = 'cdf = psi(sum of ipsi)'
            cands = [(lambda p=p, q=q: C.subst(p, as_, A.agg('sum', C.subst(q, au, A.atom(*ax)), N(1)))) for p in fullp for q in full]
            flat = [(lambda p=p, q=q: C.subst(p, as_, self.columns(q, au, dim))) for p in fwd for q in inv]
            rest, gap = {}, False
            for e in cdf:
                if e is not None and any(self.proved(e, f) for f in cands):
                    self.tally(what, 'proved')
                    gap = True
                    continue
                es = self.elements([e])
                gap = gap or None in es
                rest.update((q, 1) for q in self.main(es, ax))
            self.rel(c, what, list(rest), lambda q: [(lambda: self.spread(q, ax, dim), f) for f in flat], None in psis or None in ipsis, gs, gap)
        # density
        pdf, c = F_('pdf', x)
        if pdf and pairs:
            dens = []
            try:
                for p in {C.subst(p, as_, self.columns(q, au, dim)): 1 for p, q in pairs[:4]}:
                    for r in C.splits(p, C.SIGNS):
                        if all(A.mentions(r, ('v', 'u%d' % (i + 1))) for i in range(dim)) and r not in dens:
                            dens.append(r)
                for k, r in enumerate(dens):
                    for i in range(dim):
                        r = C.diff(r, ('v', 'u%d' % (i + 1)))
                    dens[k] = r
            except A.Unknown:
                self.tally('pdf is the mixed derivative of cdf', None)
                dens = []
            if dens:
                es = self.elements(pdf)
                self.rel(c, 'pdf is the mixed derivative of cdf', self.main(es, ax), lambda e: [(lambda: self.spread(e, ax, dim), r) for r in dens], False, gs, None in es)
        # rank correlations
        self.measures(S, inst, st, 'tau', TAU.get(name), TH, t, at, z, az, gs)
        self.measures(S, inst, st, 'rho', RHO.get(name), TH, t, at, z, az, gs)
        lam, c = self.ask(S, inst, st, 'lambda_', kind='prop')
        for k, what in enumerate(('lower', 'upper')):
            alts = [p for e in lam or () for p in (e[k] if isinstance(e, tuple) else (None,))]
            ok = [p for p in alts if p is not None]
            if ok:
                self.some(c, '%s tail dependence of the family' % what, ok, TAIL[name][k], len(ok) < len(alts), gs[:1])
        # Pickands function of extreme value copulas
        a, c = F_('A', w)
        d, cd = F_('dAdu', w)
        a = self.elements(a) or {}
        am = [g for g in a if g is not None and A.mentions(g, aw)]
        for k in (0, 1):
            def der(g):
                for _ in range(k + 1):
                    g = C.diff(g, aw)
                return g
            es = self.elements([x for e in d or () for x in (self.cols(e)[k:k + 1] if e is not None else (None,))]) if am else {}
            self.rel(cd, 'dAdu is the derivative of A (order %d)' % (k + 1), self.main(es, aw), lambda e: [(e, lambda g=g: der(g)) for g in am], None in a, gs)

    def cols(self, e):
        """the two columns of an array filled column by column, or of a pair"""
        if isinstance(e, tuple):
            return [x[0] if len(x) == 1 else None for x in e]
        out = {}
        for _ in range(6):
            if not isinstance(e, A.P) or len(e.d) != 1:
                break
            (m, c), = e.d.items()
            if c != 1 or len(m) != 1:
                break
            (a, n), = m
            if n != 1:
                break
            if a[0] == 'call' and a[1] in ('tup', 'list') and len(a) == 4:
                return [x if isinstance(x, A.P) else None for x in a[2:]]
            if a[0] != 'set' or not isinstance(a[2], A.P) or len(a[2].d) != 1:
                break
            (i, _), = next(iter(a[2].d)) if len(next(iter(a[2].d))) == 1 else ((None, 0),)
            if i is None or i[0] != 'call' or i[1] != 'tup' or len(i) != 4 or not C.whole(i[2]) or not isinstance(i[3], A.P) or i[3].const() not in (0, 1):
                break
            out.setdefault(int(i[3].const()), a[3])
            e = a[1]
        return [out.get(0), out.get(1)]

    def columns(self, q, au, dim):
        r = N(0)
        for v in (V1, V2, V3)[:dim]:
            r = A.add(r, C.subst(q, au, v))
        return r

    def spread(self, p, ax, dim):
        """sums and products over the columns of x written out, unless that grows too large"""
        try:
            return self.written(p, ax, dim)
        except A.Unknown:
            return p

    def written(self, p, ax, dim):
        def f(a):
            if a[0] == 'agg' and isinstance(a[3], A.P) and a[3].const() in (1, -1):
                inner = self.written(a[2], ax, dim) if any(b[0] == 'agg' for b in A.atoms_of(a[2])) else a[2]
                r = N(0) if a[1] == 'sum' else N(1)
                for v in (V1, V2, V3)[:dim]:
                    r = (A.add if a[1] == 'sum' else A.mul)(r, C.subst(inner, ax, v))
                return r
        return C.rebuild(p, f)

    # ------------------------------------------------------------ elliptical
    def elliptical(self, S, inst, dim):
        k = dim * (dim - 1) // 2
        st = self.given(S, inst, S.nd('P.r', 1, k + (inst.name == 'StudentCopula'), 'f'))
        if st is None:
            self.count['impossible'] += 1
            return
        z, t = S.nd('P.z', 1, None, 'f'), S.nd('P.t', 1, None, 'f')
        az, at = [next(iter(next(iter(A.Normal(self.ip)(v.term()).d))))[0] for v in (z, t)]
        tau, c = self.ask(S, inst, st, 'tau', kind='prop')
        tau = [p for p in tau or () if isinstance(p, A.P)]
        r = self.leaf(tau)
        if r is None:
            self.tally('correlations', None)
            return
        envs = [[{r: v, az: v, at: v} for v in (0.27, -0.41, 0.66)]]
        asin = lambda e: A.atom('call', 'np.arcsin', e)
        me = A.atom(*r)
        self.measures(S, inst, st, 'tau', over(A.mul(N(2), asin(me)), PI), r, t, at, z, az, envs)
        self.measures(S, inst, st, 'rho', over(A.mul(N(6), asin(A.mul(N(F(1, 2)), me))), PI) if inst.name == 'GaussianCopula' else None, r, t, at, z, az, envs)
        if inst.name == 'StudentCopula':
            lam, c = self.ask(S, inst, st, 'lambda_', kind='prop')
            for e in lam or ():
                if isinstance(e, tuple):
                    for what, alts in zip(('lower', 'upper'), e):
                        for p in alts:
                            self.student(c, what, p, r)

    def leaf(self, tau):
        """what stands for the correlations: the argument of the arcsine, when it is a name or a part of the parameters"""
        for p in tau:
            a = C.find(p, lambda a: a[0] == 'call' and a[1] in ('np.arcsin', 'math.asin', 'np.asin', 'np.arccos'))
            if a is not None and isinstance(a[2], A.P) and len(a[2].d) == 1:
                (m, c), = a[2].d.items()
                if len(m) == 1:
                    (x, e), = m
                    if e == 1 and (x[0] == 'v' or x[0] == 'call' and x[1] == 'item'):
                        return x
        return None

    def student(self, c, what, p, r):
        """2 T(-sqrt((df + 1)(1 - r) / (1 + r))) for a T distribution with df + 1 degrees of freedom"""
        if p is None or len(p.d) != 1:
            self.tally('tail dependence', None)
            return
        (m, k), = p.d.items()
        if len(m) != 1 or next(iter(m))[0][:2] != ('call', 'scipy.stats.t.cdf'):
            return  # the limit of infinitely many degrees of freedom
        a = next(iter(m))[0]
        pos = [x for x in a[2:] if isinstance(x, A.P) and self.kwarg(x) is None]
        kw = dict(self.kwarg(x) for x in a[2:] if isinstance(x, A.P) and self.kwarg(x) is not None)
        df = kw.get('df') or (pos[1] if len(pos) > 1 else None)
        if not pos or df is None:
            self.tally('tail dependence', None)
            return
        me, d = A.atom(*r), lin((1, df), (-1, N(1)))
        if len(d.d) != 1 or not all(x[0] in ('v', 'call') for m in d.d for x, _ in m):
            d = None
        vs = {x for m in df.d for x, _ in m}
        if len(vs) != 1:
            self.tally('tail dependence', None)
            return
        dv = next(iter(vs))
        gs = [[{r: x, dv: y} for x in (0.27, -0.41, 0.66) for y in (3.0, 7.5)]]
        n = lin((1, A.atom(*dv)), (1, N(1)))
        self.some(c, '%s tail dependence of the family: degrees of freedom' % what, [df], n, False, gs)
        x = A.mul(N(-1), Q(over(A.mul(n, lin((1, N(1)), (-1, me))), lin((1, N(1)), (1, me))), F(1, 2)))
        self.some(c, '%s tail dependence of the family: quantile' % what, [pos[0]], x, False, gs)
        self.some(c, '%s tail dependence of the family: factor' % what, [N(k)], N(2), False, gs)

    @staticmethod
    def kwarg(x):
        if len(x.d) == 1:
            (m, c), = x.d.items()
            if c == 1 and len(m) == 1:
                (a, e), = m
                if a[0] == 'call' and a[1] == 'kw' and len(a) == 4 and isinstance(a[3], A.P):
                    return a[2][1].strip("'") if isinstance(a[2], tuple) else str(a[2]), a[3]
        return None

    # ------------------------------------------------------------ rank correlations
    def measures(self, S, inst, st, n, form, par, t, at, z, az, envs):
        val, c = self.ask(S, inst, st, n, kind='prop')
        val = self.elements([p for p in val or () if not isinstance(p, tuple)])
        me = A.atom(*par)
        main = [p for p in val or () if p is not None and A.mentions(p, par)]
        if main and form is not None and not self.fix:
            # a value for nearly independent copulas may be an approximation: one alternative has to be the formula
            self.some(c, '%s of the family' % n, main, form, None in val, envs)
        inv, ci = self.ask(S, inst, st, 'i' + n, [t])
        inv = self.elements(inv)
        if any(base and self.opaque(q, envs) for q, base in (inv or {}).items()):
            self.tally('i' + n, None)
            inv = None
        if not main:
            return
        gap = None in (val or ())
        self.rel(ci, 'i%s(%s) is the parameter' % (n, n), self.main(inv or {}, at, None), lambda g: [(lambda p=p: C.subst(g, at, p), me) for p in main], gap, envs)
        what = 'd%s is the derivative of %s' % (n, n)
        der, cd = self.ask(S, inst, st, 'd' + n, [z])
        self.rel(cd, what, self.main(self.elements(der) or {}, az, None), lambda g: [(g, lambda p=p: C.subst(C.diff(p, par), par, A.atom(*az))) for p in main], gap, envs)
        der, cd = self.ask(S, inst, st, 'd' + n)
        self.rel(cd, what, self.main(self.elements(der) or {}, par, None), lambda g: [(g, lambda p=p: C.diff(p, par)) for p in main], gap, envs)

    # ------------------------------------------------------------ deciding
    @staticmethod
    def opaque(q, gs):
        try:
            C.differ(q, q, [e for g in gs for e in g])
        except C.NoValue:
            return True
        return q is None

    def elements(self, ps):
        """what the alternatives are at single elements; None stands for something unknown"""
        if ps is None:
            return None
        out = {}
        for p in ps:
            if p is None or isinstance(p, tuple):
                out[None] = False
                continue
            try:
                for q, base in C.splits(p).items():
                    out[q] = base and out.get(q, True)
            except A.Unknown:
                out[None] = False
        return out

    def main(self, ps, x, par=TH):
        """the alternatives that depend on the argument and on the parameter"""
        ms = [p for p in ps if p is not None and A.mentions(p, x) and (par is None or A.mentions(p, par))]
        return [p for p in ms if not ps[p]] or ms

    def proved(self, e, f):
        try:
            return C.same(e, f())
        except A.Unknown:
            return False

    def equal(self, l, r, envs, ps=None):
        """'proved', 'agree' (at every point), a point at which they differ, 'undefined' (no point at which both have a value), or None"""
        try:
            l = l() if callable(l) else l
            r = r() if callable(r) else r
        except A.Unknown:
            return None
        try:
            if C.same(l, r):
                return 'proved'
        except A.Unknown:
            pass
        try:
            d = C.differ(l, r, envs)
        except C.NoValue:
            return 'undefined'
        return 'agree' if d is None else d

    def tally(self, what, how):
        self.count['relations'] += 1
        self.count['equal' if how in ('proved', 'agree') else 'undecided'] += 1
        if how:
            self.count[how] += 1

    def rel(self, c, what, alts, cands, unknown, gs, gap=True):
        """every alternative satisfies one of its equations on some range of the parameter, and, unless there is a gap in what is known, on every range of
        the parameter some alternative does"""
        hit, miss, dark = set(), {}, set()
        for e in alts:
            best, no = None, None if unknown else {}
            for l, r in cands(e):
                for k, envs in enumerate(gs):
                    q = self.equal(l, r, envs)
                    if q == 'proved':
                        best = q
                        hit |= set(range(len(gs)))
                        break
                    if q == 'agree':
                        best = best or q
                        hit.add(k)
                    elif q is None:
                        no = None
                        dark.add(k)
                    elif q == 'undefined':
                        dark.add(k)
                    else:
                        miss.setdefault(k, e)
                        if no is not None:
                            no.update(q)
                if best == 'proved':
                    break
            if best:
                self.tally(what, best)
            else:
                self.decide(c, what, e, no)
        if not gap and not unknown:
            for k in range(len(gs)):
                if k not in hit and k in miss and k not in dark:
                    self.decide(c, what, miss[k], gs[k][0])

    def some(self, c, what, alts, form, unknown, gs):
        """one of the alternatives is what the form says"""
        ks = [self.equal(p, form, [e for g in gs for e in g]) for p in alts]
        for k in ks:
            if k in ('proved', 'agree'):
                self.tally(what, k)
                return
        self.decide(c, what, alts[0], None if unknown or not all(isinstance(k, dict) for k in ks) else ks[0])

    def decide(self, c, what, shown, seen):
        if not seen:
            self.tally(what, None)
            if os.environ.get('P20_DEBUG'):
                print('undecided', c.where(), what, str(shown)[:300])
            return
        self.count['relations'] += 1
        if os.environ.get('P20_DEBUG'):
            print('NO', c.where(), self.fix, what, str(shown)[:300])
        if self.fix:
            self.report_at('?', 0, '?', self.fix, what)
            return
        fn = P11.entry_fn(self, c)
        rel, line, qual = ('?', 0, c.name) if fn is None else (self.S.p.modules[fn.mod].rel, fn.node.lineno, (fn.owner.name + '.' if fn.owner is not None else '') + fn.name)
        self.report_at(rel, line, qual, what, '%s does not hold: %s is %s' % (what, c.name, str(shown)[:400]))
