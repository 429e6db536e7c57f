"""P14: what lies outside the documented domain is rejected, what lies inside is not."""
from ..check import *
from ..domains import Domain, between, point, INF
from ..surface import FCall
from ..values import Term
from .p11 import CHECK as P11

F5 = ('GaussianCopula', 'StudentCopula', 'ClaytonCopula', 'FrankCopula', 'GumbelCopula')
ARCH = ('ClaytonCopula', 'FrankCopula', 'GumbelCopula')
ANYSIZE = None
SLICE = mk(Partial(mk(Ext('builtins.slice')).single(), (NONE, NONE, NONE), ()))


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Term) and x.id not in seen:
            seen.add(x.id)
            yield x
            todo += x.args


class CHECK(Rule):
    """Every documented restriction of an argument (an interval, a set of options, a shape, a state) is turned into abstract calls outside and inside of
    it. Outside, no path may return; inside, some path must. Numbers are symbolic and known by their interval only, arrays by the intervals that some of
    their elements lie in; conditions are decided from that. A condition that cannot be decided leaves the call undecided."""
    pid = 'P14'
    dims = (2, 3)
    walks = ('copulas',)
    MIN = {'outside': 250, 'inside': 150, 'decided': 300}
    FIXTURE = {'__init__.py': '''
import numpy as np


def good_scalar(theta):
    if not theta >= 1:
        raise ValueError
    return theta


def good_vector(rho):
    if np.any(np.abs(rho) > 1):
        raise ValueError
    return rho


def good_option(how):
    if how not in ('a', 'b'):
        raise ValueError
    return how


def good_helper(rho):
    def ok(x):
        return bool(((x >= -1) & (x <= 1)).all())
    if not ok(rho):
        raise ValueError
    return rho


def bad_scalar(theta):
    if theta < 0:
        raise ValueError
    return theta


def bad_edge(theta):
    if theta <= 1:
        raise ValueError
    return theta


def bad_vector(rho):
    if rho.min() < -1:
        raise ValueError
    return rho


def bad_all(rho):
    if np.all(rho > 1) or np.all(rho < -1):
        raise ValueError
    return rho


def bad_first(rho):
    if abs(rho[0]) > 1:
        raise ValueError
    return rho


def bad_option(how):
    if how == 'a':
        return 1
    return 2


def bad_inside(how):
    if how not in ('a',):
        raise ValueError
    return 1
'''}

    def start(self, S):
        super().start(S)
        S.ip.domain = self.domain = Domain()
        self.n = 0
        self.parents = {}
        self.undec = set()
        self.bad = set()

    # ------------------------------------------------------------ arguments
    def sym(self, kind):
        self.n += 1
        return 'p14.%s%d' % (kind, self.n)

    def num(self, iv, kind='float', how='s'):
        n = self.sym('number')
        v = self.S.num(n, kind)
        self.domain.assume(v.term(), [iv], how)
        return v

    def arr(self, ivs, rank=1, dim=None, dtype='f'):
        n = self.sym('array')
        v = self.S.nd(n, rank, dim, dtype)
        self.domain.assume(v.term(), ivs, 'a')
        return v

    def shaped(self, shape, dtype='f', ivs=None):
        n = self.sym('array')
        v = mk(Arr('ndarray', {('arg', n)}, dtype, shape), T('p', n), frozenset(['arg:' + n]))
        if ivs:
            n = 1
            for k in shape:
                n = n * k if isinstance(k, int) and n is not None else None
            self.domain.assume(v.term(), ivs, 'a', n)
        return v

    # ------------------------------------------------------------ deciding
    def on_branch(self, values, decided, st, node, cx):
        if not decided and self.call is not None and not all(v.term() in self.domain.both for v in values):
            if os.environ.get('P14_DEBUG'):
                print('  open', self.ip.loc(node, cx), [show_term(v.term()) if v.term() is not None else None for v in values], [v.atoms() for v in values])
            if not self.unrelated(values, st, cx):
                self.undec.add(node)

    def unrelated(self, values, st, cx):
        """the condition is a known function of things other than the argument under test"""
        bad = self.bad
        if not bad:
            return False
        if bad != {'p14.'} and not self.sees(st, cx, bad):
            return True
        for v in values:
            t = v.term()
            if t is None or len(v.alts) != 1 or any(k == 'phi' for k, _ in t.loops):
                return False
            if any(d.startswith('arg:p14.') for d in self.ip.deep_deps(v, self.call.pre)):
                return False
            for x in subterms(t):
                if x.op == 'p' and str(x.args[0]).startswith('p14.') or x.op == 'const' and x.args[0] in bad:
                    return False
        return True

    def sees(self, st, cx, bad):
        """whether the option is in the hands of the function that decides"""
        fr = self.ip.frame(st, cx.fid)
        f = getattr(cx, 'fn', None)
        if not fr or f is None or not (isinstance(f.fid, tuple) and f.fid[0] in ('mod', 'cls')):
            return True
        todo, seen = [(v, 0) for v in fr.values()], set()
        while todo:
            v, k = todo.pop()
            if not isinstance(v, V):
                continue
            for a in v.atoms():
                if isinstance(a, Const):
                    if a.v in bad if isinstance(a.v, str) else False:
                        return True
                elif isinstance(a, StrA):
                    return True
                elif isinstance(a, Tup):
                    todo += [(e, k) for e in a.elts]
                elif isinstance(a, Ref) and a.oid not in seen and k < 2:
                    seen.add(a.oid)
                    o = self.ip.obj(st, a.oid)
                    if o is not None:
                        todo += [(e, k + 1) for e in list(o.elts or ()) + [o.elem] + list((o.fields or {}).values()) + list((o.keys or {}).values())]
                        if any(isinstance(x, str) and x in bad for x in o.keys or ()):
                            return True
        return False

    def on_kindtest(self, values, st, node, cx):
        self.undec.add(node)

    def parent(self, node, mod):
        """the chain of syntax nodes around a node of a module"""
        if mod not in self.parents:
            m = {}
            for x in ast.walk(self.S.p.modules[mod].tree):
                for y in ast.iter_child_nodes(x):
                    m[y] = x
            self.parents[mod] = m
        return self.parents[mod]

    def guarded(self, o):
        """whether some exit is taken on a condition that was left open"""
        for x in o.exits:
            if x.node is None or x.cx is None:
                return True
            c, node = x.cx, x.node
            while c is not None and node is not None:
                mod = getattr(c, 'mod', None)
                if mod in self.S.p.modules:
                    m = self.parent(node, mod)
                    y = node
                    while y in m:
                        p = m[y]
                        if isinstance(p, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and (
                                not self.bad or self.bad == {'p14.'} or self.sees(x.st, c, self.bad)):
                            return True
                        tests = [p.test] if isinstance(p, (ast.If, ast.IfExp, ast.Assert)) else []
                        if isinstance(y, ast.Assert):
                            tests.append(y.test)
                        if isinstance(p, ast.BoolOp):
                            tests.append(p)
                        for t in tests:
                            if any(z in self.undec for z in ast.walk(t)):
                                return True
                        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
                            # what comes before and may have left the function
                            for z in ast.walk(p):
                                if isinstance(z, ast.If) and z.lineno < node.lineno and any(w in self.undec for w in ast.walk(z.test)) and any(
                                        isinstance(w, (ast.Return, ast.Break, ast.Continue)) for b in z.body + z.orelse for w in ast.walk(b)):
                                    return True
                            break
                        y = p
                    if isinstance(node, ast.Assert) and any(z in self.undec for z in ast.walk(node.test)):
                        return True
                node, c = c.callnode, c.parent
        return False

    def run(self, c):
        self.undec = set()
        vs = list(c.args) + list(c.kw.values())
        opts = {v.const()[1] for v in vs if v.const()[0] and v.const()[1] in ('other', 'no such distribution')}
        self.bad = opts or ({'p14.'} if any(d.startswith('arg:p14.') for v in vs for d in self.ip.deep_deps(v, c.pre)) else set())
        o = self.do(c, 'query')
        self.domain.both.clear()
        return o

    def outside(self, c, what):
        """the call is outside the documented domain: it must not return"""
        o = self.run(c)
        self.count['outside'] += 1
        if o.budget:
            return
        if o.value is None:
            self.count['decided'] += 1
            return
        if self.guarded(o):
            self.count['undecided'] += 1
            self.samples.append('undecided: %s %s' % (c.where(), what))
            return
        self.count['decided'] += 1
        self.flag(c, '%s accepts %s' % (c.name, what), '%s is accepted: no path rejects it' % what)

    def inside(self, c, what):
        o = self.run(c)
        self.count['inside'] += 1
        if o.budget:
            return
        self.count['decided'] += 1
        if o.value is None:
            self.flag(c, '%s rejects %s' % (c.name, what), '%s is rejected on every path' % what)

    def flag(self, c, construct, msg):
        fn = P11.entry_fn(self, c)
        if fn is None:
            self.report_at('?', 0, c.name, construct, msg)
        else:
            self.report_at(self.S.p.modules[fn.mod].rel, fn.node.lineno, (fn.owner.name + '.' if fn.owner is not None else '') + fn.name, construct, msg)

    # ------------------------------------------------------------ the fixture
    def run_fixture(self, S):
        for n, fv in sorted(S.public('copulae').items()):
            if not n.startswith(('bad_', 'good_')):
                continue

            def f(*a):
                return FCall(S, 'copulae', n, fv, '', list(a), {}, S.state())
            if n.endswith(('scalar', 'edge')):
                self.outside(f(self.num(between(-INF, 1, hs=True))), 'x < 1')
                self.inside(f(self.num(between(1, INF))), 'x >= 1')
                self.inside(f(self.num(point(1))), 'x = 1')
            elif n.endswith(('option', 'inside')):
                self.outside(f(const('c')), 'c')
                self.inside(f(const('b')), 'b')
            else:
                for bad in (between(1.1, INF), between(-INF, -1.1)):
                    self.outside(f(self.arr([between(-.5, .5), bad])), 'beyond 1')
                self.inside(f(self.arr([between(-.5, .5)])), 'within 1')

    # ------------------------------------------------------------ copulas
    def make(self, name, *args, **kw):
        C = self.S.root_value('copulae', name)
        return FCall(self.S, 'copulae', name, C, ', '.join(sorted(kw)), list(args), kw, self.S.state())

    def setter(self, inst, name, v, label=''):
        return Call(self.S, inst, name, label, 'set', [v], {}, inst.st)

    def after(self, inst, c):
        o = c.run()
        return None if o.value is None else Inst(inst.cls, inst.name, inst.dim, inst.label, inst.v, o.st)

    def meth(self, inst, name, *args, **kw):
        return Call(self.S, inst, name, '', 'call', list(args), kw, inst.st)

    def walk_copula(self, S, name, d):
        insts = new(S, name, d)
        if name == 'MarginalCopula':
            insts = insts[:1]
        self.constructor(name, d)
        for inst in insts:
            self.parameters(inst, name, d)
            self.arguments(inst, name, d)
            self.state(inst, name, d)

    def constructor(self, name, d):
        below = (between(-INF, 1), 'int')
        if name in F5 + ('IndepCopula', 'GaussianMixtureCopula'):
            def build(v):
                if name in ARCH:
                    return self.make(name, self.num(between(1, INF, ls=True)), v)
                if name == 'StudentCopula':
                    return self.make(name, v, self.num(between(0, INF, ls=True)))
                if name == 'GaussianMixtureCopula':
                    return self.make(name, const(2), v)
                return self.make(name, v)
            for k in (1, 0, -2):
                self.outside(build(const(k)), 'dimension %d' % k)
            self.outside(build(const(2.5)), 'dimension 2.5')
            for k in (2, 3):
                self.inside(build(const(k)), 'dimension %d' % k)
        D = const(d)
        out, ins = self.theta(name, d)
        for iv, what in out:
            self.outside(self.make(name, self.num(iv), D), what)
        for iv, what in ins:
            self.inside(self.make(name, self.num(iv), D), what)
        if name in ARCH:
            self.inside(self.make(name, dim=D), 'no theta')
        if name == 'StudentCopula':
            self.outside(self.make(name, D, self.num(between(-INF, 0, hs=True))), 'df < 0')
            self.outside(self.make(name, D, self.num(point(0))), 'df = 0')
            self.inside(self.make(name, D, self.num(between(0, INF, ls=True))), 'df > 0')
        if name == 'EmpiricalCopula':
            data = self.S.nd('data', 2, d)
            for k in ('smoothing',):
                self.outside(self.make(name, data, **{k: const('other')}), 'unknown ' + k)
            for v in ('none', 'beta', 'checkerboard', None):
                self.inside(self.make(name, data, smoothing=const(v)), 'smoothing %s' % v)
            self.outside(self.make(name, self.S.nd('data', 1, d)), 'data that is a vector')
            self.outside(self.make(name, self.shaped((None, d, d), 'u')), 'data of rank 3')
        if name == 'IndepCopula':
            def cols(n):
                c = self.make(name, D)
                c.args.append(self.S.alloc(c.pre, Obj('list', elts=tuple(const('c%d' % i) for i in range(n))), 'labels'))
                return c
            self.outside(cols(d + 1), 'more labels than dimensions')
            self.outside(cols(d - 1), 'fewer labels than dimensions')
            self.inside(cols(d), 'one label per dimension')
        if name == 'MarginalCopula':
            self.margins(d)

    def theta(self, name, d):
        if name == 'ClaytonCopula':
            if d == 2:
                return [(between(-INF, -1, hs=True), 'theta < -1')], [(between(-1, 0, True, True), '-1 < theta < 0'), (between(0, INF, True), 'theta > 0')]
            return [(between(-INF, -1, hs=True), 'theta < -1'), (between(-1, 0, False, True), 'negative theta in more than two dimensions')], [(between(0, INF, True), 'theta > 0')]
        if name == 'FrankCopula':
            if d == 2:
                return [], [(between(-INF, 0, True, True), 'theta < 0'), (between(0, INF, True), 'theta > 0')]
            return [(between(-INF, 0, hs=True), 'negative theta in more than two dimensions')], [(between(0, INF, True), 'theta > 0')]
        if name == 'GumbelCopula':
            return [(between(-INF, 1, hs=True), 'theta < 1')], [(point(1), 'theta = 1'), (between(1, INF, True), 'theta > 1')]
        return [], []

    def margins(self, d):
        S = self.S

        def mc(build, what, ok=False):
            o = new(S, 'GaussianCopula', d)[0]
            st = o.st.copy()
            c = FCall(S, 'copulae', 'MarginalCopula', S.root_value('copulae', 'MarginalCopula'), what, [o.v, build(st)], {}, st)
            (self.inside if ok else self.outside)(c, what)

        def lst(st, *e):
            return S.alloc(st, Obj('list', elts=tuple(e)), 'margins')

        def dct(st, **k):
            return S.alloc(st, Obj('dict', keys=dict(k), exact=True), 'margin')
        norm = const('norm')
        mc(lambda st: lst(st, *[norm] * (d + 1)), 'more margins than dimensions')
        mc(lambda st: lst(st, *[norm] * (d - 1)), 'fewer margins than dimensions')
        mc(lambda st: lst(st, *[norm] * d), 'one margin per dimension', True)
        mc(lambda st: lst(st, *[norm] * (d - 1), const(3)), 'a number for a margin')
        mc(lambda st: const(3), 'a number for the margins')
        mc(lambda st: const('norm'), 'one name for all margins', True)
        mc(lambda st: dct(st, type=norm), 'one description for all margins', True)
        mc(lambda st: dct(st, parameters=S.dct(st, 'p')), 'a margin without a type')
        mc(lambda st: const('no such distribution'), 'an unknown distribution')
        mc(lambda st: lst(st, *[norm] * (d - 1), const('no such distribution')), 'an unknown distribution among others')

    def parameters(self, inst, name, d):
        out, ins = self.theta(name, d)
        for iv, what in out:
            self.outside(self.setter(inst, 'params', self.num(iv)), what)
        for iv, what in ins:
            self.inside(self.setter(inst, 'params', self.num(iv)), what)
        k = d * (d - 1) // 2
        ok = between(-.9, .9)
        far = ((between(1.01, INF), 'correlations above 1'), (between(-INF, -1.01), 'correlations below -1'))
        if name == 'GaussianCopula':
            for iv, what in far:
                self.outside(self.setter(inst, 'params', self.shaped((k,), 'f', [ok, iv] if k > 1 else [iv])), what)
                self.outside(self.setter(inst, 'params', self.num(iv)), 'one number: ' + what)
            for n in (k + 1, k + 2) + ((k - 1,) if k > 1 else ()):
                self.outside(self.setter(inst, 'params', self.shaped((n,), 'f', [ok])), '%d correlations in %d dimensions' % (n, d))
            self.outside(self.setter(inst, 'params', self.shaped((d, d), 'f', [ok])), 'a matrix of correlations')
            self.inside(self.setter(inst, 'params', self.shaped((k,), 'f', [ok])), 'correlations')
            self.inside(self.setter(inst, 'params', self.num(ok)), 'one correlation')
        if name == 'StudentCopula':
            P = self.S.root_value('copulae.elliptical.student', 'StudentParams')

            def par(df, rho):
                st = inst.st.copy()
                o = self.S.call(P, [df, rho], {}, st, self.S.label('StudentParams'))
                if o.value is None:
                    raise Missing('StudentParams')
                return Call(self.S, inst, 'params', 'StudentParams', 'set', [o.value], {}, o.st)
            pos = between(0, INF, True, True)
            for iv, what in far:
                self.outside(par(self.num(pos), self.shaped((k,), 'f', [ok, iv] if k > 1 else [iv])), what)
            self.outside(par(self.num(between(-INF, 0, hs=True)), self.shaped((k,), 'f', [ok])), 'df < 0')
            self.outside(par(self.num(point(0)), self.shaped((k,), 'f', [ok])), 'df = 0')
            self.outside(par(self.num(pos), self.shaped((k + 1,), 'f', [ok])), 'too many correlations')
            if k > 1:
                self.outside(par(self.num(pos), self.shaped((k - 1,), 'f', [ok])), 'too few correlations')
            self.inside(par(self.num(pos), self.shaped((k,), 'f', [ok])), 'parameters')
            self.outside(self.setter(inst, 'params', self.shaped((k + 2,), 'f', [between(.1, .9)])), 'too many parameters')
            self.outside(self.setter(inst, 'params', self.shaped((k,), 'f', [between(.1, .9)])), 'too few parameters')
            self.outside(self.setter(inst, 'params', self.shaped((k + 1,), 'f', [between(-.9, -.1)])), 'df < 0 in a vector')
            self.outside(self.setter(inst, 'params', self.shaped((k + 1,), 'f', [point(0)])), 'df = 0 in a vector')
            self.outside(self.setter(inst, 'params', self.shaped((k + 1,), 'f', [between(1.01, INF)])), 'correlations above 1 in a vector')
            self.inside(self.setter(inst, 'params', self.shaped((k + 1,), 'f', [between(.1, .9)])), 'a vector of parameters')
        if name in ('GaussianCopula', 'StudentCopula'):
            self.items(inst, d)
        if name == 'EmpiricalCopula':
            self.outside(self.setter(inst, 'smoothing', const('other')), 'unknown smoothing')
            for v in ('none', 'beta', 'checkerboard', None):
                self.inside(self.setter(inst, 'smoothing', const(v)), 'smoothing %s' % v)
        if name == 'GaussianMixtureCopula':
            for kk, dd in ((3, d), (2, d + 1), (1, d), (2, d - 1)):
                st = inst.st.copy()
                g = gmc_param_inst(self.S, st, kk, dd, 'p14.gp') if dd > 1 else None
                if g is not None:
                    self.outside(Call(self.S, inst, 'params', 'GMCParam', 'set', [g], {}, st), 'parameters of %d clusters in %d dimensions' % (kk, dd))
            st = inst.st.copy()
            self.inside(Call(self.S, inst, 'params', 'GMCParam', 'set', [gmc_param_inst(self.S, st, 2, d, 'p14.gp')], {}, st), 'matching parameters')
            self.mixture(inst, d)

    def items(self, inst, d):
        ok, far = between(-.9, .9), (between(1.01, INF), between(-INF, -1.01))

        def put(i, v):
            return self.meth(inst, '__setitem__', i, v)

        def ij(*x):
            return mk(Tup([const(y) if isinstance(y, int) else y for y in x]))
        good = lambda: self.num(ok)
        for iv in far:
            self.outside(put(ij(0, 1), self.num(iv)), 'a correlation beyond 1')
            self.outside(put(const(0), self.num(iv)), 'a correlation beyond 1, by position')
            self.outside(put(SLICE, self.shaped((d, d), 'f', [ok, iv])), 'a matrix with entries beyond 1')
            self.outside(put(ij(SLICE, 1), self.shaped((d,), 'f', [ok, iv])), 'a column with entries beyond 1')
        for x in ((0, 0), (d - 1, d - 1)):
            self.outside(put(ij(*x), good()), 'an entry of the diagonal')
        for x in ((-1, 0), (0, -1)):
            self.outside(put(ij(*x), good()), 'a negative index')
        for x in ((0, d), (d, 0)):
            self.outside(put(ij(*x), good()), 'an index beyond the dimension')
        self.outside(put(ij(0, 1, 1), good()), 'three indices')
        self.outside(put(ij(SLICE, 1), self.shaped((d + 1,), 'f', [ok])), 'a column of another length')
        self.outside(put(ij(1, SLICE), self.shaped((d + 1,), 'f', [ok])), 'a row of another length')
        for x in ((0, 1), (1, 0), (d - 1, 0)):
            self.inside(put(ij(*x), good()), 'an entry beside the diagonal')
        self.inside(put(ij(SLICE, 1), self.shaped((d,), 'f', [ok])), 'a column')
        self.inside(put(SLICE, self.shaped((d, d), 'f', [ok])), 'a matrix')
        self.outside(self.meth(inst, '__getitem__', ij(0, 1, 1)), 'three indices')
        self.outside(self.meth(inst, '__getitem__', const('a')), 'a string as index')
        self.inside(self.meth(inst, '__getitem__', ij(0, 1)), 'two indices')

    def mixture(self, inst, d):
        S = self.S
        ci = S.cls('copulae.mixtures.gmc.parameter', 'GMCParam')
        st = inst.st.copy()
        v = gmc_param_inst(S, st, 2, d, 'p14.own')
        g = Inst(ci, 'GMCParam', d, '', v, st)
        half = [point(.5)]
        self.outside(self.setter(g, 'prob', self.shaped((3,), 'f', [point(1 / 3)])), 'more probabilities than clusters')
        self.outside(self.setter(g, 'prob', self.shaped((1,), 'f', [point(1)])), 'fewer probabilities than clusters')
        self.outside(self.setter(g, 'prob', self.shaped((2,), 'f', [between(-.9, -.1), between(1.1, 1.9)])), 'probabilities beyond [0, 1]')
        self.outside(self.setter(g, 'prob', self.shaped((2,), 'f', [between(1.1, 1.9)])), 'probabilities above 1')
        self.outside(self.setter(g, 'prob', self.shaped((2,), 'f', [between(-.9, -.1)])), 'probabilities below 0')
        self.outside(self.setter(g, 'prob', self.shaped((2,), 'f', [point(-.5), point(1.5)])), 'a negative probability where the sum is 1')
        self.outside(self.setter(g, 'prob', self.total((2,), .9)), 'probabilities that add up to more than 1')
        self.outside(self.setter(g, 'prob', self.total((2,), .4)), 'probabilities that add up to less than 1')
        self.inside(self.setter(g, 'prob', self.total((2,), .5)), 'probabilities')
        for sh in ((3, d), (2, d + 1), (d,), (2 * d,), (d, 2) if d > 2 else (d, 1)):
            self.outside(self.setter(g, 'means', self.shaped(sh)), 'means of shape %s' % (sh,))
        self.inside(self.setter(g, 'means', self.shaped((2, d))), 'means')
        for sh in ((3, d, d), (2, d + 1, d + 1), (2, d, d + 1), (d, d)):
            self.outside(self.setter(g, 'covs', self.shaped(sh)), 'covariances of shape %s' % (sh,))
        self.inside(self.setter(g, 'covs', self.shaped((2, d, d))), 'covariances')

    def total(self, shape, c):
        return self.shaped(shape, 'f', [point(c)])

    def arguments(self, inst, name, d):
        S = self.S
        u = lambda rank=2, dim=d: S.nd(self.sym('u'), rank, dim)
        fitted = inst.label != 'unfitted'
        for m in ('cdf', 'pdf'):
            if name == 'StudentCopula' and m == 'cdf' or name == 'GaussianMixtureCopula' and m == 'cdf' or not fitted:
                continue
            for rank, what in ((2, 'another number of columns'), (1, 'another number of values')):
                self.outside(self.meth(inst, m, u(rank, d + 1)), what)
                if d > 2:
                    self.outside(self.meth(inst, m, u(rank, d - 1)), 'fewer: ' + what)
            self.outside(self.meth(inst, m, self.shaped((None, d, d), 'u')), 'data of rank 3')
            if not (name == 'EmpiricalCopula' and m == 'pdf'):
                self.inside(self.meth(inst, m, u()), 'data of its dimension')
                self.inside(self.meth(inst, m, u(1)), 'a single observation')
        if name == 'EmpiricalCopula':
            for v in ('none', 'checkerboard', 'beta'):
                i2 = self.after(inst, Call(S, inst, 'smoothing', v, 'set', [const(v)], {}, inst.st))
                if i2 is not None:
                    c = self.meth(i2, 'pdf', u())
                    self.inside(c, 'smoothing beta') if v == 'beta' else self.outside(c, 'smoothing %s has no density' % v)
            st = inst.st.copy()
            o = FCall(S, 'copulae', 'EmpiricalCopula', S.root_value('copulae', 'EmpiricalCopula'), 'ties', [S.nd(self.sym('data'), 2, d)], {'ties': const('other')}, st).run()
            if o.value is not None:
                i2 = Inst(inst.cls, name, d, 'ties other', o.value, o.st)
                self.outside(self.meth(i2, 'cdf', u()), 'unknown ties')
            for iv in (between(1.1, INF), between(-INF, -.1)):
                self.outside(self.meth(inst, 'cdf', self.arr([between(.1, .9), iv], 2, d)), 'observations outside [0, 1]')
        if S.ip.lookup_cls(inst.cls, 'fit', inst.st) is not None and name not in ('IndepCopula', 'EmpiricalCopula'):
            v0 = {'verbose': const(0)}
            ms = FIT_METHODS.get(name, FIT_METHODS[''])
            self.outside(self.meth(inst, 'fit', u(), method=const('other'), **v0), 'an unknown method')
            for m in ms:
                if m == 'irho' and name != 'GaussianCopula':
                    continue
                self.inside(self.meth(inst, 'fit', u(), method=const(m), **v0), 'method ' + m)
                self.inside(self.meth(inst, 'fit', u(), method=const(m.upper()), **v0), 'method %s in capitals' % m)
                if name != 'GaussianMixtureCopula':
                    self.outside(self.meth(inst, 'fit', u(2, d + 1), method=const(m), **v0), 'another number of columns, method ' + m)
                    self.outside(self.meth(inst, 'fit', u(1, None), method=const(m), **v0), 'a vector, method ' + m)
                    for iv, what in ((between(1.1, INF), 'above 1'), (between(-INF, -.1), 'below 0')):
                        self.outside(self.meth(inst, 'fit', self.arr([between(.1, .9), iv], 2, d), method=const(m), to_pobs=FALSE, **v0),
                                     'observations %s as pseudo-observations, method %s' % (what, m))
                    self.outside(self.meth(inst, 'fit', self.shaped((d - 1, d), 'u'), method=const(m), **v0), 'fewer rows than dimensions, method ' + m)
            if name == 'GaussianMixtureCopula':
                self.outside(self.meth(inst, 'fit', u(), criteria=const('other'), method=const('pem'), **v0), 'an unknown stopping criterion')
                for cr in ('GMCM', 'GMM', 'Li'):
                    self.inside(self.meth(inst, 'fit', u(), criteria=const(cr), method=const('pem'), **v0), 'criterion ' + cr)
        if name in ARCH:
            self.outside(self.meth(inst, 'dipsi', u(1, None), degree=const(3)), 'degree 3')
            self.outside(self.meth(inst, 'dipsi', u(1, None), degree=const(0)), 'degree 0')
            for g in (1, 2):
                self.inside(self.meth(inst, 'dipsi', u(1, None), degree=const(g)), 'degree %d' % g)
        self.outside(self.meth(inst, 'pobs', u(), const('other')), 'an unknown treatment of ties')
        for t in ENUMS['ties']:
            self.inside(self.meth(inst, 'pobs', u(), const(t)), 'ties ' + t)

    def state(self, inst, name, d):
        if fitted(inst):
            self.outside(self.meth(inst, 'summary', const('other')), 'an unknown summary')
            self.inside(self.meth(inst, 'summary', const('copula')), 'a summary of the copula')
            self.inside(self.meth(inst, 'summary'), 'the default summary')
        if name not in ('IndepCopula', 'EmpiricalCopula'):
            self.outside(self.meth(inst, 'summary', const('fit')), 'the summary of a fit that has not happened')
        if inst.label == 'unfitted':
            u = self.S.nd(self.sym('u'), 2, d)
            for m, a in (('pdf', [u]), ('random', [const(5)]), ('log_lik', [u]), ('cdf', [u])):
                self.outside(self.meth(inst, m, *a), '%s without parameters' % m)
        if name in ARCH:
            nan = FCall(self.S, 'copulae', name, self.S.root_value('copulae', name), '', [const(float('nan')), const(d)], {}, self.S.state()).run()
            if nan.value is not None and isinstance(nan.value.single(), Ref):
                i = Inst(inst.cls, name, d, 'no theta', nan.value, nan.st)
                self.outside(self.meth(i, 'pdf', self.S.nd(self.sym('u'), 2, d)), 'pdf without a parameter')

    # ------------------------------------------------------------ functions
    def custom_units(self, tier):
        return [('functions-domain',)]

    def custom(self, S, unit):
        def f(mod, name, *a, **k):
            fv = S.public(mod).get(name.split('.')[0]) or S.ip.base_frames[('mod', mod)].get(name.split('.')[0])
            if fv is None:
                raise Missing(mod + '.' + name)
            st = S.state()
            if '.' in name:
                fv = S.ip.get_attr(fv, name.split('.')[1], st, None, S.ip.top_cx('p14'))
            return FCall(S, mod, name, fv, '', list(a), k, st)
        x2, x1, x3 = (lambda: S.nd(self.sym('x'), 2, None)), (lambda n=None: S.nd(self.sym('x'), 1, n)), (lambda: self.shaped((None, None, None), 'u'))
        O, I = self.outside, self.inside
        core, st, sp, gof = 'copulae.core', 'copulae.stats', 'copulae.special', 'copulae.gof'
        other = const('other')
        for n in ('pseudo_obs', 'rank_data'):
            a = [const(1)] if n == 'rank_data' else []
            O(f(core, n, self.shaped((7, 2), 'u'), *a, ties=other), 'an unknown treatment of ties')
            O(f(core, n, self.shaped((7,), 'u'), *a, ties=other), 'an unknown treatment of ties in a vector')
            O(f(core, n, x3(), *a), 'data of rank 3')
            for t in ENUMS['ties']:
                I(f(core, n, x2(), *a, ties=const(t)), 'ties ' + t)
        O(f(core, 'rank_data', x2(), const(2)), 'axis 2')
        for k in (0, 1):
            I(f(core, 'rank_data', x2(), const(k)), 'axis %d' % k)
        O(f(core, 'tri_indices', const(3), const(1), other), 'an unknown side')
        for s in ENUMS['side']:
            I(f(core, 'tri_indices', const(3), const(1), const(s)), 'side ' + s)
        for n in ('pearson_rho', 'kendall_tau', 'spearman_rho'):
            O(f(st, n, x2(), use=other), 'an unknown treatment of missing values')
            O(f(st, n, x1(7), x1(8)), 'vectors of different length')
            O(f(st, n, x3()), 'data of rank 3')
            I(f(st, n, x1(7), x1(7)), 'vectors of one length')
            for u in ENUMS['use']:
                I(f(st, n, x2(), use=const(u)), 'use ' + u)
        O(f(st, 'corr', x2(), method=other), 'an unknown method')
        O(f(st, 'corr', x2(), use=other), 'an unknown treatment of missing values')
        for m in METHODS['corr'] + ('tau', 'rho'):
            I(f(st, 'corr', x2(), method=const(m)), 'method ' + m)
        # stable distribution
        al, be, ga = (lambda: self.num(between(0, 2, True, True))), (lambda: self.num(between(-1, 1, True, True))), (lambda: self.num(between(0, INF, True, True)))
        for n in ('pdf', 'logpdf', 'rvs'):
            a = [] if n == 'rvs' else [x1()]
            q = 'skew_stable.' + n
            O(f(st, q, *a, self.num(between(-INF, 0)), be()), 'alpha <= 0')
            O(f(st, q, *a, self.num(between(2, INF, True)), be()), 'alpha > 2')
            O(f(st, q, *a, al(), self.num(between(1, INF, True))), 'beta > 1')
            O(f(st, q, *a, al(), self.num(between(-INF, -1, False, True))), 'beta < -1')
            O(f(st, q, *a, al(), be(), self.num(between(-INF, 0, False, True))), 'gamma < 0')
            O(f(st, q, *a, al(), be(), ga(), pm=const(3)), 'parametrization 3')
            O(f(st, q, *a, al(), be(), ga(), pm=const(-1)), 'parametrization -1')
            for k in (0, 1, 2):
                I(f(st, q, *a, al(), be(), ga(), pm=const(k)), 'parametrization %d' % k)
            I(f(st, q, *a, self.num(point(2)), be()), 'alpha = 2')
            I(f(st, q, *a, al(), self.num(point(1))), 'beta = 1')
        # multivariate t
        cov = lambda: self.shaped((2, 2))
        for n in ('pdf', 'logpdf', 'rvs'):
            a = [] if n == 'rvs' else [self.shaped((None, 2))]
            q = 'multivariate_t.' + n
            O(f(st, q, *a, cov=cov(), df=self.num(between(-INF, 0, False, True))), 'df < 0')
            O(f(st, q, *a, cov=cov(), df=self.num(point(0))), 'df = 0')
            I(f(st, q, *a, cov=cov(), df=self.num(between(0, 30, True))), 'df > 0')
        for n in ('pdf', 'logpdf'):
            O(f(st, 'multivariate_t.' + n, self.shaped((None, 2)), self.shaped((3,)), cov(), self.num(between(0, 30, True))), 'a mean of another length')
        O(f(st, 'multivariate_t.rvs', cov=cov(), df=self.num(between(0, 30, True)), type_=other), 'an unknown type')
        O(f(st, 'multivariate_t.rvs', cov=cov()), 'no degrees of freedom')
        for t in ENUMS['type_'][1:] + ('Kshirsagar',):
            I(f(st, 'multivariate_t.rvs', cov=cov(), df=self.num(between(0, 30, True)), type_=const(t)), 'type ' + t)
        # special functions
        for n in ('eulerian', 'stirling_first', 'stirling_second'):
            O(f(sp, n, const(3), const(4)), 'k > n')
            O(f(sp, n, const(3), const(-1)), 'k < 0')
            I(f(sp, n, const(3), const(1)), '0 < k < n')
            I(f(sp, n, const(3), const(0)), 'k = 0')
            I(f(sp, n, const(3), const(3)), 'k = n')
        O(f(sp, 'eulerian_all', const(-1)), 'n < 0')
        O(f(sp, 'poly_log', self.num(between(0, .9)), const(-3), method=other), 'an unknown method')
        for m in ('default', 'neg-stirling', 'neg-eulerian'):
            I(f(sp, 'poly_log', self.num(between(0, .9)), const(-3), method=const(m)), 'method ' + m)
        I(f(sp, 'eulerian_all', const(0)), 'n = 0')
        O(f(sp, 'poly_log', self.num(between(0, 1, True, True)), const(-2), other), 'an unknown method')
        O(f(sp, 'poly_log', self.num(between(0, 1, True, True)), const(3)), 's > 1')
        O(f(sp, 'poly_log', self.num(between(0, 1, True, True)), const(-1.5)), 's that is not an integer')
        I(f(sp, 'poly_log', self.num(between(0, 1, True, True)), const(-2)), 's = -2')
        j = lambda iv: self.arr([iv])
        ok = between(1, 9)
        neg = between(-9, -1)
        O(f(sp, 'sign_ff', self.num(between(-INF, 0)), j(ok), j(ok)), 'alpha <= 0')
        O(f(sp, 'sign_ff', self.num(between(1, INF, True)), j(ok), j(ok)), 'alpha > 1')
        O(f(sp, 'sign_ff', self.num(between(0, 1, True)), self.arr([ok, neg]), j(ok)), 'negative j')
        O(f(sp, 'sign_ff', self.num(between(0, 1, True)), j(ok), self.arr([ok, neg])), 'negative d')
        I(f(sp, 'sign_ff', self.num(between(0, 1, True)), j(ok), j(ok)), '0 < alpha <= 1')
        O(f(sp, 'log_sum', x3()), 'data of rank 3')
        # empirical distribution function
        e = 'copulae.empirical.distribution'
        for s in ENUMS['smoothing'] + (None,):
            I(f(e, 'emp_dist_func', S.nd('e.x', 2, 2), S.nd('e.y', 2, 2), smoothing=const(s)), 'smoothing %s' % s)
        O(f(e, 'emp_dist_func', S.nd('e.x', 2, 2), S.nd('e.y', 2, 2), smoothing=other), 'unknown smoothing')
        O(f(e, 'emp_dist_func', S.nd('e.x', 2, 3), S.nd('e.y', 2, 2)), 'different dimensions')
        O(f(e, 'emp_dist_func', x1(), S.nd('e.y', 2, 2)), 'a vector')
        # tests
        O(f(gof, 'exch_test', x1(9), x1(9), N=const(0)), 'no replications')
        O(f(gof, 'exch_test', x1(9), x1(9), N=const(2.5)), 'a fraction of replications')
        O(f(gof, 'exch_test', x1(9), x1(9), m=const(-1)), 'a grid of negative size')
        O(f(gof, 'exch_test', x1(9), x1(9), m=const(2.5)), 'a grid of fractional size')
        O(f(gof, 'exch_test', x2(), x2()), 'matrices')
        O(f(gof, 'exch_test', x1(9), x1(9), ties=other), 'an unknown treatment of ties')
        I(f(gof, 'exch_test', x1(9), x1(9), N=const(1)), 'one replication')
        I(f(gof, 'exch_test', x1(9), x1(9), m=const(0)), 'no grid')
        I(f(gof, 'exch_test', x1(9), x1(9), m=const(5)), 'a grid')
        O(f(gof, 'rad_sym_test', x2(), N=const(0)), 'no replications')
        O(f(gof, 'rad_sym_test', x2(), N=const(2.5)), 'a fraction of replications')
        O(f(gof, 'rad_sym_test', x1()), 'a vector')
        O(f(gof, 'rad_sym_test', x2(), ties=other), 'an unknown treatment of ties')
        I(f(gof, 'rad_sym_test', x2(), N=const(1)), 'one replication')
        C = S.root_value('copulae', 'ClaytonCopula')
        O(f(gof, 'gof_copula', C, x2(), const(3), ties=other), 'an unknown treatment of ties')
        O(f(gof, 'gof_copula', C, x2(), const(3), fit_ties=other), 'an unknown treatment of ties in fits')


def fitted(inst):
    return inst.label != 'unfitted'
