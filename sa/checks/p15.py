"""P15: answers follow the current parameters, data and options; nothing of earlier ones remains."""
from ..check import *
from ..surface import FCall
from .p07 import CHECK as P07
from .p11 import CHECK as P11

OLD, NEW = 'old', 'new-'
ARCH = ('ClaytonCopula', 'FrankCopula', 'GumbelCopula')
KEEPS = ('ml', 'sgd', 'pem', 'kmeans', 'gmcm')  # searches start from, and when they fail leave, the present parameters


class CHECK(Rule):
    """Histories of length three per class: first parameters (or data, or options), every query, second parameters. The provenance of what each query then
    returns is compared with that of a copula that only ever had the second parameters: nothing may come from the first ones, and everything that comes
    from the second ones there has to come from them here too."""
    pid = 'P15'
    dims = (2, 3)
    walks = ('copulas',)
    MIN = {'histories': 30, 'answers': 300, 'follow': 150}
    FIXTURE = {'__init__.py': '''
import numpy as np


class Plain:
    def __init__(self):
        self._p = 0.0

    @property
    def params(self):
        return self._p

    @params.setter
    def params(self, p):
        self._p = float(p)


class Good(Plain):
    def __init__(self):
        super().__init__()
        self._memo = None

    @property
    def params(self):
        return self._p

    @params.setter
    def params(self, p):
        self._p = float(p)
        self._memo = None

    def value(self):
        if self._memo is None:
            self._memo = np.exp(self._p)
        return self._memo


class Keyed(Plain):
    def __init__(self):
        super().__init__()
        self._memo = {}

    def value(self):
        return np.exp(self._p) + len(self._memo)


class Remembered(Plain):
    def __init__(self):
        super().__init__()
        self._memo = self._key = None

    def value(self):
        if self._key != self._p:
            self._memo = np.exp(self._p)
            self._key = self._p
        return self._memo


class Stale(Plain):
    def __init__(self):
        super().__init__()
        self._memo = None

    def value(self):
        if self._memo is None:
            self._memo = np.exp(self._p)
        return self._memo


class Partial(Plain):
    def __init__(self):
        super().__init__()
        self._log = None

    @property
    def params(self):
        return self._p

    @params.setter
    def params(self, p):
        if self._log is None:
            self._log = np.log(p)
        self._p = float(p)

    def value(self):
        return self._log * 2


def good_reset():
    return Good


def good_keyed():
    return Keyed


def good_remembered():
    return Remembered


def bad_stale():
    return Stale


def bad_partial():
    return Partial
'''}

    tag = P07.tag

    def start(self, S):
        super().start(S)
        self.names = {}

    keyed = False

    def on_branch(self, values, decided, st, node, cx):
        # an earlier value is compared with a later one: what was kept under the earlier one is kept under its key
        if not decided and self.phase == 'query':
            same = any(isinstance(x, ast.Compare) and any(isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in x.ops)
                       or isinstance(x, ast.Call) and getattr(x.func, 'attr', getattr(x.func, 'id', '')) in ('array_equal', 'allclose', 'isclose', 'equals') for x in ast.walk(node))
            deps = set().union(*[v.deps for v in values])
            if same and 'is-old' in deps and 'is-new' in deps:
                self.keyed = True

    def run_fixture(self, S):
        for n, v in sorted(S.public('copulae').items()):
            if n.startswith(('good_', 'bad_')):
                k = FCall(S, 'copulae', n, v, '', [], {}, S.state()).run().value.single()
                o = S.call(mk(k), [], {}, S.state(), S.label('new'))
                inst = Inst(k.cls, k.cls.name, 2, '', o.value, o.st)
                self.fix = n
                self.history(S, inst, [('params', lambda st, l: [Call(S, inst, 'params', l, 'set', [S.num(l)], {}, st)])], ['value'])
        self.fix = None

    fix = None

    def fixture_flags(self):
        return {f['construct'] for f in self.findings.values()}

    # ------------------------------------------------------------ the walk
    def walk_copula(self, S, name, dim):
        for inst in new(S, name, dim):
            if name == 'MarginalCopula' and inst.inner == 'StudentCopula':
                continue
            names = [n for n in query_names(S, inst, inst.st)]
            self.history(S, inst, self.changes(S, inst), names)

    def changes(self, S, inst):
        """[(what, builder(state, label) -> [Call])]: the ways the whole of the parameters, the data or an option is replaced"""
        out = []
        k = inst.dim * (inst.dim - 1) // 2
        C = lambda n, l, kind, args, kw, st: Call(S, inst, n, l, kind, args, kw, st)
        if inst.name in ARCH:
            out.append(('params', lambda st, l: [C('params', l, 'set', [S.num(l + '.p')], {}, st)]))
        elif inst.name == 'GaussianCopula':
            out.append(('params', lambda st, l: [C('params', l, 'set', [S.nd(l + '.p', 1, k, 'f')], {}, st)]))
        elif inst.name == 'StudentCopula':
            out.append(('params', lambda st, l: [C('params', l, 'set', [S.nd(l + '.p', 1, k + 1, 'f')], {}, st)]))
        elif inst.name == 'GaussianMixtureCopula':
            def gp(st, l):
                s = st.copy()
                return [C('params', l, 'set', [gmc_param_inst(S, s, 2, inst.dim, l + '.p')], {}, s)]
            out.append(('params', gp))
        elif inst.name == 'EmpiricalCopula':
            for v in ('none', 'beta', 'checkerboard'):
                out.append(('smoothing ' + v, lambda st, l, v=v: [C('smoothing', l, 'set', [const('none' if l == OLD and v != 'none' else ('beta' if l == OLD else v))], {}, st)]))
            out.append(('smoothing', lambda st, l: [C('smoothing', l, 'set', [mk(StrA(), T('p', l + '.smoothing'), frozenset(['arg:' + l]))], {}, st)]))
        if inst.name in ('GaussianCopula', 'StudentCopula'):
            out.append(('item', lambda st, l: [C('__setitem__', l, 'call', [mk(Tup([const(1), const(0)])), S.num(l + '.v')], {}, st)]))
        if inst.name not in ('IndepCopula', 'EmpiricalCopula'):
            for m in FIT_METHODS.get(inst.name, FIT_METHODS['']):
                if m == 'irho' and inst.name != 'GaussianCopula' and inst.inner != 'GaussianCopula':
                    continue
                out.append(('fit ' + m, lambda st, l, m=m: [C('fit', l, 'call', [S.nd(l + '.data', 2, inst.dim, 'f')], {'method': const(m), 'verbose': const(0)}, st)]))
                if m not in KEEPS:
                    for frm, to in (('DataFrame', 'ndarray'), ('ndarray', 'DataFrame')):
                        out.append(('fit %s (%s, then %s)' % (m, frm, to), lambda st, l, m=m, frm=frm, to=to: [C('fit', l, 'call', [
                            S.nd(l + '.data', 2, inst.dim, 'f', frm if l == OLD else to)], {'method': const(m), 'verbose': const(0)}, st)]))
        return out

    def change(self, build, st, l, mark):
        """the state after the change, or None when it cannot be made"""
        c = build(st, l)[0]
        s = c.pre.copy()
        c.args = [x if x.const()[0] and isinstance(c.name, str) and c.name == '__setitem__' else self.tag(l, x, s) for x in c.args]
        c.args = [V(x.alts, frozenset(mark if d == 'arg=' + l or d.endswith(l) and d.startswith('arg') else d for d in x.deps) | {mark})
                  if not (c.name == '__setitem__' and i == 0) else x for i, x in enumerate(c.args)]
        c.pre = s
        o = self.do(c, 'mutator')
        return None if o.value is None or o.budget else o.st

    def history(self, S, inst, changes, names):
        for what, build in changes:
            whole = what != 'item' and what[4:] not in KEEPS and (not what.startswith('fit') or inst.name in ARCH)
            fresh = self.change(build, inst.st, NEW, 'is-new')
            st = self.change(build, inst.st, OLD, 'is-old')
            if fresh is None or st is None:
                self.count['impossible'] += 1
                continue
            cur = st
            for n in names:
                for k in (0, 1):
                    for q in self.queries(S, inst, cur, [n])[k:k + 1]:
                        o = self.do(q, 'query')
                        if o.value is not None and not o.budget:
                            cur = o.st
            last = self.change(build, cur, NEW, 'is-new')
            if last is None:
                self.count['impossible'] += 1
                continue
            self.count['histories'] += 1
            fq = {(q.name, q.label): q for q in self.queries(S, inst, fresh, names)}
            for q in self.queries(S, inst, last, names):
                f = fq.get((q.name, q.label))
                self.keyed = False
                o = self.do(q, 'query')
                keyed = self.keyed
                p = self.do(f, 'query') if f is not None else None
                if o.value is None or o.budget or p is None or p.value is None or p.budget:
                    continue
                self.count['answers'] += 1
                do, dp = self.prov(o.value, o.st), self.prov(p.value, p.st)
                if os.environ.get('P15_DEBUG'):
                    print(inst.name, what, q.name, q.label, sorted(x for x in do if x.startswith('is-')), sorted(x for x in dp if x.startswith('is-')))
                if 'is-new' in dp:
                    self.count['follow'] += 1
                    if 'is-new' not in do:
                        self.flag(q, what, '%s does not follow the last %s once it has been asked before' % (q.name, what))
                        continue
                if self.kinds(o.value) != self.kinds(p.value):
                    self.flag(q, what, '%s gives %s where a copula that never had an earlier one gives %s' % (q.name, self.kinds(o.value), self.kinds(p.value)))
                if whole and not keyed and 'is-old' in do and 'is-old' not in dp:
                    self.flag(q, what, '%s still depends on an earlier %s' % (q.name, what))

    @staticmethod
    def kinds(v):
        return sorted({a.cls for a in v.atoms() if isinstance(a, Arr) and a.cls in ('DataFrame', 'Series')})

    def queries(self, S, inst, st, names):
        out = []
        for n in names:
            if n == '__getitem__':
                out.append(Call(S, inst, n, '[i,j]', 'call', [mk(Tup([const(0), const(1)]))], {}, st))
                continue
            cs = method_calls(S, inst, st, n, 'q.', full=False)
            out += cs[:1]
            if n == 'summary':
                out.append(Call(S, inst, n, 'fit', 'call', [const('fit')], {}, st))
        return out

    def prov(self, v, st, depth=6, seen=None):
        """where a result and everything in it comes from"""
        ip = self.ip
        seen = set() if seen is None else seen
        d = set(v.deps)
        for a in v.atoms():
            if isinstance(a, Tup):
                for e in a.elts:
                    d |= self.prov(e, st, depth - 1, seen)
            elif isinstance(a, Ref) and a.oid not in seen and depth:
                seen.add(a.oid)
                o = ip.obj(st, a.oid)
                if o is None:
                    continue
                kids = list(o.elts or ()) + ([o.elem] if o.elem is not None else []) + list((o.keys or {}).values())
                if o.kind == 'inst' and o.fields and not (o.cls is not None and o.cls.isa('BaseCopula')):
                    kids += list(o.fields.values())
                for e in kids:
                    d |= self.prov(e, st, depth - 1, seen)
        return d

    def flag(self, c, what, msg):
        if self.fix:
            self.report_at('?', 0, '?', self.fix, msg)
            return
        fn = P11.entry_fn(self, c)
        rel, line, qual = ('?', 0, c.name) if fn is None else (self.S.p.modules[fn.mod].rel, fn.node.lineno, (fn.owner.name + '.' if fn.owner is not None else '') + fn.name)
        self.report_at(rel, line, qual, '%s after %s' % (c.name, what), msg)
