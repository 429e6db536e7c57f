"""P13: all copulas share the interface of BaseCopula / CopulaCorrProtocol, by position and by keyword."""
from ..check import *

BASES = (('copulae.copula.base', 'BaseCopula'), ('copulae.copula.base', 'CopulaCorrProtocol'),
         ('copulae.archimedean.abstract', 'AbstractArchimedeanCopula'))


class CHECK(Rule):
    """Interface conformance over the class hierarchy: every public member that a copula class declares and that BaseCopula, AbstractArchimedeanCopula
    or CopulaCorrProtocol also declares is of the same kind (property, method, static method) and takes the same parameters under the same names,
    at the same positions, with the same defaults, through all decorators; further parameters follow and are optional.  Besides, every query is
    interpreted with its arguments by position and by keyword, and both must have the same outcomes (values of the same kinds, shapes and terms)."""
    pid = 'P13'
    dims = (2, 3)
    walks = ('copulas',)
    MIN = {'members': 100, 'pairs': 300}

    FIXTURE = {'__init__.py': '''
import wrapt

class Base:
    def good_same(self, x, log=False):
        raise NotImplementedError

    def bad_order(self, x, log=False, ties='average'):
        raise NotImplementedError

    def bad_name(self, x):
        raise NotImplementedError

    def bad_default(self, x, ties='average'):
        raise NotImplementedError

    def bad_required(self, x):
        raise NotImplementedError

    @property
    def bad_kind(self):
        raise NotImplementedError

class Child(Base):
    def good_same(self, x, log=False, extra=1):
        return x

    def bad_order(self, x, ties='average', log=False):
        return x

    def bad_name(self, y):
        return y

    def bad_default(self, x, ties='min'):
        return x

    def bad_required(self, x, y):
        return x

    def bad_kind(self):
        return 1
'''}

    def run_fixture(self, S):
        b, c = S.cls('copulae', 'Base'), S.cls('copulae', 'Child')
        self.conform(S, b, c, S.state())

    # ---- hierarchy
    def walk_copula(self, S, name, dim):
        insts = self.construct(S, name, dim)
        inst = insts[0]
        if dim == self.dims[0]:
            for m, b in BASES:
                bc = S.cls(m, b)
                if bc is None:
                    raise Missing('%s.%s' % (m, b))
                if bc in inst.cls.mro or b == 'CopulaCorrProtocol':
                    self.conform(S, bc, inst.cls, inst.st)
        for inst in insts:
            self.pairs(S, inst)

    def kind(self, v):
        if is_property(v):
            return 'property'
        for a in v.atoms():
            if isinstance(a, Desc):
                return a.kind
            if isinstance(a, Wrapt) and a.wrapped is not None:
                return self.kind(a.wrapped)
        return 'method'

    def own(self, S, bc, st):
        return {n: v for n, v in S.ip.frame(st, bc.fid).items() if not n.startswith('_') and (is_property(v) or underlying(v))}

    def conform(self, S, bc, cc, st):
        for n, bv in sorted(self.own(S, bc, st).items()):
            cv = S.ip.lookup_cls(cc, n, st)
            if cv is None or cv is bv:
                continue
            self.count['members'] += 1
            fns = underlying(cv)
            if not fns:
                continue
            bk, ck = self.kind(bv), self.kind(cv)
            if bk != ck:
                self.flag(S, fns[0], n, 'is a %s, %s.%s is a %s' % (ck, bc.name, n, bk))
                continue
            if bk == 'property':
                continue
            bs, cs = signature(S, bv), signature(S, cv)
            if bs is None or cs is None:
                continue
            # the fitting methods of the mixture are its own
            loose = ('method', 'to_pobs', 'scale') if cc.name == 'GaussianMixtureCopula' and n == 'fit' else ()
            why = self.compare(bs, cs, loose)
            if why:
                self.flag(S, cs[3], n + ': ' + why, 'does not take the arguments of %s.%s: %s' % (bc.name, n, why))

    def compare(self, bs, cs, loose=()):
        b, c = bs[0], cs[0]
        if cs[1] and cs[2]:
            return None
        bd, cd = self.defaults(bs[3]), self.defaults(cs[3])
        cn = [x[0] for x in c if x[2] == 'pos']
        i = 0
        for (n, d, k) in b:
            if k == 'pos':
                if i < len(cn) and i == 0 and n in ('self', 'cls'):
                    i += 1
                    continue
                if n not in [x[0] for x in c] and (n in loose or cs[2]):
                    continue
                if n not in [x[0] for x in c]:
                    return 'there is no parameter %s' % n
                if i >= len(cn) or cn[i] != n:
                    return 'parameter %s is at another position' % n
                i += 1
            elif n not in [x[0] for x in c] and not cs[2]:
                return 'there is no parameter %s' % n
            e = [x for x in c if x[0] == n]
            if e and d and not e[0][1]:
                return 'parameter %s is required' % n
            if n not in loose and n in bd and n in cd and bd[n] != cd[n]:
                return 'parameter %s has another default' % n
        names = {x[0] for x in b}
        for (n, d, k) in c:
            if n not in names and not d and n not in ('self', 'cls'):
                return 'parameter %s is required' % n
        return None

    def defaults(self, fn):
        a = fn.node.args
        pos = list(a.posonlyargs) + list(a.args)
        out = {}
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, ast.Constant):
                out[p.arg] = (type(d.value).__name__, d.value)
                if type(d.value) in (int, float):
                    out[p.arg] = ('num', float(d.value))
        return out

    def flag(self, S, fn, n, msg):
        m = S.p.modules.get(fn.mod)
        q = (fn.owner.name + '.' if fn.owner is not None else '') + fn.name
        self.report_at(m.rel if m else str(fn.mod), fn.node.lineno, q, 'interface of ' + n, msg)

    # ---- keyword = positional
    def pairs(self, S, inst):
        calls = query_calls(S, inst, inst.st, full=False)
        for c in list(calls):
            if c.kind == 'call' and c.args and c.label.endswith('=array'):
                s = c.pre.copy()
                calls.append(Call(S, inst, c.name, c.label[:-5] + 'list', 'call', [S.lst(s, 'kw.' + c.name)] + list(c.args[1:]), c.kw, s))
        for c in calls:
            if c.kind != 'call' or not c.args or c.name.startswith('_'):
                continue
            mv = self.ip.lookup_cls(inst.cls, c.name, c.pre)
            sg = signature(S, mv) if mv is not None else None
            if sg is None:
                continue
            names = [p[0] for p in sg[0]]
            if names and names[0] in ('self', 'cls'):
                names = names[1:]
            if len(names) < len(c.args):
                continue
            p = self.do(c, 'query')
            k = Call(S, inst, c.name, c.label + ' by keyword', 'call', [], dict(c.kw, **dict(zip(names, c.args))), c.pre)
            o = self.do(k, 'query')
            self.count['pairs'] += 1
            a, b = self.summary(p), self.summary(o)
            if a is None or b is None:
                continue
            if self.differ(a, b):
                self.flag(S, sg[3], c.name + ' by keyword', 'called with keyword arguments it %s, by position it %s' % (self.say(b), self.say(a)))

    def differ(self, a, b):
        if (a[0] is None) != (b[0] is None):
            return True
        if a[0] is None:
            return a[1] != b[1]
        if any(x[0] == 'Opq' for x in a[0] | b[0]):
            return False
        return not all(any(self.fits(x, y) for y in b[0]) for x in a[0]) or not all(any(self.fits(x, y) for x in a[0]) for y in b[0])

    def fits(self, x, y):
        if x == y:
            return True
        if x[0] == y[0] == 'arr':
            ok = x[1] == y[1] and (x[2] == y[2] or 'o' in (x[2], y[2]))
            if not ok or x[3] is None or y[3] is None:
                return ok
            return len(x[3]) == len(y[3]) and all(p == q or p is None or q is None for p, q in zip(x[3], y[3]))
        return x[0] in ('num', 'const') and y[0] in ('num', 'const') and 'num' in (x[0], y[0])

    def say(self, s):
        if s[0] is not None:
            return 'returns ' + ' or '.join(sorted('%s of %s' % (x[1], x[2]) if x[0] == 'arr' else str(x[-1]) for x in s[0]))
        return 'returns' if s[0] else 'raises ' + ', '.join(sorted(s[1]))

    def summary(self, o):
        if o.budget:
            return None
        ex = set()
        for e in o.exits:
            x = self.ip.exc_name(e.exc, e.st)
            ex.add(x.name if hasattr(x, 'name') else str(x).split('.')[-1])
        val = None
        if o.value is not None:
            val = frozenset(self.shape(a) for a in o.value.atoms())
        return (val, frozenset(ex))

    def shape(self, a):
        if isinstance(a, Arr):
            return ('arr', a.cls, a.dtype, a.shape)
        if isinstance(a, Const):
            return ('const', repr(a.v))
        if isinstance(a, Num):
            return ('num', repr(a))
        return (type(a).__name__,)
