"""P02: queries leave the object unchanged."""
from ..check import *


def array_roots(S, st, oids):
    out = set()

    def of(v):
        if v is None:
            return
        for a in v.atoms():
            if isinstance(a, (Arr, Opq)):
                out.update(a.roots)
            elif isinstance(a, Tup):
                for e in a.elts:
                    of(e)
    for o in oids:
        x = S.ip.obj(st, o)
        for e in x.elts or ():
            of(e)
        of(x.elem)
        for d in (x.keys, x.fields):
            for e in (d or {}).values():
                of(e)
    return out


def field(o, attr):
    if o is None:
        return None
    if o.fields and attr in o.fields:
        return o.fields[attr]
    return None


class CHECK(Rule):
    """Effect analysis of every query (every public method, property and rendering other than fit, parameter setters and item
    assignment) from freshly built, fitted and re-parameterised abstract instances: a query may not leave a different value in an
    attribute that existed before the call, on normal or on exceptional exit, and may not modify in place any array, list or dictionary reachable
    from the instance."""
    pid = 'P02'
    walks = ('copulas', 'gmcparam')
    MIN = {'calls.query': 1000, 'queries': 100}

    FIXTURE = '''
import numpy as np

class Thing:
    def __init__(self, data):
        self._data = np.array(data)
        self._params = 1.0
        self._columns = None

    def bad_assign(self, x):
        self._params = x
        return x

    def bad_inplace(self, x):
        d = self._data
        d[0] = x
        return d

    def bad_temp(self, x):
        old = self._params
        self._params = x
        if x > 2:
            raise ValueError('x')
        self._params = old
        return x

    def good_copy(self, x):
        d = self._data.copy()
        d[0] = x
        return d

    def good_temp(self, x):
        old = self._params
        self._params = x
        y = self._params + 1
        self._params = old
        return y
'''

    def start(self, S):
        super().start(S)
        self.qs = set()
        self.cand = None

    def pre_call(self, c):
        self.cand = None
        if self.phase != 'query':
            return
        self.qs.add((c.inst.name, c.name))
        self.oids, _ = reach(self.S, c.pre, [c.inst.v])
        self.roots = array_roots(self.S, c.pre, self.oids)
        self.cand = {}

    def on_setattr(self, oid, obj, attr, value, st, node, cx, **k):
        if self.cand is None or oid not in self.oids:
            return
        old = field(self.S.ip.obj(self.call.pre, oid), attr)
        if old is not None and old != value:
            self.cand.setdefault((oid, attr), (old, []))[1].append((node, cx))

    def on_mutate(self, roots, tag, how, st, node, cx, atom, **k):
        if self.cand is None:
            return
        hit = roots & self.roots if isinstance(atom, (Arr, Opq)) else (isinstance(atom, Ref) and atom.oid in self.oids)
        if hit:
            self.report(node, cx, src(node), '%s inside a query modifies data held by the object' % how)

    def post_call(self, c):
        if not self.cand:
            self.cand = None
            return
        o = c.out
        ends = ([o.st] if o.value is not None else []) + [e.st for e in o.exits]
        for (oid, attr), (old, sites) in self.cand.items():
            for st in ends:
                new = field(self.S.ip.obj(st, oid), attr)
                if new is not None and new != old:
                    node, cx = sites[-1]
                    for node, cx in sites[:3]:
                        self.report(node, cx, src(node), 'a query leaves attribute %s of the object changed' % attr)
                    break
        self.cand = None

    def unit_done(self):
        self.count['queries'] = len(self.qs)

    def run_fixture(self, S):
        C = S.root_value('copulae', 'Thing')
        ci = S.cls('copulae', 'Thing')
        o = S.call(C, [S.nd('d', 1)], {}, S.state(), 'Thing')
        inst = Inst(ci, 'Thing', 2, '', o.value, o.st)
        for n in ('bad_assign', 'bad_inplace', 'bad_temp', 'good_copy', 'good_temp'):
            self.do(Call(S, inst, n, '', 'call', [S.num('x')], {}, o.st), 'query')
