"""P09: an update that is rejected leaves the object as it was."""
from ..check import *
from .p07 import CHECK as P07

MARK, BEGUN = ('p09', 'written'), ('p09', 'begun')

FITS = {'fit', 'fit_copula', 'form_options'}


class CHECK(Rule):
    """Exceptional-exit analysis: every parameter setter and item assignment of a copula and of GMCParam is interpreted from every reachable abstract state with every
    documented kind of argument.  On each path that ends in an exception, the fields reachable from the object are those it had before the call,
    and no array or container it owns was written to on the way."""
    pid = 'P09'
    dims = (2, 3)
    walks = ('copulas', 'gmcparam')
    MIN = {'exits': 60, 'updates': 100}

    FIXTURE = '''
import numpy as np

class C:
    def __init__(self):
        self.theta = 1.0
        self.rhos = np.zeros(3)
        self.opts = {}

    def good_check_first(self, x):
        if x < 0:
            raise ValueError("negative")
        self.theta = x

    def good_copy(self, x):
        r = self.rhos.copy()
        r[0] = x
        if np.any(np.abs(r) > 1):
            raise ValueError("outside")
        self.rhos = r

    def good_restore(self, x):
        old = self.theta
        self.theta = x
        if x < 0:
            self.theta = old
            raise ValueError("negative")

    def bad_assign_first(self, x):
        self.theta = x
        if self.theta < 0:
            raise ValueError("negative")

    def bad_in_place(self, x):
        self.rhos[0] = x
        if np.any(np.abs(self.rhos) > 1):
            raise ValueError("outside")

    def bad_loop(self, x):
        for i in range(3):
            if np.abs(x[i]) > 1:
                raise ValueError("outside")
            self.rhos[i] = x[i]

    def at(self, i, j):
        if j < 0 or j > 2:
            raise IndexError("outside")
        return i + j

    def good_loop(self, x, j=2):
        for i, v in enumerate(x):
            self.rhos[self.at(i, j)] = v

    def bad_loop_index(self, x):
        for i in x:
            self.rhos[self.at(0, i)] = i

    def bad_two_steps(self, x):
        self.opts['theta'] = x
        self.check(x)

    def check(self, x):
        assert x > 0
'''

    sites, roots, own, derived = {}, set(), set(), set()

    def run_fixture(self, S):
        C, ci = S.root_value('copulae', 'C'), S.cls('copulae', 'C')
        o = S.call(C, [], {}, S.state(), 'C')
        inst = Inst(ci, 'C', 2, '', o.value, o.st, None)
        for n in sorted(k for k in S.ip.frame(o.st, ci.fid) if k.startswith(('good_', 'bad_'))):
            for l, v in (('float', S.num('x', 'float')), ('array', S.nd('x', 1, None))):
                if (n.partition('_')[2].startswith('loop')) == (l == 'array'):
                    self.do(Call(S, inst, n, l, 'call', [v], {}, inst.st), 'mutator')

    def walk_instance(self, S, inst):
        for n in ('smoothing', 'ties'):
            if S.ip.lookup_cls(inst.cls, n, inst.st) is not None:
                for v in (const('other'), mk(StrA(), T('p', 'other'))):
                    self.do(Call(S, inst, n, 'unknown', 'set', [v], {}, inst.st), 'mutator')
        if S.ip.lookup_cls(inst.cls, 'fit', inst.st) is not None:
            self.do(Call(S, inst, 'fit', 'unknown method', 'call', [S.nd('fit.data', 2, inst.dim)], {'method': const('other'), 'verbose': const(0)}, inst.st), 'mutator')
        st = self.settle(S, inst)
        if st is not inst.st:
            for c in set_calls(S, inst, st):
                self.do(c, 'mutator')

    # ---- what belongs to the object
    def pre_call(self, c):
        self.sites, self.roots, self.own, self.derived = {}, set(), set(), set()
        if not self.update(c):
            return
        self.own, self.roots = self.parts(c.pre, [c.inst.v])
        o, r = self.parts(c.pre, list(c.args) + list(c.kw.values()))
        self.own, self.roots = self.own - o, self.roots - r
        st = c.pre.copy()
        self.names = {}
        c.args = [P07.tag(self, 'given', a, st) for a in c.args]
        c.pre = st

    def unmoved(self, x):
        """the refusal comes from a function that was told nothing of what the caller gave but what stays the same from one round of a loop to the next:
        it comes in the first round or not at all"""
        cx = x.cx
        if cx is None or len(cx.chain()) < 2 or not isinstance(getattr(cx.fn, 'node', None), ast.FunctionDef):
            return False
        a, fr = cx.fn.node.args, self.ip.frame(x.st, cx.fid)
        if a.vararg or a.kwarg:
            return False
        # asked before the write, in the same loop
        up = cx.parent
        wnode, wcx = self.sites.get('w', (None, None))
        while up is not None and wcx is not None and up.fn is not wcx.fn:
            cx, up = up, up.parent
        if up is None or up.fn is None or wnode is None or cx.callnode is None:
            return False
        loops = [n for n in ast.walk(up.fn.node) if isinstance(n, (ast.For, ast.While))]
        if not any({id(cx.callnode), id(wnode)} <= {id(y) for y in ast.walk(n)} for n in loops) or cx.callnode.lineno > wnode.lineno:
            return False
        counters = {id(n) for n in loops if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and getattr(n.iter.func, 'id', '') == 'enumerate'}
        work = [fr.get(p.arg) for p in a.posonlyargs + a.args + a.kwonlyargs]
        while work:
            v = work.pop()
            if v is None:
                return False
            for at, t in v.alts:
                if isinstance(at, Tup):
                    work += [e.with_deps(v.deps) for e in at.elts]
                elif not isinstance(at, (Num, Const, StrA)):
                    return False
                elif t is not None and t.op == 'it' and str(t.args[1]) == '(0,)' and t.args[0][1] in counters:
                    continue
                elif (t is None or t.loops) and any(d.endswith('given') for d in v.deps):
                    return False
        return True

    def parts(self, st, vals):
        oids = {o for o in reach(self.S, st, vals)[0] if o not in self.ip.base_heap}
        roots, work = set(), list(vals)
        for o in oids:
            b = st.heap.get(o)
            if b is not None:
                work += list(b.elts or ()) + ([b.elem] if b.elem is not None else []) + list((b.keys or {}).values()) + list((b.fields or {}).values())
        while work:
            for a in work.pop().atoms():
                if isinstance(a, (Arr, Opq)):
                    roots |= set(a.roots)
                elif isinstance(a, Tup):
                    work += list(a.elts)
        return oids, roots

    def update(self, c):
        return getattr(c, 'inst', None) is not None and (c.kind == 'set' or self.phase == 'mutator')

    def on_ext(self, name, st, **k):
        # once the numerical optimisation is under way the parameters are those of the last trial
        if name.startswith('scipy.optimize.') and self.own:
            st.heap[BEGUN] = Obj('set', elts=(const('x'),))

    def on_mutate(self, roots, tag, how, st, node, cx, atom=None, **k):
        if self.call is None or not self.own:
            return
        if isinstance(atom, Ref):
            self.sites.setdefault((atom.oid, None), []).append((node, cx))
        elif set(roots) & self.roots:
            self.touch(st, node, cx, how)

    def touch(self, st, node, cx, how):
        old = st.heap.get(MARK)
        st.heap[MARK] = Obj('set', elts=(const('x'),)) if old is None else old
        self.sites.setdefault('w', (node, cx))

    def on_setattr(self, oid, attr, value, st, node, cx, **k):
        if oid in self.own:
            self.sites.setdefault((oid, attr), []).append((node, cx))
            st.heap[('p09', oid, attr)] = Obj('set', elts=(const('x'),))

    def on_leave(self, fn, rets, **k):
        # what the object derives from its own parameters alone is consistent (sigma is symmetric)
        a = fn.node.args if isinstance(fn.node, ast.FunctionDef) else None
        if self.own and a is not None and fn.owner is not None and len(a.args) == 1 and not a.vararg and not a.kwarg:
            for v, _, _ in rets:
                for x in v.atoms():
                    if isinstance(x, Arr):
                        self.derived |= set(x.roots) - self.roots

    def own_value(self, x):
        fr = self.ip.frame(x.st, x.cx.fid) if x.cx is not None and x.cx.fid is not None else {}
        vals = [v for n, v in fr.items() if isinstance(v, V)]
        arrs = [a for v in vals for a in v.atoms() if isinstance(a, Arr)]
        return bool(arrs) and all(a.roots and set(a.roots) <= self.derived for a in arrs)

    def post_call(self, c):
        if not self.update(c) or c.out is None:
            return
        self.count['updates'] += 1
        for x in c.out.exits:
            self.count['exits'] += 1
            if BEGUN in x.st.heap:
                continue
            if c.name == 'fit' and x.cx is not None and not all(q.split('.')[-1] in FITS for q in x.cx.chain()):
                continue    # the estimation is under way
            if self.derived and self.own_value(x):
                continue
            if MARK in x.st.heap and not self.unmoved(x):
                node, cx = self.sites.get('w', (x.node, x.cx))
                self.report(node, cx, 'written before the check [%s]' % src(node), 'an array or container of the object is written to and the update is rejected afterwards')
            for oid in self.own:
                a, b = c.pre.heap.get(oid), x.st.heap.get(oid)
                if a is None or b is None or a is b:
                    continue
                if a.kind != 'inst' and (oid, None) in self.sites and (a.keys, a.elts, a.elem) != (b.keys, b.elts, b.elem):
                    node, cx = (self.sites.get((oid, None)) or [(x.node, x.cx)])[0]
                    self.report(node, cx, 'container changed before the check [%s]' % src(node), 'a container of the object has already been changed when the update is rejected')
                for f in sorted(set(a.fields or ()) | set(b.fields or ())):
                    u, v = (a.fields or {}).get(f), (b.fields or {}).get(f)
                    if u is not None and v is not None and (u == v or u.alts == v.alts):
                        continue
                    if u is None or ('p09', oid, f) not in x.st.heap:
                        continue    # a cache, or a less precise description of the same value
                    node, cx = (self.sites.get((oid, f)) or [(x.node, x.cx)])[0]
                    self.report(node, cx, '%s assigned before the check' % f, 'attribute %s has already been replaced when the update is rejected' % f)
