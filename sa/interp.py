"""Abstract interpreter over the package's syntax trees (Python and converted Cython).

Nothing of the analysed package is executed or imported: statements are interpreted over the abstract
values of values.py.  Calls into the package are inlined (call-string contexts), calls that leave it are
modelled in ext.py.  Listeners receive events (mutation, attribute store, global write, external call, raise...).
"""
import ast
import builtins
import sys

from .values import *
from .values import V, T, TT, joinv, joinall, mk, const, anyv, cterm

sys.setrecursionlimit(20000)


# methods that set the labels of a frame / change the order of labels / select by label
LABELLING = {'set_axis', 'rename', 'set_index', 'reindex', 'reindex_like', 'add_prefix', 'add_suffix'}
REORDERING = {'sort_values', 'union', 'intersection', 'difference', 'symmetric_difference', 'drop', 'delete', 'insert', 'sort', 'sort_index'}
ALIGNING = {'reindex', 'filter', 'get_loc', 'get_indexer', 'get_indexer_for', 'take', 'get', 'pop', '__getitem__', 'index', 'xs'}

class Dead(Exception):
    """the current path does not continue"""


class Budget(Exception):
    """analysis budget exhausted"""


class State:
    __slots__ = ('frames', 'heap', 'facts', 'facets', 'own')

    def __init__(self):
        self.frames, self.heap, self.facts, self.facets, self.own = {}, {}, {}, {}, set()

    def copy(self):
        s = State.__new__(State)
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.facts = self.facts
        s.facets = self.facets
        s.own = set()
        self.own = set()
        return s

    def assign(self, o):
        self.frames, self.heap, self.facts, self.facets, self.own = o.frames, o.heap, o.facts, o.facets, set()

    def add_fact(self, t, val):
        if t is None or self.facts.get(t) == val:
            return
        f = dict(self.facts)
        f[t] = val
        self.facts = f

    def set_facet(self, k, v):
        f = dict(self.facets)
        f[k] = frozenset(v)
        self.facets = f


class ClassInfo:
    def __init__(self, name, mod, node, bases, fid):
        self.name, self.mod, self.node, self.bases, self.fid = name, mod, node, bases, fid
        self.nt_fields = None
        self.dataclass = None
        self.kind = None
        self.mro = self._mro()
        for b in self.mro:
            if isinstance(b, ClassInfo) and b is not self:
                self.nt_fields = self.nt_fields or b.nt_fields
                self.kind = self.kind or b.kind

    def _mro(self):
        seqs = [list(b.mro) if isinstance(b, ClassInfo) else [b] for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] == c:
                    del s[0]
                elif c in s:
                    s.remove(c)

    def isa(self, name):
        return any((b.name == name if isinstance(b, ClassInfo) else b == name or b.split('.')[-1] == name) for b in self.mro)

    def ext_bases(self):
        return [b for b in self.mro if not isinstance(b, ClassInfo)]

    def __repr__(self):
        return '<class %s>' % self.name


HARMLESS_BASES = {'abc.ABC', 'typing.Generic', 'typing.Protocol', 'builtins.object', 'typing.NamedTuple', 'typing.TypedDict'}


class Cx:
    """dynamic context of one function activation"""
    __slots__ = ('mod', 'fn', 'fid', 'owner', 'ctx', 'returns', 'loops', 'globals', 'nonlocals', 'parent', 'callnode',
                 'yields', 'depth', 'selfv', 'keep')

    def __init__(self, mod, fn, fid, owner, ctx, parent, callnode):
        self.mod, self.fn, self.fid, self.owner, self.ctx, self.parent, self.callnode = mod, fn, fid, owner, ctx, parent, callnode
        self.returns, self.loops, self.globals, self.nonlocals, self.yields = [], [], set(), set(), None
        self.depth = parent.depth + 1 if parent is not None else 0
        self.selfv = None
        self.keep = False

    def qual(self):
        n = self.fn.name if self.fn is not None else '<module>'
        if self.owner is not None:
            n = self.owner.name + '.' + n
        return n

    def chain(self):
        out, c = [], self
        while c is not None:
            if c.fn is not None:
                out.append(c.qual())
            c = c.parent
        return list(reversed(out))


class Listener:
    def on(self, kind, **kw):
        m = getattr(self, 'on_' + kind, None)
        if m is not None:
            m(**kw)


MAX_DEPTH = 42
MAX_REC = 3
UNROLL = 14

_BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
        ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
        ast.LShift: 'lshift', ast.RShift: 'rshift'}
COMM = {'add', 'mul', 'and', 'or', 'xor', 'eq', 'ne'}


def pybin(op, a, b):
    import operator as o
    f = {'add': o.add, 'sub': o.sub, 'mul': o.mul, 'div': o.truediv, 'floordiv': o.floordiv, 'mod': o.mod,
         'pow': o.pow, 'and': o.and_, 'or': o.or_, 'xor': o.xor, 'lshift': o.lshift, 'rshift': o.rshift,
         'lt': o.lt, 'le': o.le, 'eq': o.eq, 'ne': o.ne}[op]
    if op == 'pow' and isinstance(b, (int, float)) and abs(b) > 64:
        raise ValueError
    if op in ('mul', 'lshift') and (isinstance(a, (str, tuple)) or isinstance(b, (str, tuple))):
        n = b if isinstance(a, (str, tuple)) else a
        if not isinstance(n, int) or n > 100:
            raise ValueError
    return f(a, b)


class Interp:
    def __init__(self, program, listeners=(), budget=3000000):
        from .ext import Ext_
        self.aug_info = None
        self.p = program
        self.listeners = list(listeners)
        self.holds = []
        self.base_frames, self.base_heap = {}, {}
        self.parent_frame = {}
        self.fn_defaults = {}
        self.frame_mod = {}
        self.frame_kind = {}
        self.ctx_tab = {}
        self.exc = [[]]
        self.snaps = []
        self.steps = 0
        self.budget = budget
        self.loaded = set()
        self.classes = {}
        self.fn_stack = []
        self.last_ret = None
        self.keep_frames = set()
        self.iter_path = []
        self.cur = None
        self.visited = set()
        self.visited_stmts = set()
        self.term_shapes = {}
        self.recur = {}
        self.wholes = {}
        self.domain = {}
        self.ext = Ext_(self)
        self.gname = {}

    # ------------------------------------------------------------- bookkeeping
    HARD = frozenset(('attrerror', 'noneattr', 'keyerror', 'notcallable', 'badcall', 'misuse', 'oob', 'badop'))

    def emit(self, kind, **kw):
        if kind in self.HARD and self.holds:
            nd = kw.get('node')
            for h in self.holds:
                if h[0] is nd:
                    h[1].append((kind, kw))
                    return
        for l in self.listeners:
            l.on(kind, **kw)

    def alternatives(self, items, node, f):
        """f over the alternatives of a value; an error is reported only if every alternative leads to one"""
        if len(items) == 1:
            v = f(*items[0])
            return [] if v is None else [v]
        out, h = [], (node, [])
        self.holds.append(h)
        try:
            for it in items:
                try:
                    v = f(*it)
                except Dead:
                    v = None
                if v is not None:
                    out.append(v)
        finally:
            self.holds.pop()
        if not out:
            for kind, kw in h[1]:
                self.emit(kind, **kw)
        return out

    def ctxid(self, *key):
        r = self.ctx_tab.get(key)
        if r is None:
            r = self.ctx_tab[key] = len(self.ctx_tab) + 1
        return r

    def loc(self, node, cx):
        m = self.p.modules.get(cx.mod)
        return (m.rel if m else cx.mod, getattr(node, 'lineno', 0), cx.qual())

    # ------------------------------------------------------------- frames / heap
    def frame(self, st, fid):
        f = st.frames.get(fid)
        if f is None:
            f = self.base_frames.get(fid)
            if f is None:
                f = {}
        return f

    def wframe(self, st, fid):
        if fid in st.own:
            return st.frames[fid]
        f = dict(self.frame(st, fid))
        st.frames[fid] = f
        st.own.add(fid)
        return f

    def obj(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            o = self.base_heap.get(oid)
        return o

    def referenced(self, st, oid):
        def inv(v):
            for a, _ in v.alts:
                if isinstance(a, Ref) and a.oid == oid:
                    return True
                if isinstance(a, Tup) and any(inv(e) for e in a.elts):
                    return True
                if isinstance(a, Bound) and isinstance(a.self_, V) and inv(a.self_):
                    return True
            return False
        for f in st.frames.values():
            for v in f.values():
                if inv(v):
                    return True
        for o in st.heap.values():
            for v in (o.elts or ()):
                if inv(v):
                    return True
            if o.elem is not None and inv(o.elem):
                return True
            for d in (o.keys, o.fields):
                if d:
                    for v in d.values():
                        if inv(v):
                            return True
        return False

    def alloc(self, st, obj, node, cx, k=0):
        oid = ('o', id(node) if node is not None else 0, cx.ctx, k, tuple(self.iter_path))
        old = self.obj(st, oid)
        if old is not None and self.referenced(st, oid):
            obj = join_obj(old, obj).rep(summary=True)
        st.heap[oid] = obj
        return mk(Ref(oid), T('ref', oid) if not obj.summary else None)

    def fresh_root(self, node, cx, k=0):
        return ('a', id(node), cx.ctx, k)

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        s = State()
        s.facets = a.facets if a.facets is b.facets else {k: a.facets.get(k, frozenset()) | b.facets.get(k, frozenset())
                                                         for k in set(a.facets) | set(b.facets)}
        if a.facts is b.facts:
            s.facts = a.facts
        else:
            s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        fr = {}
        for fid, fa in a.frames.items():
            fb = b.frames.get(fid)
            if fb is None:
                fb = self.base_frames.get(fid)
            if fb is None or fa is fb:
                fr[fid] = fa
            else:
                fr[fid] = join_dict(fa, fb)
        for fid, fb in b.frames.items():
            if fid not in fr:
                fa = self.base_frames.get(fid)
                fr[fid] = fb if fa is None or fa is fb else join_dict(fa, fb)
        s.frames = fr
        hp = {}
        for oid, oa in a.heap.items():
            ob = b.heap.get(oid)
            if ob is None:
                ob = self.base_heap.get(oid)
            hp[oid] = oa if ob is None or ob is oa else join_obj(oa, ob)
        for oid, ob in b.heap.items():
            if oid not in hp:
                oa = self.base_heap.get(oid)
                hp[oid] = ob if oa is None or oa is ob else join_obj(oa, ob)
        s.heap = hp
        a.own = set()
        b.own = set()
        return s

    def join_list(self, states):
        r = None
        for s in states:
            r = s if r is None else self.join(r, s)
        return r

    # ------------------------------------------------------------- loading
    def load_all(self):
        st = State()
        for name in sorted(self.p.modules, key=lambda n: (n.count('.'), n)):
            self.load_module(name, st)
        self.base_frames = st.frames
        self.base_heap = st.heap
        self.base_facets = st.facets
        return st

    def new_state(self):
        s = State()
        return s

    def load_module(self, name, st):
        if name in self.loaded or name not in self.p.modules:
            return
        parts = name.split('.')
        for i in range(1, len(parts)):
            self.load_module('.'.join(parts[:i]), st)
        if name in self.loaded:
            return
        self.loaded.add(name)
        m = self.p.modules[name]
        fid = ('mod', name)
        st.frames[fid] = {'__name__': const(name), '__file__': mk(StrA()), '__doc__': NONE}
        st.own.add(fid)
        self.frame_mod[fid] = name
        self.frame_kind[fid] = 'mod'
        cx = Cx(name, None, fid, None, self.ctxid('mod', name), None, None)
        self.exc.append([])
        try:
            r = self.exec_block(m.tree.body, st, cx)
            if r is not None and r is not st:
                st.assign(r)
        finally:
            self.exc.pop()

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, st, cx):
        for s in stmts:
            if st is None:
                return None
            st = self.exec_stmt(s, st, cx)
        return st

    def exec_stmt(self, s, st, cx):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        self.visited_stmts.add(s)
        m = getattr(self, 's_' + type(s).__name__, None)
        try:
            if m is None:
                for e in ast.iter_child_nodes(s):
                    if isinstance(e, ast.expr):
                        self.eval(e, st, cx)
                return st
            return m(s, st, cx)
        except Dead:
            return None

    def s_Expr(self, s, st, cx):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st, cx)
        return st

    def s_Pass(self, s, st, cx):
        return st

    def s_Assign(self, s, st, cx):
        v = self.eval(s.value, st, cx)
        for t in s.targets:
            self.store(t, v, st, cx, s)
        return st

    def s_AnnAssign(self, s, st, cx):
        if cx.fn is None and isinstance(s.target, ast.Name) and self.frame_kind.get(cx.fid) == 'cls':
            f = self.wframe(st, cx.fid)
            f.setdefault('__annfields__', V(()))
            self.ann_fields.setdefault(cx.fid, []).append((s.target.id, s.value is not None))
        ctype = s.annotation.value if isinstance(s.annotation, ast.Constant) and isinstance(s.annotation.value, str) \
            and s.annotation.value.startswith('c:') else None
        if s.value is None:
            if ctype is not None and isinstance(s.target, ast.Name):
                self.store(s.target, self.ctype_value(ctype[2:], None, s, cx), st, cx, s)
            return st
        v = self.eval(s.value, st, cx)
        if ctype is not None:
            v = self.ctype_value(ctype[2:], v, s, cx)
        self.store(s.target, v, st, cx, s)
        return st

    def ctype_value(self, ct, v, node, cx):
        """coerce a value on assignment to a C variable"""
        base = ct.replace('const ', '').strip()
        if '[' in base:
            el = base.split('[')[0]
            nd = base.count(':') or (int(base.split('ndim=')[1].split(']')[0] or 1) if 'ndim=' in base else None)
            dt = 'f' if ('double' in el or 'float' in el) else ('i' if 'int' in el or 'long' in el else 'o')
            if 'ndarray' in el:
                dt = 'f' if 'float64' in base or 'double' in base else 'o'
            if v is None:
                return mk(Opq())
            alts = set()
            for a, t in v.alts:
                if isinstance(a, Arr):
                    sh = a.shape if a.shape is not None and (nd is None or len(a.shape) == nd) else ((None,) * nd if nd else None)
                    alts.add((a.rep(dtype=dt if dt != 'o' else a.dtype, shape=sh), t))
                elif isinstance(a, Opq):
                    alts.add((Arr('ndarray', a.roots or {self.fresh_root(node, cx)}, dt, (None,) * nd if nd else None), t))
                else:
                    alts.add((a, t))
            return V(alts, v.deps)
        if base in ('double', 'float', 'long double', 'cnp.npy_float64'):
            if v is None:
                return mk(Num('float'))
            return self.as_num(v, 'float')
        if base in ('int', 'long', 'Py_ssize_t', 'size_t', 'unsigned int', 'int64_t', 'long long', 'unsigned long', 'short'):
            if v is None:
                return mk(Num('int'))
            return self.as_num(v, 'int')
        if base in ('bint', 'bool'):
            if v is None:
                return BOOL
            return v
        return v if v is not None else mk(Opq())

    def as_num(self, v, kind):
        alts = set()
        for a, t in v.alts:
            if isinstance(a, Const) and isinstance(a.v, (int, float)):
                c = float(a.v) if kind == 'float' else (a.v if isinstance(a.v, int) else None)
                if c is None:
                    alts.add((Num('int'), TT('int', t)))
                else:
                    alts.add((Const(c), cterm(c)))
            elif kind == 'int' and isinstance(a, Num) and a.kind not in ('int', 'bool'):
                alts.add((Num('int'), TT('int', t)))
            elif isinstance(a, Num) and a.kind == kind:
                alts.add((a, t))
            else:
                alts.add((Num(kind), t))
        return V(alts, v.deps)

    def s_AugAssign(self, s, st, cx):
        op = _BIN[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st, cx)
            rhs = self.eval(s.value, st, cx)
            res = self.inplace(cur, op, rhs, s, st, cx, target=t.id)
            self.store(t, res, st, cx, s, aug=True)
            return st
        if isinstance(t, ast.Attribute):
            base = self.eval(t.value, st, cx)
            cur = self.get_attr(base, t.attr, st, t, cx)
            rhs = self.eval(s.value, st, cx)
            res = self.inplace(cur, op, rhs, s, st, cx, target=t.attr)
            self.set_attr(base, t.attr, res, st, s, cx, aug=True)
            return st
        if isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, cx)
            idx = self.eval_index(t.slice, st, cx)
            cur = self.get_item(base, idx, st, t, cx)
            rhs = self.eval(s.value, st, cx)
            if all(isinstance(a, (Arr, Num, Const)) for a, _ in base.alts) and base.alts:
                res = self.binop(op, cur, rhs, s, st, cx)
            else:
                res = self.inplace(cur, op, rhs, s, st, cx, target=None)
            self.aug_info = (op, rhs)
            try:
                self.set_item(base, idx, res, st, s, cx, base_expr=t.value)
            finally:
                self.aug_info = None
            return st
        return st

    def inplace(self, cur, op, rhs, node, st, cx, target):
        out = []
        for a, t in list(cur.alts):
            if isinstance(a, Arr):
                self.mutate(V(((a, t),), cur.deps), 'augmented assignment', st, node, cx)
                nd = a.dtype
                if a.dtype == 'u' and op != 'div':
                    self.emit('store', arr=a, value=rhs, how='augmented assignment', st=st, node=node, cx=cx)
                if a.dtype in ('u', 'i') and op == 'div':
                    self.emit('store', arr=a, value=mk(Num('float')), how='in-place division', st=st, node=node, cx=cx)
                r = self.binop(op, V(((a, t),), cur.deps), rhs, node, st, cx)
                ra = r.single()
                sh = ra.shape if isinstance(ra, Arr) else a.shape
                out.append(V(((a.rep(shape=a.shape if a.shape is not None else sh, dtype=nd), r.term()),), r.deps))
            elif isinstance(a, Ref) and self.obj(st, a.oid) is not None and self.obj(st, a.oid).kind in ('list', 'set', 'dict') \
                    and op in ('add', 'or', 'and', 'sub', 'mul'):
                self.ext.method(a, t, 'extend' if op == 'add' else 'update', [rhs], {}, st, node, cx)
                out.append(V(((a, t),), cur.deps))
            elif isinstance(a, Opq) and a.roots and a.hint in ('list', 'dict', 'ndarray', 'array'):
                self.mutate(V(((a, t),), cur.deps), 'augmented assignment', st, node, cx)
                out.append(V(((a, None),), cur.deps | rhs.deps))
            else:
                out.append(self.binop(op, V(((a, t),), cur.deps), rhs, node, st, cx))
        return joinall(out) if out else BOT

    def s_If(self, s, st, cx):
        t, f = self.cond(s.test, st, cx)
        a = self.exec_block(s.body, t, cx) if t is not None else None
        b = self.exec_block(s.orelse, f, cx) if f is not None else None
        if t is not None and f is not None and a is not None and b is not None:
            return self.join(a, b)
        return a if a is not None else b

    def s_Return(self, s, st, cx):
        v = self.eval(s.value, st, cx) if s.value is not None else NONE
        cx.returns.append((v, st, s))
        return None

    def s_Raise(self, s, st, cx):
        if s.exc is not None:
            v = self.eval(s.exc, st, cx)
            if s.cause is not None:
                self.eval(s.cause, st, cx)
        else:
            v = self.frame(st, cx.fid).get('$exc', mk(Opq()))
        self.do_raise(v, st, s, cx)
        return None

    def do_raise(self, v, st, node, cx):
        self.emit('raise', value=v, st=st, node=node, cx=cx)
        self.exc[-1].append((v, st.copy(), node, cx))

    def raise_ext(self, name, st, node, cx):
        self.do_raise(mk(Ext('builtins.' + name)), st, node, cx)

    def s_Assert(self, s, st, cx):
        t, f = self.cond(s.test, st, cx)
        if f is not None:
            self.do_raise(mk(Ext('builtins.AssertionError')), f, s, cx)
        return t

    def s_Delete(self, s, st, cx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f = self.wframe(st, cx.fid)
                f.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, cx)
                i = self.eval_index(t.slice, st, cx)
                self.del_item(b, i, st, s, cx)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st, cx)
                self.set_attr(b, t.attr, mk(Opq()), st, s, cx)
        return st

    def del_item(self, b, i, st, node, cx):
        self.mutate(b, 'item deletion', st, node, cx)
        for a, _ in b.alts:
            if isinstance(a, Ref):
                o = self.obj(st, a.oid)
                if o is None:
                    continue
                if o.kind == 'dict':
                    ok, k = i.const()
                    if ok and o.keys and k in o.keys and not o.summary:
                        ks = dict(o.keys)
                        del ks[k]
                        st.heap[a.oid] = o.rep(keys=ks)
                elif o.kind == 'list':
                    st.heap[a.oid] = o.rep(elts=None, elem=o.all_elem())

    def s_Global(self, s, st, cx):
        cx.globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st, cx):
        cx.nonlocals.update(s.names)
        return st

    def s_Break(self, s, st, cx):
        if cx.loops:
            cx.loops[-1]['break'].append(st)
        return None

    def s_Continue(self, s, st, cx):
        if cx.loops:
            cx.loops[-1]['cont'].append(st)
        return None

    # ---- loops
    def strip_terms(self, st, mark):
        """forget the value numbers which mention a loop marker"""
        if mark not in Term._made:
            return

        def fix(v):
            if v is None or mark not in v.loops():
                return v
            alts = []
            for a, t in v.alts:
                if t is not None and mark in t.loops:
                    alts.append((a, None))
                elif isinstance(a, Tup):
                    e2 = tuple(fix(e) for e in a.elts)
                    if any(x is not y for x, y in zip(e2, a.elts)):
                        alts.append((Tup(e2), None))
                    else:
                        alts.append((a, t))
                else:
                    alts.append((a, t))
            return V(alts, v.deps)

        for fid in list(st.frames):
            f = st.frames[fid]
            nf = None
            for k, v in f.items():
                if mark in v.loops():
                    nf = nf if nf is not None else dict(f)
                    nf[k] = fix(v)
            if nf is not None:
                st.frames[fid] = nf
        for oid in list(st.heap):
            o = st.heap[oid]
            kw = {}
            if o.elts and any(mark in e.loops() for e in o.elts):
                kw['elts'] = tuple(fix(e) for e in o.elts)
            if o.elem is not None and mark in o.elem.loops():
                kw['elem'] = fix(o.elem)
            if o.keys and any(mark in e.loops() for e in o.keys.values()):
                kw['keys'] = {k: fix(v) for k, v in o.keys.items()}
            if o.fields and any(mark in e.loops() for e in o.fields.values()):
                kw['fields'] = {k: fix(v) for k, v in o.fields.items()}
            if kw:
                st.heap[oid] = o.rep(**kw)
        if st.facts:
            st.facts = {k: v for k, v in st.facts.items() if mark not in k.loops}
        st.own = set()

    def loop(self, s, st, cx, body, test=None, bind=None, key=None):
        """generic fixpoint. body: statements; test: expr (while) or None; bind(st): bind loop targets."""
        lid = ('loop', id(s), cx.ctx, tuple(self.iter_path))
        self.strip_terms(st, ('phi', lid))
        head = st
        exits = []
        for it in range(6):
            exits = []
            cur = head.copy()
            rec = {'break': [], 'cont': []}
            cx.loops.append(rec)
            nexc = len(self.exc[-1])
            out = None
            after = None
            try:
                if test is not None:
                    tt, ff = self.cond(test, cur, cx)
                else:
                    ff = cur.copy()
                    tt = cur
                    try:
                        bind(tt)
                    except Dead:
                        tt = None
                if ff is not None:
                    after = ff
                if tt is not None:
                    out = self.exec_block(body, tt, cx)
            finally:
                cx.loops.pop()
            back = self.join_list([x for x in [out] + rec['cont'] if x is not None])
            exits = rec['break']
            if back is None:
                break
            nxt, changed = self.widen(head, back, lid, it)
            if not changed:
                self.recurrences(st, head, back, lid)
                break
            head = nxt
            if it < 5:
                # discard raises recorded in the non-final pass: they are re-recorded
                pass
        return after, exits

    def recurrences(self, entry, head, back, lid):
        """what the loop does to the variables it changes: phi -> (value at entry, value at the end of an iteration)"""
        for fid, fr in head.frames.items():
            for k, v in fr.items():
                t = v.term()
                if t is not None and t.op == 'phi' and t.args[0] == lid:
                    e, b = entry.frames.get(fid), back.frames.get(fid)
                    if e is None or b is None or k not in e or k not in b:
                        continue
                    r = (e[k].term(), b[k].term())
                    self.recur[t] = r if self.recur.get(t, r) == r else (None, None)

    def widen(self, head, back, lid, it):
        back = back.copy()
        self.strip_terms(back, ('it', lid))
        # phi for locals which differ
        changed = False
        res = self.join(head, back)
        phis = []
        for fid in list(res.frames):
            fh = head.frames.get(fid, self.base_frames.get(fid))
            fr = res.frames[fid]
            if fh is fr:
                continue
            nf = None
            for k, v in fr.items():
                h = fh.get(k) if fh is not None else None
                if h is not None and h == v:
                    continue
                if h is None:
                    continue
                w = self.widen_val(h, v, T('phi', lid, (fid, k).__repr__()), it)
                if w != h:
                    changed = True
                if w is not v:
                    nf = nf if nf is not None else dict(fr)
                    nf[k] = w
            if nf is not None:
                res.frames[fid] = nf
        for oid in list(res.heap):
            oh = head.heap.get(oid, self.base_heap.get(oid))
            o = res.heap[oid]
            if oh is None:
                continue
            if oh is o or oh == o:
                continue
            n = o
            if o.fields and oh.fields:
                fs = dict(o.fields)
                for k, v in o.fields.items():
                    h = oh.fields.get(k)
                    if h is None or h == v:
                        continue
                    fs[k] = self.widen_val(h, v, None, it)
                n = n.rep(fields=fs)
            if o.keys and oh.keys:
                ks = dict(o.keys)
                for k, v in o.keys.items():
                    h = oh.keys.get(k)
                    if h is None or h == v:
                        continue
                    ks[k] = self.widen_val(h, v, None, it)
                n = n.rep(keys=ks)
            if o.elem is not None and oh.elem is not None and o.elem != oh.elem:
                n = n.rep(elem=self.widen_val(oh.elem, o.elem, None, it))
            elif o.elem is not None and oh.elem is None:
                n = n.rep(elem=self.widen_val(o.elem, o.elem, None, 1))
            if o.elts is not None and oh.elts is not None and len(o.elts) == len(oh.elts):
                n = n.rep(elts=tuple(self.widen_val(x, y, None, it) if x != y else y for x, y in zip(oh.elts, o.elts)))
            res.heap[oid] = n
            if n != oh:
                changed = True
        if res.facets != head.facets:
            changed = True
        # value numbers of the previous iteration are stale everywhere but in the phi variables themselves
        if changed:
            pid = lid

            keep = {}
            for fid, fr in res.frames.items():
                for k, v in fr.items():
                    t = v.term()
                    if t is not None and t.op == 'phi' and t.args[0] == pid and t.args[1] == (fid, k).__repr__():
                        keep[(fid, k)] = v
            self.strip_terms(res, ('phi', pid))
            for (fid, k), v in keep.items():
                f = dict(res.frames[fid])
                f[k] = v
                res.frames[fid] = f
            res.own = set()
        return res, changed

    def widen_val(self, h, v, phi, it):
        """drop value numbers (or introduce a phi), and constants growing in the loop"""
        vs = {a for a, _ in v.alts}
        consts = [a for a in vs if isinstance(a, Const) and isinstance(a.v, (int, float)) and not isinstance(a.v, bool)]
        if len(consts) > 1 and it >= 1:
            vs = (vs - set(consts)) | {Num('float' if any(isinstance(c.v, float) for c in consts) else 'int')}
        out = []
        for a in vs:
            if isinstance(a, Const):
                out.append((a, cterm(a.v) if phi is None or len(vs) == 1 else None))
            elif isinstance(a, Ref):
                out.append((a, T('ref', a.oid) if len(vs) == 1 else None))
            elif isinstance(a, Tup):
                out.append((a, None))
            elif isinstance(a, Arr):
                out.append((a, phi if len(vs) == 1 else None))
            else:
                out.append((a, phi if len(vs) == 1 else None))
        # arrays with the same class merge
        arrs = [a for a, _ in out if isinstance(a, Arr)]
        if len(arrs) > 1:
            byc = {}
            for a in arrs:
                b = byc.get(a.cls)
                if b is None:
                    byc[a.cls] = a
                else:
                    sh = a.shape if a.shape == b.shape else (
                        tuple(x if x == y else None for x, y in zip(a.shape, b.shape))
                        if a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape) else None)
                    byc[a.cls] = Arr(a.cls, a.roots | b.roots, a.dtype if a.dtype == b.dtype else 'o', sh)
            rest = [x for x in out if not isinstance(x[0], Arr)]
            out = rest + [(b, phi if not rest and len(byc) == 1 else None) for b in byc.values()]
        return V(out, h.deps | v.deps)

    def s_While(self, s, st, cx):
        after, breaks = self.loop(s, st, cx, s.body, test=s.test)
        if s.orelse and after is not None:
            after = self.exec_block(s.orelse, after, cx)
        return self.join_list([x for x in [after] + breaks if x is not None])

    def s_For(self, s, st, cx):
        itv = self.eval(s.iter, st, cx)
        exact, elem, empty = self.iterate(itv, st, s.iter, cx)
        if exact is not None and len(exact) <= UNROLL:
            breaks = []
            cur = st
            for k, e in enumerate(exact):
                rec = {'break': [], 'cont': []}
                cx.loops.append(rec)
                self.iter_path.append((id(s), k))
                try:
                    try:
                        self.store(s.target, e, cur, cx, s)
                    except Dead:
                        cur = None
                    else:
                        cur = self.exec_block(s.body, cur, cx)
                finally:
                    cx.loops.pop()
                    self.iter_path.pop()
                breaks += rec['break']
                cur = self.join_list([x for x in [cur] + rec['cont'] if x is not None])
                if cur is None:
                    break
            if s.orelse and cur is not None:
                cur = self.exec_block(s.orelse, cur, cx)
            return self.join_list([x for x in [cur] + breaks if x is not None])
        lid = ('loop', id(s), cx.ctx, tuple(self.iter_path))
        elem = self.iter_elem(elem, lid)

        def bind(x):
            self.store(s.target, elem, x, cx, s)
        after, breaks = self.loop(s, st, cx, s.body, bind=bind)
        if s.orelse and after is not None:
            after = self.exec_block(s.orelse, after, cx)
        return self.join_list([x for x in [after] + breaks if x is not None])

    def iter_elem(self, elem, lid, path=()):
        """give the loop element a per-iteration value number"""
        t = T('it', lid, repr(path))
        alts = []
        single = len(elem.alts) == 1
        for a, _ in elem.alts:
            if isinstance(a, Tup):
                alts.append((Tup(tuple(self.iter_elem(e, lid, path + (i,)) for i, e in enumerate(a.elts))), None))
            elif isinstance(a, Const):
                alts.append((a, cterm(a.v)))
            elif isinstance(a, Ref):
                alts.append((a, None))
            else:
                alts.append((a, t if single else None))
        return V(alts, elem.deps)

    def iterate(self, v, st, node, cx):
        """(exact element list | None, summary element, maybe_empty)"""
        exact, elem = None, None
        if len(v.alts) == 1:
            a, t = next(iter(v.alts))
            exact = self.exact_elems(a, st)
            if exact is not None:
                exact = [e.with_deps(v.deps) for e in exact]
                return exact, joinall(exact) if exact else ANY, not exact
        es = []
        for a, t in v.alts:
            es.append(self.elem_of(a, t, st, node, cx))
        elem = joinall(es) if es else ANY
        some = bool(v.alts) and all(isinstance(a, Arr) and a.shape and (isinstance(a.shape[0], int) and a.shape[0] > 0 or
                                  isinstance(a.shape[0], Term) and a.shape[0].op == 'sym' and str(a.shape[0].args[0])[:2] in ('n:', 'd:')) for a in v.atoms())
        return None, elem.with_deps(v.deps), not some

    def exact_elems(self, a, st):
        if isinstance(a, Tup):
            return list(a.elts)
        if isinstance(a, Const) and isinstance(a.v, str):
            return [const(c) for c in a.v]
        if isinstance(a, Const) and isinstance(a.v, tuple):
            return [const(c) for c in a.v]
        if isinstance(a, Ref):
            o = self.obj(st, a.oid)
            if o is None:
                return None
            if o.kind in ('list', 'iter', 'set') and o.elts is not None and o.elem is None:
                return list(o.elts)
            if o.kind == 'dict' and o.exact and o.elem is None:
                return [const(k) for k in (o.keys or {})]
            if o.kind == 'inst' and o.cls is not None and o.cls.nt_fields:
                return [o.fields.get(f, ANY) for f in o.cls.nt_fields]
        return None

    def elem_of(self, a, t, st, node, cx):
        ex = self.exact_elems(a, st)
        if ex is not None:
            return joinall(ex) if ex else ANY
        if isinstance(a, Ref):
            o = self.obj(st, a.oid)
            if o is not None and o.kind in ('list', 'set', 'iter'):
                return o.all_elem() or ANY
            if o is not None and o.kind == 'dict':
                ks = [const(k) for k in (o.keys or {})]
                if not o.exact or o.elem is not None:
                    ks.append(mk(Opq()))
                return joinall(ks) if ks else ANY
            if o is not None and o.kind == 'inst' and o.cls is not None:
                m = self.lookup_cls(o.cls, '__iter__', st)
                if m is not None:
                    try:
                        r = self.call_atom(self.bind(m, mk(a, t), o.cls, st, node, cx), None, [], {}, st, node, cx)
                        return self.iterate(r, st, node, cx)[1]
                    except Dead:
                        return ANY
            return ANY
        if isinstance(a, Arr):
            if a.cls == 'DataFrame':
                return mk(StrA(), None, frozenset({'columns'}))
            if a.shape is not None and len(a.shape) == 1:
                return mk(Num('float' if a.dtype == 'f' else ('int' if a.dtype == 'i' else ('u' if a.dtype == 'u' else 'num'))), None)
            sh = a.shape[1:] if a.shape is not None else None
            return mk(Arr(a.cls, a.roots, a.dtype, sh), None)
        if isinstance(a, Opq):
            return mk(Opq(a.roots, a.hint[5:] if isinstance(a.hint, str) and a.hint.startswith('elem:') else None))
        return mk(Opq())

    # ---- try
    def s_Try(self, s, st, cx):
        col = []
        snaps = []
        out = None
        nret, nbrk = len(cx.returns), [(l, len(l['break']), len(l['cont'])) for l in cx.loops]
        pre = st.copy()
        self.exc.append(col)
        try:
            cur = st
            snaps.append(pre)
            for b in s.body:
                if cur is None:
                    break
                cur = self.exec_stmt(b, cur, cx)
                if cur is not None and s.handlers:
                    snaps.append(cur.copy())
            out = cur
        finally:
            self.exc.pop()
        pending = []  # raised and not handled
        results = []
        if s.handlers:
            todo = [(v, x, n, c, True) for v, x, n, c in col]
            imp = self.join_list(snaps)
            if imp is not None:
                todo.append((mk(Opq()), imp, s, cx, False))
            per = [[] for _ in s.handlers]
            for v, x, n, c, explicit in todo:
                handled = False
                for i, h in enumerate(s.handlers):
                    m = self.exc_match(v, h.type, x, cx) if h.type is not None else True
                    if m is True:
                        per[i].append((v, x))
                        handled = True
                        break
                    if m is None:
                        per[i].append((v, x.copy()))
                if not handled and explicit:
                    pending.append((v, x, n, c))
            for h, lst in zip(s.handlers, per):
                if not lst:
                    continue
                hs = self.join_list([x for _, x in lst]).copy()
                hv = joinall([v for v, _ in lst])
                f = self.wframe(hs, cx.fid)
                f['$exc'] = hv
                if h.name:
                    f[h.name] = hv
                if s.finalbody:
                    self.exc.append([])
                r = self.exec_block(h.body, hs, cx)
                if s.finalbody:
                    pending += self.exc.pop()
                if r is not None:
                    results.append(r)
        else:
            pending += col
        if out is not None and s.orelse:
            if s.finalbody:
                self.exc.append([])
            out = self.exec_block(s.orelse, out, cx)
            if s.finalbody:
                pending += self.exc.pop()
        if out is not None:
            results.append(out)
        res = self.join_list(results)
        if s.finalbody:
            if res is not None:
                res = self.exec_block(s.finalbody, res, cx)
            np_ = []
            for v, x, n, c in pending:
                y = self.exec_block(s.finalbody, x.copy(), cx)
                if y is not None:
                    np_.append((v, y, n, c))
            pending = np_
            new = cx.returns[nret:]
            del cx.returns[nret:]
            for v, x, n in new:
                y = self.exec_block(s.finalbody, x.copy(), cx)
                if y is not None:
                    cx.returns.append((v, y, n))
            for l, nb, nc in nbrk:
                for key, k in (('break', nb), ('cont', nc)):
                    items = l[key][k:]
                    del l[key][k:]
                    for x in items:
                        y = self.exec_block(s.finalbody, x.copy(), cx)
                        if y is not None:
                            l[key].append(y)
        self.exc[-1].extend(pending)
        return res

    s_TryStar = s_Try

    def exc_name(self, v, st):
        a = v.single()
        if isinstance(a, ClsA):
            return a.cls
        if isinstance(a, Ext):
            return a.name
        if isinstance(a, Ref):
            o = self.obj(st, a.oid)
            if o is not None and o.kind == 'inst':
                return o.cls or o.tag
        return None

    def exc_match(self, v, htype, st, cx):
        try:
            hv = self.eval(htype, st.copy(), cx)
        except Dead:
            return None
        hs = []
        a = hv.single()
        if isinstance(a, Tup):
            for e in a.elts:
                hs.append(self.exc_name(e, st))
        else:
            hs.append(self.exc_name(hv, st))
        n = self.exc_name(v, st)
        if n is None:
            return None
        unknown = False
        for h in hs:
            if h is None:
                unknown = True
                continue
            hn = h if isinstance(h, str) else None
            if hn is not None:
                hc = getattr(builtins, hn.split('.')[-1], None) if hn.startswith('builtins.') else None
                bases = [n] if isinstance(n, str) else [x if isinstance(x, str) else x.name for x in n.mro]
                for b in bases:
                    if b == hn:
                        return True
                    bc = getattr(builtins, b.split('.')[-1], None) if b.startswith('builtins.') else None
                    if isinstance(bc, type) and isinstance(hc, type):
                        if issubclass(bc, hc):
                            return True
                    elif isinstance(b, str) and not b.startswith('builtins.') and isinstance(n, str):
                        unknown = True
            else:
                if isinstance(n, ClassInfo) and h in n.mro:
                    return True
        return None if unknown else False

    def s_With(self, s, st, cx):
        ctxs = []
        for it in s.items:
            v = self.eval(it.context_expr, st, cx)
            nm = None
            a = v.single()
            if isinstance(a, Opq) and isinstance(a.hint, str) and a.hint.startswith('ext:'):
                nm = a.hint[4:]
            ctxs.append(nm)
            if nm == 'warnings.catch_warnings':
                st.set_facet('catchw', {'in'})
            elif nm == 'numpy.errstate':
                st.set_facet('errstate', {'in'})
            ent = v
            if isinstance(a, Ref):
                o = self.obj(st, a.oid)
                if o is not None and o.kind == 'inst' and o.cls is not None and self.lookup_cls(o.cls, '__enter__', st) is not None:
                    ent = self.call_value(self.get_attr(v, '__enter__', st, s, cx), [], {}, st, s, cx)
            if it.optional_vars is not None:
                self.store(it.optional_vars, ent, st, cx, s)
        r = self.exec_block(s.body, st, cx)
        if r is not None:
            for nm in ctxs:
                if nm == 'warnings.catch_warnings':
                    r.set_facet('catchw', {'out'})
                elif nm == 'numpy.errstate':
                    r.set_facet('errstate', {'out'})
            for it, nm in zip(s.items, ctxs):
                if nm is None:
                    pass
        return r

    def s_FunctionDef(self, s, st, cx):
        fn = self.make_fn(s, st, cx)
        v = mk(fn)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st, cx)
            v = self.decorate(dv, v, st, d, cx)
        self.wframe(st, cx.fid)[s.name] = v
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, s, st, cx, name=None):
        defaults = [self.eval(d, st, cx) for d in s.args.defaults]
        kwd = [self.eval(d, st, cx) if d is not None else None for d in s.args.kw_defaults]
        owner = self.classes.get(cx.fid) if self.frame_kind.get(cx.fid) == 'cls' else None
        fn = Fn(s, cx.mod, cx.fid, owner, name)
        self.fn_defaults[(id(s), cx.fid)] = (defaults, kwd)
        c = cx
        if self.frame_kind.get(cx.fid) == 'fn':
            self.keep_frames.add(cx.fid)
        return fn

    def decorate(self, dv, v, st, node, cx):
        a = dv.single()
        if isinstance(a, Ext):
            n = a.name
            if n in ('builtins.property', 'functools.cached_property', 'abc.abstractproperty'):
                return mk(Desc('property', v, None))
            if n in ('builtins.staticmethod', 'abc.abstractstaticmethod'):
                return mk(Desc('static', v))
            if n in ('builtins.classmethod', 'abc.abstractclassmethod'):
                return mk(Desc('class', v))
            if n == 'wrapt.decorator':
                return mk(Wrapt(v, None, None))
            if n in ('abc.abstractmethod', 'typing.overload', 'functools.lru_cache', 'functools.cache', 'typing.final',
                     'typing.runtime_checkable', 'numba.njit', 'numba.jit') or n.startswith(('cython', 'typing')):
                return v
            if n == 'dataclasses.dataclass':
                c = v.single()
                if isinstance(c, ClsA):
                    c.cls.dataclass = True
                return v
        if isinstance(a, Opq) and isinstance(a.hint, str) and a.hint.startswith('ext:functools.wraps'):
            return v
        if isinstance(a, Opq) and isinstance(a.hint, str) and a.hint.startswith('ext:dataclasses.dataclass'):
            c = v.single()
            if isinstance(c, ClsA):
                c.cls.dataclass = True
            return v
        if isinstance(a, Opq) and isinstance(a.hint, str) and a.hint.startswith('ext:'):
            return v
        try:
            return self.call_value(dv, [v], {}, st, node, cx)
        except Dead:
            return v

    ann_fields = {}

    def s_ClassDef(self, s, st, cx):
        bases = []
        for b in s.bases:
            v = self.eval(b, st, cx)
            a = v.single()
            if isinstance(a, ClsA):
                bases.append(a.cls)
            elif isinstance(a, Ext):
                bases.append(a.name)
            elif isinstance(a, Opq) and isinstance(a.hint, str) and a.hint.startswith('ext:'):
                bases.append(a.hint[4:])
            else:
                bases.append('?')
        fid = ('cls', id(s), cx.ctx)
        self.frame_kind[fid] = 'cls'
        self.frame_mod[fid] = cx.mod
        self.parent_frame[fid] = cx.fid
        st.frames[fid] = {}
        st.own.add(fid)
        ci = ClassInfo(s.name, cx.mod, s, bases, fid)
        self.classes[fid] = ci
        ccx = Cx(cx.mod, None, fid, ci, self.ctxid('cls', id(s), cx.ctx), cx, s)
        self.ann_fields = dict(self.ann_fields)
        r = self.exec_block(s.body, st, ccx)
        if r is None:
            return None
        st = r
        af = self.ann_fields.get(fid, [])
        if 'typing.NamedTuple' in bases:
            ci.nt_fields = [n for n, _ in af]
        if 'typing.TypedDict' in bases or ci.kind == 'typeddict':
            ci.kind = 'typeddict'
        if af:
            ci.annf = af
        v = mk(ClsA(ci))
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st, cx)
            v = self.decorate(dv, v, st, d, cx)
        self.wframe(st, cx.fid)[s.name] = v
        return st

    def s_Import(self, s, st, cx):
        for al in s.names:
            name = al.name
            top = name.split('.')[0]
            if name in self.p.modules or top == self.p.pkg:
                self.load_module(name, st)
                v = mk(ModA(name if al.asname else top))
            else:
                v = mk(Ext(self.ext.canon(name if al.asname else top)))
            self.wframe(st, cx.fid)[al.asname or top] = v
        return st

    def s_ImportFrom(self, s, st, cx):
        base = s.module or ''
        if s.level:
            m = self.p.modules[cx.mod]
            pk = cx.mod.split('.') if m.is_pkg else cx.mod.split('.')[:-1]
            if s.level > 1:
                pk = pk[:-(s.level - 1)]
            base = '.'.join(pk + ([base] if base else []))
        internal = base in self.p.modules or base.split('.')[0] == self.p.pkg
        if internal:
            self.load_module(base, st)
        for al in s.names:
            if al.name == '*':
                if internal and base in self.p.modules:
                    fr = self.frame(st, ('mod', base))
                    names = None
                    if '__all__' in fr:
                        ex = self.iterate(fr['__all__'], st, s, cx)[0]
                        if ex is not None:
                            names = [e.const()[1] for e in ex if e.const()[0]]
                    if names is None:
                        names = [n for n in fr if not n.startswith('_')]
                        self.p.modules[cx.mod].starext += self.p.modules[base].starext
                    w = self.wframe(st, cx.fid)
                    for n in names:
                        if n in fr:
                            w[n] = fr[n]
                elif not internal:
                    self.p.modules[cx.mod].starext.append(self.ext.canon(base))
                continue
            if internal:
                v = None
                if base in self.p.modules:
                    fr = self.frame(st, ('mod', base))
                    v = fr.get(al.name)
                    if v is None and (base + '.' + al.name) in self.p.modules:
                        self.load_module(base + '.' + al.name, st)
                        v = mk(ModA(base + '.' + al.name))
                    if v is None:
                        for x in self.p.modules[base].starext:
                            v = mk(Ext(self.ext.canon(x + '.' + al.name)))
                            break
                if v is None:
                    v = mk(Ext(base + '.' + al.name))
            else:
                v = self.ext.ext_value(self.ext.canon(base + '.' + al.name))
            self.wframe(st, cx.fid)[al.asname or al.name] = v
        return st

    def s_Match(self, s, st, cx):
        subj = self.eval(s.subject, st, cx)
        tmp = '$match%d' % id(s)
        self.wframe(st, cx.fid)[tmp] = subj
        name = ast.copy_location(ast.Name(id=tmp, ctx=ast.Load()), s)
        cur, outs = st, []

        def pat(p):
            if isinstance(p, ast.MatchValue):
                return ast.copy_location(ast.Compare(left=name, ops=[ast.Eq()], comparators=[p.value]), s)
            if isinstance(p, ast.MatchSingleton):
                return ast.copy_location(ast.Compare(left=name, ops=[ast.Is()],
                                                     comparators=[ast.copy_location(ast.Constant(p.value), s)]), s)
            if isinstance(p, ast.MatchOr):
                return ast.copy_location(ast.BoolOp(op=ast.Or(), values=[pat(q) for q in p.patterns]), s)
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                return ast.copy_location(ast.Constant(True), s)
            if isinstance(p, ast.MatchAs):
                return pat(p.pattern)
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id='isinstance', ctx=ast.Load()), s),
                                                  args=[name, p.cls], keywords=[]), s)
            return None
        for c in s.cases:
            if cur is None:
                break
            test = pat(c.pattern)
            if test is None:
                t, f = cur.copy(), cur
                for n in ast.walk(c.pattern):
                    nm = getattr(n, 'name', None)
                    if isinstance(nm, str):
                        self.wframe(t, cx.fid)[nm] = ANY
            else:
                t, f = self.cond(test, cur, cx)
                if t is not None:
                    for n in ast.walk(c.pattern):
                        nm = getattr(n, 'name', None)
                        if isinstance(n, ast.MatchAs) and isinstance(nm, str):
                            self.wframe(t, cx.fid)[nm] = self.frame(t, cx.fid).get(tmp, subj)
            if t is not None and c.guard is not None:
                t, g = self.cond(c.guard, t, cx)
                f = self.join(f, g) if f is not None and g is not None else (f or g)
            if t is not None:
                r = self.exec_block(c.body, t, cx)
                if r is not None:
                    outs.append(r)
            cur = f
        return self.join_list([x for x in outs + [cur] if x is not None])

    # ------------------------------------------------------------- storing
    def store(self, t, v, st, cx, node, aug=False):
        if isinstance(t, ast.Name):
            if t.id in cx.globals:
                fid = ('mod', cx.mod)
                self.emit('globset', name=cx.mod + '.' + t.id, st=st, node=node, cx=cx, value=v)
                self.wframe(st, fid)[t.id] = v
                return
            if t.id in cx.nonlocals:
                fid = self.parent_frame.get(cx.fid)
                while fid is not None and t.id not in self.frame(st, fid):
                    fid = self.parent_frame.get(fid)
                if fid is not None:
                    self.wframe(st, fid)[t.id] = v
                    return
            self.wframe(st, cx.fid)[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, cx)
            self.set_attr(b, t.attr, v, st, node, cx)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, cx)
            i = self.eval_index(t.slice, st, cx)
            self.set_item(b, i, v, st, node, cx, base_expr=t.value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, cx, node)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, st, cx, node)

    def unpack(self, elts, v, st, cx, node):
        n = len(elts)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        cols = [[] for _ in range(n)]
        for a, t in v.alts:
            ex = self.exact_elems(a, st)
            if ex is not None:
                if star is None:
                    if len(ex) != n:
                        continue
                    for i, e in enumerate(ex):
                        cols[i].append(e)
                else:
                    if len(ex) < n - 1:
                        continue
                    k = len(ex) - (n - 1)
                    for i in range(star):
                        cols[i].append(ex[i])
                    cols[star].append(self.alloc(st, Obj('list', elts=tuple(ex[star:star + k])), elts[star], cx, 'star'))
                    for i in range(star + 1, n):
                        cols[i].append(ex[i + k - 1])
                continue
            if isinstance(a, Arr) and a.shape is not None and len(a.shape) == 1 and isinstance(a.shape[0], int) and a.shape[0] != n and star is None:
                continue
            for i in range(n):
                cols[i].append(self.ext.arr_item_at(a, t, i, st, node, cx) if isinstance(a, (Arr, Opq)) else
                               self.elem_of(a, t, st, node, cx))
        if any(not c for c in cols):
            self.raise_ext('ValueError', st, node, cx)
            raise Dead()
        for e, c in zip(elts, cols):
            self.store(e, joinall(c).with_deps(v.deps), st, cx, node)

    # ------------------------------------------------------------- attribute store / item store
    def set_attr(self, b, attr, v, st, node, cx, aug=False):
        live = 0
        for a, t in b.alts:
            if isinstance(a, Ref):
                o = self.obj(st, a.oid)
                if o is None:
                    live += 1
                    continue
                if o.kind == 'inst':
                    d = self.lookup_cls(o.cls, attr, st) if o.cls is not None else None
                    da = d.single() if d is not None else None
                    if isinstance(da, Desc) and da.kind == 'property':
                        live += 1
                        if da.set is None:
                            self.raise_ext('AttributeError', st, node, cx)
                            if len(b.alts) == 1:
                                raise Dead()
                            continue
                        self.call_value(da.set, [mk(a, t), v], {}, st, node, cx)
                        continue
                    live += 1
                    self.emit('setattr', oid=a.oid, obj=o, attr=attr, value=v, st=st, node=node, cx=cx, aug=aug)
                    fs = dict(o.fields or {})
                    if len(b.alts) == 1 and not o.summary:
                        fs[attr] = v
                    else:
                        fs[attr] = joinv(fs[attr], v) if attr in fs else v
                    st.heap[a.oid] = o.rep(fields=fs)
                else:
                    live += 1
            elif isinstance(a, (ModA,)):
                live += 1
                self.emit('globset', name=a.name + '.' + attr, st=st, node=node, cx=cx, value=v)
                self.wframe(st, ('mod', a.name))[attr] = v
            elif isinstance(a, ClsA):
                live += 1
                self.emit('globset', name=a.cls.name + '.' + attr, st=st, node=node, cx=cx, value=v)
                self.wframe(st, a.cls.fid)[attr] = v
            elif isinstance(a, Ext):
                live += 1
                self.emit('globset', name=a.name + '.' + attr, st=st, node=node, cx=cx, value=v)
            elif isinstance(a, Arr):
                live += 1
                self.mutate(mk(a, t, b.deps), 'attribute %s assigned' % attr, st, node, cx)
            elif isinstance(a, Opq):
                live += 1
                if a.roots:
                    self.mutate(mk(a, t, b.deps), 'attribute %s assigned' % attr, st, node, cx)
            elif isinstance(a, (Fn, Bound, Wrapt)):
                live += 1
            elif isinstance(a, Const) and a.v is None:
                self.raise_ext('AttributeError', st, node, cx)
            else:
                live += 1
        if not live:
            raise Dead()

    def set_item(self, b, i, v, st, node, cx, base_expr=None):
        live = 0
        for a, t in b.alts:
            if isinstance(a, Arr):
                if a.cls != 'ndarray':
                    parts = self.ext.idx_parts(i)
                    if self.ext.frame_misuse(a, parts, [self.ext.idx_kind(p, st) for p in parts], st, node, cx):
                        continue
                live += 1
                self.emit('store', arr=a, value=v, how='item assignment', st=st, node=node, cx=cx, aug=self.aug_info)
                nt = TT('setitem', t, i.term(), v.term())
                self.mutate(mk(a, t, b.deps), 'item assignment', st, node, cx, newterm=nt, add_deps=v.deps | i.deps)
            elif isinstance(a, Ref):
                o = self.obj(st, a.oid)
                live += 1
                if o is None:
                    continue
                if o.kind == 'inst':
                    m = self.lookup_cls(o.cls, '__setitem__', st) if o.cls is not None else None
                    if m is not None:
                        self.call_value(mk(self.bind(m, mk(a, t), o.cls, st, node, cx)), [i, v], {}, st, node, cx)
                    continue
                self.mutate(mk(a, t, b.deps), 'item assignment', st, node, cx)
                o = self.obj(st, a.oid)
                strong = len(b.alts) == 1 and not o.summary
                if o.kind == 'dict':
                    ok, k = i.const()
                    if ok and _hashable(k):
                        ks = dict(o.keys or {})
                        ks[k] = v if strong or k not in ks else joinv(ks[k], v)
                        st.heap[a.oid] = o.rep(keys=ks, exact=o.exact and strong)
                    else:
                        cs = i.consts()
                        if cs and all(_hashable(c) for c in cs):
                            ks = dict(o.keys or {})
                            for c in cs:
                                ks[c] = v if c not in ks else joinv(ks[c], v)
                            st.heap[a.oid] = o.rep(keys=ks, exact=False)
                        else:
                            ks = {k: joinv(x, v) for k, x in (o.keys or {}).items()}
                            st.heap[a.oid] = o.rep(keys=ks, exact=False, elem=joinv(o.elem, v) if o.elem is not None else v)
                elif o.kind == 'list':
                    ok, k = i.const()
                    if ok and isinstance(k, int) and o.elts is not None and -len(o.elts) <= k < len(o.elts):
                        el = list(o.elts)
                        el[k] = v if strong else joinv(el[k], v)
                        st.heap[a.oid] = o.rep(elts=tuple(el))
                    elif o.elts is not None and o.elem is None:
                        st.heap[a.oid] = o.rep(elts=tuple(joinv(e, v) for e in o.elts))
                    else:
                        e = o.all_elem()
                        st.heap[a.oid] = o.rep(elts=None, elem=joinv(e, v) if e is not None else v)
            elif isinstance(a, Opq):
                live += 1
                if a.roots:
                    self.mutate(mk(a, t, b.deps), 'item assignment', st, node, cx)
                # element becomes part of an unknown container: nothing to record
            elif isinstance(a, Ext):
                live += 1
                self.emit('globset', name=a.name + '[]', st=st, node=node, cx=cx, value=v)
            elif isinstance(a, Const) or isinstance(a, (Tup, StrA, Num)):
                if isinstance(a, Num):
                    live += 1  # a 0-d array
                    continue
                self.raise_ext('TypeError', st, node, cx)
            else:
                live += 1
        if not live:
            raise Dead()

    def mutate(self, v, how, st, node, cx, newterm=None, add_deps=frozenset()):
        """v is modified in place"""
        for a, t in v.alts:
            if isinstance(a, (Arr, Opq)):
                if not a.roots:
                    continue
                self.emit('mutate', roots=a.roots, tag=None, how=how, st=st, node=node, cx=cx, atom=a, term=t)
                self.invalidate(a.roots, t, newterm, add_deps, st)
            elif isinstance(a, Ref):
                o = self.obj(st, a.oid)
                if o is None:
                    continue
                self.emit('mutate', roots=frozenset([o.tag]) if isinstance(o.tag, tuple) else frozenset(), tag=o.tag, how=how, st=st,
                          node=node, cx=cx, atom=a, term=t, obj=o)
                if a.oid in self.base_heap and cx.fn is not None:
                    self.emit('globset', name='module-level object', st=st, node=node, cx=cx, value=None, oid=a.oid)

    def invalidate(self, roots, old, newterm, add_deps, st):
        memo = {}

        def fix(v):
            r = memo.get(v)
            if r is not None:
                return r
            ch = False
            alts = []
            for a, t in v.alts:
                if isinstance(a, (Arr, Opq)) and a.roots & roots:
                    if t is not None:
                        alts.append((a, newterm if t is old else None))
                        ch = True
                    else:
                        alts.append((a, t))
                elif isinstance(a, Tup):
                    e2 = tuple(fix(e) for e in a.elts)
                    if any(x is not y for x, y in zip(e2, a.elts)):
                        alts.append((Tup(e2), None))
                        ch = True
                    else:
                        alts.append((a, t))
                else:
                    alts.append((a, t))
            if ch or (add_deps and any(isinstance(a, (Arr, Opq)) and a.roots & roots for a, _ in v.alts)
                      and not add_deps <= v.deps):
                r = V(alts, v.deps | add_deps if any(isinstance(a, (Arr, Opq)) and a.roots & roots for a, _ in v.alts) else v.deps)
            else:
                r = v
            memo[v] = r
            return r
        for fid in list(st.frames):
            f = st.frames[fid]
            nf = None
            for k, v in f.items():
                w = fix(v)
                if w is not v:
                    nf = nf if nf is not None else dict(f)
                    nf[k] = w
            if nf is not None:
                st.frames[fid] = nf
                st.own.discard(fid)
        for oid in list(st.heap):
            o = st.heap[oid]
            ch = False
            kw = {}
            if o.elts is not None:
                kw['elts'] = tuple(fix(e) for e in o.elts)
                ch |= any(x is not y for x, y in zip(kw['elts'], o.elts))
            if o.elem is not None:
                kw['elem'] = fix(o.elem)
                ch |= kw['elem'] is not o.elem
            if o.keys:
                kw['keys'] = {k: fix(x) for k, x in o.keys.items()}
                ch |= any(kw['keys'][k] is not o.keys[k] for k in o.keys)
            if o.fields:
                kw['fields'] = {k: fix(x) for k, x in o.fields.items()}
                ch |= any(kw['fields'][k] is not o.fields[k] for k in o.fields)
            if ch:
                st.heap[oid] = o.rep(**kw)

    # ------------------------------------------------------------- conditions
    def cond(self, e, st, cx):
        """(state where e is true | None, state where e is false | None); consumes st"""
        self.steps += 1
        try:
            return self._cond(e, st, cx)
        except Dead:
            return None, None

    def _cond(self, e, st, cx):
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                cur, outs = st, []
                for x in e.values:
                    if cur is None:
                        break
                    cur, f = self.cond(x, cur, cx)
                    if f is not None:
                        outs.append(f)
                return cur, self.join_list(outs)
            cur, outs = st, []
            for x in e.values:
                if cur is None:
                    break
                t, cur = self.cond(x, cur, cx)
                if t is not None:
                    outs.append(t)
            return self.join_list(outs), cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st, cx)
            return f, t
        if isinstance(e, ast.Compare):
            if len(e.ops) > 1:
                parts = []
                left = e.left
                for op, r in zip(e.ops, e.comparators):
                    parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[r]), e))
                    left = r
                return self._cond(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), e), st, cx)
            return self.cond_compare(e, st, cx)
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e.value, st, cx)
            self.store(e.target, v, st, cx, e)
            return self.split_truth(v, e.target, st, cx, e)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id in ('isinstance', 'callable', 'issubclass', 'hasattr') and \
                    not self.is_shadowed(f.id, st, cx):
                return self.cond_builtin(e, st, cx)
            if isinstance(f, ast.Name) and f.id == 'bool' and len(e.args) == 1 and not self.is_shadowed('bool', st, cx):
                return self.cond(e.args[0], st, cx)
            self.last_ret = None
            v = self.eval(e, st, cx)
            lr = self.last_ret
            self.last_ret = None
            if lr is not None and lr[0] is v and len(lr[1]) > 1:
                ts, fs = [], []
                for rv, rst, _ in lr[1]:
                    a, b = self.split_truth(rv, None, rst, cx, e)
                    if a is not None:
                        ts.append(a)
                    if b is not None:
                        fs.append(b)
                return self.join_list(ts), self.join_list(fs)
            return self.split_truth(v, e, st, cx, e)
        v = self.eval(e, st, cx)
        return self.split_truth(v, e, st, cx, e)

    def is_shadowed(self, name, st, cx):
        v = self.lookup(name, st, cx)
        return v is not None and not (isinstance(v.single(), Ext) and v.single().name == 'builtins.' + name)

    def truth(self, a, st):
        """True / False / None"""
        if isinstance(a, Const):
            try:
                return bool(a.v)
            except Exception:
                return None
        if isinstance(a, Tup):
            return len(a.elts) > 0
        if isinstance(a, Ref):
            o = self.obj(st, a.oid)
            if o is None:
                return None
            if o.kind in ('list', 'set'):
                if o.elts is not None and o.elem is None:
                    return len(o.elts) > 0
                return None
            if o.kind == 'dict':
                if o.keys:
                    return True if o.exact or o.tag is None else None
                return False if o.exact and o.elem is None else None
            if o.kind == 'inst':
                if o.cls is not None and (self.lookup_cls(o.cls, '__len__', st) is not None or
                                          self.lookup_cls(o.cls, '__bool__', st) is not None):
                    return None
                return True
            return None
        if isinstance(a, (Fn, Bound, Desc, Wrapt, ClsA, ModA, Ext, BMeth, Partial)):
            return True
        return None

    def fact(self, t, st):
        """truth of a boolean term implied by the path facts or by what is assumed about arguments"""
        r = self.fact0(t, st)
        if r is None and self.domain and t is not None:
            r = self.domain.truth(t)
            if r is None and t.op in ('lt', 'le'):
                for x, y in (t.args, t.args[::-1]):
                    d = self.domain.get(x)
                    if d is not None and d.how == 's' and isinstance(y, Term) and y.op == 'const':
                        self.domain.both.add(t)  # some numbers of the interval that is left satisfy it, others do not
        return r

    def fact0(self, t, st):
        if t is None:
            return None
        r = st.facts.get(t)
        if r is not None:
            return r
        if t.op == 'const':
            return bool(t.args[0]) if not isinstance(t.args[0], str) or True else None
        if t.op in ('np.any', 'np.all', 'builtins.bool') and len(t.args) == 1 and isinstance(t.args[0], Term) and \
                self.scalar_term(t.args[0]):
            return self.fact(t.args[0], st)
        if t.op == 'not':
            r = self.fact(t.args[0], st)
            return None if r is None else not r
        if t.op in ('lt', 'le', 'eq', 'ne'):
            return self.cmp_fact(t, st)
        if t.op == 'isnone':
            return None
        if t.op == 'bool_and':
            rs = [self.fact(x, st) for x in t.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if t.op == 'bool_or':
            rs = [self.fact(x, st) for x in t.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def scalar_term(self, t):
        return False

    def bounds_of(self, t, st):
        """interval (lo, lo_strict, hi, hi_strict, not_nan) implied by the facts for a scalar term"""
        lo, ls, hi, hs, nn = float('-inf'), False, float('inf'), False, False
        if t is None:
            return lo, ls, hi, hs, nn
        if t.op == 'const' and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
            c = t.args[0]
            return c, False, c, False, c == c
        d = self.domain.get(t) if self.domain else None
        if d is not None and d.how == 's' and len(d.xs) == 1 and len(d.xs[0]) == 4:
            lo, ls, hi, hs = d.xs[0]
            nn = True
        for f, val in st.facts.items():
            if f.op not in ('lt', 'le', 'eq', 'np.isnan'):
                continue
            if f.op == 'np.isnan':
                if f.args[0] is t and val is False:
                    nn = True
                continue
            a, b = f.args
            if a is t and isinstance(b, Term) and b.op == 'const' and isinstance(b.args[0], (int, float)):
                c = b.args[0]
                if f.op == 'eq':
                    if val:
                        lo = hi = c
                        ls = hs = False
                        nn = True
                elif val:  # t < c / t <= c
                    nn = True
                    if c < hi or (c == hi and f.op == 'lt'):
                        hi, hs = c, f.op == 'lt'
                else:  # not (t < c): t >= c or nan
                    if c > lo or (c == lo and f.op == 'le'):
                        lo, ls = c, f.op == 'le'
            elif b is t and isinstance(a, Term) and a.op == 'const' and isinstance(a.args[0], (int, float)):
                c = a.args[0]
                if f.op == 'eq':
                    if val:
                        lo = hi = c
                        ls = hs = False
                        nn = True
                elif val:  # c < t
                    nn = True
                    if c > lo or (c == lo and f.op == 'lt'):
                        lo, ls = c, f.op == 'lt'
                else:  # not (c < t): t <= c or nan
                    if c < hi or (c == hi and f.op == 'le'):
                        hi, hs = c, f.op == 'le'
        return lo, ls, hi, hs, nn

    def cmp_fact(self, t, st):
        a, b = t.args
        if not (isinstance(a, Term) and isinstance(b, Term)):
            return None
        if a is b and t.op in ('eq', 'le') and a.op == 'const':
            return True
        if a.op == 'const' and b.op == 'const':
            try:
                return bool(pybin(t.op, a.args[0], b.args[0]))
            except Exception:
                return None
        if not st.facts and not self.domain:
            return None
        if b.op == 'const' and isinstance(b.args[0], (int, float)):
            lo, ls, hi, hs, nn = self.bounds_of(a, st)
            c = b.args[0]
            if t.op == 'lt':
                if (hi < c or (hi == c and hs)) and nn:
                    return True
                if lo >= c:
                    return False
            elif t.op == 'le':
                if hi <= c and nn:
                    return True
                if lo > c or (lo == c and ls):
                    return False
            elif t.op == 'eq':
                if lo > c or hi < c or (lo == c and ls) or (hi == c and hs):
                    return False
        elif a.op == 'const' and isinstance(a.args[0], (int, float)):
            lo, ls, hi, hs, nn = self.bounds_of(b, st)
            c = a.args[0]
            if t.op == 'lt':
                if (lo > c or (lo == c and ls)) and nn:
                    return True
                if hi <= c:
                    return False
            elif t.op == 'le':
                if lo >= c and nn:
                    return True
                if hi < c or (hi == c and hs):
                    return False
        return None

    def split_truth(self, v, e, st, cx, node):
        tr, fa = [], []
        for a, t in v.alts:
            r = self.truth(a, st)
            if r is None:
                r = self.fact(t, st)
            if r is not False:
                tr.append((a, t))
            if r is not True:
                fa.append((a, t))
        self.emit('branch', values=(v,), decided=not fa or not tr, st=st, node=node, cx=cx)
        if not fa:
            return st, None
        if not tr:
            return None, st
        s1, s2 = st, st.copy()
        if e is not None:
            self.narrow(e, V(tr, v.deps), s1, cx)
            self.narrow(e, V(fa, v.deps), s2, cx)
        t = v.term()
        if t is not None and len(v.alts) == 1:
            self.learn(t, True, s1)
            self.learn(t, False, s2)
        return s1, s2

    def learn(self, t, val, st):
        st.add_fact(t, val)
        if t.op == 'not':
            self.learn(t.args[0], not val, st)
        elif t.op == 'bool_and' and val:
            for x in t.args:
                self.learn(x, True, st)
        elif t.op == 'bool_or' and not val:
            for x in t.args:
                self.learn(x, False, st)
        elif t.op == 'np.any' and not val and isinstance(t.args[0], Term):
            x = t.args[0]
            if x.op == 'or':
                for y in x.args:
                    self.learn(T('np.any', y), False, st)
        elif t.op == 'np.all' and val and isinstance(t.args[0], Term):
            x = t.args[0]
            if x.op == 'and':
                for y in x.args:
                    self.learn(T('np.all', y), True, st)

    def narrow(self, e, v, st, cx):
        if isinstance(e, ast.NamedExpr):
            e = e.target
        if isinstance(e, ast.Name):
            fid = self.find_frame(e.id, st, cx)
            if fid is not None and self.frame_kind.get(fid) == 'fn':
                cur = self.frame(st, fid).get(e.id)
                if cur is not None and cur.alts != v.alts:
                    # only refine: alternatives must come from the current ones
                    self.wframe(st, fid)[e.id] = v
        elif isinstance(e, ast.Attribute):
            try:
                b = self.peek(e.value, st, cx)
            except Exception:
                return
            if b is None:
                return
            a = b.single()
            if isinstance(a, Ref):
                o = self.obj(st, a.oid)
                if o is not None and o.kind == 'inst' and not o.summary and o.fields and e.attr in o.fields and \
                        (o.cls is None or self.lookup_cls(o.cls, e.attr, st) is None):
                    fs = dict(o.fields)
                    if fs[e.attr].alts >= v.alts and v.alts:
                        fs[e.attr] = v
                        st.heap[a.oid] = o.rep(fields=fs)
                elif o is not None and o.kind == 'inst' and o.cls is not None and not o.summary and o.fields:
                    # a property that returns a plain field: refine fields holding exactly these alternatives
                    pass

    def peek(self, e, st, cx):
        """value of a side-effect free path expression, or None"""
        if isinstance(e, ast.Name):
            return self.lookup(e.id, st, cx)
        if isinstance(e, ast.Attribute):
            b = self.peek(e.value, st, cx)
            if b is None:
                return None
            a = b.single()
            if isinstance(a, Ref):
                o = self.obj(st, a.oid)
                if o is not None and o.kind == 'inst' and o.fields:
                    return o.fields.get(e.attr)
        return None

    def cond_compare(self, e, st, cx):
        op = e.ops[0]
        l = self.eval(e.left, st, cx)
        r = self.eval(e.comparators[0], st, cx)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
            kind = 'is' if isinstance(op, (ast.Is, ast.IsNot)) else ('in' if isinstance(op, (ast.In, ast.NotIn)) else 'eq')
            res = self.cmp_split(kind, l, r, e, st, cx)
            if res is not None:
                t, f = res
                self.emit('branch', values=(l, r), decided=t is None or f is None, st=st, node=e, cx=cx)
                return (f, t) if neg else (t, f)
        v = self.compare(op, l, r, st, e, cx)
        if l.deps or r.deps:
            v = V(v.alts, v.deps | l.deps | r.deps)
        return self.split_truth(v, None, st, cx, e)

    def cmp_split(self, kind, l, r, e, st, cx):
        """split the alternatives of one side against the constants of the other side"""
        cs = None
        lhs, other, target = l, r, e.left
        if kind == 'in':
            cs = self.const_elems(r, st)
            if cs is None:
                return None
        else:
            cs = r.consts()
            if cs is None or len(cs) != 1:
                cs2 = l.consts()
                if cs2 is not None and len(cs2) == 1:
                    lhs, other, target, cs = r, l, e.comparators[0], cs2
                elif kind == 'is' and isinstance(r.single(), (Ext, ClsA)):
                    # identity with an object such as np.ndarray / NotImplemented
                    pass
                else:
                    return None
            if cs is None:
                return None
            if any(c is NotImplemented for c in cs):
                pass
        if kind in ('eq', 'in') and isinstance(target, ast.Attribute) and target.attr == 'ndim' and \
                all(type(c) is int and 0 <= c < 4 for c in cs):
            res = self.rank_split(target.value, cs, st, cx)
            if res is not None:
                return res
        if kind == 'eq' and isinstance(target, ast.Attribute) and target.attr == 'size' and len(cs) == 1 and type(cs[0]) is int and len(lhs.alts) > 1:
            res = self.size_split(target.value, cs[0], st, cx)
            if res is not None:
                return res
        tr, fa = [], []
        for a, t in lhs.alts:
            m = self.const_match(kind, a, cs, st)
            if m is None and isinstance(a, (Num,)) and kind == 'eq' and len(cs) == 1 and t is not None:
                m = self.fact(self.cmp_term('eq', t, cterm(cs[0])), st)
            if m is None and kind == 'eq' and len(cs) == 1 and t is not None and t.op == 'manysize' and type(cs[0]) is int and cs[0] == 1:
                m = False
            if m is None and kind == 'is' and cs == [None] and t is not None and isinstance(a, Opq):
                m = st.facts.get(T('isnone', t))
            if m is not False:
                if isinstance(a, (Opq, StrA)) and len(cs) == 1 and kind in ('eq', 'is', 'in') and \
                        (cs[0] is None or isinstance(cs[0], (str, bool))):
                    tr.append((Const(cs[0]), cterm(cs[0])))
                else:
                    tr.append((a, t))
            if m is not True:
                fa.append((a, t))
        if not tr:
            return None, st
        if not fa:
            return st, None
        s1, s2 = st, st.copy()
        self.narrow(target, V(tr, lhs.deps), s1, cx)
        self.narrow(target, V(fa, lhs.deps), s2, cx)
        if len(lhs.alts) == 1:
            a, t = next(iter(lhs.alts))
            if t is not None and isinstance(a, Opq) and cs == [None] and kind == 'is':
                s1.add_fact(T('isnone', t), True)
                s2.add_fact(T('isnone', t), False)
            if kind == 'eq' and t is not None and len(cs) == 1:
                ft = self.cmp_term('eq', t, cterm(cs[0]))
                if ft is not None:
                    s1.add_fact(ft, True)
                    s2.add_fact(ft, False)
        return s1, s2

    def size_split(self, target, c, st, cx):
        """`x.size == c`: the arrays whose size is known are on one branch only"""
        if not isinstance(target, ast.Name):
            return None
        v = self.peek(target, st, cx)
        if v is None or not v.alts or not all(isinstance(a, Arr) for a in v.atoms()):
            return None
        tr, fa = [], []
        for a, t in v.alts:
            n = 1
            for k in a.shape if a.shape is not None else (None,):
                n = n * k if isinstance(k, int) and n is not None else None
            if n is None or n == c:
                tr.append((a, t))
            if n is None or n != c:
                fa.append((a, t))
        if len(tr) == len(fa) == len(v.alts):
            return None
        s1, s2 = (st if tr else None), (st if fa else None)
        if tr and fa:
            s2 = st.copy()
        if tr:
            self.narrow(target, V(tr, v.deps), s1, cx)
        if fa:
            self.narrow(target, V(fa, v.deps), s2, cx)
        return s1, s2

    def rank_split(self, target, cs, st, cx):
        """`x.ndim == c` / `x.ndim in (...)`: the rank of the arrays x may be is refined on both branches"""
        if not isinstance(target, ast.Name):
            return None
        v = self.peek(target, st, cx)
        if v is None or not v.alts or not all(isinstance(a, Arr) for a in v.atoms()):
            return None
        tr, fa = [], []
        for a, t in v.alts:
            if a.shape is None:
                tr.extend((a.rep(shape=(None,) * c), t) for c in cs)
                fa.append((a, t))
            else:
                (tr if len(a.shape) in cs else fa).append((a, t))
        s1, s2 = (st if tr else None), (st if fa else None)
        if tr and fa:
            s2 = st.copy()
        if tr:
            self.narrow(target, V(tr, v.deps), s1, cx)
        if fa:
            self.narrow(target, V(fa, v.deps), s2, cx)
        return s1, s2

    def const_elems(self, v, st):
        a = v.single()
        if a is None:
            return None
        ex = self.exact_elems(a, st)
        if ex is None:
            return None
        if isinstance(a, Const) and isinstance(a.v, str):
            return None
        out = []
        for e in ex:
            ok, c = e.const()
            if not ok:
                return None
            out.append(c)
        return out

    def const_match(self, kind, a, cs, st):
        if isinstance(a, Const):
            if kind == 'is':
                if a.v is None or isinstance(a.v, bool) or any(c is None or isinstance(c, bool) for c in cs):
                    return any(a.v is c for c in cs)
                return any(type(a.v) is type(c) and a.v == c for c in cs)
            try:
                return any(a.v == c for c in cs)
            except Exception:
                return None
        nonec = all(c is None for c in cs)
        boolc = all(isinstance(c, bool) for c in cs)
        strc = all(isinstance(c, str) for c in cs)
        if isinstance(a, (Arr, Ref, Tup, Fn, Bound, ClsA, ModA, Wrapt, Ext, Partial)):
            if nonec and not (isinstance(a, Ref) and kind != 'is' and False):
                if kind == 'eq' and isinstance(a, Arr):
                    return None
                return False
            if strc and not isinstance(a, Arr):
                return False
            if isinstance(a, Tup) or isinstance(a, Ref):
                return None
            return False if kind == 'is' else None
        if isinstance(a, Num):
            if nonec or strc:
                return False
            if boolc and kind == 'is' and a.kind not in ('bool', 'num'):
                return False
            return None
        if isinstance(a, StrA):
            if nonec or boolc:
                return False
            return None
        return None

    def cond_builtin(self, e, st, cx):
        name = e.func.id
        args = [self.eval(x, st, cx) for x in e.args]
        if not args:
            return st, st.copy()
        v = args[0]
        tr, fa = [], []
        tdesc = args[1] if len(args) > 1 else None
        for a, t in v.alts:
            if name == 'callable':
                m = self.is_callable(a, st)
            elif name == 'hasattr':
                ok, n = tdesc.const() if tdesc is not None else (False, None)
                m = self.has_attr(a, n, st) if ok and isinstance(n, str) else None
            elif name == 'isinstance':
                m = self.isinst(a, tdesc, st)
            else:
                m = self.issub(a, tdesc)
            if m is not False:
                tr.append((self.refine_inst(a, tdesc, st) if name == 'isinstance' and m is None else a, t))
            if m is not True:
                fa.append((a, t))
        if not tr:
            return None, st
        if not fa:
            return st, None
        self.emit('kindtest', values=(v,), st=st, node=e, cx=cx)
        s1, s2 = st, st.copy()
        self.narrow(e.args[0], V(tr, v.deps), s1, cx)
        self.narrow(e.args[0], V(fa, v.deps), s2, cx)
        return s1, s2

    def is_callable(self, a, st):
        if isinstance(a, (Fn, Bound, ClsA, Wrapt, BMeth, Partial)):
            return True
        if isinstance(a, (Const, Num, StrA, Arr, Tup, ModA)):
            return False
        if isinstance(a, Ref):
            o = self.obj(st, a.oid)
            if o is not None and o.kind == 'inst' and o.cls is not None:
                return self.lookup_cls(o.cls, '__call__', st) is not None
            return False
        return None

    def has_attr(self, a, n, st):
        if isinstance(a, Ref):
            o = self.obj(st, a.oid)
            if o is not None and o.kind == 'inst':
                if o.fields and n in o.fields:
                    return True
                if o.cls is not None:
                    if self.lookup_cls(o.cls, n, st) is not None:
                        return True
                    if not [b for b in o.cls.ext_bases() if b not in HARMLESS_BASES]:
                        return False
                return None
            if o is not None and o.kind in ('list', 'dict', 'set'):
                return hasattr({'list': list, 'dict': dict, 'set': set}[o.kind], n)
        if isinstance(a, ClsA):
            return True if self.lookup_cls(a.cls, n, st) is not None else None
        if isinstance(a, Const):
            return hasattr(a.v, n)
        if isinstance(a, Tup):
            return hasattr((), n)
        if isinstance(a, StrA):
            return hasattr('', n)
        if isinstance(a, Arr):
            import collections
            common = {'shape', 'ndim', 'size', 'dtype', 'T', 'sum', 'mean', '__len__', '__iter__', '__getitem__', '__array__', 'to_numpy', 'values',
                      'columns', 'index'}
            if a.cls == 'ndarray':
                if n in ('columns', 'index', 'values', 'to_numpy', 'loc', 'iloc', 'name', 'items'):
                    return False
                if n in common or n in ('ravel', 'reshape', 'copy', 'astype', 'tolist', 'flatten'):
                    return True
            elif n in common:
                return n != 'columns' or a.cls == 'DataFrame'
        return None

    def type_names(self, tv, st):
        """flatten the 2nd argument of isinstance into ClassInfo / external names; None when unknown"""
        out = []
        for a, _ in tv.alts:
            if isinstance(a, Tup):
                for e in a.elts:
                    x = self.type_names(e, st)
                    if x is None:
                        return None
                    out += x
            elif isinstance(a, ClsA):
                out.append(a.cls)
            elif isinstance(a, Ext):
                out.append(a.name)
            elif isinstance(a, Opq) and isinstance(a.hint, str) and a.hint.startswith('ext:'):
                out.append(a.hint[4:])
            elif isinstance(a, Ref):
                ex = self.exact_elems(a, st)
                if ex is None:
                    return None
                for e in ex:
                    x = self.type_names(e, st)
                    if x is None:
                        return None
                    out += x
            else:
                return None
        return out

    def isinst(self, a, tv, st):
        if tv is None:
            return None
        ts = self.type_names(tv, st)
        if ts is None:
            return None
        rs = [self.isinst1(a, t, st) for t in ts]
        if any(r is True for r in rs):
            return True
        if rs and all(r is False for r in rs):
            return False
        return None

    def isinst1(self, a, t, st):
        from .ext import EXT_TYPE
        if isinstance(t, ClassInfo):
            if isinstance(a, Ref):
                o = self.obj(st, a.oid)
                if o is not None and o.kind == 'inst' and o.cls is not None:
                    return t in o.cls.mro
                return False if o is not None else None
            if isinstance(a, Opq):
                return None
            return False
        n = t.split('.')[-1]
        if isinstance(a, Const):
            v = a.v
            if n == 'Number':
                return isinstance(v, (int, float, complex))
            if n in ('Real',):
                return isinstance(v, (int, float))
            if n in ('Integral',):
                return isinstance(v, int)
            if n in ('integer', 'floating', 'ndarray', 'DataFrame', 'Series', 'rv_continuous', 'rv_frozen', 'number', 'generic', 'slice',
                     'type', 'ModuleType', 'FunctionType', 'NDFrame', 'date', 'datetime'):
                return False
            if n == 'NoneType':
                return v is None
            if n in EXT_TYPE:
                return isinstance(v, EXT_TYPE[n])
            return False if v is None else None
        if isinstance(a, Num):
            if n in ('Number', 'Real'):
                return True
            if n == 'float':
                return True if a.kind == 'float' else (False if a.kind in ('int', 'bool') else None)
            if n in ('int', 'Integral'):
                return True if a.kind == 'int' else (False if a.kind in ('float',) else None)
            if n == 'complex':
                return False if a.kind in ('int', 'float', 'bool') else None
            if n == 'bool':
                return True if a.kind == 'bool' else (False if a.kind in ('int', 'float') else None)
            if n in ('integer', 'floating', 'number', 'generic'):
                return None
            if n == 'Hashable':
                return True
            return False
        if isinstance(a, StrA):
            return n in ('str', 'Sized', 'Iterable', 'Collection', 'Sequence', 'Hashable', 'Container')
        if isinstance(a, Arr):
            if n in ('ndarray', 'DataFrame', 'Series'):
                return a.cls == n
            if n in ('Sized', 'Iterable', 'Collection', 'Container'):
                return True
            if n in ('Sequence', 'MutableSequence', 'Mapping', 'MutableMapping', 'Hashable'):
                return False
            if n in ('NDFrame',):
                return a.cls in ('DataFrame', 'Series')
            return False
        if isinstance(a, Tup):
            return n in ('tuple', 'Sized', 'Iterable', 'Collection', 'Sequence', 'Container', 'Tuple', 'Hashable')
        if isinstance(a, Ref):
            o = self.obj(st, a.oid)
            if o is None:
                return None
            if o.kind == 'list':
                return n in ('list', 'Sized', 'Iterable', 'Collection', 'Sequence', 'MutableSequence', 'Container', 'List')
            if o.kind == 'dict':
                return n in ('dict', 'Sized', 'Iterable', 'Collection', 'Mapping', 'MutableMapping', 'Container', 'Dict', 'defaultdict')\
                    and not (n == 'defaultdict')
            if o.kind == 'set':
                return n in ('set', 'Sized', 'Iterable', 'Collection', 'Set', 'MutableSet', 'Container')
            if o.kind == 'iter':
                return n in ('Iterable', 'Iterator', 'Generator')
            if o.kind == 'inst' and o.cls is not None:
                if o.cls.nt_fields and n in ('tuple', 'Sized', 'Iterable', 'Collection', 'Sequence', 'Container'):
                    return True
                names = [b if isinstance(b, str) else b.name for b in o.cls.mro]
                if t in names:
                    return True
                if n in ('Collection', 'Sized', 'Iterable'):
                    need = {'Collection': ('__len__', '__iter__', '__contains__'), 'Sized': ('__len__',), 'Iterable': ('__iter__',)}[n]
                    return all(self.lookup_cls(o.cls, x, st) is not None for x in need)
                if n in ('Hashable', 'Callable', 'object'):
                    return None if n != 'object' else True
                return False
            return None
        if isinstance(a, Partial) and isinstance(a.fn, Ext) and a.fn.name == 'builtins.slice':
            return n in ('slice', 'object')
        if isinstance(a, (Fn, Bound, Wrapt, Partial, BMeth)):
            if n in ('Callable', 'FunctionType', 'MethodType', 'object'):
                return True
            return False
        if isinstance(a, ClsA):
            return n in ('type', 'Callable', 'ABCMeta', 'object')
        if isinstance(a, ModA):
            return n in ('ModuleType',)
        if isinstance(a, Opq):
            h = a.hint
            if h == 'columns':
                return n in ('Index', 'Iterable', 'Sized', 'Collection', 'Container')
            if isinstance(h, str) and h.startswith('inst:'):
                hn = h[5:]
                if hn.split('.')[-1] == n:
                    return True
                if n in ('int', 'float', 'str', 'bool', 'ndarray', 'DataFrame', 'Series', 'list', 'tuple', 'dict', 'complex', 'NoneType'):
                    return False
                if hn == 'rv_frozen' and n.startswith('rv_'):
                    return False
                if hn == 'rv_continuous' and n.startswith('rv_'):
                    return False
            return None
        if isinstance(a, Ext):
            # e.g. scipy.stats.norm
            if n in ('str', 'int', 'float', 'ndarray', 'DataFrame', 'Series', 'dict', 'list', 'tuple', 'rv_frozen'):
                return False
            if n == 'rv_continuous' and a.name.startswith('scipy.stats.'):
                return True
            return None
        return None

    def refine_inst(self, a, tv, st):
        """an opaque alternative after a successful isinstance"""
        if not isinstance(a, Opq):
            return a
        ts = self.type_names(tv, st)
        if not ts or len(ts) != 1:
            return a
        t = ts[0]
        if isinstance(t, ClassInfo):
            return a
        n = t.split('.')[-1]
        if n in ('ndarray', 'DataFrame', 'Series'):
            return Arr(n, a.roots, 'u' if a.roots else 'o', None if n != 'Series' else (None,))
        if n == 'str':
            return StrA()
        if n in ('int', 'float', 'bool'):
            return Num(n)
        if n == 'Number':
            return Num('num')
        return a

    def issub(self, a, tv):
        if isinstance(a, ClsA):
            ts = self.type_names(tv, State())
            if ts is None:
                return None
            return any(t in a.cls.mro for t in ts)
        return None

    # ------------------------------------------------------------- expressions
    def eval(self, e, st, cx):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.eval(c, st, cx)
            return ANY
        return m(e, st, cx)

    def e_Constant(self, e, st, cx):
        if e.value is Ellipsis:
            return mk(Ext('builtins.Ellipsis'))
        return const(e.value)

    def find_frame(self, name, st, cx):
        if name in cx.globals:
            return ('mod', cx.mod)
        fid = cx.fid
        first = True
        while fid is not None:
            if (first or self.frame_kind.get(fid) != 'cls') and name in self.frame(st, fid):
                return fid
            first = False
            fid = self.parent_frame.get(fid)
        mf = ('mod', cx.mod)
        if name in self.frame(st, mf):
            return mf
        return None

    def lookup(self, name, st, cx):
        fid = self.find_frame(name, st, cx)
        if fid is not None:
            return self.frame(st, fid)[name]
        if hasattr(builtins, name):
            v = getattr(builtins, name)
            if name == 'NotImplemented':
                return mk(Ext('builtins.NotImplemented'), T('const', 'NotImplemented'))
            if name in ('Ellipsis',):
                return mk(Ext('builtins.' + name))
            return mk(Ext('builtins.' + name))
        for x in self.p.modules[cx.mod].starext if cx.mod in self.p.modules else ():
            return self.ext.ext_value(self.ext.canon(x + '.' + name))
        return None

    def e_Name(self, e, st, cx):
        v = self.lookup(e.id, st, cx)
        if v is None:
            self.emit('unbound', name=e.id, st=st, node=e, cx=cx)
            return ANY
        return v

    def e_NamedExpr(self, e, st, cx):
        v = self.eval(e.value, st, cx)
        self.store(e.target, v, st, cx, e)
        return v

    def e_Attribute(self, e, st, cx):
        b = self.eval(e.value, st, cx)
        return self.get_attr(b, e.attr, st, e, cx)

    def e_Subscript(self, e, st, cx):
        b = self.eval(e.value, st, cx)
        i = self.eval_index(e.slice, st, cx)
        return self.get_item(b, i, st, e, cx)

    def eval_index(self, s, st, cx):
        if isinstance(s, ast.Slice):
            lo = self.eval(s.lower, st, cx) if s.lower is not None else NONE
            hi = self.eval(s.upper, st, cx) if s.upper is not None else NONE
            sp = self.eval(s.step, st, cx) if s.step is not None else NONE
            return mk(Partial(Ext('builtins.slice'), (lo, hi, sp), ()), TT('slice', lo.term(), hi.term(), sp.term()),
                      lo.deps | hi.deps | sp.deps)
        if isinstance(s, ast.Tuple):
            els = [self.eval_index(x, st, cx) for x in s.elts]
            d = frozenset().union(*[x.deps for x in els]) if els else NOD
            return mk(Tup(els), TT('tup', *[x.term() for x in els]), d)
        return self.eval(s, st, cx)

    def e_Slice(self, e, st, cx):
        return self.eval_index(e, st, cx)

    def e_Starred(self, e, st, cx):
        return self.eval(e.value, st, cx)

    def e_Tuple(self, e, st, cx):
        els, exact = self.eval_seq(e.elts, st, cx)
        if exact:
            d = frozenset().union(*[x.deps for x in els]) if els else NOD
            if els and all(x.const()[0] for x in els) or not els:
                pass
            return mk(Tup(els), TT('tup', *[x.term() for x in els]), d)
        return self.alloc(st, Obj('iter', elts=None, elem=joinall(els) if els else ANY), e, cx)

    def eval_seq(self, elts, st, cx):
        out, exact = [], True
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, cx)
                ex, el, _ = self.iterate(v, st, x, cx)
                if ex is not None:
                    out += ex
                else:
                    out.append(el)
                    exact = False
            else:
                out.append(self.eval(x, st, cx))
        return out, exact

    def e_List(self, e, st, cx):
        els, exact = self.eval_seq(e.elts, st, cx)
        d = frozenset().union(*[x.deps for x in els]) if els else NOD
        o = Obj('list', elts=tuple(els)) if exact else Obj('list', elts=None, elem=joinall(els) if els else ANY)
        return self.alloc(st, o, e, cx).with_deps(d)

    def e_Set(self, e, st, cx):
        els, exact = self.eval_seq(e.elts, st, cx)
        o = Obj('set', elts=tuple(els)) if exact else Obj('set', elts=None, elem=joinall(els) if els else ANY)
        return self.alloc(st, o, e, cx)

    def e_Dict(self, e, st, cx):
        keys, exact, elem = {}, True, None
        deps = NOD
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st, cx)
            deps |= vv.deps
            if k is None:
                ks, ex, el = self.dict_items(vv, st)
                keys.update(ks)
                exact = exact and ex
                if el is not None:
                    elem = joinv(elem, el) if elem is not None else el
                continue
            kv = self.eval(k, st, cx)
            ok, c = kv.const()
            if ok and _hashable(c):
                keys[c] = vv
            else:
                exact = False
                elem = joinv(elem, vv) if elem is not None else vv
        return self.alloc(st, Obj('dict', keys=keys, exact=exact, elem=elem), e, cx).with_deps(deps)

    def dict_items(self, v, st):
        """(known keys, exact, summary element)"""
        keys, exact, elem = {}, True, None
        n = 0
        for a, t in v.alts:
            if isinstance(a, Ref):
                o = self.obj(st, a.oid)
                if o is not None and o.kind == 'dict':
                    for k, x in (o.keys or {}).items():
                        keys[k] = joinv(keys[k], x) if k in keys else x
                    exact = exact and o.exact and o.elem is None
                    if o.elem is not None:
                        elem = joinv(elem, o.elem) if elem is not None else o.elem
                    n += 1
                    continue
            exact = False
            x = mk(Opq(a.roots if isinstance(a, Opq) else frozenset()))
            elem = joinv(elem, x) if elem is not None else x
        if n > 1 or len(v.alts) > 1:
            exact = False
        return keys, exact, elem

    def e_JoinedStr(self, e, st, cx):
        parts, ok = [], True
        deps = NOD
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(str(x.value))
            elif isinstance(x, ast.FormattedValue):
                v = self.eval(x.value, st, cx)
                deps |= v.deps
                o, c = v.const()
                if o and x.format_spec is None and isinstance(c, (str, int)):
                    parts.append(str(c))
                else:
                    ok = False
        return const(''.join(parts), deps) if ok else mk(StrA(), None, deps)

    def e_FormattedValue(self, e, st, cx):
        self.eval(e.value, st, cx)
        return mk(StrA())

    def e_Lambda(self, e, st, cx):
        return mk(self.make_fn(e, st, cx, '<lambda>'))

    def e_IfExp(self, e, st, cx):
        t, f = self.cond(e.test, st.copy(), cx)
        vs, sts = [], []
        for s, x in ((t, e.body), (f, e.orelse)):
            if s is None:
                continue
            try:
                v = self.eval(x, s, cx)
            except Dead:
                continue
            vs.append(v)
            sts.append(s)
        if not vs:
            raise Dead()
        st.assign(self.join_list(sts))
        return joinall(vs)

    def e_BoolOp(self, e, st, cx):
        is_and = isinstance(e.op, ast.And)
        vs, sts = [], []
        cur = st.copy()
        terms = []
        pure = True
        for k, x in enumerate(e.values):
            last = k == len(e.values) - 1
            v = None
            try:
                if last:
                    v = self.eval(x, cur, cx)
                    terms.append(v.term())
                    vs.append(v)
                    sts.append(cur)
                    cur = None
                    break
                v = self.eval(x, cur, cx)
            except Dead:
                cur = None
                break
            terms.append(v.term())
            t, f = self.split_truth(v, x, cur, cx, x)
            stop, go = (f, t) if is_and else (t, f)
            if stop is not None:
                al = [(a, tt) for a, tt in v.alts if self.truth(a, stop) is not is_and]
                vs.append(V(al, v.deps))
                sts.append(stop)
            cur = go
            if cur is None:
                break
        if not vs:
            raise Dead()
        st.assign(self.join_list(sts))
        r = joinall(vs)
        if len(vs) > 1 and all(isinstance(a, Num) or isinstance(a, Const) and isinstance(a.v, bool) for a, _ in r.alts):
            bt = TT('bool_and' if is_and else 'bool_or', *terms) if len(terms) == len(e.values) else None
            return mk(Num('bool'), bt, r.deps)
        return r

    def e_UnaryOp(self, e, st, cx):
        if isinstance(e.op, ast.Not):
            v = self.eval(e.operand, st, cx)
            rs = []
            for a, t in v.alts:
                r = self.truth(a, st)
                if r is None:
                    r = self.fact(t, st)
                rs.append(r)
            if rs and all(r is True for r in rs):
                return const(False, v.deps)
            if rs and all(r is False for r in rs):
                return const(True, v.deps)
            return mk(Num('bool'), TT('not', v.term()), v.deps)
        v = self.eval(e.operand, st, cx)
        out = []
        op = {'USub': 'neg', 'UAdd': 'pos', 'Invert': 'inv'}[type(e.op).__name__]
        for a, t in v.alts:
            if isinstance(a, Const) and isinstance(a.v, (int, float)):
                try:
                    out.append(const(-a.v if op == 'neg' else (a.v if op == 'pos' else ~a.v)))
                    continue
                except Exception:
                    pass
            if isinstance(a, Arr):
                out.append(mk(Arr(a.cls, {self.fresh_root(e, cx)}, a.dtype, a.shape), TT(op, t)))
            elif isinstance(a, Num):
                out.append(mk(a, TT(op, t)))
            elif isinstance(a, Ref) and self.obj(st, a.oid) is not None and self.obj(st, a.oid).kind == 'inst':
                out.append(ANY)
            else:
                out.append(mk(Opq(), TT(op, t)))
        return joinall(out).with_deps(v.deps) if out else BOT

    def e_BinOp(self, e, st, cx):
        l = self.eval(e.left, st, cx)
        r = self.eval(e.right, st, cx)
        return self.binop(_BIN[type(e.op)], l, r, e, st, cx)

    def bin_term(self, op, a, b):
        if a is None or b is None:
            return None
        if op in COMM and (b.id < a.id):
            a, b = b, a
        return TT(op, a, b)

    def cmp_term(self, op, a, b):
        if a is None or b is None:
            return None
        if op in ('eq', 'ne') and b.id < a.id:
            a, b = b, a
        return TT(op, a, b)

    def binop(self, op, l, r, node, st, cx):
        pairs = [(a, t, b, u) for a, t in l.alts for b, u in r.alts][:64]
        out = self.alternatives(pairs, node, lambda a, t, b, u: self.binop1(op, a, t, b, u, node, st, cx))
        if not out:
            if pairs:
                self.emit('badop', op=op, left=l, right=r, st=st, node=node, cx=cx)
            self.raise_ext('TypeError', st, node, cx)
            raise Dead()
        return joinall(out).with_deps(l.deps | r.deps)

    def binop1(self, op, a, t, b, u, node, st, cx):
        if isinstance(a, Const) and isinstance(b, Const):
            if a.v is None or b.v is None:
                return None
            try:
                return const(pybin(op, a.v, b.v))
            except TypeError:
                return None
            except Exception:
                return mk(Num('float'))
        if (isinstance(a, Const) and a.v is None) or (isinstance(b, Const) and b.v is None):
            return None
        term = self.bin_term(op, t, u)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.ext.arr_binop(op, a, b, term, node, st, cx)
        num = lambda x: isinstance(x, Num) or isinstance(x, Const) and isinstance(x.v, (int, float, complex))
        if num(a) and num(b):
            ka = a.kind if isinstance(a, Num) else ('float' if isinstance(a.v, float) else 'int')
            kb = b.kind if isinstance(b, Num) else ('float' if isinstance(b.v, float) else 'int')
            if op in ('div',):
                k = 'float'
            elif 'float' in (ka, kb):
                k = 'float'
            elif ka == kb == 'bool' and op in ('and', 'or', 'xor'):
                k = 'bool'
            elif ka in ('int', 'bool') and kb in ('int', 'bool'):
                k = 'int' if op != 'pow' else ('int' if isinstance(b, Const) and b.v >= 0 else 'num')
            elif 'u' in (ka, kb):
                k = 'u'
            else:
                k = 'num'
            return mk(Num(k), term)
        # sequences
        ea, eb = self.exact_elems(a, st), self.exact_elems(b, st)
        if op == 'add' and ea is not None and eb is not None and not isinstance(a, Const) and not isinstance(b, Const):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return mk(Tup(ea + eb))
            if isinstance(a, Ref) and isinstance(b, Ref):
                return self.alloc(st, Obj('list', elts=tuple(ea + eb)), node, cx)
        if op == 'add' and isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(st, a.oid), self.obj(st, b.oid)
            if oa is not None and ob is not None and oa.kind == 'list' and ob.kind == 'list':
                return self.alloc(st, Obj('list', elts=None, elem=joinv(oa.all_elem() or ANY, ob.all_elem() or ANY)), node, cx)
        if op == 'mul':
            for x, ex, y in ((a, ea, b), (b, eb, a)):
                if ex is not None and isinstance(y, Const) and isinstance(y.v, int) and not isinstance(x, Const):
                    if y.v <= 20 and len(ex) * max(y.v, 0) <= 200:
                        els = tuple(ex * y.v)
                        return mk(Tup(els)) if isinstance(x, Tup) else self.alloc(st, Obj('list', elts=els), node, cx)
                if isinstance(x, Ref) and self.obj(st, x.oid) is not None and self.obj(st, x.oid).kind == 'list':
                    return self.alloc(st, Obj('list', elts=None, elem=self.obj(st, x.oid).all_elem() or ANY), node, cx)
                if isinstance(x, Tup):
                    return self.alloc(st, Obj('iter', elts=None, elem=joinall(x.elts) if x.elts else ANY), node, cx)
        if isinstance(a, (StrA, Const)) and isinstance(b, (StrA, Const)) and (isinstance(a, StrA) or isinstance(a.v, str)):
            if op == 'mod' or op == 'add' and (isinstance(b, StrA) or isinstance(b.v, str)) or op == 'mul':
                return mk(StrA())
            return None
        if op == 'mod' and (isinstance(a, StrA) or isinstance(a, Const) and isinstance(a.v, str)):
            return mk(StrA())
        if op in ('sub', 'or', 'and', 'xor') and isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(st, a.oid), self.obj(st, b.oid)
            if oa is not None and ob is not None and oa.kind == 'set':
                ca, cb = self.const_elems(mk(a), st), self.const_elems(mk(b), st)
                if ca is not None and cb is not None:
                    res = {'sub': set(ca) - set(cb), 'or': set(ca) | set(cb), 'and': set(ca) & set(cb), 'xor': set(ca) ^ set(cb)}[op]
                    return self.alloc(st, Obj('set', elts=tuple(const(x) for x in sorted(res, key=repr))), node, cx)
                return self.alloc(st, Obj('set', elts=None, elem=joinv(oa.all_elem() or ANY, ob.all_elem() or ANY)), node, cx)
        # dunder on repo instances
        dn = {'add': '__add__', 'sub': '__sub__', 'mul': '__mul__', 'div': '__truediv__', 'matmul': '__matmul__', 'pow': '__pow__',
              'or': '__or__', 'and': '__and__', 'mod': '__mod__', 'floordiv': '__floordiv__'}.get(op)
        if isinstance(a, Ref) and dn:
            o = self.obj(st, a.oid)
            if o is not None and o.kind == 'inst' and o.cls is not None:
                m = self.lookup_cls(o.cls, dn, st)
                if m is not None:
                    return self.call_value(mk(self.bind(m, mk(a, t), o.cls, st, node, cx)), [mk(b, u)], {}, st, node, cx)
        if isinstance(a, (Num, Opq)) and isinstance(b, (Num, Opq)) or num(a) and isinstance(b, Opq) or num(b) and isinstance(a, Opq):
            return mk(Opq(), term)
        return mk(Opq())

    def e_Compare(self, e, st, cx):
        if len(e.ops) == 1:
            l = self.eval(e.left, st, cx)
            r = self.eval(e.comparators[0], st, cx)
            return self.compare(e.ops[0], l, r, st, e, cx)
        l = self.eval(e.left, st, cx)
        res = []
        for op, c in zip(e.ops, e.comparators):
            r = self.eval(c, st, cx)
            res.append(self.compare(op, l, r, st, e, cx))
            l = r
        cs = [x.const() for x in res]
        if all(o for o, _ in cs):
            return const(all(c for _, c in cs))
        if any(o and not c for o, c in cs):
            return const(False)
        return mk(Num('bool'), TT('bool_and', *[x.term() for x in res]), frozenset().union(*[x.deps for x in res]))

    def compare(self, op, l, r, st, node, cx):
        opn = type(op).__name__
        out = []
        for a, t in l.alts:
            for b, u in r.alts:
                out.append(self.compare1(opn, a, t, b, u, st, node, cx))
                if len(out) > 24:
                    break
        return joinall(out).with_deps(l.deps | r.deps) if out else BOOL

    def compare1(self, opn, a, t, b, u, st, node, cx):
        if opn in ('Is', 'IsNot'):
            m = None
            if isinstance(b, Const):
                m = self.const_match('is', a, [b.v], st)
                if m is None and b.v is None and t is not None:
                    m = st.facts.get(T('isnone', t))
                    if m is None:
                        bt = T('isnone', t)
                        return mk(Num('bool'), bt if opn == 'Is' else T('not', bt))
            elif isinstance(a, Const):
                m = self.const_match('is', b, [a.v], st)
            elif isinstance(a, Ref) and isinstance(b, Ref):
                if a.oid != b.oid:
                    m = False
                elif not self.obj(st, a.oid).summary:
                    m = True
            elif isinstance(a, (ClsA, Ext, ModA)) and isinstance(b, (ClsA, Ext, ModA)):
                m = a == b
            elif type(a) is not type(b) and not isinstance(a, Opq) and not isinstance(b, Opq):
                m = False
            if m is None:
                return BOOL
            return const(m if opn == 'Is' else not m)
        if opn in ('In', 'NotIn'):
            m = None
            cs = self.const_elems(mk(b), st)
            if cs is not None:
                if isinstance(a, Const):
                    try:
                        m = a.v in cs
                    except Exception:
                        m = None
                else:
                    m = self.const_match('in', a, cs, st) if cs else False
            elif isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
                m = a.v in b.v
            elif isinstance(b, Ref):
                o = self.obj(st, b.oid)
                if o is not None and o.kind == 'dict' and isinstance(a, Const) and o.keys and a.v in o.keys and o.exact:
                    m = True
            if m is None:
                bt = TT('in', t, u)
                if opn == 'NotIn':
                    bt = TT('not', bt)
                return mk(Num('bool'), bt)
            return const(m if opn == 'In' else not m)
        name = {'Lt': 'lt', 'LtE': 'le', 'Gt': 'lt', 'GtE': 'le', 'Eq': 'eq', 'NotEq': 'ne'}[opn]
        if opn in ('Gt', 'GtE'):
            a, t, b, u = b, u, a, t
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return const(bool(pybin(name, a.v, b.v)))
            except Exception:
                return BOOL
        if name in ('eq', 'ne') and not isinstance(a, Arr) and not isinstance(b, Arr):
            m = None
            if isinstance(b, Const):
                m = self.const_match('eq', a, [b.v], st)
            elif isinstance(a, Const):
                m = self.const_match('eq', b, [a.v], st)
            elif isinstance(a, Tup) and isinstance(b, Tup):
                if len(a.elts) != len(b.elts):
                    m = False
                else:
                    rs = [self.compare(ast.Eq(), x, y, st, node, cx).const() for x, y in zip(a.elts, b.elts)]
                    if all(o and c for o, c in rs):
                        m = True
                    elif any(o and not c for o, c in rs):
                        m = False
            elif isinstance(a, Ref) and isinstance(b, Ref):
                ca, cb = self.const_elems(mk(a), st), self.const_elems(mk(b), st)
                if ca is not None and cb is not None:
                    oa = self.obj(st, a.oid)
                    m = (set(ca) == set(cb)) if oa.kind == 'set' else (ca == cb)
            elif isinstance(a, (ClsA,)) and isinstance(b, (ClsA,)):
                m = a == b
            elif isinstance(a, Ext) and isinstance(b, Ext):
                m = a == b
            if m is None:
                for x, y in ((t, b), (u, a)):
                    if x is not None and x.op == 'manysize' and isinstance(y, Const) and y.v == 1:
                        m = False  # one dimension is known to be larger than one
            if m is not None:
                return const(m if name == 'eq' else not m)
        if name in ('lt', 'le') and isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.const_elems(mk(a), st), self.const_elems(mk(b), st)
            if ca is not None and cb is not None:
                try:
                    return const(set(ca) < set(cb) if name == 'lt' else set(ca) <= set(cb))
                except Exception:
                    return BOOL
        if name == 'ne':
            bt = self.cmp_term('eq', t, u)
            bt = TT('not', bt) if not (isinstance(a, Arr) or isinstance(b, Arr)) else TT('ne', t, u)
        else:
            bt = self.cmp_term(name, t, u)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.ext.arr_compare(name, a, b, bt, node, st, cx)
        r = self.fact(bt, st)
        if r is not None:
            return const(r)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return mk(Opq(), bt)
        return mk(Num('bool'), bt)

    # ---- comprehensions
    def comp(self, e, st, cx, kind):
        fid = ('comp', id(e), cx.ctx, tuple(self.iter_path))
        self.frame_kind[fid] = 'fn'
        self.frame_mod[fid] = cx.mod
        self.parent_frame[fid] = cx.fid
        st.frames[fid] = {}
        st.own.add(fid)
        c2 = Cx(cx.mod, cx.fn, fid, cx.owner, cx.ctx, cx.parent, cx.callnode)
        c2.depth, c2.selfv = cx.depth, cx.selfv
        c2.globals = cx.globals
        c2.nonlocals = cx.nonlocals
        out = []
        exact = [True]
        key = (lambda s: (self.eval(e.key, s, c2), self.eval(e.value, s, c2))) if kind == 'dict' else (lambda s: self.eval(e.elt, s, c2))

        def run(gi, s):
            """returns state after iterating generator gi"""
            if gi == len(e.generators):
                try:
                    out.append(key(s))
                except Dead:
                    return None
                return s
            g = e.generators[gi]
            try:
                itv = self.eval(g.iter, s, c2 if gi else self._outer(cx, c2))
            except Dead:
                return None
            ex, el, empty = self.iterate(itv, s, g.iter, c2)
            if ex is not None and len(ex) <= 24:
                cur = s
                for k, x in enumerate(ex):
                    self.iter_path.append((id(g), k))
                    try:
                        try:
                            self.store(g.target, x, cur, c2, e)
                        except Dead:
                            return None
                        t = cur
                        skip = []
                        for c in g.ifs:
                            if t is None:
                                break
                            t, f = self.cond(c, t, c2)
                            if f is not None:
                                skip.append(f)
                        if t is not None and skip:
                            exact[0] = False
                        if t is not None:
                            t = run(gi + 1, t)
                        cur = self.join_list([y for y in [t] + skip if y is not None])
                    finally:
                        self.iter_path.pop()
                    if cur is None:
                        return None
                return cur
            exact[0] = False
            lid = ('comp', id(g), cx.ctx, tuple(self.iter_path))
            self.strip_terms(s, ('it', lid))
            skip0 = s.copy()
            cur = s
            for rep in range(2):
                try:
                    self.store(g.target, self.iter_elem(el, lid), cur, c2, e)
                except Dead:
                    return skip0
                skip = [skip0] if empty or rep else []
                t = cur
                for c in g.ifs:
                    if t is None:
                        break
                    t, f = self.cond(c, t, c2)
                    if f is not None:
                        skip.append(f)
                if t is not None:
                    t = run(gi + 1, t)
                cur = self.join_list([y for y in [t] + skip if y is not None])
                if cur is None:
                    return None
                if rep == 0:
                    skip0 = cur if not empty else skip0
                    self.strip_terms(cur, ('it', lid))
                    cur = cur.copy()
            return cur
        r = run(0, st)
        if r is None:
            raise Dead()
        if r is not st:
            st.assign(r)
        if fid not in self.keep_frames:
            st.frames.pop(fid, None)
            st.own.discard(fid)
        return out, exact[0]

    def _outer(self, cx, c2):
        return c2

    def comp_deps(self, vs):
        return frozenset().union(*[v.deps for v in vs]) if vs else NOD

    def e_ListComp(self, e, st, cx):
        out, exact = self.comp(e, st, cx, 'list')
        term = None
        if exact:
            o = Obj('list', elts=tuple(out))
        else:
            el = joinall(out) if out else ANY
            term = self.comp_term(e, out)
            o = Obj('list', elts=None, elem=el)
        v = self.alloc(st, o, e, cx).with_deps(self.comp_deps(out))
        if term is not None:
            a = v.single()
            self.term_shapes[a.oid] = term
        return v

    def comp_term(self, e, out):
        ts = {x.term() for x in out}
        return next(iter(ts)) if len(ts) == 1 else None

    def e_SetComp(self, e, st, cx):
        out, exact = self.comp(e, st, cx, 'set')
        o = Obj('set', elts=tuple(out)) if exact else Obj('set', elts=None, elem=joinall(out) if out else ANY)
        return self.alloc(st, o, e, cx).with_deps(self.comp_deps(out))

    def e_GeneratorExp(self, e, st, cx):
        out, exact = self.comp(e, st, cx, 'gen')
        o = Obj('iter', elts=tuple(out)) if exact else Obj('iter', elts=None, elem=joinall(out) if out else ANY)
        return self.alloc(st, o, e, cx).with_deps(self.comp_deps(out))

    def e_DictComp(self, e, st, cx):
        out, exact = self.comp(e, st, cx, 'dict')
        keys, elem = {}, None
        ex = exact
        for k, v in out:
            ok, c = k.const()
            if ok and exact and _hashable(c):
                keys[c] = v
            else:
                ex = False
                elem = v if elem is None else joinv(elem, v)
        return self.alloc(st, Obj('dict', keys=keys, exact=ex, elem=elem), e, cx).with_deps(self.comp_deps([v for _, v in out]))

    def e_Yield(self, e, st, cx):
        v = self.eval(e.value, st, cx) if e.value is not None else NONE
        c = cx
        if c.yields is None:
            c.yields = []
        c.yields.append(v)
        return ANY

    def e_YieldFrom(self, e, st, cx):
        v = self.eval(e.value, st, cx)
        if cx.yields is None:
            cx.yields = []
        cx.yields.append(self.iterate(v, st, e, cx)[1])
        return ANY

    def e_Await(self, e, st, cx):
        return self.eval(e.value, st, cx)

    # ------------------------------------------------------------- attributes
    def lookup_cls(self, cls, name, st, after=None):
        seen = after is None
        for c in cls.mro:
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, ClassInfo):
                v = self.frame(st, c.fid).get(name)
                if v is not None:
                    return v
        return None

    def bind(self, m, selfv, cls, st, node, cx):
        """bind class attribute value m to an instance; returns an atom (or raises Dead)"""
        a = m.single()
        if isinstance(a, Fn):
            return Bound(a, selfv)
        if isinstance(a, Wrapt):
            if a.wrapped is None:
                w = a.wrapper.single()
                return Wrapt(mk(Bound(w, selfv)) if isinstance(w, Fn) else a.wrapper, None, None)
            wa = a.wrapped.single()
            if isinstance(wa, Desc):
                if wa.kind == 'class':
                    return Wrapt(a.wrapper, mk(Bound(wa.get.single(), mk(ClsA(cls)))) if isinstance(wa.get.single(), Fn) else wa.get,
                                 mk(ClsA(cls)))
                if wa.kind == 'static':
                    return Wrapt(a.wrapper, wa.get, NONE)
            return Wrapt(a.wrapper, a.wrapped, selfv)
        if isinstance(a, Desc):
            if a.kind == 'static':
                return a.get.single() or Opq()
            if a.kind == 'class':
                ga = a.get.single()
                if isinstance(ga, Fn):
                    return Bound(ga, mk(ClsA(cls)))
                if isinstance(ga, Wrapt):
                    return self.bind(a.get, mk(ClsA(cls)), cls, st, node, cx)
                return ga or Opq()
        if a is None:
            return Opq()
        return a

    def get_attr(self, b, attr, st, node, cx, call=False):
        out = self.alternatives(b.alts if isinstance(b.alts, (tuple, list)) else list(b.alts), node,
                                lambda a, t: self.get_attr1(a, t, attr, st, node, cx, call))
        if not out:
            raise Dead()
        if 'raw' in b.deps and attr in ('columns', 'index', 'keys'):
            return joinall(out).with_deps(b.deps | {'rawcol'})
        return joinall(out).with_deps(b.deps)

    def get_attr1(self, a, t, attr, st, node, cx, call=False):
        if isinstance(a, Ref):
            o = self.obj(st, a.oid)
            if o is None:
                return ANY
            if o.kind == 'inst':
                d = self.lookup_cls(o.cls, attr, st) if o.cls is not None else None
                if d is not None:
                    da = d.single()
                    if isinstance(da, Desc) and da.kind == 'property':
                        try:
                            return self.call_value(da.get, [mk(a, t)], {}, st, node, cx)
                        except Dead:
                            return None
                if o.fields and attr in o.fields:
                    v = o.fields[attr]
                    return v
                if d is not None:
                    if len(d.alts) == 1:
                        x = self.bind(d, mk(a, t), o.cls, st, node, cx)
                        return V(((x, next(iter(d.alts))[1] if not isinstance(x, (Bound,)) else None),), d.deps)
                    return d
                if attr == '__class__' and o.cls is not None:
                    return mk(ClsA(o.cls))
                if attr == '__dict__':
                    return self.alloc(st, Obj('dict', keys=dict(o.fields or {}), tag=('instdict', a.oid)), node, cx, '__dict__')
                if o.cls is not None and o.cls.nt_fields and attr in ('_asdict', '_replace', '_fields', 'index', 'count'):
                    return mk(BMeth(a, attr, t))
                if o.cls is None or [x for x in o.cls.ext_bases() if x not in HARMLESS_BASES]:
                    return mk(BMeth(a, attr, t)) if call else ANY
                if attr.startswith('__') and attr.endswith('__'):
                    return mk(Opq())
                self.emit('attrerror', obj=o, attr=attr, st=st, node=node, cx=cx)
                self.raise_ext('AttributeError', st, node, cx)
                return None
            return mk(BMeth(a, attr, t))
        if isinstance(a, Arr):
            return self.ext.arr_attr(a, t, attr, st, node, cx, call)
        if isinstance(a, ClsA):
            v = self.lookup_cls(a.cls, attr, st)
            if v is not None:
                da = v.single()
                if isinstance(da, Desc):
                    if da.kind in ('static', 'class'):
                        return mk(self.bind(v, mk(a, t), a.cls, st, node, cx))
                    return v
                if isinstance(da, Wrapt) and da.wrapped is not None and isinstance(da.wrapped.single(), Desc):
                    return mk(self.bind(v, mk(a, t), a.cls, st, node, cx))
                return v
            if attr == '__name__':
                return const(a.cls.name)
            if attr == '_fields' and a.cls.nt_fields:
                return mk(Tup([const(x) for x in a.cls.nt_fields]))
            return mk(Opq())
        if isinstance(a, ModA):
            fr = self.frame(st, ('mod', a.name))
            if attr in fr:
                return fr[attr]
            sub = a.name + '.' + attr
            if sub in self.p.modules:
                self.load_module(sub, st)
                return mk(ModA(sub))
            m = self.p.modules.get(a.name)
            if m is not None:
                for x in m.starext:
                    return self.ext.ext_value(self.ext.canon(x + '.' + attr))
            return mk(Ext(sub))
        if isinstance(a, Ext):
            return self.ext.ext_value(self.ext.canon(a.name + '.' + attr))
        if isinstance(a, SuperA):
            sa = a.self_.single()
            cls = None
            if isinstance(sa, Ref):
                o = self.obj(st, sa.oid)
                cls = o.cls if o is not None else None
            elif isinstance(sa, ClsA):
                cls = sa.cls
            if cls is not None:
                v = self.lookup_cls(cls, attr, st, after=a.cls)
                if v is not None:
                    da = v.single()
                    if isinstance(da, Desc) and da.kind == 'property':
                        try:
                            return self.call_value(da.get, [a.self_], {}, st, node, cx)
                        except Dead:
                            return None
                    return mk(self.bind(v, a.self_, cls, st, node, cx))
            return mk(BMeth(Opq(), 'super.' + attr, None))
        if isinstance(a, Const) and a.v is None:
            self.emit('noneattr', attr=attr, st=st, node=node, cx=cx)
            self.raise_ext('AttributeError', st, node, cx)
            return None
        if isinstance(a, Const) and isinstance(a.v, (int, float)) or isinstance(a, Num):
            if attr in ('real', 'T', 'imag'):
                return mk(a, t)
            if attr == 'ndim':
                return const(0)
            if attr == 'size':
                return const(1)
            if attr == 'shape':
                return mk(Tup(()))
            return mk(BMeth(a, attr, t))
        if isinstance(a, (Fn, Bound, Wrapt)):
            if attr == '__name__':
                f = a.fn if isinstance(a, Bound) else a
                return const(f.name) if isinstance(f, Fn) else mk(StrA())
            if attr == '__doc__':
                return mk(StrA())
            return mk(Opq())
        if isinstance(a, Desc):
            if a.kind == 'property' and attr in ('setter', 'getter', 'deleter'):
                return mk(BMeth(a, attr, None))
            if attr == 'fget':
                return a.get
            if attr == '__func__':
                return a.get
            return mk(Opq())
        if isinstance(a, Opq):
            if call:
                return mk(BMeth(a, attr, t))
            if a.hint == 'getfullargspec':
                return ANY
            return mk(self.ext.opq_attr(a, attr), TT('attr', t, attr))
        return mk(BMeth(a, attr, t))

    def get_item(self, b, i, st, node, cx):
        out = self.alternatives(b.alts if isinstance(b.alts, (tuple, list)) else list(b.alts), node,
                                lambda a, t: self.get_item1(a, t, i, st, node, cx))
        if not out:
            raise Dead()
        r = joinall(out).with_deps(b.deps | i.deps)
        if 'columns' in r.deps and any(isinstance(x, Partial) and not all(y.const() == (True, None) for y in x.args) for x in i.atoms()):
            r = r.with_deps({'reordered'})
        return self.realign(r, b, [i], st)

    def deep_deps(self, v, st, depth=2):
        """provenance of a value and of its elements"""
        d = v.deps
        if depth:
            for a in v.atoms():
                if isinstance(a, Tup):
                    for e in a.elts:
                        d = d | self.deep_deps(e, st, depth - 1)
                elif isinstance(a, Ref):
                    o = self.obj(st, a.oid)
                    if o is not None and o.kind in ('list', 'iter', 'set'):
                        for e in o.elts or ():
                            d = d | self.deep_deps(e, st, depth - 1)
                        if o.elem is not None:
                            d = d | self.deep_deps(o.elem, st, depth - 1)
        return d

    def realign(self, r, recv, idx, st):
        """selecting by the stored column labels, in their order, aligns the caller's frame"""
        if 'raw' in r.deps and 'raw' in recv.deps:
            for i in idx:
                d = self.deep_deps(i, st)
                if 'stored' in d and 'reordered' not in d:
                    return V(r.alts, (r.deps - {'raw'}) | {'colselect'})
        return r

    def get_item1(self, a, t, i, st, node, cx):
        if isinstance(a, Arr):
            self.emit('index', base=a, term=t, idx=i, st=st, node=node, cx=cx)
            return self.ext.arr_getitem(a, t, i, st, node, cx)
        ok, k = i.const()
        ex = None
        if isinstance(a, (Tup,)) or isinstance(a, Ref) or isinstance(a, Const) and isinstance(a.v, str):
            ia = i.single()
            if isinstance(a, Ref):
                o = self.obj(st, a.oid)
                if o is None:
                    return ANY
                if o.kind == 'dict':
                    if ok and _hashable(k):
                        if o.keys and k in o.keys:
                            return o.keys[k]
                        if o.exact and o.elem is None:
                            self.emit('keyerror', obj=o, key=k, st=st, node=node, cx=cx)
                            self.raise_ext('KeyError', st, node, cx)
                            return None
                        return o.elem if o.elem is not None else ANY
                    e = o.all_elem()
                    return e if e is not None else ANY
                if o.kind == 'inst':
                    m = self.lookup_cls(o.cls, '__getitem__', st) if o.cls is not None else None
                    if m is not None:
                        try:
                            return self.call_value(mk(self.bind(m, mk(a, t), o.cls, st, node, cx)), [i], {}, st, node, cx)
                        except Dead:
                            return None
                    if not (o.cls is not None and o.cls.nt_fields):
                        if o.cls is not None and not [x for x in o.cls.ext_bases() if x not in HARMLESS_BASES]:
                            self.raise_ext('TypeError', st, node, cx)
                            return None
                        return ANY
            ex = self.exact_elems(a, st)
            if ex is not None:
                if ok and isinstance(k, int) and not isinstance(k, bool) or ok and isinstance(k, bool):
                    if -len(ex) <= k < len(ex):
                        return ex[k]
                    self.raise_ext('IndexError', st, node, cx)
                    return None
                if isinstance(ia, Partial):
                    cs = [x.const() for x in ia.args]
                    if all(o_ for o_, _ in cs):
                        try:
                            sub = ex[slice(*[c for _, c in cs])]
                        except Exception:
                            sub = None
                        if sub is not None:
                            if isinstance(a, Tup):
                                return mk(Tup(sub))
                            if isinstance(a, Const):
                                return const(a.v[slice(*[c for _, c in cs])])
                            return self.alloc(st, Obj('list', elts=tuple(sub)), node, cx)
                    return self.alloc(st, Obj('list', elts=None, elem=joinall(ex) if ex else ANY), node, cx)
                return joinall(ex) if ex else ANY
            if isinstance(a, Ref):
                o = self.obj(st, a.oid)
                e = o.all_elem() or ANY
                if o.kind == 'list' and isinstance(ia, Arr) and (ia.shape is None or len(ia.shape) > 0):
                    self.emit('misuse', what='a list is indexed with an array', st=st, node=node, cx=cx)
                    self.raise_ext('TypeError', st, node, cx)
                    return None
                if isinstance(ia, Partial):
                    return self.alloc(st, Obj('list', elts=None, elem=e), node, cx)
                return e
        if isinstance(a, StrA) or isinstance(a, Const) and isinstance(a.v, str):
            return mk(StrA())
        if isinstance(a, Const):
            if a.v is None:
                self.emit('noneattr', attr='[]', st=st, node=node, cx=cx)
            self.raise_ext('TypeError', st, node, cx)
            return None
        if isinstance(a, (Ext, ClsA)):
            # generic alias such as List[int], BaseCopula[None]
            return mk(a, t)
        if isinstance(a, Opq):
            return self.ext.opq_getitem(a, t, i, st, node, cx)
        if isinstance(a, Partial) and isinstance(a.fn, Ext) and a.fn.name in ('pandas.loc', 'pandas.iloc') and len(a.args) == 1:
            return self.ext.loc_getitem(a.fn.name, a.args[0], i, st, node, cx)
        if isinstance(a, Num):
            if isinstance(i.single(), (Const,)) and i.const()[1] is None or isinstance(i.single(), Tup):
                return mk(Arr('ndarray', {self.fresh_root(node, cx)}, {'float': 'f', 'int': 'i'}.get(a.kind, 'o'), None), None)
            if a.kind in ('num', 'u'):
                return mk(a)
            self.raise_ext('TypeError', st, node, cx)
            return None
        return ANY

    # ------------------------------------------------------------- calls
    def e_Call(self, e, st, cx):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and not self.is_shadowed('super', st, cx):
            if e.args:
                cv = self.eval(e.args[0], st, cx).single()
                sv = self.eval(e.args[1], st, cx) if len(e.args) > 1 else cx.selfv
                if isinstance(cv, ClsA) and sv is not None:
                    return mk(SuperA(cv.cls, sv))
                return ANY
            c = cx
            owner, selfv = cx.owner, cx.selfv
            if owner is not None and selfv is not None:
                return mk(SuperA(owner, selfv))
            return ANY
        if isinstance(f, ast.Name) and f.id in ('isinstance', 'issubclass', 'callable', 'hasattr') and not self.is_shadowed(f.id, st, cx):
            t, fl = self.cond_builtin(e, st.copy(), cx)
            if t is None:
                return FALSE
            if fl is None:
                return TRUE
            return BOOL
        if isinstance(f, ast.Name) and f.id in ('locals', 'globals', 'vars') and not e.args:
            return ANY
        if isinstance(f, ast.Name) and f.id == '__ccast__' and len(e.args) == 2:
            ty = e.args[0].value if isinstance(e.args[0], ast.Constant) else ''
            return self.ctype_value(str(ty), self.eval(e.args[1], st, cx), e, cx)
        if isinstance(f, ast.Attribute):
            b = self.eval(f.value, st, cx)
            fv = self.get_attr(b, f.attr, st, f, cx, call=True)
        else:
            fv = self.eval(f, st, cx)
        args, star = [], None
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, cx)
                ex, el, _ = self.iterate(v, st, x, cx)
                if ex is None and len(v.alts) > 1:
                    # several alternatives of the same length
                    exs = [self.exact_elems(a, st) for a in v.atoms()]
                    if all(y is not None for y in exs) and len({len(y) for y in exs}) == 1:
                        ex = [joinall(list(y)) for y in zip(*exs)]
                if ex is not None and star is None:
                    args += ex
                else:
                    star = el if star is None else joinv(star, el)
            else:
                v = self.eval(x, st, cx)
                if star is None:
                    args.append(v)
                else:
                    star = joinv(star, v)
        kw, starkw = {}, None
        for k in e.keywords:
            v = self.eval(k.value, st, cx)
            if k.arg is None:
                ks, exact, el = self.dict_items(v, st)
                for kk, vv in ks.items():
                    if isinstance(kk, str):
                        kw[kk] = vv
                if not exact:
                    starkw = el if el is not None else ANY
            else:
                kw[k.arg] = v
        r = self.call_value(fv, args, kw, st, e, cx, star, starkw)
        if isinstance(f, ast.Attribute) and r.deps:
            if f.attr in LABELLING:
                r = V(r.alts, r.deps - {'col:none', 'idx:none'})
            elif f.attr in REORDERING and 'columns' in r.deps:
                r = r.with_deps({'reordered'})
            if f.attr in ALIGNING and 'raw' in r.deps:
                r = self.realign(r, b, args + list(kw.values()), st)
        return r

    def call_value(self, fv, args, kw, st, node, cx, star=None, starkw=None):
        alts = list(fv.alts)
        if len(alts) == 1:
            a, t = alts[0]
            r = self.call_atom(a, t, args, kw, st, node, cx, star, starkw)
            return r if not fv.deps else r.with_deps(fv.deps)
        sts = []

        def one(a, t):
            s = st.copy()
            r = self.call_atom(a, t, list(args), dict(kw), s, node, cx, star, starkw)
            sts.append(s)
            return r
        outs = self.alternatives(sorted(alts, key=lambda x: repr(type(x[0]))), node, one)
        if not outs:
            raise Dead()
        st.assign(self.join_list(sts))
        return joinall(outs).with_deps(fv.deps)

    def call_atom(self, a, t, args, kw, st, node, cx, star=None, starkw=None):
        if isinstance(a, Fn):
            return self.call_fn(a, args, kw, st, node, cx, star, starkw)
        if isinstance(a, Bound):
            return self.call_atom(a.fn, None, [a.self_] + list(args), kw, st, node, cx, star, starkw)
        if isinstance(a, Wrapt):
            if a.wrapped is None:
                if args:
                    return mk(Wrapt(a.wrapper, args[0], None))
                return ANY
            inst = a.inst if a.inst is not None else NONE
            w = a.wrapped
            wa = w.single()
            if a.inst is not None and isinstance(wa, Fn) and not (a.inst.const()[0]):
                w = mk(Bound(wa, a.inst))
            elif a.inst is not None and isinstance(wa, Wrapt) and wa.wrapped is not None and not a.inst.const()[0]:
                w = mk(Wrapt(wa.wrapper, wa.wrapped, a.inst))
            if star is None:
                tup = mk(Tup(args))
            else:
                tup = self.alloc(st, Obj('iter', elts=None, elem=joinall(list(args) + [star])), node, cx, 'wargs')
            kd = self.alloc(st, Obj('dict', keys=dict(kw), exact=starkw is None, elem=starkw), node, cx, 'wkw')
            return self.call_value(a.wrapper, [w, inst, tup, kd], {}, st, node, cx)
        if isinstance(a, ClsA):
            return self.instantiate(a.cls, args, kw, st, node, cx, star, starkw)
        if isinstance(a, Partial):
            return self.call_atom(a.fn, None, list(a.args) + list(args), dict(a.kw, **kw) if a.kw else kw, st, node, cx, star, starkw)
        if isinstance(a, Ref):
            o = self.obj(st, a.oid)
            if o is not None and o.kind == 'inst' and o.cls is not None:
                m = self.lookup_cls(o.cls, '__call__', st)
                if m is not None:
                    return self.call_atom(self.bind(m, mk(a, t), o.cls, st, node, cx), None, args, kw, st, node, cx, star, starkw)
            self.raise_ext('TypeError', st, node, cx)
            raise Dead()
        if isinstance(a, Desc):
            if a.kind in ('static', 'class'):
                return self.call_value(a.get, args, kw, st, node, cx, star, starkw)
            raise Dead()
        if isinstance(a, (Const, Num, StrA, Arr, Tup, ModA)):
            self.emit('notcallable', atom=a, st=st, node=node, cx=cx)
            self.raise_ext('TypeError', st, node, cx)
            raise Dead()
        if isinstance(a, Ext):
            if a.name in ('builtins.NotImplemented', 'builtins.Ellipsis'):
                self.emit('notcallable', atom=a, st=st, node=node, cx=cx)
                self.raise_ext('TypeError', st, node, cx)
                raise Dead()
            if star is not None:
                if a.name in ('builtins.zip', 'itertools.zip_longest', 'itertools.product'):
                    el = self.iterate(star, st, node, cx)[1]
                    row = self.alloc(st, Obj('list', elts=None, elem=joinall([el] + [self.iterate(y, st, node, cx)[1] for y in args])), node, cx, 'row')
                    return self.alloc(st, Obj('iter', elts=None, elem=row), node, cx)
                args = list(args) + [star]
            return self.ext.call(a.name, args, kw, st, node, cx, starkw)
        if isinstance(a, BMeth):
            if star is not None:
                args = list(args) + [star]
            return self.ext.method(a.recv, a.rterm, a.name, args, kw, st, node, cx)
        if isinstance(a, Opq):
            if star is not None:
                args = list(args) + [star]
            return self.ext.opaque_call(a, t, args, kw, st, node, cx)
        return ANY

    def bind_args(self, fn, args, kw, st, node, cx, star, starkw):
        a = fn.node.args
        defaults, kwd = self.fn_defaults.get((id(fn.node), fn.fid), ([], []))
        pos = list(a.posonlyargs) + list(a.args)
        fr = {}
        used = set()
        args = list(args)
        for i, p in enumerate(pos):
            if i < len(args):
                fr[p.arg] = args[i]
            elif p.arg in kw:
                fr[p.arg] = kw[p.arg]
                used.add(p.arg)
            else:
                di = i - (len(pos) - len(defaults))
                d = defaults[di] if 0 <= di < len(defaults) else None
                if star is not None:
                    fr[p.arg] = joinv(star, d) if d is not None else star
                elif starkw is not None:
                    fr[p.arg] = joinv(starkw, d) if d is not None else starkw
                elif d is not None:
                    fr[p.arg] = d
                else:
                    return None, "missing argument '%s'" % p.arg
        extra = args[len(pos):]
        if a.vararg is not None:
            if star is None:
                fr[a.vararg.arg] = mk(Tup(extra))
            else:
                fr[a.vararg.arg] = self.alloc(st, Obj('iter', elts=None, elem=joinall(extra + [star])), node, cx, 'vararg')
        elif extra:
            return None, 'too many positional arguments'
        for p, d in zip(a.kwonlyargs, kwd):
            if p.arg in kw:
                fr[p.arg] = kw[p.arg]
                used.add(p.arg)
            elif starkw is not None:
                fr[p.arg] = joinv(starkw, d) if d is not None else starkw
            elif d is not None:
                fr[p.arg] = d
            else:
                return None, "missing keyword argument '%s'" % p.arg
        rest = {k: v for k, v in kw.items() if k not in used}
        if a.kwarg is not None:
            fr[a.kwarg.arg] = self.alloc(st, Obj('dict', keys=rest, exact=starkw is None, elem=starkw), node, cx, 'kwarg')
        elif rest:
            return None, 'unexpected keyword argument %s' % sorted(rest)
        # C typed parameters
        for p in pos + list(a.kwonlyargs):
            an = p.annotation
            if isinstance(an, ast.Constant) and isinstance(an.value, str) and an.value.startswith('c:') and p.arg in fr:
                fr[p.arg] = self.ctype_value(an.value[2:], fr[p.arg], fn.node, cx)
        return fr, None

    def call_fn(self, fn, args, kw, st, node, cx, star=None, starkw=None):
        fr, err = self.bind_args(fn, args, kw, st, node, cx, star, starkw)
        if fr is None:
            self.emit('badcall', fn=fn, err=err, st=st, node=node, cx=cx)
            self.raise_ext('TypeError', st, node, cx)
            raise Dead()
        rec = sum(1 for f in self.fn_stack if f is fn.node)
        if cx.depth > MAX_DEPTH or rec >= MAX_REC:
            self.emit('cutoff', fn=fn, st=st, node=node, cx=cx)
            return ANY.with_deps(frozenset().union(*[v.deps for v in fr.values()]) if fr else NOD)
        ctx = self.ctxid(cx.ctx, id(node), id(fn.node), tuple(self.iter_path))
        fid = ('fn', id(fn.node), ctx)
        self.frame_kind[fid] = 'fn'
        self.frame_mod[fid] = fn.mod
        self.parent_frame[fid] = fn.fid
        st.frames[fid] = fr
        st.own.add(fid)
        whole = None
        if fn.owner is None and self.frame_kind.get(fn.fid) != 'fn' and fr and not isinstance(fn.node, ast.Lambda) \
                and all(isinstance(x, (Const, Num, StrA, Arr)) for v in fr.values() for x, _ in v.alts):
            whole = TT('res', fn.mod, fn.name, *[TT('kw', k, fr[k].term()) for k in sorted(fr)])
        c2 = Cx(fn.mod, fn, fid, fn.owner, ctx, cx, node)
        if fn.owner is None and self.frame_kind.get(fn.fid) == 'fn':
            pass
        ps = list(fn.node.args.posonlyargs) + list(fn.node.args.args)
        c2.selfv = fr.get(ps[0].arg) if ps else None
        self.visited.add(fn.node)
        self.emit('enter', fn=fn, frame=fr, st=st, node=node, cx=c2)
        self.fn_stack.append(fn.node)
        saved, self.iter_path = self.iter_path, []
        try:
            if isinstance(fn.node, ast.Lambda):
                try:
                    v = self.eval(fn.node.body, st, c2)
                    c2.returns.append((v, st, fn.node))
                except Dead:
                    pass
            else:
                out = self.exec_block(fn.node.body, st, c2)
                if out is not None:
                    c2.returns.append((NONE, out, None))
        finally:
            self.fn_stack.pop()
            self.iter_path = saved
        rets = c2.returns
        if not rets:
            raise Dead()
        keep = fid in self.keep_frames
        for _, s, _n in rets:
            if not keep:
                s.frames.pop(fid, None)
                s.own.discard(fid)
        self.emit('leave', fn=fn, rets=rets, cx=c2, node=node)
        if c2.yields is not None:
            joined = self.join_list([s for _, s, _n in rets])
            if joined is not st:
                st.assign(joined)
            y = joinall(c2.yields)
            return self.alloc(st, Obj('iter', elts=None, elem=y), fn.node, c2, 'gen').with_deps(y.deps)
        joined = self.join_list([s for _, s, _n in rets])
        pairs = rets
        if len(rets) > 1:
            pairs = [(v, s.copy(), n) for v, s, n in rets]
        if joined is not st:
            st.assign(joined)
        v = joinall([r[0] for r in rets])
        if len(rets) > 1:
            v = V(v.alts, v.deps)
        if isinstance(fn.node, ast.FunctionDef) and fn.node.returns is not None and isinstance(fn.node.returns, ast.Constant) \
                and isinstance(fn.node.returns.value, str) and fn.node.returns.value.startswith('c:'):
            v = self.ctype_value(fn.node.returns.value[2:], v, fn.node, c2)
        if whole is not None and any(t is None for _, t in v.alts) and 'rng' not in v.deps:
            v = V([(a, whole if isinstance(a, (Num, Arr)) else t) for a, t in v.alts], v.deps)
        if whole is not None and 'rng' not in v.deps:
            for a, t in v.alts:
                if t is not None and t is not whole and t.loops:
                    self.wholes[t] = whole
        self.last_ret = (v, pairs) if len(rets) > 1 else None
        return v

    def instantiate(self, cls, args, kw, st, node, cx, star=None, starkw=None):
        if cls.nt_fields:
            fs = {}
            af = dict(getattr(cls, 'annf', []))
            for i, f in enumerate(cls.nt_fields):
                if i < len(args):
                    fs[f] = args[i]
                elif f in kw:
                    fs[f] = kw[f]
                elif star is not None or starkw is not None:
                    fs[f] = ANY
                else:
                    d = self.lookup_cls(cls, f, st)
                    if d is None:
                        self.raise_ext('TypeError', st, node, cx)
                        raise Dead()
                    fs[f] = d
            return self.alloc(st, Obj('inst', cls=cls, fields=fs), node, cx, 'nt').with_deps(
                frozenset().union(*[x.deps for x in fs.values()]) if fs else NOD)
        if cls.kind == 'typeddict':
            return self.alloc(st, Obj('dict', keys=dict(kw), exact=starkw is None), node, cx, 'td')
        # abstract classes
        init = self.lookup_cls(cls, '__init__', st)
        v = self.alloc(st, Obj('inst', cls=cls, fields={}), node, cx, 'new')
        self.emit('new', cls=cls, value=v, args=args, kw=kw, st=st, node=node, cx=cx)
        a = v.single()
        if init is not None:
            self.call_value(mk(self.bind(init, v, cls, st, node, cx)), args, kw, st, node, cx, star, starkw)
        elif cls.dataclass:
            fs = {}
            names = []
            for c in reversed(cls.mro):
                if isinstance(c, ClassInfo):
                    names += [n for n, _ in getattr(c, 'annf', [])]
            for i, f in enumerate(names):
                if i < len(args):
                    fs[f] = args[i]
                elif f in kw:
                    fs[f] = kw[f]
                else:
                    d = self.lookup_cls(cls, f, st)
                    fs[f] = d if d is not None else ANY
            st.heap[a.oid] = self.obj(st, a.oid).rep(fields=fs)
            pi = self.lookup_cls(cls, '__post_init__', st)
            if pi is not None:
                self.call_value(mk(self.bind(pi, v, cls, st, node, cx)), [], {}, st, node, cx)
        elif any(b.startswith('builtins.') or b in ('?',) for b in cls.ext_bases()):
            o = self.obj(st, a.oid)
            st.heap[a.oid] = o.rep(fields=dict(o.fields or {}, args=mk(Tup(args))))
        return v

    # ------------------------------------------------------------- utilities for drivers
    def top_cx(self, label='driver'):
        fid = ('drv', label, len(self.ctx_tab))
        self.frame_kind[fid] = 'fn'
        return Cx('<driver>', None, fid, None, self.ctxid('drv', label), None, None)

    def global_value(self, mod, name):
        f = self.base_frames.get(('mod', mod))
        return f.get(name) if f else None


def _hashable(k):
    try:
        hash(k)
        return True
    except TypeError:
        return False
