"""Abstract values.

V      a set of alternatives (atom, term) plus a taint set `deps`.
atom   the kind/identity of the value (constant, number, array, reference to a heap object, function...).
term   a hash-consed value number: equal terms denote equal run-time values (None = unknown).
root   a storage region (tuple); arrays/containers carry the regions their memory may live in.
"""
import math


# ------------------------------------------------------------------ terms
class Term:
    __slots__ = ('op', 'args', 'depth', 'id', 'loops')
    _tab = {}
    _made = set()

    def __repr__(self):
        return show_term(self)


def T(op, *args):
    key = (op,) + tuple(('t', a.id) if isinstance(a, Term) else (type(a).__name__, repr(a) if isinstance(a, float) else a)
                        for a in args)
    t = Term._tab.get(key)
    if t is None:
        t = Term()
        t.op, t.args = op, args
        t.depth = 1 + max([a.depth for a in args if isinstance(a, Term)] or [0])
        t.id = len(Term._tab) + 1
        lp = frozenset()
        for a in args:
            if isinstance(a, Term) and a.loops and not a.loops <= lp:
                lp = lp | a.loops
        if op in ('phi', 'it'):
            lp = lp | {(op, args[0])}
            Term._made.add((op, args[0]))
        t.loops = lp
        Term._tab[key] = t
    return t


MAXDEPTH = 80


def TT(op, *args):
    """term constructor that gives up when an operand is unknown or the term is too deep"""
    for a in args:
        if a is None:
            return None
        if isinstance(a, Term) and a.depth > MAXDEPTH:
            return None
    return T(op, *args)


def show_term(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == 'const':
        return repr(t.args[0])
    if t.op in ('p', 'sym'):
        return str(t.args[0])
    if d > 8:
        return '...'
    return '%s(%s)' % (t.op, ', '.join(show_term(a, d + 1) for a in t.args))


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('_h', '_k')
    fields = ()

    def key(self):
        return tuple(getattr(self, f) for f in self.fields)

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__, self.key()))
            return self._h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o) and self.key() == o.key())

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(repr(getattr(self, f)) for f in self.fields))


class Const(Atom):
    __slots__ = ('v', 'ty')
    fields = ('ty', 'v')

    def __init__(self, v):
        self.v = v
        self.ty = type(v).__name__

    def key(self):
        return (self.ty, repr(self.v))

    def __repr__(self):
        return 'Const(%r)' % (self.v,)


class Num(Atom):
    __slots__ = ('kind',)
    fields = ('kind',)

    def __init__(self, kind='num'):
        self.kind = kind


class StrA(Atom):
    __slots__ = ()


class Arr(Atom):
    """numpy array / DataFrame / Series.  dtype: 'f' float, 'i' int, 'b' bool, 'u' inherited from the user's input
    (may be integer), 'o' unknown.  shape: tuple of dims (int | Term | None) or None when the rank is unknown."""
    __slots__ = ('cls', 'roots', 'dtype', 'shape')
    fields = ('cls', 'roots', 'dtype', 'shape')

    def __init__(self, cls='ndarray', roots=frozenset(), dtype='o', shape=None):
        self.cls, self.roots, self.dtype, self.shape = cls, frozenset(roots), dtype, shape

    def key(self):
        return (self.cls, self.roots, self.dtype,
                None if self.shape is None else tuple(d.id + 10 ** 9 if isinstance(d, Term) else d for d in self.shape))

    def rep(self, **kw):
        a = dict(cls=self.cls, roots=self.roots, dtype=self.dtype, shape=self.shape)
        a.update(kw)
        return Arr(**a)


class Ref(Atom):
    __slots__ = ('oid',)
    fields = ('oid',)

    def __init__(self, oid):
        self.oid = oid


class Tup(Atom):
    __slots__ = ('elts',)
    fields = ('elts',)

    def __init__(self, elts):
        self.elts = tuple(elts)


class Fn(Atom):
    __slots__ = ('node', 'mod', 'fid', 'owner', 'name')

    def __init__(self, node, mod, fid, owner=None, name=None):
        self.node, self.mod, self.fid, self.owner = node, mod, fid, owner
        self.name = name or getattr(node, 'name', '<lambda>')

    def key(self):
        return (id(self.node), self.fid)

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Bound(Atom):
    """a callable with a pre-bound first argument (method)"""
    __slots__ = ('fn', 'self_')
    fields = ('fn', 'self_')

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Desc(Atom):
    """staticmethod / classmethod / property descriptor"""
    __slots__ = ('kind', 'get', 'set')
    fields = ('kind', 'get', 'set')

    def __init__(self, kind, get, set_=None):
        self.kind, self.get, self.set = kind, get, set_


class Wrapt(Atom):
    """wrapt decorator (wrapped is None) or a wrapt-decorated function"""
    __slots__ = ('wrapper', 'wrapped', 'inst')
    fields = ('wrapper', 'wrapped', 'inst')

    def __init__(self, wrapper, wrapped=None, inst=None):
        self.wrapper, self.wrapped, self.inst = wrapper, wrapped, inst


class ClsA(Atom):
    __slots__ = ('cls',)

    def __init__(self, cls):
        self.cls = cls

    def key(self):
        return (id(self.cls),)

    def __repr__(self):
        return 'Cls(%s)' % self.cls.name


class ModA(Atom):
    __slots__ = ('name',)
    fields = ('name',)

    def __init__(self, name):
        self.name = name


class Ext(Atom):
    __slots__ = ('name',)
    fields = ('name',)

    def __init__(self, name):
        self.name = name


class BMeth(Atom):
    """a method of a built-in/external object"""
    __slots__ = ('recv', 'name', 'rterm')
    fields = ('recv', 'name', 'rterm')

    def __init__(self, recv, name, rterm=None):
        self.recv, self.name, self.rterm = recv, name, rterm

    def key(self):
        return (self.recv, self.name, self.rterm.id if self.rterm is not None else None)


class SuperA(Atom):
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def key(self):
        return (id(self.cls), self.self_)


class Partial(Atom):
    __slots__ = ('fn', 'args', 'kw')
    fields = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Opq(Atom):
    """unknown object; `roots` are caller regions it may be (part of); hint: 'dict','list','columns',..."""
    __slots__ = ('roots', 'hint')
    fields = ('roots', 'hint')

    def __init__(self, roots=frozenset(), hint=None):
        self.roots, self.hint = frozenset(roots), hint


# ------------------------------------------------------------------ values
def cterm(v):
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and math.isfinite(v) else False:
        return T('const', int(v))
    return T('const', v)


MAXALTS = 14
NOD = frozenset()


class V:
    __slots__ = ('alts', 'deps', '_h', '_l')

    def __init__(self, alts, deps=NOD):
        self.alts = frozenset(alts)
        self.deps = deps
        if len(self.alts) > MAXALTS:
            self._compress()

    def _compress(self):
        nt = {(a, cterm(a.v) if isinstance(a, Const) else None) for a, t in self.alts}
        if len(nt) <= MAXALTS:
            self.alts = frozenset(nt)
            return
        out = set()
        consts = [a for a, t in nt if isinstance(a, Const)]
        widen = len(consts) > 6
        merged = {}
        opq_roots, opq = frozenset(), False
        for a, t in nt:
            if isinstance(a, Const) and widen and a.v is not None and not isinstance(a.v, bool):
                if isinstance(a.v, int):
                    out.add((Num('int'), None))
                elif isinstance(a.v, float):
                    out.add((Num('float'), None))
                elif isinstance(a.v, str):
                    out.add((StrA(), None))
                else:
                    out.add((a, t))
            elif isinstance(a, Arr):
                k = a.cls
                if k in merged:
                    b = merged[k]
                    merged[k] = Arr(k, a.roots | b.roots, a.dtype if a.dtype == b.dtype else 'o',
                                    a.shape if a.shape == b.shape else None)
                else:
                    merged[k] = a
            elif isinstance(a, Opq):
                opq, opq_roots = True, opq_roots | a.roots
            else:
                out.add((a, t))
        for a in merged.values():
            out.add((a, None))
        if opq:
            out.add((Opq(opq_roots), None))
        if len(out) > 40:
            refs = [x for x in out if isinstance(x[0], (Ref, Arr))][:20]
            out = set(refs) | {(Opq(opq_roots), None)}
        self.alts = frozenset(out)

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and self.alts == o.alts and self.deps == o.deps)

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((self.alts, self.deps))
            return self._h

    def __repr__(self):
        return '{%s}%s' % (' | '.join('%r%s' % (a, ':' + repr(t) if t is not None and not isinstance(a, Const) else '')
                                      for a, t in self.alts), ('~' + repr(set(self.deps))) if self.deps else '')

    def with_deps(self, deps):
        deps = frozenset(deps)
        if deps <= self.deps:
            return self
        return V(self.alts, self.deps | deps)

    def loops(self):
        """loop markers (phi / iteration variables) occurring in the value numbers of this value"""
        try:
            return self._l
        except AttributeError:
            r = frozenset()
            for a, t in self.alts:
                if t is not None and t.loops:
                    r = r | t.loops
                if isinstance(a, Tup):
                    for e in a.elts:
                        r = r | e.loops()
            self._l = r
            return r

    def term(self):
        if len(self.alts) == 1:
            return next(iter(self.alts))[1]
        ts = {t for _, t in self.alts}
        if len(ts) == 1:
            return next(iter(ts))
        return None

    def atoms(self):
        return [a for a, _ in self.alts]

    def single(self):
        if len(self.alts) == 1:
            return next(iter(self.alts))[0]
        return None

    def const(self):
        """(True, value) when the value is one known constant"""
        a = self.single()
        if isinstance(a, Const):
            return True, a.v
        return False, None

    def consts(self):
        """list of constants if all alternatives are constants else None"""
        if self.alts and all(isinstance(a, Const) for a, _ in self.alts):
            return [a.v for a, _ in self.alts]
        return None


def mk(atom, term=None, deps=NOD):
    if isinstance(atom, Const) and term is None:
        term = cterm(atom.v)
    elif term is None and isinstance(atom, Ext):
        term = T('ext', atom.name)
    return V(((atom, term),), deps)


def const(v, deps=NOD):
    return mk(Const(v), None, deps)


ANY = V(((Opq(), None),))
NONE = const(None)
TRUE = const(True)
FALSE = const(False)
BOOL = mk(Num('bool'))
BOT = V(())


def anyv(deps=NOD, term=None, roots=frozenset(), hint=None):
    return mk(Opq(roots, hint), term, deps)


def joinv(a, b):
    if a is b or b is None:
        return a
    if a is None:
        return b
    if a.alts == b.alts and a.deps == b.deps:
        return a
    return V(a.alts | b.alts, a.deps | b.deps)


def joinall(vs):
    r = None
    for v in vs:
        r = v if r is None else joinv(r, v)
    return r if r is not None else BOT


# ------------------------------------------------------------------ heap objects
class Obj:
    """kind: list|dict|set|inst|iter.  elts: exact element tuple or None.  elem: summary element.
    keys: for dict, mapping const->V (exact when `exact`).  fields: instance attributes."""
    __slots__ = ('kind', 'cls', 'elts', 'elem', 'keys', 'exact', 'fields', 'summary', 'tag')

    def __init__(self, kind, cls=None, elts=None, elem=None, keys=None, exact=True, fields=None, summary=False, tag=None):
        self.kind, self.cls, self.elts, self.elem = kind, cls, elts, elem
        self.keys, self.exact, self.fields, self.summary, self.tag = keys, exact, fields, summary, tag

    def rep(self, **kw):
        o = Obj(self.kind, self.cls, self.elts, self.elem, self.keys, self.exact, self.fields, self.summary, self.tag)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def __eq__(self, o):
        return self is o or (isinstance(o, Obj) and self.kind == o.kind and self.cls is o.cls and self.elts == o.elts
                             and self.elem == o.elem and self.keys == o.keys and self.exact == o.exact
                             and self.fields == o.fields and self.summary == o.summary)

    def all_elem(self):
        r = self.elem
        if self.elts is not None:
            for e in self.elts:
                r = joinv(r, e) if r is not None else e
        if self.keys:
            for e in self.keys.values():
                r = joinv(r, e) if r is not None else e
        return r


def join_dict(a, b):
    if a is b:
        return a
    out = dict(a)
    for k, v in b.items():
        if k in out:
            out[k] = joinv(out[k], v)
        else:
            out[k] = v
    return out


def join_obj(a, b):
    if a is b or a == b:
        return a
    if a.kind != b.kind:
        return Obj(a.kind, a.cls, None, joinv(a.all_elem() or ANY, b.all_elem() or ANY), summary=True)
    o = a.rep(summary=a.summary or b.summary)
    if a.kind in ('list', 'set', 'iter'):
        if a.elts is not None and b.elts is not None and len(a.elts) == len(b.elts):
            o.elts = tuple(joinv(x, y) for x, y in zip(a.elts, b.elts))
            o.elem = joinv(a.elem, b.elem) if a.elem is not None else b.elem
        else:
            e = a.all_elem()
            f = b.all_elem()
            o.elts = None
            o.elem = e if f is None else (f if e is None else joinv(e, f))
    elif a.kind == 'dict':
        ka, kb = a.keys or {}, b.keys or {}
        same = set(map(repr, ka)) == set(map(repr, kb))
        o.keys = join_dict(ka, kb)
        o.exact = a.exact and b.exact and same
        o.elem = joinv(a.elem, b.elem) if a.elem is not None else b.elem
    elif a.kind == 'inst':
        o.fields = join_dict(a.fields or {}, b.fields or {})
    return o
