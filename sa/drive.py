"""Driver layer: loads the package into the abstract interpreter, builds abstract instances and calls public entry points."""
import ast
import os

from .interp import *
from .interp import Interp, State, Dead, Budget, ClassInfo
from .loader import Program
from .values import *
from .values import V, T, mk, const, anyv, joinv, joinall, Obj


class Exit:
    __slots__ = ('exc', 'st', 'node', 'cx')

    def __init__(self, exc, st, node, cx):
        self.exc, self.st, self.node, self.cx = exc, st, node, cx


class Out:
    """result of one abstract call: value (None when it never returns normally), state, exceptional exits"""

    def __init__(self, value, st, exits, rets=None, budget=False):
        self.value, self.st, self.exits, self.budget = value, st, exits, budget
        self.rets = rets


class Sess:
    def __init__(self, repo=None, budget=4000000, listeners=()):
        self.p = Program(repo)
        self.ip = Interp(self.p, budget=budget)
        for l in listeners:
            l.ip = self.ip
            self.ip.listeners.append(l)
        self.ip.load_all()
        self.n = 0
        self.calls = 0
        self.gaps = []

    # -------------------------------------------------------------- symbols
    def cls(self, mod, name):
        v = self.ip.global_value(mod, name)
        if v is None:
            return None
        for a in v.atoms():
            if isinstance(a, ClsA):
                return a.cls
        return None

    def root_value(self, mod, name):
        return self.ip.global_value(mod, name)

    def public(self, mod, inherited=True):
        """public names of a module: __all__ when it has one, otherwise everything without an underscore"""
        f = self.ip.base_frames.get(('mod', mod), {})
        m = self.p.modules.get(mod)
        names = None
        if m is not None:
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets) \
                        and isinstance(s.value, (ast.List, ast.Tuple)):
                    names = [e.value for e in s.value.elts if isinstance(e, ast.Constant)]
        if names is None:
            names = [n for n in f if not n.startswith('_')]
        return {n: f[n] for n in names if n in f}

    # -------------------------------------------------------------- calls
    def state(self):
        return self.ip.new_state()

    def label(self, s):
        self.n += 1
        return '%s#%d' % (s, self.n)

    def call(self, fv, args=(), kw=None, st=None, label='call', cx=None):
        ip = self.ip
        st = st if st is not None else self.state()
        self.calls += 1
        cx = cx or ip.top_cx(label)
        ip.exc.append([])
        ip.last_ret = None
        ip.iter_path = []
        ip.fn_stack = []
        val, rets, bud = None, None, False
        ip.steps = 0
        depth = len(ip.exc)
        try:
            val = ip.call_value(fv, list(args), dict(kw or {}), st, None, cx)
            rets = ip.last_ret
        except Dead:
            val = None
        except Budget:
            bud = True
            self.gaps.append(('budget', label))
        except RecursionError:
            bud = True
            self.gaps.append(('recursion', label))
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            bud = True
            self.gaps.append(('engine:%s' % type(e).__name__, label))
        while len(ip.exc) > depth:
            ip.exc.pop()
        ex = [Exit(*x) for x in ip.exc.pop()]
        return Out(val, st, ex, rets, bud)

    def method(self, selfv, name, args=(), kw=None, st=None, label='call'):
        cx = self.ip.top_cx(label)
        self.ip.exc.append([])
        try:
            m = self.ip.get_attr(selfv, name, st, None, cx, call=True)
        except Dead:
            m = None
        ex = [Exit(*x) for x in self.ip.exc.pop()]
        if m is None:
            return Out(None, st, ex)
        o = self.call(m, args, kw, st, label, cx)
        o.exits = ex + o.exits
        return o

    def getprop(self, selfv, name, st, label='get'):
        ip = self.ip
        cx = ip.top_cx(label)
        ip.exc.append([])
        ip.steps = 0
        self.calls += 1
        v, bud = None, False
        depth = len(ip.exc)
        try:
            v = ip.get_attr(selfv, name, st, None, cx)
        except Dead:
            v = None
        except (Budget, RecursionError):
            bud = True
            self.gaps.append(('budget', label))
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            bud = True
            self.gaps.append(('engine:%s' % type(e).__name__, label))
        while len(ip.exc) > depth:
            ip.exc.pop()
        ex = [Exit(*x) for x in ip.exc.pop()]
        return Out(v, st, ex, None, bud)

    def setprop(self, selfv, name, value, st, label='set'):
        ip = self.ip
        cx = ip.top_cx(label)
        ip.exc.append([])
        ip.steps = 0
        self.calls += 1
        ok, bud = True, False
        depth = len(ip.exc)
        try:
            ip.set_attr(selfv, name, value, st, None, cx)
        except Dead:
            ok = False
        except (Budget, RecursionError):
            bud = True
            self.gaps.append(('budget', label))
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            bud = True
            self.gaps.append(('engine:%s' % type(e).__name__, label))
        while len(ip.exc) > depth:
            ip.exc.pop()
        ex = [Exit(*x) for x in ip.exc.pop()]
        return Out(NONE if ok else None, st, ex, None, bud)

    def alloc(self, st, obj, label):
        return self.ip.alloc(st, obj, None, self.ip.top_cx(self.label(label)))

    # -------------------------------------------------------------- argument values
    def nd(self, name, rank=2, dim=None, dtype='u', cls='ndarray', deps=NOD):
        root = ('arg', name)
        n = T('sym', 'n:' + name)
        if rank == 2:
            sh = (n, dim if dim is not None else T('sym', 'd:' + name))
        elif rank == 1:
            sh = (dim if dim is not None else n,)
        elif rank == 3:
            sh = (n, dim, dim)
        else:
            sh = None
        return mk(Arr(cls, {root}, dtype, sh), T('p', name), deps)

    def num(self, name, kind='float'):
        return mk(Num(kind), T('p', name))

    def lst(self, st, name, elem=None, n=None, deps=NOD):
        e = elem if elem is not None else mk(Num('u'), None)
        o = Obj('list', elts=tuple([e] * n) if n is not None else None, elem=None if n is not None else e, tag=('arg', name))
        return self.alloc(st, o, 'list:' + name)

    def dct(self, st, name, keys=None, exact=False, elem=None):
        o = Obj('dict', keys=dict(keys or {}), exact=exact, elem=elem if elem is not None else (None if exact else ANY), tag=('arg', name))
        return self.alloc(st, o, 'dict:' + name)
