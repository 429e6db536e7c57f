"""P07: every documented argument of a call has an influence on what the call does."""
from ..check import *

PFX = 'arg:'
# observing these about an argument is not yet using it
WEAK = {'builtins.isinstance', 'builtins.callable', 'builtins.hasattr', 'builtins.issubclass', 'builtins.type', 'builtins.repr', 'builtins.str',
        'builtins.format', 'builtins.print', 'builtins.id', 'builtins.getattr', 'builtins.list', 'builtins.tuple', 'builtins.dict', 'builtins.set',
        'builtins.super', 'copy.copy', 'copy.deepcopy', 'warnings.warn', 'numpy.array', 'numpy.asarray', 'numpy.copy'}


class CHECK(Rule):
    """Information-flow analysis of every public call: each explicitly passed argument must flow, along at least one abstract path, into the returned
    value, the state of an object, a library call or a decision.  For fit the sink is named: x0 and optim_options must reach scipy's optimiser (x0 as the
    starting point, every entry of optim_options as the entry of that name), ties must reach the ranking, and the ranking must see the data
    by default; 'itau' and 'irho' must call the method of that name and not the optimiser, 'ml' must call the optimiser."""
    pid = 'P07'
    dims = (2,)
    MIN = {'arguments': 2000, 'fit_arguments': 150}

    FIXTURE = '''
import numpy as np

def helper(x, n):
    return np.asarray(x) * 2

def bad_ignored(x, n=3):
    return np.asarray(x) * 2

def bad_dropped_on_the_way(x, n=3):
    return helper(x, n)

def bad_overwritten(x, ties='average'):
    ties = 'average'
    return np.sort(x, kind=ties)

def good_used(x, n=3):
    return np.asarray(x) * n

def good_decides(x, log=False):
    if log:
        return np.asarray(x)
    return np.exp(x)

def good_stored(x, n=3):
    d = {}
    d['n'] = n
    return np.sum(x), d
'''

    hit, names, ranked, opt, entered, user_opts = set(), {}, set(), [], set(), None

    def walk_instance(self, S, inst):
        for c in query_calls(S, inst, inst.st):
            self.do(c, 'query')
        st = self.settle(S, inst)
        if st is not inst.st:
            for c in query_calls(S, inst, st):
                self.do(c, 'query')
        for c in fit_option_calls(S, inst, inst.st):
            self.do(c, 'mutator')

    # ---- which arguments of fit matter
    def relevant(self, c, n):
        """is argument n documented to influence this call?"""
        if n == 'verbose':
            return False
        inst = getattr(c, 'inst', None)
        if inst is None:
            return not (n == 'axis' and c.name == 'rank_data' and any(
                isinstance(a, Arr) and a.shape is not None and len(a.shape) < 2 for v in c.args[:1] for a in v.atoms()))
        if c.name != 'fit' or c.kind != 'call':
            return True
        if inst.name in ('IndepCopula', 'EmpiricalCopula'):
            return False
        m = c.kw.get('method')
        m = m.const()[1] if m is not None and m.const()[0] else None
        if inst.name == 'GaussianMixtureCopula':
            return n in {'pem': ('data', 'x0', 'method', 'ties', 'max_iter', 'criteria', 'eps'),
                         'sgd': ('data', 'x0', 'method', 'ties', 'max_iter', 'optim_options'),
                         'kmeans': ('data', 'method', 'ties')}.get(m or 'pem', ())
        if m in ('itau', 'irho'):
            return n in ('data', 'method', 'ties', 'to_pobs')
        return True

    def is_fit(self, c):
        return getattr(c, 'inst', None) is not None and c.name == 'fit' and c.kind == 'call' and \
            c.inst.name not in ('IndepCopula', 'EmpiricalCopula')

    def pre_call(self, c):
        self.hit = set()
        self.ranked, self.opt, self.entered = set(), [], set()
        self.user_opts = None
        if self.is_fit(c) and 'optim_options' in c.kw:
            a = c.kw['optim_options'].single()
            o = self.ip.obj(c.pre, a.oid) if isinstance(a, Ref) else None
            if o is not None and o.keys is not None:
                self.user_opts = set(o.keys)
                self.user_own = {q: v.alts for q, v in o.keys.items() if q in ('tol', 'method')}
                for a in o.keys['options'].atoms() if 'options' in o.keys else ():
                    oo = self.ip.obj(c.pre, a.oid)
                    self.user_own['maxiter'] = oo.keys['maxiter'].alts
        self.names = {}
        sig = self.params(c)
        if sig is None:
            return
        st = c.pre.copy()
        pos = [n for n, d, k in sig if k in ('pos',)] if sig else []
        allpos = [n for n, d, k in sig]
        args = []
        for i, v in enumerate(c.args):
            n = allpos[i] if i < len(allpos) else None
            args.append(self.tag(n, v, st) if n else v)
        kw = {n: self.tag(n, v, st) for n, v in c.kw.items()}
        c.args, c.kw, c.pre = args, kw, st

    def params(self, c):
        inst = getattr(c, 'inst', None)
        if inst is not None:
            if c.kind == 'set':
                return [('value', False, 'pos')]
            if c.kind != 'call':
                return None
            mv = self.ip.lookup_cls(inst.cls, c.name, c.pre)
            sg = signature(self.S, mv) if mv is not None else None
            if sg is None:
                return None
            p = sg[0]
            return p[1:] if p and p[0][0] in ('self', 'cls') else p
        sg = signature(self.S, c.fv)
        if sg is None:
            return None
        p = sg[0]
        return p[1:] if p and p[0][0] in ('self', 'cls') else p

    def tag(self, n, v, st):
        if v.const()[0] and v.const()[1] is None:
            return v
        if any(isinstance(a, Partial) and isinstance(a.fn, Ext) and a.fn.name == 'builtins.slice' for a in v.atoms()):
            return v  # a full slice says no more than its kind
        d = PFX + n
        self.names[n] = d
        oids, _ = reach(self.S, st, [v])
        for oid in oids:
            if oid in self.ip.base_heap:
                continue
            o = st.heap.get(oid)
            if o is None:
                continue
            kw = {}
            f = lambda x: V(x.alts, x.deps | {d})
            if o.elts is not None:
                kw['elts'] = tuple(f(e) for e in o.elts)
            if o.elem is not None:
                kw['elem'] = f(o.elem)
            if o.keys:
                kw['keys'] = {k: f(x) for k, x in o.keys.items()}
            if o.kind == 'inst' and o.fields:
                kw['fields'] = {k: f(x) for k, x in o.fields.items()}
            st.heap[oid] = o.rep(**kw)
        return V(v.alts, v.deps | {d})

    # ---- sinks
    def use(self, *vals):
        for v in vals:
            if isinstance(v, V) and v.deps:
                self.hit |= {x for x in v.deps if isinstance(x, str) and x.startswith(PFX)}

    def on_branch(self, values, decided, st, node, cx, **k):
        for v in values:
            if not v.deps:
                continue
            if v.const()[0] and v.const()[1] is None:
                continue
            if decided and not all(isinstance(a, Const) for a in v.atoms()):
                continue
            self.use(v)

    def on_enter(self, fn, **k):
        self.entered.add(fn.name)

    def on_ext(self, name, args, kw, st, node, cx, starkw=None, **k):
        if name in WEAK:
            return
        if 'rank' in name.split('.')[-1]:
            for v in list(args) + list(kw.values()):
                self.ranked |= v.deps
        if name.startswith('scipy.optimize.') and name.split('.')[-1] != 'OptimizeResult' and self.call is not None and self.is_fit(self.call):
            d = {}
            for q, v in kw.items():
                d[q] = set(v.deps)
                oids, _ = reach(self.S, st, [v])
                for oid in oids:
                    o = self.ip.obj(st, oid)
                    for x in list(o.elts or ()) + ([o.elem] if o.elem is not None else []) + list((o.keys or {}).values()):
                        d[q] |= x.deps
            own = {}
            for q in ('tol', 'method'):
                if q in kw:
                    own[q] = kw[q].alts
            if 'options' in kw:
                own['maxiter'] = frozenset()
                for a in kw['options'].atoms():
                    o = self.ip.obj(st, a.oid) if isinstance(a, Ref) else None
                    if o is None or o.keys is None or 'maxiter' not in o.keys:
                        own.pop('maxiter', None)
                        break
                    own['maxiter'] = own['maxiter'] | o.keys['maxiter'].alts
            x0 = set(args[1].deps) if len(args) > 1 else d.get('x0', set())
            self.opt.append((name, x0, d, starkw is not None, own))
        self.use(*args)
        self.use(*kw.values())
        self.use(starkw)

    def on_meth(self, recv, name, args, kw, **k):
        if isinstance(recv, (Const, StrA)):
            return
        self.use(*args)
        self.use(*kw.values())

    def on_setattr(self, value, **k):
        self.deep(value, k.get('st'))

    def on_store(self, value, **k):
        self.use(value)

    def on_rng(self, **k):
        if k.get('value') is not None:
            self.use(k['value'])

    def on_globset(self, value, **k):
        self.use(value)

    def on_io(self, **k):
        pass

    def on_print(self, **k):
        pass

    def deep(self, v, st):
        if v is None:
            return
        self.use(v)
        if st is None:
            return
        oids, _ = reach(self.S, st, [v])
        for oid in oids:
            o = self.ip.obj(st, oid)
            if o is None:
                continue
            self.use(*(o.elts or ()))
            if o.elem is not None:
                self.use(o.elem)
            for dd in (o.keys, o.fields):
                if dd:
                    self.use(*dd.values())
        for a in v.atoms():
            if isinstance(a, Tup):
                for e in a.elts:
                    self.deep(e, st)

    def post_call(self, c):
        if not self.names or c.out.budget:
            return
        if c.out.value is None:
            return
        self.deep(c.out.value, c.out.st)
        fit = self.is_fit(c)
        for n, d in sorted(self.names.items()):
            if not self.relevant(c, n):
                continue
            if n == 'optim_options' and not self.user_opts and fit:
                continue
            self.count['arguments'] += 1
            if d not in self.hit:
                self.flag(c, n)
            elif fit:
                self.count['fit_arguments'] += 1
        if fit:
            self.fit_rules(c)

    def fit_rules(self, c):
        m = c.kw.get('method')
        m = m.const()[1] if m is not None and m.const()[0] else None
        gmc = c.inst.name == 'GaussianMixtureCopula'
        mini = [o for o in self.opt if o[0].endswith('.minimize')]
        if (m in ('ml', 'sgd') or m is None and not gmc) and not self.opt:
            self.flag(c, 'method', '%s does not run an optimiser' % (m or 'the default method'))
        if m in ('itau', 'irho', 'kmeans', 'pem') and mini:
            self.flag(c, 'method', '%s runs the optimiser' % m)
        if m in ('itau', 'irho') and not gmc:
            other = 'irho' if m == 'itau' else 'itau'
            if other in self.entered and m not in self.entered:
                self.flag(c, 'method', 'method %s runs %s' % (m, other))
        if mini and m in ('ml', 'sgd', None):
            if 'x0' in self.names and not any(PFX + 'x0' in o[1] for o in mini):
                self.flag(c, 'x0', 'x0 does not reach the optimiser as its starting point')
            for q in sorted(self.user_opts or ()):
                if q in ('x0', 'args', 'fun'):
                    continue
                self.count['options'] += 1
                if not any(PFX + 'optim_options' in o[2].get(q, ()) or q not in o[2] and o[3] for o in mini):
                    self.flag(c, 'optim_options', 'the entry %s of optim_options does not reach the optimiser' % q)
            if 'solver=' in c.label:
                for q, alts in sorted(self.user_own.items()):
                    self.count['options'] += 1
                    for o in mini:
                        if q in o[4] and not o[4][q] <= alts:
                            self.flag(c, 'optim_options', 'the entry %s of optim_options does not replace the default' % q)
        if 'ties' in self.names and PFX + 'ties' not in self.ranked and 'to_pobs' not in self.names:
            self.flag(c, 'ties', 'ties does not reach the ranking of the data')
        if 'to_pobs' not in self.names and self.ranked is not None and PFX + 'data' not in self.ranked:
            self.flag(c, 'to_pobs', 'the data is not converted to pseudo observations by default')

    def flag(self, c, n, msg=None):
        from .p11 import CHECK as P11
        fn = P11.entry_fn(self, c)
        if fn is None:
            return
        m = self.ip.p.modules.get(fn.mod)
        q = (fn.owner.name + '.' if fn.owner is not None else '') + fn.name
        self.report_at(m.rel if m else str(fn.mod), fn.node.lineno, q, 'argument ' + n, msg or 'the argument %s has no influence on the call' % n)
