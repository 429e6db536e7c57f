"""The public surface of the package: abstract instances of every copula class, and abstract calls of every public
entry point.  Everything is enumerated from the analysed program (class tables, __all__, signatures), so code that is
added is picked up without editing this file."""
import ast

from .drive import *
from .interp import ClassInfo, Listener
from .values import *

NAN = const(float('nan'))

# the names the package documents for import (README, docs): a vanished one is an error, not a pass
COPULAS = ['ClaytonCopula', 'FrankCopula', 'GumbelCopula', 'GaussianCopula', 'StudentCopula', 'IndepCopula',
           'EmpiricalCopula', 'GaussianMixtureCopula', 'MarginalCopula']

FUNC_MODULES = ['copulae.core', 'copulae.stats', 'copulae.stats.log', 'copulae.special', 'copulae.special.clausen',
                'copulae.special.debye', 'copulae.special.dilog', 'copulae.special.trig', 'copulae.special.optimize',
                'copulae.special.combinatorics', 'copulae.special.special_func', 'copulae.gof', 'copulae.datasets',
                'copulae.empirical.distribution', 'copulae']


class Missing(Exception):
    """a documented public name is gone: the check cannot answer"""


# ------------------------------------------------------------------ unwrapping functions
def underlying(v, depth=0):
    """the source functions behind a callable value (through wrapt, descriptors, functools wrappers)"""
    out = []
    if v is None or depth > 8:
        return out
    for a in v.atoms():
        if isinstance(a, Fn):
            out.append(a)
        elif isinstance(a, Wrapt):
            out += underlying(a.wrapped, depth + 1)
        elif isinstance(a, Desc):
            out += underlying(a.get, depth + 1)
        elif isinstance(a, Bound):
            out += underlying(mk(a.fn) if isinstance(a.fn, Atom) else a.fn, depth + 1)
        elif isinstance(a, Partial):
            out += underlying(mk(a.fn), depth + 1)
    return out


def signature(S, v):
    """[(name, has_default, kind)] of the first source function behind v that does not take *args only"""
    best = None
    for f in underlying(v):
        a = f.node.args
        pos = list(getattr(a, 'posonlyargs', [])) + list(a.args)
        nd = len(a.defaults)
        sig = []
        for i, p in enumerate(pos):
            d = a.defaults[i - (len(pos) - nd)] if i >= len(pos) - nd else None
            sig.append((p.arg, d is not None, 'pos'))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            sig.append((p.arg, d is not None, 'kw'))
        r = (sig, a.vararg is not None, a.kwarg is not None, f)
        if best is None or len(sig) > len(best[0]):
            best = r
    return best


def defining_class(S, cls, name, st):
    for c in cls.mro:
        if isinstance(c, ClassInfo) and name in S.ip.frame(st, c.fid):
            return c
    return None


def members(S, cls, st):
    """public members of a class through its MRO: name -> V (class attribute)"""
    out = {}
    for c in cls.mro:
        if not isinstance(c, ClassInfo):
            continue
        for n, v in S.ip.frame(st, c.fid).items():
            if n in out:
                continue
            out[n] = v
    return out


def is_property(v):
    return any(isinstance(a, Desc) and a.kind == 'property' for a in v.atoms())


def setters(S, cls, st):
    return [n for n, v in members(S, cls, st).items()
            if any(isinstance(a, Desc) and a.kind == 'property' and a.set is not None for a in v.atoms())]


# ------------------------------------------------------------------ argument roles
class Args:
    """produces abstract arguments by parameter name"""

    def __init__(self, S, dim):
        self.S, self.dim = S, dim
        self.k = 0

    def options(self, pfx, st, which='dict'):
        """a caller-owned optimiser option dictionary: empty, with nested options only, or with every documented entry"""
        S = self.S
        top = dict(tag=('arg', pfx), exact=True)
        if which == 'empty dict':
            return S.alloc(st, Obj('dict', keys={}, **top), 'opt')
        if which.startswith('solver '):
            o = S.alloc(st, Obj('dict', keys={'maxiter': S.num(pfx + '.maxiter', 'int')}, exact=True, tag=('arg', pfx + '.options')), 'o')
            return S.alloc(st, Obj('dict', keys={'method': const(which[7:]), 'options': o, 'tol': S.num(pfx + '.tol', 'float')}, **top), 'opt')
        opt = S.alloc(st, Obj('dict', keys={'maxiter': mk(Num('int'))}, exact=True, tag=('arg', pfx + '.options')), 'o')
        if which == 'dict(options)':
            return S.alloc(st, Obj('dict', keys={'options': opt}, **top), 'opt')
        con = S.alloc(st, Obj('list', elts=(anyv(roots={('arg', pfx + '.constraints[i]')}, hint='dict'),),
                              tag=('arg', pfx + '.constraints')), 'c')
        b = S.alloc(st, Obj('list', elts=None, elem=mk(Tup([mk(Num('float')), mk(Num('float'))])), tag=('arg', pfx + '.bounds')), 'b')
        keys = {'method': mk(StrA()), 'options': opt, 'constraints': con, 'bounds': b, 'tol': mk(Num('float'))}
        return S.alloc(st, Obj('dict', keys=keys, **top), 'opt')

    def data(self, pfx, rank=2, cls='ndarray', dtype='u'):
        return self.S.nd(pfx, rank, self.dim, dtype, cls)

    def variants(self, fn, name, st, pfx):
        """list of (label, V) abstract values for a parameter, most ordinary first"""
        S, d = self.S, self.dim
        p = pfx + '.' + name
        base = fn.split('.')[-1]
        if name in ('x', 'u', 'data', 'original', 'X') and fn[:1].isupper() and base in (
                'cdf', 'pdf', 'log_lik', 'pobs', 'fit', 'to_marginals', '__init__'):
            out = [('ndarray', self.data(p)), ('DataFrame', self.data(p, 2, 'DataFrame'))]
            if base in ('cdf', 'pdf'):
                out += [('vector', self.data(p, 1)), ('Series', self.data(p, 1, 'Series')),
                        ('list', S.lst(st, p, S.lst(st, p + '[i]', n=d)))]
            elif base == 'fit':
                out += [('list', S.lst(st, p, S.lst(st, p + '[i]', n=d)))]
            return out
        if name in ('u', 'v', 's', 'w', 'tau', 'rho', 'x', 'theta', 'z', 'y', 'q', 'r', 'n') and base != 'random' \
                and not (name == 'n' and base in ('random', 'random_uniform')):
            return [('array', S.nd(p, 1, None)), ('matrix', S.nd(p, 2, d)), ('scalar', S.num(p, 'float'))]
        if name == 'n':
            return [('int', S.num(p, 'int'))]
        if name in ('log', 'to_pobs', 'as_returns', 'keep_diag', 'corr', 'use_eigvec'):
            return [('False', FALSE), ('True', TRUE)]
        if name == 'seed':
            return [('None', NONE), ('7', const(7, frozenset(['seed']))), ('0', const(0, frozenset(['seed'])))]
        if name == 'verbose':
            return [('0', const(0)), ('1', const(1))]
        if name == 'degree':
            return [('1', const(1)), ('2', const(2))]
        if name == 'ties':
            return [(t, const(t)) for t in ('average', 'min', 'max', 'dense', 'ordinal')]
        if name == 'category':
            return [('copula', const('copula')), ('fit', const('fit'))]
        if name == 'optim_options':
            return [('None', NONE)] + [(w, self.options(p, st, w)) for w in ('dict', 'dict(options)', 'empty dict')]
        if name == 'x0':
            return [('None', NONE), ('array', S.nd(p, 1, None)), ('float', S.num(p, 'float'))]
        if name == 'smoothing':
            return [(t, const(t)) for t in ('none', 'beta', 'checkerboard')] + [('None', NONE)]
        if name in ('scale', 'eps', 'offset', 'delta', 'df', 'theta'):
            return [('float', S.num(p, 'float'))]
        if name in ('max_iter', 'N', 'm', 'reps', 'dim', 'ndim', 'n_clusters'):
            return [('int', S.num(p, 'int'))]
        if name == 'criteria':
            return [(t, const(t)) for t in ('GMCM', 'GMM', 'Li')]
        return [('array', S.nd(p, 1, None)), ('scalar', S.num(p, 'float')), ('None', NONE)]


# ------------------------------------------------------------------ instances
class Inst:
    __slots__ = ('cls', 'name', 'dim', 'label', 'v', 'st', 'oid', 'inner')

    def __init__(self, cls, name, dim, label, v, st, inner=None):
        self.cls, self.name, self.dim, self.label, self.v, self.st, self.inner = cls, name, dim, label, v, st, inner
        a = v.single()
        self.oid = a.oid if isinstance(a, Ref) else None


def ctor_variants(S, name, dim):
    """yield (label, args builder(st) -> (args, kw))"""
    D = const(dim)
    if name in ('ClaytonCopula', 'FrankCopula', 'GumbelCopula'):
        yield 'theta', lambda st: ([S.num('new.theta'), D], {}), None
    elif name == 'GaussianCopula':
        yield 'dim', lambda st: ([D], {}), None
    elif name == 'StudentCopula':
        yield 'df', lambda st: ([D, S.num('new.df')], {}), None
    elif name == 'IndepCopula':
        yield 'dim', lambda st: ([D], {}), None
    elif name == 'EmpiricalCopula':
        yield 'ndarray', lambda st: ([S.nd('new.data', 2, dim)], {}), None
        yield 'DataFrame', lambda st: ([S.nd('new.data', 2, dim, cls='DataFrame')], {}), None
    elif name == 'GaussianMixtureCopula':
        yield 'unfitted', lambda st: ([const(2), D], {}), None

        def vec(st):
            return [const(2), D, gmc_param_inst(S, st, 2, dim)], {}
        yield 'param', vec, None

        def dct(st):
            return [const(2), D, gmc_param_dict(S, st, 2, dim, 'new.params')], {}
        yield 'dict', dct, None
    elif name == 'MarginalCopula':
        for inner in ('GaussianCopula', 'ClaytonCopula', 'StudentCopula'):
            def mkm(st, inner=inner):
                o = new(S, inner, dim, st=st)
                s = o[0].st
                if s is not st:
                    st.assign(s)
                mg = S.alloc(st, Obj('list', elts=(const('norm'),) + tuple(
                    S.alloc(st, Obj('dict', keys={'type': const('t'), 'parameters': S.dct(st, 'new.margins[i].parameters')},
                                    exact=True, tag=('arg', 'new.margins[i]')), 'm') for _ in range(dim - 1)),
                    tag=('arg', 'new.margins')), 'mm')
                return [o[0].v, mg], {}
            yield 'over ' + inner, mkm, inner


def gmc_param_dict(S, st, k, dim, pfx):
    prob = S.nd(pfx + '.prob', 1, k)
    means = mk(Arr('ndarray', {('arg', pfx + '.means')}, 'u', (k, dim)), T('p', pfx + '.means'))
    covs = mk(Arr('ndarray', {('arg', pfx + '.covs')}, 'u', (k, dim, dim)), T('p', pfx + '.covs'))
    return S.alloc(st, Obj('dict', keys={'prob': prob, 'means': means, 'covs': covs}, exact=True, tag=('arg', pfx)), 'gd')


def gmc_param_inst(S, st, k, dim, pfx='gp'):
    P = S.root_value('copulae.mixtures.gmc.parameter', 'GMCParam')
    if P is None:
        raise Missing('GMCParam')
    prob = S.nd(pfx + '.prob', 1, k)
    means = mk(Arr('ndarray', {('arg', pfx + '.means')}, 'u', (k, dim)), T('p', pfx + '.means'))
    covs = mk(Arr('ndarray', {('arg', pfx + '.covs')}, 'u', (k, dim, dim)), T('p', pfx + '.covs'))
    o = S.call(P, [const(k), const(dim), prob, means, covs], {}, st, S.label('GMCParam'))
    if o.value is None:
        raise Missing('GMCParam construction')
    if o.st is not st:
        st.assign(o.st)
    return o.value


def new(S, name, dim, st=None, only=None, outs=None):
    """abstract instances of the copula class exported as copulae.<name>"""
    C = S.root_value('copulae', name)
    ci = S.cls('copulae', name)
    if C is None or ci is None:
        raise Missing('copulae.' + name)
    res = []
    for label, build, inner in ctor_variants(S, name, dim):
        if only is not None and label not in only:
            continue
        s = st.copy() if st is not None else S.state()
        args, kw = build(s)
        o = S.call(C, args, kw, s, S.label('%s.__init__[%s]' % (name, label)))
        if outs is not None:
            outs.append((name, '__init__', label, o))
        if o.value is None or not isinstance(o.value.single(), Ref):
            raise Missing('construction of %s (%s, dim=%d)' % (name, label, dim))
        res.append(Inst(ci, name, dim, label, o.value, o.st, inner))
    return res


# ------------------------------------------------------------------ calls on instances
FIT_METHODS = {'': ('ml', 'itau', 'irho'), 'GaussianMixtureCopula': ('pem', 'sgd', 'kmeans')}

# public members whose purpose is to change the instance
MUTATORS = ('fit', '__setitem__', '__init__')


class Call:
    """one abstract call: who/what/with what; run(st) performs it on a copy of a state"""
    __slots__ = ('S', 'inst', 'name', 'label', 'kind', 'args', 'kw', 'out', 'pre')

    def __init__(self, S, inst, name, label, kind, args, kw, pre):
        self.S, self.inst, self.name, self.label, self.kind, self.args, self.kw, self.pre = S, inst, name, label, kind, args, kw, pre
        self.out = None

    def where(self):
        return '%s.%s(%s)' % (self.inst.name, self.name, self.label)

    def run(self):
        S = self.S
        st = self.pre.copy()
        lab = S.label('%s.%s' % (self.inst.name, self.name))
        if self.kind == 'prop':
            self.out = S.getprop(self.inst.v, self.name, st, lab)
        elif self.kind == 'set':
            self.out = S.setprop(self.inst.v, self.name, self.args[0], st, lab)
        else:
            self.out = S.method(self.inst.v, self.name, self.args, self.kw, st, lab)
        return self.out


def method_calls(S, inst, st, name, pfx='', full=True, limit=None):
    """Call objects for one public method/property of an instance from state st.  Each variant of the first required
    argument with the optional ones left out, plus each optional argument varied on its own."""
    mv = S.ip.lookup_cls(inst.cls, name, st)
    if mv is None:
        return []
    if is_property(mv):
        return [Call(S, inst, name, '', 'prop', [], {}, st)]
    sg = signature(S, mv)
    if sg is None:
        return []
    sig, _, _, f = sg
    a0 = mv.single()
    kindw = a0
    static = False
    probe = a0
    for _ in range(6):
        if isinstance(probe, Desc) and probe.kind in ('static',):
            static = True
            break
        if isinstance(probe, Wrapt) and probe.wrapped is not None:
            probe = probe.wrapped.single()
            continue
        if isinstance(probe, Desc):
            probe = probe.get.single() if probe.get is not None else None
            continue
        break
    params = sig if static else sig[1:]
    A = Args(S, inst.dim)
    fq = inst.name + '.' + name
    pre = pfx + name
    req = [p for p in params if not p[1]]
    opt = [p for p in params if p[1]]
    calls = []

    def add(label, choose):
        s = st.copy()
        args, kw = [], {}
        ok = True
        for (n, d, k) in params:
            if n in choose:
                vs = dict(A.variants(fq, n, s, pre))
                if choose[n] not in vs:
                    ok = False
                    break
                v = vs[choose[n]]
            elif not d:
                v = A.variants(fq, n, s, pre)[0][1]
            else:
                continue
            if not d and k == 'pos':
                args.append(v)
            else:
                kw[n] = v
        if ok:
            calls.append(Call(S, inst, name, label, 'call', args, kw, s))

    tmp = st.copy()
    firsts = [l for l, _ in A.variants(fq, req[0][0], tmp, pre)] if req else [None]
    for l in firsts:
        add('%s=%s' % (req[0][0], l) if l else '', {req[0][0]: l} if l else {})
    if full:
        for (n, d, k) in opt:
            if name == 'fit' and n == 'method':
                continue
            for l, _ in A.variants(fq, n, tmp, pre)[:5]:
                for fl in (firsts[:2] if n in ('log', 'x0', 'optim_options') else firsts[:1]):
                    ch = {n: l}
                    if fl:
                        ch[req[0][0]] = fl
                    add(','.join('%s=%s' % x for x in ch.items()), ch)
    return calls


def fit_calls(S, inst, st, pfx='', brief=False):
    """fit under every documented method x data representation x caller options"""
    mv = S.ip.lookup_cls(inst.cls, 'fit', st)
    sg = signature(S, mv) if mv is not None else None
    if sg is None:
        return []
    names = [n for n, _, _ in sg[0][1:]]
    A = Args(S, inst.dim)
    pre = pfx + 'fit'
    fq = inst.name + '.fit'
    out = []

    def add(label, data, kw):
        s = st.copy()
        d = dict(A.variants(fq, 'data', s, pre))[data]
        k = {}
        for n, l in kw.items():
            if n not in names:
                if n in ('method',):
                    return
                continue
            if n == 'method':
                k[n] = const(l)
            else:
                vs = dict(A.variants(fq, n, s, pre))
                if l not in vs:
                    return
                k[n] = vs[l]
        out.append(Call(S, inst, 'fit', label, 'call', [d], k, s))
    methods = FIT_METHODS.get(inst.name, FIT_METHODS[''])
    for m in methods:
        if brief:
            add('method=%s,data=ndarray' % m, 'ndarray', {'method': m, 'verbose': '0'})
            continue
        for data in ('ndarray', 'DataFrame'):
            add('method=%s,data=%s' % (m, data), data, {'method': m, 'verbose': '0'})
        add('method=%s,x0=array' % m, 'ndarray', {'method': m, 'x0': 'array', 'verbose': '0'})
        add('method=%s,x0=float' % m, 'ndarray', {'method': m, 'x0': 'float', 'verbose': '0'})
        for w in ('dict', 'dict(options)', 'empty dict'):
            add('method=%s,optim_options=%s' % (m, w), 'ndarray', {'method': m, 'optim_options': w, 'verbose': '0'})
        add('method=%s,verbose' % m, 'ndarray', {'method': m, 'verbose': '1'})
        add('method=%s,to_pobs=False' % m, 'ndarray', {'method': m, 'to_pobs': 'False', 'verbose': '0'})
    if brief and out:
        return out
    if inst.name == 'GaussianMixtureCopula':
        s = st.copy()
        for crit in ('GMCM', 'GMM', 'Li'):
            add('criteria=' + crit, 'ndarray', {'method': 'pem', 'criteria': crit, 'verbose': '0'})
        for m in methods:
            s = st.copy()
            gp = gmc_param_inst(S, s, 2, inst.dim, pre + '.x0')
            out.append(Call(S, inst, 'fit', 'method=%s,x0=GMCParam' % m, 'call', [A.data(pre + '.data')],
                            {'x0': gp, 'method': const(m), 'verbose': const(0)}, s))
    if inst.name == 'StudentCopula':
        for data in ('ndarray',):
            s = st.copy()
            out.append(Call(S, inst, 'fit', 'fix_df', 'call', [A.data(pre + '.data')],
                            {'fix_df': TRUE, 'verbose': const(0)}, s))
            s = st.copy()
            for w in ('dict', 'dict(options)', 'empty dict'):
                s = st.copy()
                out.append(Call(S, inst, 'fit', 'fix_df,optim_options=' + w, 'call', [A.data(pre + '.data')],
                                {'fix_df': TRUE, 'verbose': const(0), 'optim_options': A.options(pre + '.optim_options', s, w)}, s))
    if not out:
        add('data=ndarray', 'ndarray', {})
        add('data=DataFrame', 'DataFrame', {})
    return out


SOLVERS = ('Nelder-Mead', 'BFGS', 'SLSQP', 'slsqp', 'COBYLA', 'trust-constr', 'Powell')


def fit_option_calls(S, inst, st, pfx='o.'):
    """fit with further combinations of the documented options"""
    mv = S.ip.lookup_cls(inst.cls, 'fit', st)
    sg = signature(S, mv) if mv is not None else None
    if sg is None:
        return []
    names = [n for n, _, _ in sg[0][1:]]
    A = Args(S, inst.dim)
    pre = pfx + 'fit'
    out = []

    def add(label, kw):
        s = st.copy()
        k = {}
        for n, l in kw.items():
            if n not in names:
                return
            if n in ('method', 'ties', 'criteria'):
                k[n] = const(l)
            elif n in ('max_iter',):
                k[n] = S.num(pre + '.' + n, 'int')
            elif n in ('eps', 'scale'):
                k[n] = S.num(pre + '.' + n, 'float')
            elif n in ('verbose', 'to_pobs'):
                k[n] = const(l)
            elif n == 'x0' and l == 'GMCParam':
                k[n] = gmc_param_inst(S, s, 2, inst.dim, pre + '.x0')
            elif n == 'optim_options':
                k[n] = A.options(pre + '.' + n, s, l)
            else:
                k[n] = dict(A.variants(inst.name + '.fit', n, s, pre))[l]
        out.append(Call(S, inst, 'fit', label, 'call', [A.data(pre + '.data')], k, s))
    if inst.name == 'GaussianMixtureCopula':
        for m in FIT_METHODS['GaussianMixtureCopula']:
            add('method=%s,ties=max' % m, {'method': m, 'ties': 'max', 'verbose': 0})
            add('method=%s,max_iter' % m, {'method': m, 'max_iter': 'int', 'verbose': 0})
            add('method=%s,max_iter,x0' % m, {'method': m, 'max_iter': 'int', 'x0': 'GMCParam', 'verbose': 0})
            add('method=%s,eps' % m, {'method': m, 'eps': 'float', 'verbose': 0})
            add('method=%s,ties,x0' % m, {'method': m, 'ties': 'max', 'x0': 'GMCParam', 'verbose': 0})
        return out
    for m in FIT_METHODS['']:
        add('method=%s,ties=max' % m, {'method': m, 'ties': 'max', 'verbose': 0})
        add('method=%s,scale' % m, {'method': m, 'scale': 'float', 'verbose': 0})
        add('method=%s,x0,to_pobs=False' % m, {'method': m, 'x0': 'array', 'to_pobs': False, 'verbose': 0})
        add('method=%s,x0,optim_options,ties,scale' % m, {'method': m, 'x0': 'array', 'optim_options': 'dict', 'ties': 'max', 'scale': 'float', 'verbose': 0})
    add('ties=max', {'ties': 'max', 'verbose': 0})
    for w in SOLVERS:
        add('solver=' + w, {'optim_options': 'solver ' + w, 'x0': 'array', 'verbose': 0})
    return out


def set_calls(S, inst, st, pfx=''):
    """assignments through property setters and __setitem__"""
    out = []
    A = Args(S, inst.dim)
    for n in setters(S, inst.cls, st):
        if n.startswith('_'):
            continue
        p = pfx + 'set.' + n
        if n == 'smoothing':
            vals = A.variants('', 'smoothing', st, p)
        elif n == 'ties':
            vals = A.variants('', 'ties', st, p)
        elif inst.name == 'GaussianMixtureCopula' and n == 'params':
            s = st.copy()
            vals = [('None', NONE)]
            out.append(Call(S, inst, n, 'GMCParam', 'set', [gmc_param_inst(S, s, 2, inst.dim, p)], {}, s))
            s = st.copy()
            out.append(Call(S, inst, n, 'dict', 'set', [gmc_param_dict(S, s, 2, inst.dim, p)], {}, s))
            vals.append(('vector', S.nd(p, 1, None)))
        else:
            s = st
            vals = [('array', S.nd(p, 1, None)), ('float', S.num(p, 'float'))]
            sp = st.copy()
            out.append(Call(S, inst, n, 'list', 'set', [S.lst(sp, p)], {}, sp))
            T_ = S.root_value('copulae.elliptical.student', 'StudentParams')
            if T_ is not None and inst.name == 'StudentCopula':
                sp = st.copy()
                o = S.call(T_, [S.num(p + '.df'), S.nd(p + '.rho', 1, None)], {}, sp, S.label('StudentParams'))
                if o.value is not None:
                    out.append(Call(S, inst, n, 'StudentParams', 'set', [o.value], {}, o.st))
        for l, v in vals:
            out.append(Call(S, inst, n, l, 'set', [v], {}, st))
    if S.ip.lookup_cls(inst.cls, '__setitem__', st) is not None:
        p = pfx + 'setitem'
        idx = [('i', const(0)), ('i,j', mk(Tup([const(0), const(1)]))), ('j,i', mk(Tup([const(1), const(0)]))),
               (':', mk(Partial(mk(Ext('builtins.slice')).single(), (NONE, NONE, NONE), ())))]
        sl = mk(Partial(mk(Ext('builtins.slice')).single(), (NONE, NONE, NONE), ()))
        idx += [(':,j', mk(Tup([sl, const(1)]))), ('i,:', mk(Tup([const(0), sl]))), (':,:', mk(Tup([sl, sl])))]
        for il, iv in idx:
            for l, v in (('float', S.num(p, 'float')), ('array', S.nd(p, 1, None)), ('matrix', S.nd(p, 2, inst.dim))):
                if il in (':', ':,:') and l == 'float' or il in (':,j', 'i,:') and l == 'matrix':
                    continue
                out.append(Call(S, inst, '__setitem__', '[%s]=%s' % (il, l), 'call', [iv, v], {}, st))
    return out


def query_names(S, inst, st):
    out = []
    for n, v in sorted(members(S, inst.cls, st).items()):
        if n.startswith('_') and n not in ('__getitem__', '__str__', '__repr__', '_repr_html_'):
            continue
        if n in MUTATORS or not (is_property(v) or underlying(v)):
            continue
        out.append(n)
    return out


def query_calls(S, inst, st, pfx='', full=True):
    out = []
    for n in query_names(S, inst, st):
        if n == '__getitem__':
            for il, iv in [('i', const(0)), ('i,j', mk(Tup([const(0), const(1)])))]:
                out.append(Call(S, inst, n, '[%s]' % il, 'call', [iv], {}, st))
            continue
        out += method_calls(S, inst, st, n, pfx, full)
    return out


def settle(S, inst, rounds=2, quick=True, collect=None):
    """states an instance may be in after any of its mutators has run: [('new', st), ('fitted', st) ...]; joins per kind"""
    groups = {}
    cur = inst.st
    for r in range(rounds):
        acc = None
        for c in fit_calls(S, inst, cur, 's%d.' % r, brief=r > 0) + set_calls(S, inst, cur, 's%d.' % r):
            o = c.run()
            if collect is not None:
                collect(c)
            if o.value is None:
                continue
            end = compact(S, o.st, [inst.v])
            acc = end if acc is None else S.ip.join(acc, end)
        if acc is None:
            break
        cur = compact(S, acc, [inst.v])
    return cur


def functions(S):
    """public module-level functions defined in the package: [(mod, name, V)] (each once)"""
    seen, out = set(), []
    for m in FUNC_MODULES:
        if m not in S.p.modules:
            continue
        for n, v in S.public(m).items():
            for f in underlying(v):
                if id(f.node) in seen:
                    continue
                seen.add(id(f.node))
                out.append((m, n, v))
                break
    return out


# ------------------------------------------------------------------ state compaction
def reach(S, st, vals):
    """heap ids and closure frames reachable from values"""
    ip = S.ip
    oids, fids, seen = set(), set(), set()
    work = list(vals)
    while work:
        v = work.pop()
        if v is None or v in seen:
            continue
        seen.add(v)
        for a, _ in v.alts:
            stack = [a]
            while stack:
                a = stack.pop()
                if isinstance(a, Ref):
                    if a.oid in oids:
                        continue
                    o = ip.obj(st, a.oid)
                    if o is None:
                        continue
                    oids.add(a.oid)
                    work.extend(o.elts or ())
                    if o.elem is not None:
                        work.append(o.elem)
                    for d in (o.keys, o.fields):
                        if d:
                            work.extend(d.values())
                elif isinstance(a, Tup):
                    work.extend(a.elts)
                elif isinstance(a, Fn):
                    f = a.fid
                    while f is not None and f not in fids and f in st.frames:
                        fids.add(f)
                        work.extend(st.frames[f].values())
                        f = ip.parent_frame.get(f)
                elif isinstance(a, Atom):
                    for fl in a.fields + tuple(x for x in ('get', 'set', 'self_', 'fn', 'wrapped', 'wrapper', 'inst', 'recv', 'args', 'kw')
                                               if x not in a.fields and hasattr(a, x)):
                        x = getattr(a, fl, None)
                        if isinstance(x, V):
                            work.append(x)
                        elif isinstance(x, Atom):
                            stack.append(x)
                        elif isinstance(x, tuple):
                            for y in x:
                                if isinstance(y, V):
                                    work.append(y)
                                elif isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], V):
                                    work.append(y[1])
    return oids, fids


def compact(S, st, vals):
    """forget everything an outside observer holding only `vals` cannot reach; merge look-alike objects and arrays"""
    from .interp import State
    oids, fids = reach(S, st, vals)
    n = State()
    n.facets = {}
    n.facts = {}
    n.frames = {f: v for f, v in st.frames.items() if f in fids or (isinstance(f, tuple) and f[:1] in (('mod',), ('cls',)))
                or S.ip.base_frames.get(f) is not None}
    n.heap = {o: v for o, v in st.heap.items() if o in oids or o in S.ip.base_heap}
    n.own = set()
    # merge alternatives
    for _ in range(6):
        ren = {}

        def collect(v):
            g = {}
            for a, _ in v.alts:
                if isinstance(a, Ref) and a.oid in n.heap:
                    o = n.heap[a.oid]
                    g.setdefault((o.kind, id(o.cls), repr(o.tag)), set()).add(a.oid)
                elif isinstance(a, Tup):
                    for e in a.elts:
                        collect(e)
            for k, s in g.items():
                if len(s) > 1:
                    s = sorted({find(x) for x in s}, key=repr)
                    for x in s[1:]:
                        ren[x] = s[0]

        def find(x):
            while x in ren:
                x = ren[x]
            return x
        for o in list(n.heap.values()):
            for v in list(o.elts or ()) + ([o.elem] if o.elem is not None else []):
                collect(v)
            for d in (o.keys, o.fields):
                for v in (d or {}).values():
                    collect(v)
        if not ren:
            break
        for x in list(ren):
            r = find(x)
            n.heap[r] = join_obj(n.heap[r], n.heap.pop(x)).rep(summary=True)

        memo = {}

        def fix(v):
            r = memo.get(v)
            if r is None:
                alts = set()
                for a, t in v.alts:
                    if isinstance(a, Ref) and (a.oid in ren):
                        alts.add((Ref(find(a.oid)), None))
                    elif isinstance(a, Tup):
                        alts.add((Tup(tuple(fix(e) for e in a.elts)), None))
                    else:
                        alts.add((a, t))
                r = memo[v] = V(alts, v.deps)
            return r
        map_heap(n, fix)
    memo2 = {}

    def arrs(v):
        r = memo2.get(v)
        if r is None:
            g, alts = {}, set()
            for a, t in v.alts:
                if isinstance(a, Arr):
                    k = (a.cls, a.dtype, a.shape)
                    keep = {x for x in a.roots if isinstance(x, tuple) and x[0] in ('arg', 'self')}
                    if len(keep) < len(a.roots):
                        keep.add(('self', 'storage'))
                    if k in g:
                        g[k] = (g[k][0] | keep, None)
                    else:
                        g[k] = (keep, t)
                elif isinstance(a, Tup):
                    alts.add((Tup(tuple(arrs(e) for e in a.elts)), None))
                else:
                    alts.add((a, t))
            for (c, d, sh), (roots, t) in g.items():
                alts.add((Arr(c, roots, d, sh), t if len(g) == 1 else None))
            r = memo2[v] = V(alts, v.deps)
        return r
    map_heap(n, arrs)
    return n


def map_heap(n, fix):
    for oid, o in list(n.heap.items()):
        kw = {}
        if o.elts is not None:
            kw['elts'] = tuple(fix(e) for e in o.elts)
        if o.elem is not None:
            kw['elem'] = fix(o.elem)
        if o.keys:
            kw['keys'] = {k: fix(v) for k, v in o.keys.items()}
        if o.fields:
            kw['fields'] = {k: fix(v) for k, v in o.fields.items()}
        n.heap[oid] = o.rep(**kw)


# ------------------------------------------------------------------ module-level functions and classes of functions
ENUMS = {'ties': ('average', 'min', 'max', 'dense', 'ordinal'), 'fit_ties': ('average', 'min', 'max', 'dense', 'ordinal'),
         'smoothing': ('none', 'beta', 'checkerboard'), 'side': ('lower', 'upper', 'both'),
         'use': ('everything', 'complete', 'pairwise.complete'), 'type_': ('kendall', 'shifted')}
METHODS = {'near_psd': ('clipped', 'spectral'), 'corr': ('pearson', 'kendall', 'spearman'),
           'poly_log': ('default', 'neg-stirling', 'neg-eulerian', 'dilog', 'sum-eulerian')}
DATA_PARAMS = {'data', 'x', 'y', 'u', 'obs', 'original', 'X'}
INT_PARAMS = {'N', 'm', 'n', 'dim', 'reps', 'axis', 'max_iter', 'n_fact', 'k', 'pm', 'size', 'd', 'j', 's', 'degree'}
ARRAY_AND_SCALAR = {'x', 'z', 'r', 'theta', 'log_x', 'offset', 'coef', 'mean', 'cov', 'corr', 'std', 'w', 'df', 'u', 'v', 'y',
                    'M', 'params'}


class FCall:
    """one abstract call of a module-level function / class method"""
    __slots__ = ('S', 'mod', 'name', 'fv', 'label', 'args', 'kw', 'pre', 'out')

    def __init__(self, S, mod, name, fv, label, args, kw, pre):
        self.S, self.mod, self.name, self.fv, self.label, self.args, self.kw, self.pre = S, mod, name, fv, label, args, kw, pre
        self.out = None

    def where(self):
        return '%s.%s(%s)' % (self.mod, self.name, self.label)

    def run(self):
        self.out = self.S.call(self.fv, self.args, self.kw, self.pre.copy(), self.S.label(self.name))
        return self.out


def fvariants(S, fn, p, st):
    base = fn.split('.')[-1]
    pre = '%s.%s' % (fn, p)
    sc = S.num(pre, 'float')
    it = S.num(pre, 'int')
    v1, v2 = S.nd(pre, 1, None), S.nd(pre, 2, None)
    if p == 'copula':
        return [(c, S.root_value('copulae', c)) for c in ('GaussianCopula', 'ClaytonCopula', 'StudentCopula')]
    if p == 'f':
        return [('function', ANY)]
    if p in ('log', 'threaded', 'return_std', 'strict', 'multiprocess', 'as_returns'):
        return [('False', FALSE), ('True', TRUE)]
    if p == 'seed':
        return [('None', NONE), ('7', const(7, frozenset(['seed']))), ('0', const(0, frozenset(['seed'])))]
    if p == 'method':
        return [(m, const(m)) for m in METHODS.get(base, ())] + ([('str', mk(StrA()))] if base not in METHODS else [])
    if p in ENUMS:
        return [(m, const(m)) for m in ENUMS[p]]
    if p in ('data', 'obs', 'original', 'X') or p in ('x', 'y') and base in (
            'exch_test', 'rad_sym_test', 'corr', 'pearson_rho', 'kendall_tau', 'spearman_rho', 'emp_dist_func'):
        out = [('matrix', v2), ('vector', v1), ('DataFrame', S.nd(pre, 2, None, cls='DataFrame')),
               ('Series', S.nd(pre, 1, None, cls='Series')),
               ('list', S.lst(st, pre, S.lst(st, pre + '[i]')))]
        if p == 'y':
            out.append(('None', NONE))
        return out
    if p in ('params', 'corr', 'cov', 'M') and base in ('near_psd', 'is_psd', 'is_symmetric', 'cov2corr', 'corr2cov', 'create_cov_matrix'):
        return [('array', v1 if p == 'params' else v2), ('list', S.lst(st, pre, S.lst(st, pre + '[i]')) if p != 'params' else S.lst(st, pre))]
    if base == 'find_root' and p in ('a', 'b', 'delta') or p in ('eps', 'tol', 'threshold') or base == 'emp_dist_func' and p == 'offset':
        return [('scalar', sc)]
    if p in INT_PARAMS and p not in ARRAY_AND_SCALAR:
        if base in ('sign_ff', 'comb', 'perm', 'rvs'):
            return [('int', it), ('array', S.nd(pre, 1, None, 'u')), ('matrix', v2)]
        return [('int', it)]
    if base in ('comb', 'perm', 'rvs') and p in ('n', 'r', 'size'):
        return [('int', it), ('array', v1), ('matrix', v2)]
    if base in ('eulerian', 'eulerian_all') or base.startswith('stirling'):
        return [('int', it)]
    return [('array', v1), ('matrix', v2), ('scalar', sc), ('list', S.lst(st, pre))]


def func_calls(S, mod, name, v, full=True, qual=None):
    sg = signature(S, v)
    if sg is None:
        return []
    sig = sg[0]
    fn = qual or name
    out = []
    st0 = S.state()
    if sg[3].owner is not None and sig and sig[0][0] in ('cls', 'self'):
        sig = sig[1:]
    req = [p for p in sig if not p[1]]
    opt = [p for p in sig if p[1]]

    def add(label, choose):
        s = S.state()
        args, kw = [], {}
        for (n, d, k) in sig:
            if n in choose or d and '**' in choose:
                vs = dict(fvariants(S, fn, n, s))
                if n not in choose:
                    if not vs:
                        continue
                    x = joinall(list(vs.values()))
                elif choose[n] not in vs:
                    return
                else:
                    x = vs[choose[n]]
            elif not d:
                vs = fvariants(S, fn, n, s)
                if not vs:
                    return
                x = vs[0][1]
                if args and not kw and vs and choose.get('*') in dict(vs):
                    x = dict(vs)[choose['*']]
            else:
                continue
            if not d and k == 'pos':
                args.append(x)
            else:
                kw[n] = x
        out.append(FCall(S, mod, fn, v, label, args, kw, s))
    if not req:
        add('', {})
    else:
        for l, _ in fvariants(S, fn, req[0][0], st0):
            add('%s=%s' % (req[0][0], l), {req[0][0]: l, '*': l})
        for r in req[1:]:
            for l, _ in fvariants(S, fn, r[0], st0)[1:]:
                add('%s=%s' % (r[0], l), {r[0]: l})
    if full:
        for n, d, k in opt:
            for l, _ in fvariants(S, fn, n, st0):
                add('%s=%s' % (n, l), {n: l})
                if req:
                    for l2, _ in fvariants(S, fn, req[0][0], st0)[1:]:
                        add('%s=%s,%s=%s' % (n, l, req[0][0], l2), {n: l, req[0][0]: l2, '*': l2})
    # the optional arguments left open together, and with every required argument of the same kind
    if req and (opt or len(req) > 1):
        for l, _ in fvariants(S, fn, req[0][0], st0):
            for r in req[1:]:
                for l2, _ in fvariants(S, fn, r[0], st0)[1:]:
                    if l2 in ('True', 'False'):
                        add('%s=%s,%s=%s' % (req[0][0], l, r[0], l2), {req[0][0]: l, r[0]: l2, '*': l})
        if len(opt) > 1:
            add('any optional arguments', {'**': 1})
    return out


def all_func_calls(S, full=True):
    out = []
    seen = set()
    for m in FUNC_MODULES:
        if m not in S.p.modules:
            raise Missing('module ' + m)
        for n, v in sorted(S.public(m).items()):
            done = False
            for a in v.atoms():
                if isinstance(a, ClsA) and a.cls.mod and a.cls.mod.startswith('copulae.') and id(a.cls) not in seen \
                        and not a.cls.isa('BaseCopula'):
                    seen.add(id(a.cls))
                    if 'stats' not in a.cls.mod:
                        continue
                    for mn, mv in sorted(members(S, a.cls, S.state()).items()):
                        if mn.startswith('_'):
                            continue
                        if any(isinstance(d, Desc) and d.kind in ('static', 'class') for d in mv.atoms()):
                            st = S.state()
                            b = S.ip.get_attr(mk(a), mn, st, None, S.ip.top_cx('surface'))
                            out += func_calls(S, a.cls.mod, mn, b, full, qual=a.cls.name + '.' + mn)
                    done = True
            if done:
                continue
            fs = underlying(v)
            if not fs or any((id(f.node), f.fid) in seen for f in fs):
                continue
            f0 = fs[0]
            if not str(f0.mod).startswith('copulae') or '.tests' in str(f0.mod):
                continue
            for f in fs:
                seen.add((id(f.node), f.fid))
            out += func_calls(S, m, n, v, full)
    return out


# ------------------------------------------------------------------ GMCParam
def gmcparam_calls(S):
    """calls on the mixture parameter object: conversions, setters, printing (from a constructed state)"""
    ci = S.cls('copulae.mixtures.gmc.parameter', 'GMCParam')
    out = []
    st = S.state()
    v = gmc_param_inst(S, st, 2, 3, 'GMCParam.__init__')
    inst = Inst(ci, 'GMCParam', 3, 'arrays', v, st)
    out += query_calls(S, inst, st)
    P = mk(ClsA(ci))
    extra = []
    for n in ('prob', 'means', 'covs'):
        for l, x in (('array', S.nd('GMCParam.set.' + n, {'prob': 1, 'means': 2, 'covs': 3}[n], None)),):
            extra.append(Call(S, inst, n, l, 'set', [x], {}, st))
    fc = []
    s = S.state()
    b = S.ip.get_attr(P, 'from_vector', s, None, S.ip.top_cx('surface'))
    fc.append(FCall(S, 'copulae.mixtures.gmc.parameter', 'GMCParam.from_vector', b, 'vector=array',
                    [S.nd('GMCParam.from_vector.vector', 1, None), const(2), const(3)], {}, s))
    s = S.state()
    b = S.ip.get_attr(P, 'from_dict', s, None, S.ip.top_cx('surface'))
    fc.append(FCall(S, 'copulae.mixtures.gmc.parameter', 'GMCParam.from_dict', b, 'dict',
                    [gmc_param_dict(S, s, 2, 3, 'GMCParam.from_dict.param')], {}, s))
    return inst, out, extra, fc
